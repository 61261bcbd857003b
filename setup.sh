#!/bin/bash
# Offline set-up: unpack Hypothesis, check that /repo builds in a scratch copy.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
/opt/venv/bin/python -m vf.deps && /opt/venv/bin/python -m vf.build native pure

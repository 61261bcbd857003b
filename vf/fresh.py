"""Run something in a process whose copy of the code under test is freshly imported.

The process is forked from this one, which has numpy, scipy and pandas loaded but never the code under test
(`paths` says where that lies), so no module, class or extension state of earlier calls can be there.
"""
import os
import pickle
import random
import signal
import sys

import numpy as np
import pandas as pd  # noqa: F401
import scipy.linalg  # noqa: F401
import scipy.optimize  # noqa: F401
import scipy.stats  # noqa: F401

from vf.core import NS, Discard, HarnessError, Violation


def fresh(variant, path, func, *args, timeout=300):
    """func(ns, *args) in a fresh process; its result must be picklable."""
    if any(k == "frds" or k.startswith("frds.") for k in sys.modules):
        raise HarnessError("the code under test is loaded in the parent")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            random.seed(1)
            np.random.seed(1)
            try:
                out = ("ok", func(NS(variant, path), *args))
            except Violation as e:
                out = ("violation", str(e), e.sig)
            except Discard as e:
                out = ("discard", str(e))
            except BaseException as e:
                out = ("exc", type(e).__name__, str(e)[:500])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGALRM:
            raise HarnessError(f"no answer in {timeout} s")
        if os.WTERMSIG(status) == signal.SIGKILL:
            raise HarnessError("a process was killed")
        raise Violation(f"the process died from signal {os.WTERMSIG(status)}", "signal")
    if not data:
        raise HarnessError("a process ended without an answer")
    out = pickle.loads(data)
    if out[0] == "violation":
        raise Violation(*out[1:])
    if out[0] == "discard":
        raise Discard(out[1])
    if out[0] == "exc":
        raise Violation(f"unexpected {out[1]}: {out[2]}", f"exc:{out[1]}")
    return out[1]

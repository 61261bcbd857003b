"""python -m vf.lab: interactive helper: N (native), U (pure) namespaces."""
import sys
from vf import build, deps
deps.ensure()
from vf.core import NS
N = NS("native", build.build("native"))
U = NS("pure", build.build("pure"))

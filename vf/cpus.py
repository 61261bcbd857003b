"""Choose how many CPUs the code under test sees.

std::thread::hardware_concurrency does not follow the CPU affinity here (glibc counts the
CPUs that are online), so a tiny library, loaded before the extensions, answers for it and for
the C library's counts; os.cpu_count and the affinity are changed along with it.
"""
import contextlib
import ctypes
import hashlib
import os
import subprocess
import tempfile
from unittest import mock

from vf.build import _base

ALL = sorted(os.sched_getaffinity(0))
SRC = r"""
static int n_cpus = 8;
static long n_calls = 0;
void vf_set_cpus(int n) { n_cpus = n; }
long vf_calls(void) { return n_calls; }
unsigned _ZNSt6thread20hardware_concurrencyEv(void) { n_calls++; return n_cpus; }
int get_nprocs(void) { n_calls++; return n_cpus > 0 ? n_cpus : 1; }
int get_nprocs_conf(void) { n_calls++; return n_cpus > 0 ? n_cpus : 1; }
int omp_get_max_threads(void) { n_calls++; return n_cpus > 0 ? n_cpus : 1; }
int omp_get_num_procs(void) { n_calls++; return n_cpus > 0 ? n_cpus : 1; }
"""
_LIB = None


def lib():
    """Load the library; call before any extension module is imported."""
    global _LIB
    if _LIB is None:
        path = os.path.join(_base(), "cpus-" + hashlib.sha256(SRC.encode()).hexdigest()[:16] + ".so")
        if not os.path.exists(path):
            fd, c = tempfile.mkstemp(suffix=".c", dir=_base())
            with os.fdopen(fd, "w") as f:
                f.write(SRC)
            subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-O1", c, "-o", c + ".so"], check=True)
            os.rename(c + ".so", path)
            os.remove(c)
        _LIB = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
        _LIB.vf_calls.restype = ctypes.c_long
    return _LIB


@contextlib.contextmanager
def cpus(n):
    """Let the code under test see n CPUs (0: the number is unknown to std::thread)."""
    so = lib()
    so.vf_set_cpus(n)
    k = max(n, 1)
    with mock.patch("os.cpu_count", lambda: k):
        os.sched_setaffinity(0, ALL[:min(k, len(ALL))])
        try:
            yield
        finally:
            os.sched_setaffinity(0, ALL)
            so.vf_set_cpus(len(ALL))

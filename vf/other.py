"""Calls made in a process of another kind: other interpreter options, environment, directory, streams and settings.

python [options] -c "import runpy, sys; sys.path.insert(0, '/verif'); runpy.run_module('vf.other', run_name='__main__')" JOB
reads a pickled job and writes a pickled answer next to it.
"""
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DECOYS = ("algorithms", "measures", "datasets", "utils", "_garch", "_mgarch", "garch", "_stocks", "modified_merton", "spread", "price_impact", "settings", "isolation_forest", "fftsmooth", "loan_payoff")
FLAGS = {"optimised": ["-O"], "no docstrings": ["-OO"], "development": ["-X", "dev"], "utf8": ["-X", "utf8"], "silent": ["-W", "ignore"], "verbose warnings": ["-W", "always"],
         "no user site": ["-s"], "unbuffered": ["-u"], "no debug ranges": ["-X", "no_debug_ranges"]}
ENV = {"hash 1": {"PYTHONHASHSEED": "1"}, "hash 4242": {"PYTHONHASHSEED": "4242"}, "hash random": {"PYTHONHASHSEED": "random"}, "tokyo": {"TZ": "Asia/Tokyo"}, "st johns": {"TZ": "America/St_Johns"},
       "strange zone": {"TZ": "XYZ-25:30"}, "C": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "C utf8": {"LC_ALL": "C.utf8"}, "no such locale": {"LC_ALL": "de_DE.UTF-8", "LANG": "de_DE"},
       "ascii streams": {"PYTHONIOENCODING": "ascii"}, "no home": {"HOME": None}, "lost home": {"HOME": "/nonexistent/home"}, "no path": {"PATH": ""}, "no user": {"USER": None, "LOGNAME": None},
       "fill a5": {"MALLOC_PERTURB_": "165", "PYTHONMALLOC": "malloc"}, "fill 01": {"MALLOC_PERTURB_": "1"}, "fill ff": {"MALLOC_PERTURB_": "255", "PYTHONMALLOC": "malloc"}, "debug malloc": {"PYTHONMALLOC": "debug"},
       "two threads": {"OMP_NUM_THREADS": "2", "OPENBLAS_NUM_THREADS": "2"}, "many threads": {"OMP_NUM_THREADS": "16", "OPENBLAS_NUM_THREADS": "16"}, "narrow": {"COLUMNS": "20", "LINES": "5"},
       "lost scratch": {"TMPDIR": "/nonexistent/tmp"}, "no faults": {"PYTHONFAULTHANDLER": "1"}, "debug": {"DEBUG": "1", "VERBOSE": "1", "TESTING": "1", "CI": "1"}, "offline": {"http_proxy": "http://127.0.0.1:9", "https_proxy": "http://127.0.0.1:9"}}
PLACES = ("plain", "decoys", "removed", "root", "spaces")
STREAMS = ("plain", "no input", "no output", "no errors", "none", "full")


def settings(names, before):
    """Global settings a user may have made."""
    import decimal
    import gc
    import random
    import resource
    import warnings
    import numpy as np
    import pandas as pd

    def limit(n):
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (n, hard))

    def cpus(n, told):
        os.sched_setaffinity(0, set(sorted(os.sched_getaffinity(0))[:n]))
        os.cpu_count = lambda: told
    table = {"one cpu": lambda: cpus(1, 1), "three cpus": lambda: cpus(3, 3), "unknown cpus": lambda: cpus(2, None), "eager collector": lambda: gc.set_threshold(5, 2, 2), "no collector": gc.disable, "seeded": lambda: (np.random.seed(7), random.seed(7)), "short prints": lambda: np.set_printoptions(precision=1, threshold=3, suppress=True),
             "legacy prints": lambda: np.set_printoptions(legacy="1.13"), "no warnings": lambda: np.seterr(all="ignore"), "copy on write": lambda: pd.set_option("mode.copy_on_write", True),
             "moved": lambda: os.chdir("/"), "single digits": lambda: setattr(decimal.getcontext(), "prec", 1), "two decimals": lambda: pd.set_option("display.precision", 2, "display.max_rows", 3), "low precision": lambda: setattr(decimal.getcontext(), "prec", 2),
             "rounding down": lambda: (setattr(decimal.getcontext(), "rounding", decimal.ROUND_DOWN), setattr(decimal.DefaultContext, "rounding", decimal.ROUND_DOWN)),
             "rounding up": lambda: setattr(decimal.getcontext(), "rounding", decimal.ROUND_CEILING), "few files": lambda: limit(64), "quick switches": lambda: sys.setswitchinterval(1e-5),
             "shallow": lambda: sys.setrecursionlimit(400), "umask": lambda: os.umask(0o777), "warnings on": lambda: warnings.simplefilter("always"), "warnings off": lambda: warnings.simplefilter("ignore"),
             "warnings as errors": lambda: None, "traced": lambda: sys.setprofile(lambda *a: None), "interrupts ignored": lambda: signal.signal(signal.SIGINT, signal.SIG_IGN), "children ignored": lambda: signal.signal(signal.SIGCHLD, signal.SIG_IGN),
             "no bytecode": lambda: setattr(sys, "dont_write_bytecode", True), "threads without room": lambda: __import__("threading").stack_size(65536), "no argv": lambda: setattr(sys, "argv", []),
             "spawn": lambda: __import__("multiprocessing").set_start_method("spawn")}
    if names is None:
        return sorted(k for k in table if k != "warnings as errors")
    for n in names:
        table[n]()


def main():
    path = sys.argv[1]
    with open(path, "rb") as f:
        job = pickle.load(f)
    signal.alarm(job["timeout"])
    from vf import deps
    deps.ensure()
    import numpy as np
    import props.X06 as x
    from vf.core import NS, Discard
    if job["place"] == "removed":  # a directory deleted under the feet of the process
        os.rmdir(os.getcwd())
    out = []
    try:
        ns = NS(job["variant"], job["path"])
        if job["early"]:
            settings(job["settings"], True)
        for m in job["imports"]:
            try:
                ns.load(m)
            except Exception as e:
                raise RuntimeError(f"{m} cannot be imported: {type(e).__name__}: {e}")
        if not job["early"]:
            settings(job["settings"], False)
        for step in job["steps"]:
            args = x.arguments(step)
            impl = x.CALLS[step[0]][0]
            try:
                r = x.flat(impl.call(ns, impl.make(ns, args, step[2]), args, step[2]))
            except Discard:
                r = None
            out.append(("ok", r))
    except Exception as e:
        out.append(("raised", f"{type(e).__name__}: {str(e)[:400]}"))
    try:
        sys.setprofile(None)
        sys.setrecursionlimit(2000)
        with open(path + ".out", "wb") as f:
            pickle.dump(out, f)
    finally:
        os._exit(0)


def elsewhere(job, flags=(), env=(), place="plain", streams="plain", timeout=200):
    """The answer of a process of that kind: a list of results, the last one possibly an error, or the signal that ended it."""
    box = tempfile.mkdtemp(prefix="vf-other-")
    try:
        home = os.path.join(box, "a b é" if place == "spaces" else "cwd")
        os.mkdir(home)
        if place == "decoys":
            for d in DECOYS:
                with open(os.path.join(home, d + ".py"), "w") as f:
                    f.write("raise ImportError('a file of the user')\n")
            for d in ("stocks_us.csv.zip", "stocks_us.csv"):
                with open(os.path.join(home, d), "w") as f:
                    f.write("Date,A\n2000-01-01,1\n")
        e = dict(os.environ)
        for k in env:
            for a, b in ENV[k].items():
                if b is None:
                    e.pop(a, None)
                else:
                    e[a] = b
        name = os.path.join(box, "job")
        with open(name, "wb") as f:
            pickle.dump(dict(job, timeout=timeout, place=place), f)
        cmd = [sys.executable, *[w for k in flags for w in FLAGS[k]], "-c", f"import sys, runpy; sys.path.append({ROOT!r}); runpy.run_module('vf.other', run_name='__main__')", name]

        def prepare():
            for fd in {"no input": [0], "no output": [1], "no errors": [2], "none": [0, 1, 2]}.get(streams, []):
                os.close(fd)
        full = open("/dev/full", "w") if streams == "full" else None
        try:
            p = subprocess.Popen(cmd, cwd="/" if place == "root" else home, env=e, stdin=subprocess.DEVNULL, stdout=full or subprocess.DEVNULL, stderr=full or subprocess.PIPE, preexec_fn=prepare, start_new_session=True)
            err = p.communicate(timeout=timeout + 60)[1]
        finally:
            if full:
                full.close()
        if os.path.exists(name + ".out"):
            with open(name + ".out", "rb") as f:
                return pickle.load(f)
        return [("died", f"return code {p.returncode} {(err or b'')[-600:].decode('utf8', 'replace')}")]
    finally:
        shutil.rmtree(box, ignore_errors=True)


if __name__ == "__main__":
    main()

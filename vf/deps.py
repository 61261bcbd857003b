"""Make Hypothesis importable in the interpreter that owns frds' own numpy/scipy.

/opt/venv (the interpreter frds is built for) has no Hypothesis; the offline
wheelhouse has one for the same Python.  Wheels are zip files, so they are
unpacked into a git-ignored folder (or a temporary one if /verif is read-only).
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"


def _wheel_names():
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    hyp = sorted(glob.glob(f"{WHEELS}/hypothesis-*-{tag}-*.whl"))
    srt = sorted(glob.glob(f"{WHEELS}/sortedcontainers-*.whl"))
    if not hyp or not srt:
        raise SystemExit(f"no hypothesis/sortedcontainers wheel for {tag} in {WHEELS}")
    return [hyp[-1], srt[-1]]


def ensure():
    """Return a directory that holds hypothesis, and put it on sys.path."""
    for base in (os.path.join(ROOT, ".deps"), os.path.join(tempfile.gettempdir(), "frds-verif-deps")):
        target = os.path.join(base, f"py{sys.version_info[0]}{sys.version_info[1]}")
        if os.path.exists(os.path.join(target, ".complete")):
            break
        try:
            os.makedirs(base, exist_ok=True)
            tmp = tempfile.mkdtemp(dir=base)
        except OSError:
            continue
        for w in _wheel_names():
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        open(os.path.join(tmp, ".complete"), "w").close()
        try:
            os.rename(tmp, target)
        except OSError:  # someone else finished first
            shutil.rmtree(tmp, ignore_errors=True)
        break
    else:
        raise SystemExit("cannot create a folder for the offline dependencies")
    if target not in sys.path:
        sys.path.insert(0, target)
    return target


if __name__ == "__main__":
    print(ensure())

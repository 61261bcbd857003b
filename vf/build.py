"""Build frds from /repo's *current* working tree in scratch folders.

Variants
  native  a copy of the tree with the three C++ extensions compiled as setup.py does
  pure    a copy without any compiled extension (the documented Python fallback)
  asan    as native, compiled with AddressSanitizer and UBSan

Each copy is keyed by a hash of the source files, so nothing stale is ever used.
Nothing is written in /repo.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time
import tempfile

REPO = os.environ.get("FRDS_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP_DIRS = {"__pycache__", ".git", "build", "docs", "tests", ".github", "matlab"}
SKIP_EXT = (".so", ".pyc", ".o")


class BuildError(Exception):
    pass


def _files():
    out = []
    for base, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS and not d.endswith(".egg-info"))
        for n in sorted(names):
            if not n.endswith(SKIP_EXT):
                out.append(os.path.relpath(os.path.join(base, n), REPO))
    for n in ("setup.py", "pyproject.toml", "MANIFEST.in", "README.md"):
        if os.path.exists(os.path.join(REPO, n)):
            out.append(n)
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _base():
    for b in (os.path.join(ROOT, ".build"), os.path.join(tempfile.gettempdir(), "frds-verif-build")):
        try:
            os.makedirs(b, exist_ok=True)
            t = tempfile.mkdtemp(dir=b)
            os.rmdir(t)
            return b
        except OSError:
            continue
    raise BuildError("no writable folder for the build")


def _prune(base, keep):
    """Keep the scratch area small: drop older trees."""
    olds = sorted(
        (os.path.join(base, d) for d in os.listdir(base) if len(d.split("-")[0]) == 20 and not d.startswith(keep)),
        key=lambda p: os.path.getmtime(p),
    )
    for p in olds[:-12]:
        if time.time() - os.path.getmtime(p) > 1800:  # another run may be using it
            shutil.rmtree(p, ignore_errors=True)


def build(variant):
    """Return the folder to put on sys.path for `variant`."""
    base = _base()
    key = tree_hash()
    dest = os.path.join(base, f"{key}-{variant}")
    with open(os.path.join(base, f"lock-{variant}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".complete")):
            os.utime(dest)
            return os.path.join(dest, "src")
        _prune(base, key)
        shutil.rmtree(dest, ignore_errors=True)
        for f in _files():
            d = os.path.join(dest, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), d)
        if variant != "pure":
            env = dict(os.environ)
            if variant == "asan":
                flags = "-fsanitize=address,undefined -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -g -O1"
                env["CFLAGS"] = env["CXXFLAGS"] = flags  # setuptools versions differ in which one they use for C++
                env["LDFLAGS"] = "-fsanitize=address,undefined"
            r = subprocess.run(
                [sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j", "3"],
                cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            )
            if r.returncode != 0:
                raise BuildError(f"building {variant} failed:\n{r.stdout[-4000:]}")
            shutil.rmtree(os.path.join(dest, "build"), ignore_errors=True)
            if variant == "asan":
                for lib in glob.glob(os.path.join(dest, "src", "**", "*.so"), recursive=True):
                    with open(lib, "rb") as fh:
                        if b"__asan_report_load" not in fh.read():
                            raise BuildError(f"{lib} is not instrumented")
        open(os.path.join(dest, ".complete"), "w").close()
    return os.path.join(dest, "src")


if __name__ == "__main__":
    for v in sys.argv[1:] or ["native", "pure"]:
        print(v, build(v))

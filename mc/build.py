"""Makes an importable copy of /repo's current philtorch tree, with the extension built from its current sources.

The copy lives in a scratch directory, so that /repo stays as it is.  The extension is taken, in this order, from
  1. /repo itself, if the sources build.sh compiled (/repo/build/seen) are those of the current tree,
  2. the cache /verif/.cache (git-ignored), keyed by the contents of the sources,
  3. a fresh build with the repository's own setup.py.
Sources are compared after comments are removed (gcc -fpreprocessed -dD -E -P): comments do not change the program.
"""
import atexit
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("PHILMC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/venv/bin/python"
EXT_NAME = "_C.cpython-312-x86_64-linux-gnu.so"


def _norm(path):
    """Source text without comments; falls back to the raw bytes."""
    try:
        raw = open(path, "rb").read()
    except OSError:
        return None
    if path.endswith((".cpp", ".cu", ".cuh", ".h", ".hpp")):
        r = subprocess.run(["gcc", "-fpreprocessed", "-dD", "-E", "-P", "-x", "c++", path],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if r.returncode == 0 and r.stdout:
            return r.stdout
    return raw


def ext_sources(repo=REPO):
    """Files that determine the CPU extension: everything in csrc that the C++ compiler may read, and setup.py."""
    files = [os.path.join(repo, "setup.py")]
    for p in sorted(glob.glob(os.path.join(repo, "philtorch", "csrc", "**"), recursive=True)):
        if os.path.isfile(p) and not p.endswith(".cu"):
            files.append(p)
    return files


def source_key(repo=REPO):
    h = hashlib.sha256()
    for p in ext_sources(repo):
        h.update(os.path.relpath(p, repo).encode() + b"\0" + (_norm(p) or b"") + b"\0")
    return h.hexdigest()[:24]


def _seen_matches(repo):
    seen = os.path.join(repo, "build", "seen")
    if not os.path.isdir(seen):
        return False
    names = set()
    for p in ext_sources(repo):
        n = os.path.basename(p)
        names.add(n)
        if _norm(os.path.join(seen, n)) != _norm(p):
            return False
    for n in os.listdir(seen):  # a source that has been removed since
        if n.endswith((".cpp", ".h", ".hpp", ".cuh")) and n not in names:
            return False
    return True


def build_ext(repo=REPO, out=None):
    """Builds the extension in a scratch copy with the repository's setup.py; returns the path of the .so or None."""
    work = tempfile.mkdtemp(prefix="philmc-build-")
    try:
        for n in os.listdir(repo):
            if n in (".git", "build", ".venv", "tests") or n.endswith(".egg-info"):
                continue
            s = os.path.join(repo, n)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(work, n), ignore=shutil.ignore_patterns("_C*.so", "__pycache__"))
            else:
                shutil.copy2(s, os.path.join(work, n))
        env = dict(os.environ, GIT_DIR="/nonexistent", MAX_JOBS="8", CUDA_VISIBLE_DEVICES="", HOME="/root",
                   PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", PIP_NO_INDEX="1",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1")
        for k in ("PYTHONPATH", "OMP_NUM_THREADS"):
            env.pop(k, None)
        r = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=work, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        so = glob.glob(os.path.join(work, "philtorch", "_C*.so"))
        if r.returncode or not so:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            return None
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        shutil.copy2(so[0], tmp)
        os.replace(tmp, out)
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def extension(repo=REPO):
    """Path of an extension that is built from the current sources of the repo."""
    so = glob.glob(os.path.join(repo, "philtorch", "_C*.so"))
    if len(so) == 1 and _seen_matches(repo):
        return so[0], "built by build.sh from identical sources"
    key = source_key(repo)
    path = os.path.join(CACHE, f"ext-{key}.so")
    if os.path.exists(path):
        return path, "cached build of identical sources"
    try:
        os.makedirs(CACHE, exist_ok=True)
        lock = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
    except OSError:
        path = os.path.join(tempfile.mkdtemp(prefix="philmc-ext-"), "ext.so")
        atexit.register(shutil.rmtree, os.path.dirname(path), True)
        lock = None
    try:
        if not os.path.exists(path) and build_ext(repo, path) is None:
            return None, "does not build"
        return path, "built"
    finally:
        if lock is not None:
            lock.close()


def prepare(repo=REPO, with_ext=True, keep=False):
    """Scratch directory that contains philtorch/ (and _C.so); removed when the calling process exits."""
    root = tempfile.mkdtemp(prefix="philmc-")
    pid = os.getpid()
    if not keep:
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(root, ignore_errors=True))
    shutil.copytree(os.path.join(repo, "philtorch"), os.path.join(root, "philtorch"),
                    ignore=shutil.ignore_patterns("_C*.so", "__pycache__"))
    how = "none"
    if with_ext:
        so, how = extension(repo)
        if so is None:
            raise RuntimeError("the extension does not build from the current tree")
        shutil.copy2(so, os.path.join(root, "philtorch", EXT_NAME))
    return root, how


if __name__ == "__main__":  # setup_cmd: fill the cache
    print(extension())

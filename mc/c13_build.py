"""Builds the instrumented extension of the C13 check from a tree's csrc; returns its path (cached by contents)."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from . import build

HERE = os.path.dirname(os.path.abspath(__file__))


CCCL = "/opt/venv/lib/python3.12/site-packages/nvidia/cu13/include/cccl"


def make(repo=build.REPO, cuda=False):
    """cuda: the .cu files compiled for the host (check C22) instead of the .cpp files."""
    rt = os.path.join(HERE, "csrc", "rt.cpp")
    own = sorted(glob.glob(os.path.join(HERE, "csrc", "**", "*.*"), recursive=True)) + [__file__]
    cu = sorted(glob.glob(os.path.join(repo, "philtorch", "csrc", "*.cu*"))) if cuda else []
    text = b"".join([open(f, "rb").read() for f in own] + [f.encode() + build._norm(f) for f in cu])
    key = hashlib.sha256(build.source_key(repo).encode() + text).hexdigest()[:24]
    cache = build.CACHE
    try:
        os.makedirs(cache, exist_ok=True)
        lk = open(os.path.join(cache, "c13.lock"), "w")
    except OSError:
        cache = os.path.join(tempfile.gettempdir(), "philmc-cache")
        os.makedirs(cache, exist_ok=True)
        lk = open(os.path.join(cache, "c13.lock"), "w")
    out = os.path.join(cache, f"{'c22' if cuda else 'c13'}-{key}.so")
    with lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return out if os.path.exists(out) else _make(repo, rt, out, cuda)


def _make(repo, rt, out, cuda):
    import torch
    inc = os.path.join(os.path.dirname(torch.__file__), "include")
    lib = os.path.join(os.path.dirname(torch.__file__), "lib")
    src = sorted(glob.glob(os.path.join(repo, "philtorch", "csrc", "*.cu" if cuda else "*.cpp")))
    flags = ["-std=c++20", "-O1", "-g1", "-fPIC", "-w", "-DTORCH_EXTENSION_NAME=_C", "-DTORCH_API_INCLUDE_EXTENSION_H",
             "-DNDEBUG", f"-I{inc}", f"-I{inc}/torch/csrc/api/include", f"-I{sysconfig.get_paths()['include']}"]
    special = []
    if cuda:
        special = [f"-I{HERE}/csrc/stub", f"-I{CCCL}", "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_CPP",
                   "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP", "-D__host__=", "-D__device__=", "-D__global__=", "-D__forceinline__=inline",
                   "-include", f"{HERE}/csrc/cuda_prelude.h"]
    work = tempfile.mkdtemp(prefix="philmc-c13-")
    try:
        ps = []
        for s in src:
            o = os.path.join(work, os.path.basename(s) + ".o")
            ps.append((o, subprocess.Popen(["g++", *special, *flags, "-fopenmp", "-fsanitize=thread", "--param",
                                            "tsan-instrument-func-entry-exit=0", "-x", "c++", "-c", s, "-o", o])))
        n_src = len(ps)
        for s in (rt,) + ((os.path.join(HERE, "csrc", "cuda_defs.cpp"),) if cuda else ()):
            o = os.path.join(work, os.path.basename(s) + ".o")
            ps.append((o, subprocess.Popen(["g++", *flags, "-fopenmp", "-c", s, "-o", o])))
        if any([p.wait() for _, p in ps]):
            raise RuntimeError("the instrumented extension does not compile")
        names = sorted(set(re.findall(r"T __wrap_(\S+)", subprocess.check_output(["nm", ps[n_src][0]], text=True))))
        ren = os.path.join(work, "rename")
        open(ren, "w").write("".join(f"{n} __wrap_{n}\n" for n in names))
        left = set()
        for o, _ in ps[:n_src]:
            subprocess.check_call(["objcopy", f"--redefine-syms={ren}", o])
            left |= set(re.findall(r" U (GOMP_\S+|pthread_create)", subprocess.check_output(["nm", "-u", o], text=True)))
        if left:
            sys.stderr.write(f"entry points that are not under the scheduler: {sorted(left)}\n")
        tmp = out + ".tmp"
        subprocess.check_call(["g++", "-shared", "-fopenmp", *[o for o, _ in ps], "-o", tmp, f"-L{lib}", "-lc10", "-ltorch_cpu", "-ltorch",
                               "-ltorch_python", f"-Wl,-rpath,{lib}"])
        os.replace(tmp, out)
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)

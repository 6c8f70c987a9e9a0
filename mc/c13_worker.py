"""Runs the instrumented operators under the controlled scheduler: python -m mc.c13_worker <extension> <json of parameters>."""
import ctypes
import itertools
import json
import sys

import numpy as np
import torch

from . import ref
from .core import differs

REAL, CPLX = (1, 2, -1, 3, -2), (1, 1j, -1, 1 + 1j, 2)
SR, SC = (0, 1, -1, 1, 0, 2), (0, 1, 1j, -1, 0, 1 - 1j)


def arr(shape, k, cplx, small=False):
    n = int(np.prod(shape, dtype=int))
    al = (SC if cplx else SR) if small else (CPLX if cplx else REAL)
    v = ref.dense(n, 1, al, k)[0].reshape(shape) if n else np.zeros(shape)
    return v.astype(complex if cplx else float)


def expected(op, A, zi, x):
    B, N = x.shape[:2]
    if op == "lti_recur":
        a = np.broadcast_to(A.reshape(-1, 1), (B, N))
        return ref.recursion(a[..., None, None], zi[:, None], x[..., None])[..., 0]
    M = x.shape[2]
    if op.startswith("lti"):
        A = np.broadcast_to(A.reshape((-1, 1, M, M)), (B, N, M, M))
    else:
        A = np.broadcast_to(A.reshape((-1, N, M, M)), (B, N, M, M))
    return ref.recursion(A, zi, x)


def lay(v, how, dt):
    """The values of v as a tensor of the layout, in arena memory."""
    s = torch.from_numpy(np.ascontiguousarray(v)).to(dt)
    if how == 1 and s.dim() >= 2:  # last two dimensions swapped in memory
        t = torch.empty(s.transpose(-1, -2).shape, dtype=dt).transpose(-1, -2)
    elif how == 2:  # every other element, away from both ends
        if s.dim() == 0:
            t = torch.empty(3, dtype=dt)[1]
        else:
            t = torch.empty(s.shape[:-1] + (2 * s.shape[-1],), dtype=dt)[..., 1::2]
    elif how == 3 and s.dim() >= 1:  # dimensions in reverse order
        t = torch.empty(tuple(reversed(s.shape)), dtype=dt).permute(*reversed(range(s.dim())))
    else:
        t = torch.empty(s.shape, dtype=dt)
    t.copy_(s)
    return t


def main():
    lib, p = sys.argv[1], json.loads(sys.argv[2])
    torch.set_num_threads(1)
    torch.ops.load_library(lib)
    rt = ctypes.CDLL(lib)
    rt.rt_violation.restype = ctypes.c_char_p
    rt.rt_mark.argtypes = (ctypes.c_void_p, ctypes.c_int)
    rt.rt_install()
    torch.set_num_threads(4)
    op = getattr(torch.ops.philtorch, p["op"])
    dt = getattr(torch, p["dtype"])
    cplx = dt.is_complex
    n = dict(executions=0, instances=0, cut=0)
    viol, multi, sample = [], 0, ""
    for B, N, M, lo, (team, most) in itertools.product(p["B"], p["N"], p["M"], p["layouts"], p["teams"]):
        if p["op"].endswith("recur2") and M != 2 or p["op"] == "lti_recur" and M != 1:
            continue
        for sh in {(), (1,), (B,)} if p["op"] == "lti_recur" else [(), (B,)]:
            s = sh if p["op"] == "lti_recur" else sh + (() if p["op"].startswith("lti") else (N,)) + (M, M)
            xs = (B, N) if p["op"] == "lti_recur" else (B, N, M)
            Av, zv, xv = arr(s, p["k"], cplx, True), arr((B,) + xs[2:], p["k"] + 1, cplx), arr(xs, p["k"] + 2, cplx)
            exp = torch.from_numpy(np.ascontiguousarray(expected(p["op"], Av, zv, xv))).to(dt)
            A, zi, x = (lay(v, lo, dt) for v in (Av, zv, xv))
            keep = [t.clone() for t in (A, zi, x)]
            for t in (A, zi, x):
                if t.numel() and not rt.rt_mark(t.untyped_storage().data_ptr(), 1):
                    print(json.dumps(dict(error="the tensors are not in the arena")))
                    return
            n["instances"] += 1
            rt.rt_start(team, most, p["bound"])
            first, what = n["executions"], None
            while True:
                try:
                    y = op(A, zi, x)
                    what = differs(exp, y)
                except Exception as e:  # noqa
                    what = f"raised {type(e).__name__}: {str(e)[:200]}"
                n["executions"] += 1
                if rt.rt_violations():
                    what = rt.rt_violation().decode() + (f"; {what}" if what else "")
                if what is None and not all(torch.equal(a, b) for a, b in zip((A, zi, x), keep)):
                    what = "an input has been modified"
                if what:
                    break
                if not rt.rt_next():
                    break
                if n["executions"] - first >= p["cap"]:
                    n["cut"] += 1
                    break
            if what:
                buf = (ctypes.c_int * 4096)()
                k = rt.rt_path(buf, 4096)
                viol.append(dict(what=f"{p['op']} {p['dtype']} A{list(s)} zi{list(zv.shape)} x{list(xs)} layout {lo}, team of {team} of at most {most}, "
                                      f"schedule {n['executions'] - first} (choices {list(buf[:k])[:40]}): {what}"))
                if len(viol) >= 5:
                    break
            multi += n["executions"] - first > 1
            sample = f"{p['op']} A{list(s)} x{list(xs)} team {team}: {n['executions'] - first} schedules"
            for t in (A, zi, x):
                if t.numel():
                    rt.rt_mark(t.untyped_storage().data_ptr(), 0)
        if len(viol) >= 5:
            break
    st = (ctypes.c_long * 4)()
    rt.rt_stats(st)
    print(json.dumps(dict(n, choices=st[0], accesses=st[1], regions=st[2], maxteam=st[3], viol=viol, multi=multi, sample=sample)))


if __name__ == "__main__":
    main()

"""Runs the host build of the CUDA operators: python -m mc.c22_worker <extension> <json of parameters>."""
import ctypes
import itertools
import json
import sys

import numpy as np
import torch

from . import ref
from .c13_worker import arr, expected, lay
from .core import differs, short


def instances(p, cplx):
    """(A, zi, x) as numpy arrays."""
    op, N = p["op"], p["N"]
    lpv, one = op == "recur2", op == "lti_recur"
    if p["mode"] == "layouts":
        for B, k in itertools.product(p["B"], p["k"]):
            for sh in sorted({(), (1,), (B,)} if one else {(), (B,)}):
                s = sh if one else sh + ((N,) if lpv else ()) + (2, 2)
                xs = (B, N) if one else (B, N, 2)
                yield arr(s, k, cplx, True), arr((B,) + xs[2:], k + 1, cplx), arr(xs, k + 2, cplx)
        return
    # rows: every small instance is one row of a batch
    al = (0, 1, 1j, -1 + 1j) if cplx else (0, 1, -1, 2)
    if one:
        r = ref.rows(2 + N, al, p["cap"], 3)
        r = ref.same(cplx, r)[0]
        yield r[:, 0], r[:, 1], r[:, 2:]
        for a in np.unique(r[:, 0]):
            q = r[r[:, 0] == a]
            yield np.array(a), q[:, 1], q[:, 2:]
            yield np.array([a]), q[:, 1], q[:, 2:]
        return
    nA = 4 * N if lpv else 4
    As = ref.rows(nA, (0, 1, -1) if not cplx else (0, 1, 1j), p["cap"] // 16, 2)
    zx = ref.rows(2 + 2 * N, al, 64, 2)
    A, v = ref.same(cplx, *ref.cross(As, zx))
    sh = ((N,) if lpv else ()) + (2, 2)
    yield A.reshape((-1,) + sh), v[:, :2], v[:, 2:].reshape(-1, N, 2)
    for a in As[:: max(1, len(As) // 24)]:
        a, v = ref.same(cplx, a, zx)
        yield a.reshape(sh), v[:, :2], v[:, 2:].reshape(-1, N, 2)


def main():
    lib, sets = sys.argv[1], json.loads(sys.argv[2])
    torch.set_num_threads(1)
    torch.ops.load_library(lib)
    rt = ctypes.CDLL(lib)
    rt.rt_violation.restype = ctypes.c_char_p
    rt.rt_mark.argtypes = (ctypes.c_void_p, ctypes.c_int)
    rt.rt_install()
    st = (ctypes.c_long * 5)()
    viol, n, rows, sample = [], 0, 0, ""
    for p, (Av, zv, xv), lo in ((p, i, lo) for p in sets for i in instances(p, getattr(torch, p["dtype"]).is_complex) for lo in p["layouts"]):
        op = getattr(torch.ops.philtorch, p["op"])
        dt = getattr(torch, p["dtype"])
        exp = torch.from_numpy(np.ascontiguousarray(expected(p["op"], Av, zv, xv))).to(dt)
        A, zi, x = (lay(v, lo, dt) for v in (Av, zv, xv))
        keep = [t.clone() for t in (A, zi, x)]
        rt.rt_start(1, 1, 0)
        rt.mc_stats(st)
        before = st[3]
        big = x.numel() * x.element_size() > 1 << 18
        for t in (A, zi, x):
            rt.rt_mark(t.untyped_storage().data_ptr(), 1)
        try:
            what = differs(exp, op(A, zi, x))
        except Exception as e:  # noqa
            what = f"raised {type(e).__name__}: {str(e)[:200]}"
        n += 1
        rows += len(xv)
        rt.mc_stats(st)
        if rt.rt_violations() and not big:
            what = rt.rt_violation().decode() + (f"; {what}" if what else "")
        if st[3] != before:
            what = f"{st[3] - before} results depend on the scan tree" + (f"; {what}" if what else "")
        if what is None and not all(torch.equal(a, b) for a, b in zip((A, zi, x), keep)):
            what = "an input has been modified"
        if what:
            viol.append(f"{p['op']} {p['dtype']} A{short(A)} zi{short(zi)} x{short(x)} layout {lo}: {what}")
            if len(viol) >= 5:
                break
        for t in (A, zi, x):
            rt.rt_mark(t.untyped_storage().data_ptr(), 0)
        sample = f"{p['op']} A{list(A.shape)} x{list(x.shape)}: {rows} rows so far"
    print(json.dumps(dict(calls=n, rows=rows, cells=st[0], ops=st[1], scans=st[2], outputs=st[4], viol=viol, sample=sample)))


if __name__ == "__main__":
    main()

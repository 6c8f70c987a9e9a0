"""C11: comb_filter against the machine whose state is the line of the d latest outputs, exactly."""
import itertools

import numpy as np
import torch

from . import ref
from .core import differs, enc, resolve, short
from .ref import T, cross, dense, rows

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of the comb-filter machine (line of d latest outputs) over all inputs of an alphabet, replayed exactly"
NOTE = ("Every delay, length, signal, initial line and coefficient of the alphabet is run through the machine and through comb_filter; "
        "outputs and final lines are compared with ==. A second pass splits every signal at every point and continues from zf.")
RULE = "state = (coefficient, delay line), transition = one sample; trace = one batch row of a comb_filter call"
BOUNDS = {
    "quick": "delays 1..6 and 9, lengths 1..8 and 17, coefficients {0,1,-1,2} or {0,1,j,-1+j}, signals and lines over {0,1,-1,2}: all, or of "
             "bounded weight plus dense ones; a scalar / (1,) / (B,), zi absent / (d,) / (B,d), batches 1, 2, 3, d, N; unroll "
             "default, 1, 2, 3, 5; every split point; some larger ones (delays to 257, N to 513, batches of 40)",
    "thorough": "delays 1..10, lengths 1..13 and 40, unroll up to 7",
}
ASSUMPTIONS = ["a complex or real like x; zi of the same dtype"]


def comb(a, d, x, z, ctx=None):
    """a (R,), x (R, N), z (R, d): most recent first."""
    R, N = x.shape
    s = z.copy()
    y = np.zeros((R, N), np.result_type(a, x, z))
    s = s.astype(y.dtype)
    for t in range(N):
        ref.count(ctx, t, a[:, None], s)
        y[:, t] = x[:, t] - a * s[:, -1]
        s = ref.shift(s, y[:, t])
    return y, s


def run(ctx, cplx, d, N, ufs, cap):
    al = (0, 1, 1j, -1 + 1j) if cplx else (0, 1, -1, 2)
    f = "lti.comb_filter"
    a, x, z = ref.same(cplx, *cross(np.array(al)[:, None], rows(N, al, cap, 2), rows(d, al, cap // 2, 2)))
    a = a[:, 0]
    R = len(a)
    y, zf = comb(a, d, x, z, ctx)
    y0, zf0 = comb(a, d, x, 0 * z)
    ctx.add("traces_validated_against_impl", 2 * R)
    ctx.sample(f"d={d} a={a[-1]} x={x[-1].tolist()} zi={z[-1].tolist()}")
    for uf in ufs:
        kw = {} if uf is None else dict(unroll_factor=uf)
        ctx.check(f, dict(a=T(a), delay=d, x=T(x), **kw), T(y0), note="rows")
        ctx.check(f, dict(a=T(a), delay=d, x=T(x), zi=T(z), **kw), (T(y), T(zf)), note="rows")
        # other layouts, on groups of rows with a common coefficient / line
        for i in sorted({0, R // 3, R // 2, (3 * R) // 4, R - 1}):
            for B in sorted({1, 2, 3, min(d, 6), min(N, 6)}):
                j = (np.arange(B) * 7 + i) % R
                for sa, sz in itertools.product((0, 1, 2), (0, 1, 2)):
                    aa = np.repeat(a[i:i + 1], B, 0) if sa < 2 else a[j]
                    zz = np.repeat(z[i:i + 1], B, 0) if sz == 1 else z[j] if sz == 2 else np.zeros((B, d), z.dtype)
                    e = comb(aa, d, x[j], zz, ctx)
                    ctx.add("traces_validated_against_impl", B)
                    at = T(aa[0]) if sa == 0 else T(aa[:1]) if sa == 1 else T(aa)
                    k = dict(a=at, delay=d, x=T(x[j]), **kw)
                    if sz:
                        k["zi"] = T(zz[0]) if sz == 1 else T(zz)
                    ctx.check(f, k, (T(e[0]), T(e[1])) if sz else T(e[0]), note=f"a {('scalar', '(1,)', '(B,)')[sa]}")
    # splits: the second call starts from the line the first returned
    g = resolve(f)
    for s in range(1, N):
        ctx.add("evaluations")
        (y1, z1), e1 = ctx.call(g, T(a), d, T(x[:, :s]), zi=T(z))
        if e1:
            ctx.violation(f"comb_filter d={d} N={s}: {e1}")
            continue
        (y2, z2), e2 = ctx.call(g, T(a), d, T(x[:, s:]), zi=z1)
        dd = e2 or differs((T(y), T(zf)), (torch.cat([y1, y2], 1), z2))
        if dd:
            ctx.violation(f"comb_filter d={d}, {N} samples in parts of {s} and {N - s}: {dd}", dict(a=enc(a), x=enc(x), zi=enc(z)))


def large(ctx, cplx, d, N):
    """Sizes well beyond the exhaustive ones: every layout for dense signals."""
    al = (1, 1j, -1, -1 + 1j) if cplx else (1, -1, 2, -2)
    f, g = "lti.comb_filter", resolve("lti.comb_filter")
    for B in (1, 3, 40):
        x, z = dense(N, B, al, 1).reshape(B, N), dense(d, B, al, 2).reshape(B, d)
        a = np.array((1, -1, 1j) if cplx else (1, -1, 0))[np.arange(B) % 3]
        if N < 40 * d:
            a[-1] = 2 if not cplx else 1 + 1j
        a, x, z = ref.same(cplx, a, x, z)
        for sa, sz, uf in itertools.product((0, 1, 2), (0, 1, 2), (None, 1, 4)):
            aa = np.repeat(a[-1:], B, 0) if sa < 2 else a
            zz = np.repeat(z[:1], B, 0) if sz == 1 else z if sz == 2 else np.zeros((B, d), z.dtype)
            y, zf = comb(aa, d, x, zz, ctx)
            ctx.add("traces_validated_against_impl", B)
            k = dict(a=T(aa[0]) if sa == 0 else T(aa[:1]) if sa == 1 else T(aa), delay=d, x=T(x), **({} if uf is None else dict(unroll_factor=uf)))
            if sz:
                k["zi"] = T(zz[0]) if sz == 1 else T(zz)
            ctx.check(f, k, (T(y), T(zf)) if sz else T(y))
            if sz == 2 and uf is None:
                for s in sorted({1, d - 1, d, d + 1, N // 2, N - 1} & set(range(1, N))):
                    ctx.add("evaluations")
                    (y1, z1), e1 = ctx.call(g, k["a"], d, T(x[:, :s]), zi=T(z))
                    (y2, z2), e2 = ctx.call(g, k["a"], d, T(x[:, s:]), zi=z1) if not e1 else ((0, 0), e1)
                    dd = e2 or differs((T(y), T(zf)), (torch.cat([y1, y2], 1), z2))
                    if dd:
                        ctx.violation(f"comb_filter d={d}, {N} samples in parts of {s} and {N - s}: {dd}", dict(a=enc(aa), x=enc(x), zi=enc(z)))
    ctx.sample(f"d={d} N={N} dense signals, batches of 1, 3, 40")


def plan(tier):
    big = tier == "thorough"
    t = []
    for cplx, d, N in itertools.product((False, True), (1, 2, 3, 4, 5, 6, 9) + ((7, 8, 10) if big else ()),
                                        (1, 2, 3, 4, 5, 6, 7, 8, 17) + ((9, 10, 11, 13, 40) if big else ())):
        t.append(("comb", run, dict(cplx=cplx, d=d, N=N, ufs=(None, 1, 2, 3, 5) + ((4, 7) if big else ()), cap=64 if not big else 300)))
    for cplx, (d, N) in itertools.product((False, True), [(1, 300), (2, 130), (7, 200), (16, 64), (20, 33), (33, 20), (50, 50), (64, 300), (100, 37),
                                                           (257, 513)] + ([(3, 2000), (441, 5000)] if big else [])):
        t.append(("large", large, dict(cplx=cplx, d=d, N=N)))
    return t

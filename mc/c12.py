"""C12: cubic spline interpolation: the spline recurrence of the coefficients, and the spline they stand for."""
import itertools
from fractions import Fraction

import numpy as np
import torch

from .core import differs, enc, resolve, short
from .ref import T, dense

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of (length, factor, padding convention, structure, every basis signal and dense batches), executed "
             "on the code and compared with the spline recurrence and the exactly evaluated B-spline expansion")
NOTE = ("By linearity the basis signals decide all signals of a length; linearity itself is checked on dense batches. The kernel weights of the "
        "oracle are exact fractions. The recurrence is required to 1e-12 at interior samples and up to the truncation |sqrt(3) - 2|^(L - 1) "
        "at the ends.")
RULE = "one case = (L, m, padding, structure, signal); non-trivial: the signal is not zero"
BOUNDS = {
    "quick": "L 2..12, 20, 30, 41; m 1..64, 98, 100, 103, 107, 161, 196, 200; both paddings; both structures; all basis signals (batched and "
             "alone), 2 dense batches; float64, and float32 at 1e-4; unroll 1, 2, 3",
    "thorough": "L 2..24, 30, 41, 64; m 1..260",
}
ASSUMPTIONS = ["float64 arithmetic: 1e-12 relative to the largest value", "L >= 2"]
R = abs(3 ** 0.5 - 2)


def beta(t):
    t = abs(t)
    return (4 - 6 * t ** 2 + 3 * t ** 3) / 6 if t <= 1 else (2 - t) ** 3 / 6 if t < 2 else Fraction(0)


def mirror(n, L, scipy):
    if scipy:
        n %= 2 * L
        return n if n < L else 2 * L - 1 - n
    q = max(2 * L - 2, 1)
    n %= q
    return n if n < L else q - n


def expansion(L, m, scipy):
    """Matrix ((L - 1) m + 1, L) of the spline with coefficients c, in exact arithmetic."""
    W = np.zeros(((L - 1) * m + 1, L))
    w = [[float(beta(Fraction(j, m) - i)) for i in (-1, 0, 1, 2)] for j in range(m)]
    for n in range(L):
        for j in range(m):
            if n == L - 1 and j:
                break
            for i in range(4):
                if w[j][i]:
                    W[n * m + j, mirror(n + i - 1, L, scipy)] += w[j][i]
    return W


def signals(L):
    return [("basis", np.eye(L)), ("dense", dense(L, 3)), ("one", dense(L, 1, off=2))]


def coefficients(ctx, Ls):
    f = resolve("lti.interp.cspline")
    for L, sp, pf in itertools.product(Ls, (False, True), (True, False)):
        got = {}
        for name, x in signals(L):
            xt = T(x)
            for uf in (None, 1, 2, 3):
                kw = dict(parallel_form=pf, scipy_padding=sp)
                if uf is not None:
                    kw["unroll_factor"] = uf
                ctx.case((L, sp, pf, name, uf), n=len(x))
                keep = xt.clone()
                c, err = ctx.call(f, xt, **kw)
                if err or c.shape != xt.shape or c.dtype != xt.dtype or not torch.equal(keep, xt):
                    ctx.violation(f"cspline of {tuple(x.shape)}, {kw}: {err or short(c)}", dict(x=enc(xt)))
                    continue
                c = c.numpy()
                got.setdefault(name, c)
                B = np.zeros((L, L))
                for n in range(L):
                    for i, w in ((-1, 1 / 6), (0, 4 / 6), (1, 1 / 6)):
                        B[n, mirror(n + i, L, sp)] += w
                e = np.abs(c @ B.T - x)
                s = np.abs(x).max()
                lim = np.full(L, 1e-12) * max(s, np.abs(c).max())
                lim[[0, -1]] += 2 * R ** (L - 1) * s
                if (e > lim).any():
                    i, n = (int(v) for v in np.argwhere(e > lim)[0])
                    ctx.violation(f"cspline of length {L}, {kw}, signal {x[i].tolist()[:12]}: (c[n-1] + 4 c[n] + c[n+1]) / 6 is "
                                  f"{(c @ B.T)[i, n]} at n = {n}, not {x[i, n]}", dict(x=enc(xt), kw=enc(kw)))
        if len(got) == 3:
            for name, x in signals(L)[1:]:  # linear and row by row
                d = differs(T(x @ got["basis"]), T(got[name]), 1e-12)
                if d:
                    ctx.violation(f"cspline of length {L} (parallel={pf}, scipy={sp}) of {name} signals is not the combination of the "
                                  f"responses to basis signals: {d}")
        ctx.sample(f"cspline L={L} scipy_padding={sp} parallel_form={pf} all basis signals")


def refine(ctx, L, ms):
    f, g = resolve("lti.cubic_spline"), resolve("lti.interp.cspline")
    for sp, pf in itertools.product((False, True), (True, False)):
        kw = dict(scipy_padding=sp, parallel_form=pf)
        outs = {}
        for m in ms:
            W = expansion(L, m, sp)
            for name, x in signals(L):
                xt = T(x)
                ctx.case((L, m, sp, pf, name), n=len(x))
                keep = xt.clone()
                y, err = ctx.call(f, xt, m, **kw)
                if err or tuple(y.shape) != (len(x), (L - 1) * m + 1) or y.dtype != xt.dtype or not torch.equal(keep, xt):
                    ctx.violation(f"cubic_spline({tuple(x.shape)}, {m}, {kw}): {err or short(y)}", dict(x=enc(xt), kw=enc(kw)))
                    continue
                c = g(xt, **kw).numpy()
                exp = c @ W.T if m > 1 else x
                d = differs(T(exp), y, 1e-12)
                if d:
                    ctx.violation(f"cubic_spline of length {L}, factor {m}, {kw}, {name}: not the spline of its coefficients: {d}",
                                  dict(fn="lti.cubic_spline", args=enc((xt, m)), kw=enc(kw), expected=enc(T(exp)), tol=1e-12))
                yn = y.numpy()
                s = np.abs(x).max()
                lim = np.full(L, 1e-11) * s
                lim[[0, -1]] += 2 * R ** (L - 1) * s
                if (np.abs(yn[:, ::m] - x) > lim).any():
                    ctx.violation(f"cubic_spline of length {L}, factor {m}, {kw}, {name}: does not pass through the samples", dict(x=enc(xt)))
                if name == "basis":
                    outs[m] = yn
        for m in outs:
            for k in outs:
                if m > k > 1 and m % k == 0 and (np.abs(outs[m][:, ::m // k] - outs[k]) > 1e-11).any():
                    ctx.violation(f"cubic_spline of length {L}, {kw}: refining by {m} does not contain refining by {k}")
        x = T(dense(L, 2)).float()
        for m in ms[:8]:
            y, err = ctx.call(f, x, m, **kw)
            d = err or differs(f(x.double(), m, **kw).float(), y, 1e-4)
            ctx.add("evaluations")
            if d:
                ctx.violation(f"cubic_spline of float32, length {L}, factor {m}, {kw}: {d}")
    ctx.sample(f"cubic_spline L={L} m={ms[-1]} all basis signals")


def refuse(ctx):
    f = resolve("lti.cubic_spline")
    x = T(np.ones((2, 5)))
    for m in (0, -1, -2, 1.5, 2.0, "2", None):
        ctx.add("evaluations")
        r, e = ctx.call(f, x, m)
        if e is None:
            ctx.violation(f"cubic_spline with factor {m!r} is accepted: {short(r)}")
    r, e = ctx.call(resolve("lti.interp.cspline"), x, lamb=1.0)
    if e is None:
        ctx.violation("cspline with a smoothing coefficient, which is not implemented, is accepted")


def plan(tier):
    big = tier == "thorough"
    ms = list(range(1, 65)) + [98, 100, 103, 107, 161, 196, 200] if not big else list(range(1, 261))
    Ls = list(range(2, 13)) + [20, 30, 41] if not big else list(range(2, 25)) + [30, 41, 64]
    t = [("refuse", refuse, {})] + [("cspline", coefficients, dict(Ls=Ls[i::4])) for i in range(4)]
    for L in sorted(Ls, reverse=True):
        t.append(("cubic_spline", refine, dict(L=L, ms=ms)))
    return t

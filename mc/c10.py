"""C10: filtfilt = extend, forward pass from the steady state, backward pass from the steady state, cut."""
import itertools

import numpy as np
import torch

from . import ref
from .c08 import pole_sets, vals
from .core import differs, enc, resolve, short
from .ref import T

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of extend / forward / reverse / forward / cut executions of the delay-line machine, replayed on filtfilt"
NOTE = ("The reference extends the signal by index arithmetic, starts the delay-line machine in its fixed point for the first sample (df2, "
        "tdf2) or at rest (df1, tdf1), reverses and repeats; every trace is a signal of a filtfilt call (tolerance 1e-9 of the largest "
        "value: the code solves a linear system for the steady state).")
RULE = "state = (filter, pass, delay line), transition = one sample of one pass; trace = one signal through both passes"
BOUNDS = {
    "quick": "pole sets of size 0..2 (real, conjugate, complex) and some of 3, len(b) 1..5, 4 forms, every padlen 0..min(N-1, 5) and the "
             "default, padmodes replicate / reflect / circular / constant / None, N 1..8 and one length around 3 ntaps, b, a shared or "
             "per signal, one signal or batches of 1..3; basis signals and dense ones; some larger ones (5 poles, len(b) to 9, N to 210)",
    "thorough": "pole sets up to 3 in full, len(b) up to 6, N 1..11, every padlen",
}
ASSUMPTIONS = []
TOL = 1e-9
MODES = ("replicate", "reflect", "circular", "constant")


def extend(x, mode, p):
    """x (R, N); by index arithmetic."""
    N = x.shape[1]
    i = np.arange(-p, N + p)
    if mode == "constant":
        out = np.where((i >= 0) & (i < N), x[:, np.clip(i, 0, N - 1)], 0)
        return out
    if mode == "replicate":
        j = np.clip(i, 0, N - 1)
    elif mode == "circular":
        j = i % N
    else:
        q = 2 * (N - 1)
        j = i % q if q else i * 0
        j = np.where(j >= N, q - j, j)
    return x[:, j]


def steady(form, b, a):
    """Fixed point (R, M) of the machine for the input 1, from its equations (closed form, no solver)."""
    M = max(b.shape[1] - 1, a.shape[1])
    b, a = ref.pad(b, M + 1), ref.pad(a, M)
    if form in ("df1", "tdf1"):
        return None
    if form == "df2":  # w = 1 - sum(a) w
        return np.repeat((1 / (1 + a.sum(1)))[:, None], M, 1)
    y = b.sum(1) / (1 + a.sum(1))  # s_k = sum_{j >= k} (b_j - a_j y)
    e = b[:, 1:] - a * y[:, None]
    return np.cumsum(e[:, ::-1], 1)[:, ::-1]


def machine(form, b, a, x, mode, p, ctx):
    N = x.shape[1]
    e = extend(x, mode, p) if mode is not None and p > 0 else x
    z = steady(form, b, a)
    L = e.shape[1]
    B, A = np.repeat(b[:, None], L, 1), np.repeat(a[:, None], L, 1)
    for _ in range(2):
        y, _ = ref.lfilter(form, B, A, e, None if z is None else z * e[:, :1], ctx)
        e = y[:, ::-1]
    return e[:, p:p + N] if p > 0 else e


def signals(R, N, cplx):
    """R signals: dense ones and basis ones."""
    x = vals(R, N, off=1, cplx=cplx)
    for i in range(R):
        if i % 3 == 2:
            x[i] = 0
            x[i, (i // 3) % N] = 1
    return x


def one(ctx, form, b, a, x, mode, p, kw, exp, what, tol=TOL):
    ctx.add("evaluations")
    keep = [t.clone() for t in (b, a, x)]
    got, err = ctx.call(resolve("lti.filtfilt"), b, a, x, **kw)
    d = f"raised {err}" if err else differs(exp, got, tol, "diag_ssm" not in kw.values())
    if not d and not all(torch.equal(u, v) for u, v in zip(keep, (b, a, x))):
        d = "an operand was modified"
    if d:
        ctx.violation(f"filtfilt(b={short(b)}, a={short(a)}, x={short(x)}, {kw}): {d} [{what}]",
                      dict(fn="lti.filtfilt", args=enc((b, a, x)), kw=enc(kw), expected=enc(exp), tol=tol))


def run(ctx, cplx, na, nb, Ns, form):
    ps = pole_sets(cplx, na)
    if na >= 3:
        ps = ps[::3 if na == 3 else 6]
    a = np.array([np.atleast_1d(np.poly(p))[1:] for p in ps]).reshape(len(ps), na)
    a = a.astype(complex) if cplx else a.real.astype(float)
    R = len(a)
    b = vals(R, nb, off=2, cplx=cplx)
    nt = max(nb, na + 1)
    if nt == 1:
        return
    for N in Ns:
        if N < 0:
            N = 3 * nt - N  # long enough for the default pad length
        x = signals(R, N, cplx)
        pads = [(m, p, dict(padmode=m, padlen=p)) for m in MODES for p in range(0, min(N - 1, 5) + 1)]
        pads += [(None, 0, dict(padmode=None)), (None, 0, dict(padmode=None, padlen=3))]
        if N > 3 * nt:
            pads = [("replicate", 3 * nt, dict()), ("reflect", 3 * nt, dict(padmode="reflect")), ("circular", 3 * nt, dict(padmode="circular")),
                    ("constant", 3 * nt, dict(padmode="constant")), ("reflect", N - 1, dict(padmode="reflect", padlen=N - 1)),
                    ("replicate", N - 1, dict(padlen=N - 1)), ("replicate", 2, dict(padlen=2)), (None, 0, dict(padmode=None))]
        for mode, p, kw in pads:
            kw = dict(kw, form=form) if form != "tdf2" or N % 2 else kw
            exp = machine(form, b, a, x, mode, p, ctx)
            ctx.add("traces_validated_against_impl", R)
            one(ctx, form, T(b), T(a), T(x), mode, p, kw, T(exp), "batched")
            i = (N + p) % R
            one(ctx, form, T(b[i]), T(a[i]), T(x[i]), mode, p, kw, T(exp[i]), "one signal")
            one(ctx, form, T(b[i]), T(a[i]), T(x[i:i + 1]), mode, p, kw, T(exp[i:i + 1]), "a batch of one")
            k = min(R, 2 + (N + p) % 2)
            for sb, sa in ((0, 0), (1, 0), (0, 1)):
                bb = b[:k] if sb else np.repeat(b[i:i + 1], k, 0)
                aa = a[:k] if sa else np.repeat(a[i:i + 1], k, 0)
                e = machine(form, bb, aa, x[:k], mode, p, ctx)
                ctx.add("traces_validated_against_impl", k)
                one(ctx, form, T(bb if sb else b[i]), T(aa if sa else a[i]), T(x[:k]), mode, p, kw, T(e),
                    f"b {'batched' if sb else 'shared'}, a {'batched' if sa else 'shared'}")
            if p == 1 or N > 3 * nt:  # arguments that are passed on to lfilter
                for extra in (dict(unroll_factor=1), dict(unroll_factor=2), dict(backend="ssm"), dict(backend="diag_ssm")):
                    if "diag_ssm" in extra.values() and (form[-1] == "1" or nb > na + 1 or na == 0):
                        continue
                    one(ctx, form, T(b), T(a), T(x), mode, p, dict(kw, **extra), T(exp), "batched", 1e-6 if "diag" in str(extra) else TOL)
            # a non-contiguous batch
            xt = T(x).mT.contiguous().mT
            if p % 2:
                one(ctx, form, T(b), T(a), xt, mode, p, kw, T(exp), "batched, transposed layout")
    ctx.sample(f"{form} b={b[-1].tolist()} a={a[-1].tolist()} x={x[-1].tolist()} {pads[-1]}")


def refuse(ctx):
    """Lengths not above the pad length and unimplemented methods are refused, not answered."""
    f = resolve("lti.filtfilt")
    b, a = T([1., 2.]), T([0.5])
    for N, kw in itertools.chain((((n, dict(padlen=p)) for n in range(1, 6) for p in range(n, n + 3))),
                                 ((n, {}) for n in (1, 5, 6)), ((9, dict(method="gust")), (9, dict(method="other")), (9, dict(form="df3")))):
        for x in (T(np.ones(N)), T(np.ones((2, N)))):
            ctx.add("evaluations")
            r, e = ctx.call(f, b, a, x, **kw)
            if e is None:
                ctx.violation(f"filtfilt of {tuple(x.shape)} with {kw} is accepted: {short(r)}")


def plan(tier):
    big = tier == "thorough"
    t = [("refuse", refuse, {})]
    for cplx, na, nb, form in itertools.product((False, True), (0, 1, 2, 3), (1, 2, 3, 5) + ((4, 6) if big else ()), ("tdf2", "df2", "df1", "tdf1")):
        if cplx and na == 3 and not big:
            continue
        Ns = (1, 2, 3, 4, 5, 8, -1) if not big else (1, 2, 3, 4, 5, 6, 7, 8, 11, -1, -2)
        if na == 3 and not big:
            Ns = (1, 4, 6, -1)
        t.append((f"filtfilt-{form}", run, dict(cplx=cplx, na=na, nb=nb, Ns=Ns, form=form)))
    for cplx, form in itertools.product((False, True), ("tdf2", "df2", "df1", "tdf1")):
        for na, nb, N in ((4, 2, 60), (5, 7, 35), (2, 9, 100), (1, 3, 210)):
            t.append((f"large-{form}", run, dict(cplx=cplx, na=na, nb=nb, Ns=(N,), form=form)))
    return t

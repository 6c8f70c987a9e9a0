"""C09: lfilter_zi gives the fixed point of the delay line for a constant input, lfiltic the delay line after a given past."""
import itertools

import numpy as np
import torch

from . import ref
from .c08 import pole_sets, vals
from .core import differs, enc, resolve, short
from .ref import T, rows, cross, product_rows

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration: fixed points and reachable states of the delay-line machine compared with the states the code returns"
NOTE = ("lfilter_zi: every filter of the pole grid and every numerator; the returned state has to be the fixed point of the reference "
        "machine (tolerance 1e-9: the code solves a linear system). lfiltic: every past over a small alphabet; the continuation by the "
        "reference machine and by lti.lfilter has to be that of the difference equation with that past, exactly.")
RULE = ("state = (filter, delay line), transition = one sample; traces: one constant signal per filter (lfilter_zi), one past with a "
        "continuation (lfiltic)")
BOUNDS = {
    "quick": "lfilter_zi: pole sets of size 0..3 (real, conjugate pairs, complex, repeated), len(b) 1..5, both forms; lfiltic: len(b) 1..4, "
             "len(a) 0..3, pasts over {0,1,-1,2} (all, or of weight 2), shared and batched; some larger ones (5 poles, len(b) to 20, len(a) to 17)",
    "thorough": "pole sets up to 4, len(b) up to 7, len(a) up to 5",
}
ASSUMPTIONS = ["lfiltic: values are small (Gaussian) integers"]
TOL = 1e-9


def fixed(ctx, what, form, b, a, zi, err, want):
    """zi (R, M) as returned for filters b (R, nb), a (R, na)."""
    if err or not isinstance(zi, torch.Tensor):
        ctx.violation(f"{what}: {err or short(zi)}")
        return
    R = len(a)
    M = max(b.shape[1] - 1, a.shape[1])
    if tuple(zi.shape) != want:
        ctx.violation(f"{what}: state of shape {tuple(zi.shape)} instead of {want}")
        return
    z = np.broadcast_to(zi.numpy(), (R, M))
    N = 3
    H = b.sum(1) / (1 + a.sum(1))
    for c in (1.0, -2.0):
        x = np.full((R, N), c)
        y, zf = ref.lfilter(form, np.repeat(b[:, None], N, 1), np.repeat(a[:, None], N, 1), x, z * c, ctx)
        ctx.add("traces_validated_against_impl", R)
        d = differs((T(np.repeat(c * H[:, None], N, 1)), T(z * c)), (T(y), T(zf)), TOL, False)
        if d:
            ctx.violation(f"{what}: constant {c}: {d}", dict(b=enc(b), a=enc(a), zi=enc(zi)))
            return
        (gy, gz), err = ctx.call(resolve("lti.lfilter"), T(b), T(a), T(x).to(zi.dtype), zi=T(np.array(z * c)), form=form)
        d = err or differs((T(np.repeat(c * H[:, None], N, 1)), T(z * c)), (gy, gz), TOL, False)
        if d:
            ctx.violation(f"{what}: constant {c}, lti.lfilter: {d}", dict(b=enc(b), a=enc(a), zi=enc(zi)))
            return


def steady(ctx, cplx, na, nbs):
    f = resolve("lti.lfilter_zi")
    ps = pole_sets(cplx, na) + ([[0.5] * na, [-0.25] * na] if na > 1 else [])
    a = np.array([np.atleast_1d(np.poly(p))[1:] for p in ps]).reshape(len(ps), na)
    a = a.astype(complex) if cplx else a.real.astype(float)
    for nb in nbs:
        if max(na, nb - 1) == 0:
            continue
        M = max(na, nb - 1)
        b = vals(len(a), nb, off=nb, cplx=cplx)
        for tr, form in ((True, "tdf2"), (False, "df2")):
            ctx.sample(f"lfilter_zi {form} a={a[-1].tolist()} b={b[-1].tolist()}")
            R = len(a)
            r, e = ctx.call(f, T(a), T(b), tr)
            fixed(ctx, f"lfilter_zi(a={a.shape}, b={b.shape}, transpose={tr})", form, b, a, r, e, (R, M))
            r, e = ctx.call(f, T(a), T(b[0]), transpose=tr)
            fixed(ctx, f"lfilter_zi(a={a.shape}, b={b[0].shape}, transpose={tr})", form, np.repeat(b[:1], R, 0), a, r, e, (R, M))
            h = R // 2
            for k, (aa, bb) in enumerate((((2, h, na), (2, h, nb)), ((2, h, na), (nb,)), ((2, 1, na), (h, nb)))):
                if not h:
                    continue
                ea, eb = ((a[:2 * h], b[:2 * h]), (a[:2 * h], np.repeat(b[:1], 2 * h, 0)),
                          (np.repeat(a[:2], h, 0), np.concatenate([b[:h], b[:h]])))[k]
                la, lb = (T(a[:2 * h]), T(a[:2 * h]), T(a[:2]))[k].reshape(aa), (T(b[:2 * h]), T(b[0]), T(b[:h]))[k].reshape(bb)
                r, e = ctx.call(f, la, lb, transpose=tr)
                if e is None and isinstance(r, torch.Tensor) and r.dim() == 3:
                    r = r.expand(2, h, M).reshape(2 * h, M)
                fixed(ctx, f"lfilter_zi(a={aa}, b={bb}, transpose={tr})", form, eb, ea, r, e, (2 * h, M))
            for i in range(R):
                r, e = ctx.call(f, T(a[i]), T(b[i]), transpose=tr)
                fixed(ctx, f"lfilter_zi(a={a[i].tolist()}, b={b[i].tolist()}, transpose={tr})", form, b[i:i + 1], a[i:i + 1], r, e, (M,))
                for k in (2, M):
                    bb = vals(k, nb, off=i, cplx=cplx)
                    r, e = ctx.call(f, T(a[i]), T(bb), transpose=tr)
                    # the df2 state does not depend on b
                    fixed(ctx, f"lfilter_zi(a={a[i].tolist()}, b={bb.shape}, transpose={tr})", form, bb, np.repeat(a[i:i + 1], k, 0), r, e,
                          (k, M) if tr else (M,))
            if tr:
                r, e = ctx.call(f, T(a), T(b))
                fixed(ctx, f"lfilter_zi(a={a.shape}, b={b.shape})", form, b, a, r, e, (R, M))
                r, e = ctx.call(f, T(a))
                if e is None:
                    ctx.violation(f"lfilter_zi(a={a.shape}) in the transposed form without b returned {short(r)}")
            elif nb <= na + 1:
                r, e = ctx.call(f, T(a), transpose=False)
                fixed(ctx, f"lfilter_zi(a={a.shape}, transpose=False)", form, b, a, r, e, (R, M))


def past(ctx, cplx, nb, na, cap):
    """Every past (y[-1], ..., x[-1], ...) of every filter of the alphabet."""
    al = (0, 1, 1j, -1 + 1j) if cplx else (0, 1, -1, 2)
    f = resolve("lti.lfiltic")
    m = nb - 1
    M = max(m, na)
    if M == 0:
        return
    N = 4
    b, a, py, px = ref.same(cplx, *cross(rows(nb, al, 12, 1), rows(na, al, 12, 1), rows(na, al, cap, 2), rows(m, al, cap, 2)))
    R = len(b)
    xs = vals(R, N, off=1, cplx=cplx)

    def cont(b, a, py, px):
        """The difference equation with this past."""
        yy, xx = list(py.T[::-1]), list(px.T[::-1])
        for t in range(N):
            xx.append(xs[:, t])
            v = np.zeros(R, xs.dtype)
            for k in range(nb):
                v = v + b[:, k] * xx[len(xx) - 1 - k]
            for k in range(na):
                v = v - a[:, k] * yy[len(yy) - 1 - k]
            yy.append(v)
        return np.stack(yy[na:], 1)

    def one(what, b, a, py, px, res, err):
        exp = cont(b, a, py, px)
        if err or not isinstance(res, torch.Tensor) or res.shape[-1] != M or res.dim() > 2:
            ctx.violation(f"{what}: {err or short(res)}")
            return
        z = np.broadcast_to(res.numpy(), (R, M))
        y, _ = ref.lfilter("tdf2", np.repeat(b[:, None], N, 1), np.repeat(a[:, None], N, 1), xs, z, ctx)
        ctx.add("traces_validated_against_impl", R)
        d = differs(T(exp), T(y))
        if not d:
            r, err = ctx.call(resolve("lti.lfilter"), T(b), T(a), T(xs), zi=T(np.array(z)))
            d = err or differs(T(exp), r[0])
        if d:
            i = int(np.argmax((exp != y).any(1)))
            ctx.violation(f"{what}: the continuation differs: {d}; first: b={b[i].tolist()} a={a[i].tolist()} past y={py[i].tolist()} "
                          f"past x={px[i].tolist()}", dict(b=enc(b[i]), a=enc(a[i]), y=enc(py[i]), x=enc(px[i]), zi=enc(z[i])))

    ctx.sample(f"b={b[-1].tolist()} a={a[-1].tolist()} past y={py[-1].tolist()} past x={px[-1].tolist()}")
    # several leading dimensions
    h = R // 2
    two = (lambda v: T(v[:2 * h]).reshape(2, h, -1))
    one("lfiltic, two leading dimensions", b, a, py, px, *(lambda r, e: (r if e or r.dim() != 3 else torch.cat(
        [r.reshape(2 * h, -1), f(T(b), T(a), T(py), T(px))[2 * h:]]), e))(*ctx.call(f, two(b), two(a), two(py), two(px))))
    rep = (lambda v: np.repeat(v[-1:], R, 0))
    one("lfiltic, all batched", b, a, py, px, *ctx.call(f, T(b), T(a), T(py), T(px)))
    one("lfiltic, x absent", b, a, py, np.zeros_like(px), *ctx.call(f, T(b), T(a), T(py)))
    one("lfiltic, b shared", rep(b), a, py, px, *ctx.call(f, T(b[-1]), T(a), T(py), T(px)))
    one("lfiltic, a shared", b, rep(a), py, px, *ctx.call(f, T(b), T(a[-1]), T(py), T(px)))
    one("lfiltic, b and a shared", rep(b), rep(a), py, px, *ctx.call(f, T(b[-1]), T(a[-1]), T(py), T(px)))
    one("lfiltic, y shared", b, a, rep(py), px, *ctx.call(f, T(b), T(a), T(py[-1]), T(px)))
    one("lfiltic, x shared", b, a, py, rep(px), *ctx.call(f, T(b), T(a), T(py), T(px[-1])))
    for i in sorted({0, R // 2, R - 1}):
        pick = (lambda v: np.repeat(v[i:i + 1], R, 0))
        one("lfiltic, one filter", pick(b), pick(a), pick(py), pick(px), *ctx.call(f, T(b[i]), T(a[i]), T(py[i]), T(px[i])))
    for k in (2, M):  # batch sizes that coincide with orders
        if k <= R:
            r, e = ctx.call(f, T(b[-k:]), T(a[-k:]), T(py[-k:]), T(px[-k:]))
            r2, e2 = ctx.call(f, T(b), T(a), T(py), T(px))
            d = e or e2 or differs(r2[-k:], r)
            ctx.add("evaluations")
            if d:
                ctx.violation(f"lfiltic with a batch of {k}: {d}")


def plan(tier):
    big = tier == "thorough"
    t = []
    for cplx in (False, True):
        for na in (0, 1, 2, 3) + ((4,) if big else ()):
            t.append(("lfilter_zi", steady, dict(cplx=cplx, na=na, nbs=(1, 2, 3, 4, 5) + ((6, 7) if big else ()))))
        for nb, na in itertools.product((1, 2, 3, 4) + ((5, 6) if big else ()), (0, 1, 2, 3) + ((4, 5) if big else ())):
            t.append(("lfiltic", past, dict(cplx=cplx, nb=nb, na=na, cap=64 if not big else 256)))
        t.append(("large", steady, dict(cplx=cplx, na=5, nbs=(1, 3, 9))))
        for nb, na in ((8, 6), (2, 9), (12, 1), (1, 17), (20, 0)):
            t.append(("large", past, dict(cplx=cplx, nb=nb, na=na, cap=12)))
    return t

"""C04: every (length, unroll factor) pair of every blocked recursion gives what the sample-by-sample machine gives."""
import itertools

import numpy as np
import torch

from . import ref
from .ref import T, dense

LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all (length, unroll factor) pairs, i.e. of all nesting structures of the blocked recursion"
NOTE = ("Exhaustive within the bounds: for every length, every unroll factor (and the default) and every layout the blocked "
        "execution on the real code is compared bit for bit with the state machine. The matrices have bounded orbits and do not "
        "commute, so that the order of products matters and the arithmetic stays exact.")
RULE = ("state = (length, unroll factor, time, state vector) of the recurrence; the unblocked machine gives the expected trace, "
        "which every unroll factor has to reproduce exactly")
BOUNDS = {
    "quick": "N 1..32 x unroll 1..N+1 and default for all layouts, M 1..3, every out_idx, 2-D and 3-D x; N in "
             "{32,45,64,100,128,300,1000} x unroll {2,3,4,5,6,7,8,9,11,16,31,64}; lfilter (4 forms), comb_filter and lpv.lfilter N 1..12; "
             "unroll -1 and 0 rejected",
    "thorough": "N 1..72 x unroll 1..N+1, N up to 1024",
}
ASSUMPTIONS = ["values are small (Gaussian) integers: float rounding is outside of the model"]


def mats(n, M, kind, cplx):
    """n non-commuting integer matrices whose products stay small: signed permutations, projections, one shear now and then."""
    out = np.zeros((n, M, M), complex if cplx else float)
    unit = (1, -1, 1j, -1j) if cplx else (1, -1)
    for t in range(n):
        p = np.roll(np.arange(M), (t * t + kind) % M)
        if M > 2 and (t + kind) % 2:
            p[[0, 1]] = p[[1, 0]]
        for i in range(M):
            out[t, i, p[i]] = unit[(i + t * (i + 2) + kind) % len(unit)]
        if (t + kind) % 5 == 3:
            out[t, (t // 2) % M] = 0
        if M > 1 and (t + kind) % 7 == 2:
            out[t, 0, 0] += 1
    return out


def fixed(M, kind, cplx):
    """One matrix of bounded powers."""
    if M == 1:
        return np.array([[(1, -1, 0)[kind % 3]]], float) if not cplx else np.array([[(1j, -1, -1j)[kind % 3]]])
    A = mats(3, M, kind, cplx)
    if kind % 3 == 0:  # companion of 1 + z + ... (period M + 1)
        A = np.eye(M, k=-1)
        A[0] = -1
        return A.astype(complex if cplx else float)
    if kind % 3 == 1:  # unipotent: powers grow linearly / polynomially
        return np.eye(M) + np.eye(M, k=1).astype(complex if cplx else float) * (1j if cplx else 1)
    P = np.roll(np.eye(M), 1, axis=0)
    P[0] *= -1
    return P.astype(complex if cplx else float) * (1j if cplx else 1)


def check_all(ctx, fn, mk, expect, ufs, **note):
    for uf in ufs:
        kw = mk()
        if uf is not None:
            kw["unroll_factor"] = uf
        ctx.check(fn, kw, expect, note=f"unroll {uf}")


def recursion(ctx, lpv, M, cplx, Ns, ufs, B=3, outs=True):
    mod = "lpv" if lpv else "lti"
    for N in Ns:
        us = [u for u in (range(1, N + 2) if ufs is None else ufs)]
        for batched in (True, False):
            if lpv:
                A = np.stack([mats(N, M, k, cplx) for k in range(B)])
            else:
                A = np.stack([fixed(M, k, cplx) for k in range(B)])
            if not batched:
                A = np.repeat(A[N % B][None], B, 0)
            al = (1, 1j, -1, 1 + 1j, 2) if cplx else (1, 2, -1, 3, -2)
            x = dense(N * M, B, al).reshape(B, N, M)
            zi = dense(M, B, al, 1)
            A, x, zi = ref.same(cplx, A, x, zi)
            Af = A if lpv else np.repeat(A[:, None], N, 1)
            for x3 in (True, False):
                xx = x if x3 else x * (np.arange(M) == 0)
                h = ref.recursion(Af, zi, xx, ctx)
                if not ref.exact(h):
                    continue
                ctx.add("traces_validated_against_impl", B * len(us))
                tA, tz, tx = T(A if batched else A[0]), T(zi), T(xx if x3 else xx[..., 0])
                for o in [None] + ([0, M - 1] if outs and M > 1 else [0] if outs else []):
                    e = T(h if o is None else h[..., o])
                    mk = lambda: dict(A=tA, zi=tz, x=tx, **({} if o is None else dict(out_idx=o)))
                    check_all(ctx, f"{mod}.ssm.state_space_recursion", mk, e, us)
                hp = np.concatenate([zi[:, None], h[:, :-1]], 1)
                mk = lambda: dict(A=tA, zi=tz, x=tx)
                check_all(ctx, f"{mod}.state_space", mk, (T(hp), T(h[:, -1])), us + [None])
                if N == Ns[0]:
                    for uf in (0, -1, -3):
                        for fn in (f"{mod}.ssm.state_space_recursion", f"{mod}.state_space"):
                            rejected(ctx, fn, dict(A=tA, zi=tz, x=tx, unroll_factor=uf))
        ctx.sample(f"{mod} M={M} N={N} unroll {us[:3]}..{us[-1]}")


def rejected(ctx, fn, kw):
    from .core import resolve, enc
    ctx.add("evaluations")
    got, err = ctx.call(resolve(fn), **kw)
    if err is None:
        ctx.violation(f"{fn} accepts unroll_factor={kw['unroll_factor']}", None)


def scalar(ctx, lpv, cplx, Ns, ufs):
    mod = "lpv" if lpv else "lti"
    fn = f"{mod}.recur.linear_recurrence"
    al = (1, 1j, -1, 1 + 1j, 2) if cplx else (1, 2, -1, 3, -2)
    for N in Ns:
        us = [u for u in (range(1, N + 2) if ufs is None else ufs)]
        for B in (1, 3):
            x, zi = dense(N, B, al), dense(1, B, al, 1)[:, 0]
            if lpv:
                a = np.array([[(1, -1, 1, 0, -1, 2, 1)[(t * t + t * k + k) % 7] for t in range(N)] for k in range(B)], complex)
                if cplx:
                    a[:, ::3] *= 1j
            else:
                a = np.array([(-1, 1, 0) if not cplx else (1j, -1, -1j)])[0, :B]
            a, x, zi = ref.same(cplx, a, x, zi)
            for sa, sz in itertools.product((False, True), repeat=2):
                aa = np.repeat(a[-1:], B, 0) if sa else a
                zz = np.repeat(zi[-1:], B, 0) if sz else zi
                Af = (aa if lpv else np.repeat(aa[:, None], N, 1))[..., None, None]
                h = ref.recursion(Af, zz[:, None], x[..., None], ctx)[..., 0]
                if not ref.exact(h):
                    continue
                ctx.add("traces_validated_against_impl", B * len(us))
                for ta in ([a[-1]] if lpv else [a[-1], a[-1:]]) if sa else [a]:
                    for tz in ([zi[-1], zi[-1:]] if sz else [zi]):
                        check_all(ctx, fn, lambda: dict(a=T(ta), init=T(tz), x=T(x)), T(h), us)
            if N == Ns[0]:
                for uf in (0, -1):
                    rejected(ctx, fn, dict(a=T(a), init=T(zi), x=T(x), unroll_factor=uf))


def filters(ctx, form, Ns):
    """lfilter passes the factor on, for every form; comb_filter too."""
    for N in Ns:
        us = list(range(1, N + 2)) + [None]
        for M, a1 in ((1, [-1]), (2, [1, 1]), (3, [0, 0, -1])):
            for nb in (1, M, M + 1, M + 2):
                B, K = 2, max(M, nb - 1)
                b, x, z = dense(nb, B), dense(N, B), dense(K, B, off=2)
                a = np.repeat(np.array(a1, float)[None], B, 0)
                use = form in ("df2", "tdf2")
                y, zf = ref.lfilter(form, np.repeat(b[:, None], N, 1), np.repeat(a[:, None], N, 1), x, z if use else None, ctx)
                ctx.add("traces_validated_against_impl", B)
                for aa in (a, a[0]):
                    check_all(ctx, "lti.lfilter", lambda: dict(b=T(b), a=T(aa), x=T(x), form=form, **(dict(zi=T(z)) if use else {})),
                              (T(y), T(zf)) if use else T(y), us)
                if use:
                    bt = dense(N * nb, B, off=1).reshape(B, N, nb)
                    at = np.array([[[(1, 0, -1, 0)[(t + i + r) % 4] if i in (0, M - 1) else 0 for i in range(M)]
                                    for t in range(N)] for r in range(B)], float)
                    y, zf = ref.lfilter(form, bt, at, x, z, ctx)
                    if ref.exact(y, zf):
                        check_all(ctx, "lpv.lfilter", lambda: dict(b=T(bt), a=T(at), x=T(x), zi=T(z), form=form), (T(y), T(zf)), us)
        if form == "df2":
            for d in (1, 2, 3, 5):
                B = 2
                x, z, a = dense(N, B), dense(d, B, off=1), np.array([1., -1.])
                cf = np.zeros((B, N, d))
                cf[..., -1] = a[:, None]
                y, zf = ref.allpole(cf, x, z, False, ctx)
                for uf in us[:-1]:
                    ctx.check("lti.comb_filter", dict(a=T(a), delay=d, x=T(x), zi=T(z), unroll_factor=uf), (T(y), T(zf)))


def plan(tier):
    q = tier == "quick"
    top, big = (32, [32, 45, 64, 100, 128, 300, 1000]) if q else (72, [96, 100, 128, 243, 256, 512, 1000, 1024])
    fac = [2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 31, 64]
    chunks = [list(range(1, top + 1))[i::4] for i in range(4)]
    tasks = []
    for lpv in (False, True):
        for M in (1, 2, 3):
            for c in chunks:
                tasks.append(("recursion", recursion, dict(lpv=lpv, M=M, cplx=False, Ns=c, ufs=None)))
            tasks.append(("recursion", recursion, dict(lpv=lpv, M=M, cplx=True, Ns=list(range(1, 14 if q else 40)), ufs=None, outs=False)))
            for N in big:
                tasks.append(("big", recursion, dict(lpv=lpv, M=M, cplx=False, Ns=[N], ufs=fac)))
        for cplx in (False, True):
            tasks.append(("scalar", scalar, dict(lpv=lpv, cplx=cplx, Ns=list(range(1, top + 1)), ufs=None)))
            tasks.append(("scalar", scalar, dict(lpv=lpv, cplx=cplx, Ns=big, ufs=fac)))
    for form in ("df2", "tdf2", "df1", "tdf1"):
        tasks.append(("filters", filters, dict(form=form, Ns=list(range(1, 13 if q else 30)))))
    return tasks

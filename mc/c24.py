"""C24: newton_solve (parallel-in-time recursion) against the sequential execution of the recursion."""
import itertools

import numpy as np
import torch

from .core import enc, resolve, short
from .ref import T, cross, dense, product_rows

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of the sequential recursion y[n] = f(y[n-1], x[n]) over all small inputs and starts; every trace replayed on newton_solve"
NOTE = ("Functions: affine (constant, input-dependent and coupled slopes), max-affine (attack/release as in the test), quadratic and coupled ones; sequences, initial states, start guesses and "
        "iteration counts are enumerated. Samples that an iteration has settled are compared within 1e-12, the others within 1e-9.")
RULE = "state = (n, y[n-1]), transition = one application of f; trace = one row of a newton_solve call"
BOUNDS = {
    "quick": "all x over {-1,0,2}^L (L <= 5), dimensions 1..3, init over {-1,0,2}, three start guesses, every max_iter 1..L-1, with and "
             "without fprime, unroll 1, 2, None, tolerances loose and zero, batches of all rows, 1 and 2; some longer ones (L to 120)",
    "thorough": "L <= 7",
}
ASSUMPTIONS = ["max_iter < L, as the function asserts"]


def affine(y, x):
    return 2 * y - x


def d_affine(y, x):
    return 2 * torch.ones_like(y)


def release(y, x):
    c = torch.where(x < y, 0.5, 0.25)
    return c * x + (1 - c) * y


def d_release(y, x):
    return (1 - torch.where(x < y, 0.5, 0.25)).to(y.dtype)


def quad(y, x):
    return (y * y + x) / 4


def d_quad(y, x):
    return y / 2


def coupled(y, x):
    """Mixes the components: the Jacobian is not diagonal, nor symmetric."""
    D = y.shape[-1]
    return torch.stack([y[..., (i + 1) % D] * (i + 1) / 2 - y[..., i] / 4 + x[..., i % x.shape[-1]] for i in range(D)], -1)


def d_coupled(y, x):
    D = y.shape[-1]
    J = torch.zeros(y.shape + (D,), dtype=y.dtype)
    for i in range(D):
        J[..., i, (i + 1) % D] += (i + 1) / 2
        J[..., i, i] -= 1 / 4
    return J


def square(y, x):
    """Quadratic and coupled."""
    D = y.shape[-1]
    return torch.stack([(y[..., (i + 1) % D] ** 2 + y[..., i] + x[..., i % x.shape[-1]]) / 4 for i in range(D)], -1)


def d_square(y, x):
    D = y.shape[-1]
    J = torch.zeros(y.shape + (D,), dtype=y.dtype)
    for i in range(D):
        J[..., i, (i + 1) % D] += y[..., (i + 1) % D] / 2
        J[..., i, i] += 1 / 4
    return J


def gain(y, x):
    """Affine in y with a slope that is the input."""
    return x * y / 2 + x


def d_gain(y, x):
    return x / 2 + 0 * y


def mix(y, x):
    """Affine and coupled by the input."""
    D = y.shape[-1]
    return torch.stack([x[..., i] * y[..., (i + 1) % D] + y[..., i] / 4 - x[..., (i + 1) % D] for i in range(D)], -1)


def d_mix(y, x):
    D = y.shape[-1]
    J = torch.zeros(y.shape + (D,), dtype=y.dtype)
    for i in range(D):
        J[..., i, (i + 1) % D] += x[..., i]
        J[..., i, i] += 1 / 4
    return J


def diag(f):
    return lambda y, x: torch.diag_embed(f(y, x))


FUNCS = {"affine": (affine, diag(d_affine), True), "release": (release, diag(d_release), False), "quad": (quad, diag(d_quad), False),
         "coupled": (coupled, d_coupled, True), "gain": (gain, diag(d_gain), True), "mix": (mix, d_mix, True),
          "square": (square, d_square, False)}


def run(ctx, name, L, D, al):
    f, df, lin = FUNCS[name]
    g = resolve("prototype.nl.newton_solve")
    xs = product_rows(L, al) if L < 9 else dense(L, 4, al)
    if len(xs) > 90:
        xs = np.concatenate([xs[::len(xs) // 80], dense(L, 5)])
    x, init = cross(xs, np.array([[v] for v in al]))
    R = len(x)
    x = np.stack([np.roll(x, k, 1) for k in range(D)], -1) if D > 1 else x[..., None]
    init = np.concatenate([init + k for k in range(D)], 1)
    x, init = T(x), T(init)
    y, h = [], init
    for n in range(L):
        ctx.add("states", len(torch.unique(h, dim=0)))
        ctx.add("transitions", R)
        h = f(h[:, None], x[:, n:n + 1])[:, 0]
        y.append(h)
    y = torch.stack(y, 1)
    guesses = {"zero": torch.zeros_like(y), "dense": T(dense(L * D, R)).reshape(R, L, D), "solution": y.clone()}
    ctx.sample(f"{name} x={x[-1].tolist()} init={init[-1].tolist()}")
    for (gn, y0), it, fp, uf, B in itertools.product(guesses.items(), range(1, L) if L < 9 else (1, 2, 7), (False, True), (1, 2, None), (R, 1, 2)):
        if B != R and (gn != "dense" or uf is None):
            continue
        kw = dict(max_iter=it, fprime=df if fp else None, atol=0.0 if it % 2 else 1e-6, rtol=0.0 if it % 2 else 1e-6)
        if uf != 1:
            kw["unroll_factor"] = uf
        xb, yb, ib, e = x[-B:], y0[-B:], init[-B:], y[-B:]
        keep = [t.clone() for t in (xb, yb, ib)]
        r, err = ctx.call(g, f, xb, yb, ib, **kw)
        ctx.add("traces_validated_against_impl", B)
        what = f"newton_solve({name}, L={L}, D={D}, start {gn}, max_iter={it}, fprime={'given' if fp else 'autograd'}, unroll_factor={uf}, B={B})"
        if err or not isinstance(r, tuple) or len(r) != 2 or r[0].shape != e.shape:
            ctx.violation(f"{what}: {err or short(r)}", dict(x=enc(xb), y0=enc(yb), init=enc(ib)))
            continue
        got, k = r[0].detach(), r[1]
        scale = max(1.0, float(e.abs().max()))
        bad = None
        if not (isinstance(k, int) and 1 <= k <= it):
            bad = f"number of iterations {k}"
        elif not float((got[:, :k] - e[:, :k]).abs().max()) <= 1e-12 * scale:
            bad = f"samples 0..{k - 1}, settled after {k} iterations, differ from the recursion"
        elif (lin or gn == "solution") and not float((got - e).abs().max()) <= 1e-9 * scale:
            bad = f"differs from the recursion by {float((got - e).abs().max())}" + (", which is affine" if lin else ", started at the solution")
        elif k < it and not float((f(torch.cat([ib[:, None], got[:, :-1]], 1), xb) - got).abs().max()) <= 1e-3 * scale:
            bad = f"stopped after {k} iterations although the recursion does not hold"
        elif gn == "solution" and it % 2 == 0 and k != 1:
            bad = f"took {k} iterations from the solution"
        elif not all(torch.equal(u, v) for u, v in zip(keep, (xb, yb, ib))):
            bad = "an operand was modified"
        if bad:
            ctx.violation(f"{what}: {bad}", dict(x=enc(xb), y0=enc(yb), init=enc(ib), got=enc(got), expected=enc(e)))


def plan(tier):
    t = []
    for name, L, D in itertools.product(FUNCS, range(2, 6 if tier == "quick" else 8), (1, 2, 3)):
        if D == 1 and name in ("coupled", "square", "mix"):
            continue
        t.append(("newton", run, dict(name=name, L=L, D=D, al=(-1, 0, 2))))
    for name, L, D in (("affine", 40, 2), ("release", 70, 1), ("release", 33, 3), ("coupled", 40, 3), ("quad", 40, 1), ("affine", 120, 1)):
        t.append(("large", run, dict(name=name, L=L, D=D, al=(-1, 0, 2) if L < 50 else (-1, 1))))
    return t

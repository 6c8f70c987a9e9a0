"""C21: the Helion kernels, run by Helion's interpreter under a controlled scheduler of their tiles: every block size of every tiled loop, every
order of the concurrent programs of the outer loop; against the state machine and its derivatives."""
import itertools

import numpy as np
import torch

from . import dcases, ref
from .c06 import run as derivatives
from .c15 import embed
from .core import differs, enc, resolve
from .ref import T, cross, rows

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler of the tiled loops: all block sizes of all tiled loops x all orders of the concurrent outer tiles, executed on the real "
             "kernels; explicit-state enumeration of the state-vector machine; exhaustive masks and output basis vectors for the gradients")
NOTE = ("The kernels run in Helion's reference interpreter (there is no GPU), whose tiled loops are replaced by a scheduler that chooses the block sizes "
        "(any, not only powers of two) and the order of the outer tiles; the inner loops keep their order, as in the compiled kernels. Outer tiles write "
        "disjoint rows (checked), so permutations of whole tiles represent their interleavings.")
RULE = ("one schedule = (operator, sizes, block size of the outer loop, block size of the inner loop, order of the outer tiles); state = (time, state vector, "
        "matrices), transition = h -> A h + x; every trace of the machine is one batch row of a call")
BOUNDS = {
    "quick": "B 1..4, N 1..4, M 1..4 with all block sizes up to the loop's length and all orders of the outer tiles; all traces of the state machine for M up "
             "to 3 and N up to 5 over small alphabets; gradients: B 1..3, N 1..3, M 1..3, all masks, all output basis vectors, two schedules; sizes up to "
             "B = 70, M = 33, N = 40; operands in four memory layouts; single and double precision",
    "thorough": "B 1..5, N 1..6, M 1..5; gradients for B 1..3, N 1..5, M 1..4",
}
ASSUMPTIONS = ["Helion's interpreter (HELION_INTERPRET=1) executes the body of a kernel as the compiled code would, except for the choice and order of tiles",
               "values are small integers: float rounding is outside of the model"]
OPS = ("hl_lti_recurN", "hl_recurN")


class Schedule:
    """Chooses the block sizes (outer loop, inner loops) and the order of the outer tiles."""

    def __init__(self, outer=None, inner=None, order=None):
        self.outer, self.inner, self.order, self.tiles, self.depth, self.count = outer, inner, order, 0, 0, 0

    def __enter__(self):
        import helion.language as hl
        self.api, self.orig = hl.tile, hl.tile._ref_fn
        hl.tile._ref_fn = self.loop
        return self

    def __exit__(self, *a):
        self.api._ref_fn = self.orig

    def loop(self, begin, end=None, block=None):
        first = self.depth == 0
        if block is None:
            block = self.outer if first else self.inner
            n = begin if end is None else (end - begin if isinstance(begin, int) and isinstance(end, int) else None)
            if block is not None and isinstance(n, int) and n < 1:
                block = None
        tiles = list(self.orig(begin, end, block))
        if first:
            self.tiles = len(tiles)
            if self.order is not None and len(tiles) == len(self.order):
                tiles = [tiles[i] for i in self.order]
        self.depth += 1
        try:
            for t in tiles:
                self.count += 1
                yield t
        finally:
            self.depth -= 1


def shapes_of(op, B, N, M):
    n = (N,) if op == "hl_recurN" else ()
    return [n + (M, M), (B,) + n + (M, M)]


def expected(op, A, zi, x, ctx=None):
    B, N, M = x.shape
    if op == "hl_recurN":
        Af = A if A.ndim == 4 else np.repeat(A[None], B, 0)
    else:
        Af = np.repeat((A if A.ndim == 3 else np.repeat(A[None], B, 0))[:, None], N, 1)
    return ref.recursion(Af, zi, x, ctx)


def one(ctx, op, A, zi, x, want, note, sched=None):
    ops = [A, zi, x]
    keep = [v.clone() for v in ops]
    f = resolve(op)
    s = sched or Schedule()
    with s:
        r, err = ctx.call(f, *ops)
    ctx.add("transitions", s.count)
    d = err or differs(want, r) or next((f"operand {n} was modified" for n, v, k in zip(("A", "zi", "x"), ops, keep) if not torch.equal(v, k)), None)
    if d:
        ctx.violation(f"{op} {note}: {d}", dict(A=enc(A), zi=enc(zi), x=enc(x)))
        return False
    return True


def schedules(ctx, op, B, Ns, Ms, dts):
    n = 0
    for N, M, k, dt in itertools.product(Ns, Ms, (0, 1), dts):
        dt = getattr(torch, dt)
        for sh in shapes_of(op, B, N, M):
            A, zi, x = dcases.arr(sh, k, False, True), dcases.arr((B, M), k + 1, False), dcases.arr((B, N, M), k + 2, False)
            want = T(expected(op, A, zi, x, ctx)).to(dt)
            for outer, inner in itertools.product(range(1, B + 1), range(1, M + 1)):
                tiles = -(-B // outer)
                for order in itertools.permutations(range(tiles)):
                    n += 1
                    ctx.case((op, sh, B, N, M, k, str(dt), outer, inner, order))
                    ctx.add("schedules")
                    if not one(ctx, op, T(A).to(dt), T(zi).to(dt), T(x).to(dt), want, f"A={sh} B={B} N={N} M={M} {dt} with tiles of {outer} rows and {inner} "
                               f"states, outer tiles in order {order}", Schedule(outer, inner, order)):
                        return
    ctx.sample(f"{op} B={B}: {n} schedules, the last one A={sh} outer {outer} inner {inner} order {order}")


def traces(ctx, op, M, Ns, cap):
    """All traces of the recursion over an alphabet, batched A; a selection with a shared A."""
    al = (0, 1, -1, 2)
    lpv = op == "hl_recurN"
    for N in Ns:
        As, xs, zs = rows((N if lpv else 1) * M * M, al, 200, 2, 3), rows(N * M, al[:3], cap, 1, 2), rows(M, al[:3], 9, 1, 1)
        A, x, zi = ref.same(False, *cross(As, xs, zs))
        R = len(A)
        A, x = A.reshape((R, N, M, M) if lpv else (R, M, M)), x.reshape(R, N, M)
        want = expected(op, A, zi, x, ctx)
        if not ref.exact(want):
            continue
        ctx.add("traces_validated_against_impl", R)
        ctx.case((op, M, N), n=R)
        for sched in (Schedule(), Schedule(5, 1), Schedule(64, 2)):
            one(ctx, op, T(A), T(zi), T(x), T(want), f"traces of M={M} N={N}", sched)
        for r in range(0, R, max(1, R // 30)):
            a0, x0, z0 = A[r], x[r % 7::max(1, R // 6)][:6], zi[r % 5::max(1, R // 6)][:6]
            k = min(len(x0), len(z0))
            x0, z0 = x0[:k], z0[:k]
            want = expected(op, a0, z0, x0)
            ctx.case((op, M, N, r, "shared"))
            if ref.exact(want) and not one(ctx, op, T(a0), T(z0), T(x0), T(want), f"shared A, traces of M={M} N={N}", Schedule(2, 2)):
                return


def gradients(ctx, op, Bs, Ns, Ms, sched):
    """All masks, all output basis vectors, exactly."""
    cases = dcases.native([op], Bs, Ns, Ms, False, (0, 1))
    with Schedule(*sched) as s:
        derivatives(ctx, cases)
    ctx.add("transitions", s.count)


def layouts(ctx, op):
    for B, N, M in ((1, 1, 1), (3, 4, 3), (2, 5, 2), (4, 1, 5), (1, 3, 4)):
        for sh in shapes_of(op, B, N, M):
            A, zi, x = dcases.arr(sh, 0, False, True), dcases.arr((B, M), 1, False), dcases.arr((B, N, M), 2, False)
            want = T(expected(op, A, zi, x))
            base = [T(A), T(zi), T(x)]
            for ls in itertools.product((None, "transposed", "strided", "offset"), repeat=3):
                ops = [v if l is None else embed(v, l)[0] for v, l in zip(base, ls)]
                ctx.case((op, sh, B, N, M, ls))
                if not one(ctx, op, *ops, want, f"A={sh} B={B} N={N} M={M} operands {ls}"):
                    return
            for i, d in ((i, d) for i, v in enumerate(base) for d in range(v.dim())):
                ops = list(base)
                ops[i] = ops[i].narrow(d, 0, 1).expand(base[i].shape)
                w = T(expected(op, *[v.contiguous().numpy() for v in ops]))
                ctx.case((op, sh, B, N, M, i, d))
                if not one(ctx, op, *ops, w, f"A={sh} B={B} N={N} M={M} operand {i} expanded along {d}"):
                    return


def large(ctx, op):
    for B, N, M in ((70, 3, 5), (33, 2, 9), (2, 3, 33), (17, 40, 2), (1, 40, 3), (65, 2, 17), (5, 33, 4)):
        for sh, dt in itertools.product(shapes_of(op, B, N, M), (torch.double, torch.float)):
            A = np.zeros(sh)  # a signed permutation in each matrix: values stay small however long the recursion
            p = dcases.arr(sh, 0, False, True)
            for i in range(M):
                A[..., i, (i * 2 + 1) % M if M % 2 else (i + 1) % M] = np.sign(p[..., i, 0]) + (p[..., i, 0] == 0)
            zi, x = dcases.arr((B, M), 1, False), dcases.arr((B, N, M), 2, False)
            want = expected(op, A, zi, x)
            assert ref.exact(want)
            for sched in ((None, None), (16, 16), (32, 4), (1, 32)):
                ctx.case((op, sh, B, N, M, str(dt), sched))
                ctx.add("schedules")
                if not one(ctx, op, T(A).to(dt), T(zi).to(dt), T(x).to(dt), T(want).to(dt), f"A={sh} B={B} N={N} M={M} {dt} tiles {sched}", Schedule(*sched)):
                    return


def plan(tier):
    q = tier == "quick"
    t = []
    for op in OPS:
        for B in (range(1, 5) if q else range(1, 6)):
            for M in (range(1, 5) if q else range(1, 6)):
                t.append(("schedules", schedules, dict(op=op, B=B, Ns=list(range(1, 5 if q else 7)), Ms=[M], dts=["double", "float"])))
        for M in (1, 2, 3):
            t.append(("traces", traces, dict(op=op, M=M, Ns=[1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 6, 7], cap=12 if q else 40)))
        for B in (1, 2, 3):
            for sched in ((None, None), (1, 2)):
                t.append(("gradients", gradients, dict(op=op, Bs=[B], Ns=[1, 2, 3] if q else [1, 2, 3, 4, 5], Ms=[1, 2, 3] if q else [1, 2, 3, 4], sched=sched)))
        t.append(("layouts", layouts, dict(op=op)))
        t.append(("large", large, dict(op=op)))
    return t

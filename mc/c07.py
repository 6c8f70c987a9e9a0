"""C07: forward-mode derivatives for every subset of operands with tangents, and second derivatives of every pair of operands."""
import itertools

import torch
import torch.autograd.forward_ad as fwAD

from . import dcases
from .c06 import big_cases, grads
from .core import enc, differs
from .ref import T

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of tangent masks, tangent basis vectors and coordinates of second derivatives on the real code"
NOTE = ("Every subset of operands with tangents x every tangent basis vector, and every coordinate of the gradient differentiated "
        "again, for every instance in the bounds, compared with == to the derivatives of the sample-by-sample reference machine.")
RULE = ("a case is (function, layouts, sizes, mode, mask, direction); it is non-trivial when the reference derivative is not all "
        "zero; distinct by all of these together")
BOUNDS = {
    "quick": "B 1..2, N 1..4, M 1..3, filter orders 0..3, delays 1..3, real and complex, shared and batched, unroll factors default, 1, 2 (lfilter: 1); "
             "some larger sizes (M up to 8, N up to 50, orders up to 7, delays 11 and 64)",
    "thorough": "B 1..3, N 1..5, M 1..4, filter orders 0..4, delays 1..5, three data patterns",
}
ASSUMPTIONS = ["torch's derivatives of elementary operations (+, *, sum, stack, index) in the reference machine",
               "values are small (Gaussian) integers: float rounding is outside of the model"]


def dense_like(v, k):
    return T(dcases.arr(tuple(v.shape), k, v.is_complex())).to(v.dtype)


def jvp(f, base, tangents):
    with fwAD.dual_level():
        out = f(**{k: fwAD.make_dual(v, tangents[k]) if k in tangents else v for k, v in base.items()})
        res = []
        for o in out:
            p, t = fwAD.unpack_dual(o)
            res.append(torch.zeros_like(p) if t is None else t.clone())
        return res


def forward_mode(ctx, c, base, few=False):
    names = list(base)
    if few:
        big = max(float(v.abs().max()) for v in jvp(c.rf, base, {k: dense_like(v, i + 3) for i, (k, v) in enumerate(base.items())}))
        if big > 2 ** 50:
            ctx.sample(f"{c.name}: too large to be exact")
            return
    for r in range(1, len(names) + 1):
        if few and 1 < r < len(names):
            continue
        if r not in (1, 2, len(names)) and len(names) > 4 and ctx.tier == "quick":
            continue  # pairs, single operands and all together (thorough: every subset)
        for mask in itertools.combinations(names, r):
            dirs = [("dense", {k: dense_like(base[k], i + 3) for i, k in enumerate(mask)})]
            dirs.append(("strided", {k: (dense_like(base[k], i + 1).mT.contiguous().mT if base[k].dim() > 1 else
                                         torch.ones((), dtype=base[k].dtype).expand(base[k].shape)) for i, k in enumerate(mask)}))
            if r == 1:
                for j in range(base[mask[0]].numel()):
                    if few and 0 < j < base[mask[0]].numel() - 1:
                        continue
                    t = torch.zeros(base[mask[0]].shape, dtype=base[mask[0]].dtype)
                    t.view(-1)[j] = 1 + 2j if t.is_complex() else 1
                    dirs.append((f"basis {j}", {mask[0]: t}))
            for lab, t in dirs:
                exp = jvp(c.rf, base, t)
                got, err = ctx.call(jvp, c.fn, base, t)
                ctx.case((c.name, "jvp", mask, lab, base["x"].is_complex()), any(bool(e.any()) for e in exp))
                d = f"raised {err}" if err else differs(exp, got)
                if d:
                    ctx.violation(f"{c.name}: jvp with tangents of {mask} ({lab}): {d}",
                                  dict(ops=enc(base), tangents=enc(t), expected=enc(exp), got=enc(got)))
                    return


def second(f, base, mask, need_basis):
    ins = {k: v.clone().requires_grad_(k in mask) for k, v in base.items()}
    out = f(**ins)
    gs = [dense_like(o, i).requires_grad_() for i, o in enumerate(out)]
    live = [(o, g) for o, g in zip(out, gs) if o.requires_grad]
    if not live:
        return None
    leaves = [ins[k] for k in mask]
    g1 = torch.autograd.grad([o for o, _ in live], leaves, [g for _, g in live], create_graph=True, allow_unused=True)
    res = []
    for i, g in enumerate(g1):
        if g is None or not g.requires_grad:
            continue
        dirs = [dense_like(g, 7)]
        if need_basis:
            for j in range(g.numel()):
                if need_basis == "few" and 0 < j < g.numel() - 1:
                    continue
                e = torch.zeros(g.shape, dtype=g.dtype)
                e.view(-1)[j] = 1 + 2j if e.is_complex() else 1
                dirs.append(e)
        for e in dirs:
            res.append((i, grads([g], [e], leaves + gs)))
    return res


def second_order(ctx, c, base, few=False):
    names = list(base)
    basis = "few" if few else True
    if few and max([float(w.abs().max()) for _, v in second(c.rf, base, names, False) or [] for w in v] or [0]) > 2 ** 50:
        ctx.sample(f"{c.name}: too large to be exact")
        return
    for r in range(1, len(names) + 1):
        if few and 1 < r < len(names):
            continue
        if r not in (1, 2, len(names)) and len(names) > 4 and ctx.tier == "quick":
            continue  # pairs, single operands and all together (thorough: every subset)
        for mask in itertools.combinations(names, r):
            # operands of which nothing depends on the gradient are compared as zero
            exp = second(c.rf, base, mask, basis if r in (1, len(names)) else False)
            got, err = ctx.call(second, c.fn, base, mask, basis if r in (1, len(names)) else False)
            exp = exp or []
            if err:
                d = f"raised {err}"
            else:
                # a gradient that does not depend on anything may be missing in one of them if it is zero in the other
                ge, gg = {}, {}
                for dst, src in ((ge, exp), (gg, got or [])):
                    n = {}
                    for i, v in src:
                        dst[i, n.get(i, 0)] = v
                        n[i] = n.get(i, 0) + 1
                d = None
                for k in sorted(set(ge) | set(gg)):
                    e, g = ge.get(k), gg.get(k)
                    if e is None or g is None:
                        if any(bool(v.any()) for v in (e or g)):
                            d = f"derivative {k}: one of them does not exist"
                    else:
                        d = differs(e, g)
                        if d:
                            d = f"derivative of the gradient of {mask[k[0]]}, direction {k[1]}: {d}"
                    if d:
                        break
            for i, v in exp:
                ctx.case(None)
            for n_, (i, v) in enumerate(exp):
                if any(bool(w.any()) for w in v):
                    ctx.distinct.add(hash((c.name, "second", mask, n_, base["x"].is_complex())))
            if d:
                ctx.violation(f"{c.name}: double backward of {mask}: {d}", dict(ops=enc(base), mask=list(mask)))
                return


def run(ctx, cases, fwd=True, sec=True, few=False):
    for c in cases:
        base = {k: T(v) for k, v in c.ops.items()}
        if fwd and (not few or "." in str(c.api) or callable(c.api)):
            forward_mode(ctx, c, base, few)
        if sec:
            second_order(ctx, c, base, few)
        ctx.add("instances")
        ctx.sample(c.name)


def plan(tier):
    big = tier == "thorough"
    Bs, Ns, Ms = ((1, 2, 3), (1, 2, 3, 4, 5), (1, 2, 3, 4)) if big else ((1, 2), (1, 2, 4), (1, 2, 3))
    offs = (0, 1, 2) if big else (0,)
    orders = list(itertools.product(range(1, 5), range(0, 4))) if big else [(2, 0), (1, 2), (3, 1)]
    t = []
    for cplx in (False, True):
        for op in ("recur2", "recurN", "lti_recur2", "lti_recurN", "lti_recur", "lti.recur.LTIRecurrence"):
            t.append((f"op {op}", tnative, dict(op=op, Bs=Bs, Ns=Ns, Ms=Ms, cplx=cplx, offs=offs)))
        for lpv in (False, True):
            for B in Bs:
                t.append(("linear_recurrence", trecur, dict(lpv=lpv, B=B, Ns=Ns, ufs=(1, 2, 3), cplx=cplx, offs=offs)))
            for B, uf, M in itertools.product(Bs, (1, 2) if not big else (None, 1, 2, 3), Ms):
                t.append(("state_space", tspace, dict(lpv=lpv, B=B, Ns=Ns if big else (3,) if uf != 1 else (1, 3) if B == 2 else (2,), M=M, uf=uf, cplx=cplx, offs=offs)))
            for o in orders:
                t.append(("lfilter", tfilter, dict(lpv=lpv, Bs=Bs if big else (2,), Ns=Ns if big else (1, 3), o=o, cplx=cplx, offs=offs, ufs=(1, None) if big else (1,))))
            t.append(("fir", tfir, dict(lpv=lpv, Bs=Bs, Ns=Ns if big else (1, 3), orders=(0, 1, 2) if not big else (0, 1, 2, 3, 4), cplx=cplx, offs=offs)))
        for d in (1, 2, 3) + ((4, 5) if big else ()):
            t.append(("comb_filter", tcomb, dict(Bs=Bs if big else (2,), Ns=(1, 3) if not big else (1, 2, 3, 5, 6), d=d,
                                                 ufs=(None, 2), cplx=cplx, offs=offs)))
    for cplx, lpv, what in itertools.product((False, True), (False, True), ("op", "recurrence", "space", "filter", "rest")):
        t.append((f"large {what}", large, dict(what=what, lpv=lpv, cplx=cplx)))
    return t


def large(ctx, what, lpv, cplx):
    """Some sizes well beyond the exhaustive ones."""
    for i, c in enumerate(big_cases(what, lpv, cplx)):
        if ctx.tier == "thorough" or what not in ("filter", "space") or i % 3 == 0:
            run(ctx, [c], few=True)


def tnative(ctx, op, Bs, Ns, Ms, cplx, offs):
    run(ctx, dcases.native([op], Bs, Ns, Ms, cplx, offs), fwd="." in op)


def trecur(ctx, lpv, B, Ns, ufs, cplx, offs):
    run(ctx, dcases.recurrences(lpv, [B], Ns, ufs, cplx, offs))


def tspace(ctx, lpv, B, Ns, M, uf, cplx, offs):
    run(ctx, dcases.spaces(lpv, [B], Ns, [M], [uf], cplx, offs, rich=True))


def tfilter(ctx, lpv, Bs, Ns, o, cplx, offs, ufs):
    run(ctx, dcases.filters(lpv, Bs, Ns, [o], cplx, offs, ufs=ufs))


def tfir(ctx, lpv, Bs, Ns, orders, cplx, offs):
    run(ctx, dcases.firs(lpv, Bs, Ns, orders, cplx, offs))


def tcomb(ctx, Bs, Ns, d, ufs, cplx, offs):
    run(ctx, dcases.combs(Bs, Ns, [d], ufs, cplx, offs))

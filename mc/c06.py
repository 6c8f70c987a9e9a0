"""C06: reverse-mode derivatives, for every subset of operands that require them, all output basis vectors, exactly."""
import itertools

import torch

from . import api, dcases
from .c15 import w
from .core import enc, differs
from .ref import T

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of requires-grad masks, output-gradient basis vectors, layouts and small instances on the real code"
NOTE = ("Every mask x every output basis vector (and dense, expanded and strided output gradients) of every instance in the bounds, "
        "compared with == to the derivative of the sample-by-sample reference machine. Not a proof for larger sizes: values and "
        "sizes are bounded.")
RULE = ("a case is (function, layouts, sizes, data pattern, mask of operands requiring grad, output gradient); it is non-trivial "
        "when the reference gradient is not all zero; distinct by all of these together")
BOUNDS = {
    "quick": "B 1..3, N 1..4, M 1..4, filter orders 0..3, delays 1..4, real and complex, shared and batched, unroll factors default, 1, 2, 3; "
             "and the functions without an exact reference (diagonal form, filtfilt, initial states, splines, matrix and polynomial helpers) at 3 tuples of "
             "sizes against difference quotients of order 4 in every coordinate; exact ones also at some larger sizes (M up to 8, N up to 50, orders up to 7, "
             "delays 11 and 64) with single operands, pairs and all of them",
    "thorough": "B 1..4, N 1..6, M 1..5, filter orders 0..5, delays 1..6, three data patterns",
}
ASSUMPTIONS = ["torch's derivatives of elementary operations (+, *, sum, stack, index) in the reference machine",
               "values are small (Gaussian) integers: float rounding is outside of the model"]


def grads(outs, gs, ins, retain=True):
    g = torch.autograd.grad(outs, ins, gs, retain_graph=retain, allow_unused=True)
    return [torch.zeros_like(i) if v is None else v for v, i in zip(g, ins)]


def cotangents(outs, full, few=False):
    """Dense one first; then every basis vector (few: the first and the last two of each output), an expanded and a strided one."""
    def dn(o, k):
        return T(dcases.arr(tuple(o.shape), k, o.is_complex())).to(o.dtype)
    yield "dense", [dn(o, k) for k, o in enumerate(outs)]
    if not full:
        return
    yield "expanded", [torch.ones((), dtype=o.dtype).expand(o.shape) for o in outs]
    if all(o.dim() >= 2 for o in outs):
        yield "transposed", [dn(o, k + 2).transpose(0, 1).contiguous().transpose(0, 1) for k, o in enumerate(outs)]
    for i, o in enumerate(outs):
        for j in range(o.numel()):
            if few and 0 < j < o.numel() - 2:
                continue
            for v in ((1 + 2j,) if o.is_complex() else (1,)):
                g = [torch.zeros(p.shape, dtype=p.dtype) for p in outs]
                g[i].view(-1)[j] = v
                yield f"basis {v} at {j} of output {i}", g


def big_cases(what, lpv, cplx):
    """A few instances with sizes well beyond the exhaustive ones."""
    mod = "lpv" if lpv else "lti"
    if what == "op":
        for op in (("recurN",) if lpv else ("lti_recurN",)):
            yield from dcases.native([op], [3], [11], [5, 8], cplx)
        yield from dcases.native(["recur2" if lpv else "lti_recur2"], [2], [33], [2], cplx)
        if not lpv:
            yield from dcases.native(["lti_recur", "lti.recur.LTIRecurrence"], [9], [40], [1], cplx)
    elif what == "recurrence":
        yield from dcases.recurrences(lpv, [7], [37], (1, 6), cplx)
    elif what == "space":
        yield from dcases.spaces(lpv, [2], [13], [5], (None, 1, 4), cplx)
        yield from dcases.spaces(lpv, [1], [26], [2], (None, 5), cplx)
    elif what == "filter":
        yield from dcases.filters(lpv, [2], [17], [(4, 6)], cplx)
        yield from dcases.filters(lpv, [3], [9], [(8, 1)], cplx)
    else:
        yield from dcases.firs(lpv, [3], [12], (7,), cplx)
        if not lpv:
            yield from dcases.combs([2], [50], (11, 64), (None, 3), cplx)


def large(ctx, what, lpv, cplx):
    run(ctx, big_cases(what, lpv, cplx), True)


def run(ctx, cases, few=False):
    for c in cases:
        names = list(c.ops)
        base = {k: T(v) for k, v in c.ops.items()}
        rin = {k: v.clone().requires_grad_() for k, v in base.items()}
        rout = c.rf(**rin)
        if few and max(float(o.detach().abs().max()) for o in rout) > 2 ** 40:
            ctx.sample(f"{c.name}: too large to be exact")
            continue
        rg = {}
        for lab, g in cotangents(rout, True, few):
            live = [(o, w) for o, w in zip(rout, g) if o.requires_grad]
            rg[lab] = dict(zip(names, grads([o for o, _ in live], [w for _, w in live], list(rin.values())))) if live else \
                {k: torch.zeros_like(v) for k, v in rin.items()}
        if few and max(float(v.abs().max()) for d in rg.values() for v in d.values()) > 2 ** 50:
            ctx.sample(f"{c.name}: too large to be exact")
            continue
        ctx.add("instances")
        bad = False
        for r in range(1, len(names) + 1):
            if few and r not in (1, 2, len(names)):
                continue
            for mask in itertools.combinations(names, r):
                full = r == len(names) or r == 1
                cin = {k: v.clone().requires_grad_(k in mask) for k, v in base.items()}
                out, err = ctx.call(c.fn, **cin)
                if err or not isinstance(out, tuple):
                    ctx.violation(f"{c.name}: grad of {mask}: forward raised {err}", dict(ops=enc(base)))
                    bad = True
                    break
                d = differs(tuple(o.detach() for o in rout), tuple(out))
                if d:
                    ctx.violation(f"{c.name}: forward values with grad required for {mask}: {d}", dict(ops=enc(base)))
                    bad = True
                    break
                for lab, g in cotangents(out, full, few):
                    live = [(o, w) for o, w in zip(out, g) if o.requires_grad]
                    zero = all(not bool(rg[lab][k].any()) for k in mask)
                    if not live:
                        got, err = [torch.zeros_like(cin[k]) for k in mask], None
                    else:
                        got, err = ctx.call(grads, [o for o, _ in live], [w for _, w in live], [cin[k] for k in mask])
                    ctx.case((c.name, mask, lab, tuple(map(str, c.ops["x"].ravel()[:4]))), not zero)
                    d = f"raised {err}" if err else differs([rg[lab][k] for k in mask], got)
                    if d:
                        ctx.violation(f"{c.name}: gradient of {mask} for the {lab} output gradient: {d}",
                                      dict(ops=enc(base), mask=list(mask), output_gradient=enc(g)))
                        bad = True
                        break
                if bad:
                    break
            if bad:
                break
        ctx.sample(f"{c.name}: all {2 ** len(names) - 1} masks")


def plan(tier):
    big = tier == "thorough"
    Bs, Ns, Ms = ((1, 2, 3, 4), (1, 2, 3, 4, 5, 6), (1, 2, 3, 4, 5)) if big else ((1, 2, 3), (1, 2, 3, 4), (1, 2, 3))
    offs = (0, 1, 2) if big else (0,)
    orders = list(itertools.product(range(1, 6), range(0, 5))) if big else [(1, 1), (2, 0), (1, 2), (3, 1), (2, 3)]
    t = []
    for cplx in (False, True):
        for op in ("recur2", "recurN", "lti_recur2", "lti_recurN", "lti_recur", "lti.recur.LTIRecurrence"):
            for B in Bs:
                t.append((f"op {op}", tnative, dict(op=op, B=B, Ns=Ns, Ms=Ms, cplx=cplx, offs=(0, 1) if not big else offs)))
        for lpv in (False, True):
            for B in Bs:
                t.append(("linear_recurrence", trecur, dict(lpv=lpv, B=B, Ns=Ns, ufs=(1, 2, 3) if not big else (1, 2, 3, 4, 7), cplx=cplx, offs=offs)))
            for B, uf, M in itertools.product(Bs if big else (1, 2), (None, 1, 2) if not big else (None, 1, 2, 3), Ms):
                t.append(("state_space", tspace, dict(lpv=lpv, B=B, Ns=Ns if big else (1, 2, 3, 4), M=M, uf=uf, cplx=cplx, offs=offs)))
            for o in orders:
                t.append(("lfilter", tfilter, dict(lpv=lpv, Bs=Bs if big else (1, 2), Ns=Ns if big else (1, 3), o=o, cplx=cplx, offs=offs)))
            t.append(("fir", tfir, dict(lpv=lpv, Bs=Bs, Ns=Ns, orders=(0, 1, 2, 3) if not big else (0, 1, 2, 3, 4, 5), cplx=cplx, offs=offs)))
        for d in (1, 2, 3, 4) + ((5, 6) if big else ()):
            t.append(("comb_filter", tcomb, dict(Bs=Bs if big else (1, 2), Ns=(1, 2, 3, 5) if not big else (1, 2, 3, 5, 6, 7), d=d,
                                                 ufs=(None, 2), cplx=cplx, offs=offs)))
    for cplx, lpv, what in itertools.product((False, True), (False, True), ("op", "recurrence", "space", "filter", "rest")):
        t.append((f"large {what}", large, dict(what=what, lpv=lpv, cplx=cplx)))
    sizes = [api.SIZES, dict(B=2, N=3, M=3, F=2, P=4, K=2, J=3, D=3), dict(B=1, N=2, M=2, F=3, P=1, K=4, J=2, D=2)]
    if big:
        sizes += [dict(B=b, N=n, M=m, F=2, P=3, K=k, J=j, D=2) for b in (1, 3) for n in (2, 5) for m in (2, 4) for k, j in ((1, 1), (3, 3), (5, 2))]
    for z in sizes:
        for g in ("diagonal", "others", "helpers", "singles", "prototypes"):
            for cplx in (False, True):
                for part in range(4 if g == "diagonal" else 2):
                    t.append((f"differences {g}", differences, dict(sizes=z, group=g, cplx=cplx, part=part, parts=4 if g == "diagonal" else 2)))
    return t


H = 2 ** -10
# decided elsewhere (C24, C23), or defined for matching operands only
OTHER = ("prototype.nl.newton_solve", "prototype.poly.roots", "mat.find_eigenvectors")


def differences(ctx, sizes, group, cplx, part, parts):
    """The functions without an exact reference: every partial derivative against a difference quotient of order 4."""
    for i, c in enumerate(api.book(sizes, groups=[group], cplx=cplx)):
        if i % parts != part or c.name in OTHER:
            continue
        ops = {k: v.requires_grad_(True) for k, v in c.make().items()}
        r, err = ctx.call(lambda: [t for t in api.flatten(c.fn(**ops))])
        if err:
            ctx.violation(f"{c.key} at {sizes}: {err}")
            continue
        live = [t for t in r if t.requires_grad]
        if not live:
            continue
        mask = [t.requires_grad for t in r]

        def f(o):
            return sum((t.conj() * w(t)).real.sum() if t.is_complex() else (t * w(t)).sum()
                       for t, m in zip(api.flatten(c.fn(**o)), mask) if m)
        g, err = ctx.call(torch.autograd.grad, live, list(ops.values()), [w(t) for t in live], allow_unused=True)
        if err:
            ctx.violation(f"{c.key} at {sizes}: gradient: {err}")
            continue
        for (k, v), gk in zip(c.ops.items(), g):
            exp = torch.zeros_like(v)
            for j in range(v.numel()):
                for dirn in (1, 1j) if v.is_complex() else (1,):
                    def at(h):
                        o = c.make()
                        o[k].view(-1)[j] += h * dirn
                        return f(o)
                    d = (8 * (at(H) - at(-H)) - (at(2 * H) - at(-2 * H))) / (12 * H)
                    exp.view(-1)[j] += d * dirn
                    ctx.case((c.key, str(sizes), cplx, k, j, dirn), bool(d))
            bad = differs(exp, torch.zeros_like(v) if gk is None else gk, 1e-5)
            if bad:
                ctx.violation(f"{c.key} at {sizes}: gradient with respect to {k}: {bad}", dict(ops=enc(c.ops)))
    ctx.sample(f"{group} {sizes}: difference quotients")


def tnative(ctx, op, B, Ns, Ms, cplx, offs):
    run(ctx, dcases.native([op], [B], Ns, Ms, cplx, offs))


def trecur(ctx, lpv, B, Ns, ufs, cplx, offs):
    run(ctx, dcases.recurrences(lpv, [B], Ns, ufs, cplx, offs))


def tspace(ctx, lpv, B, Ns, M, uf, cplx, offs):
    run(ctx, dcases.spaces(lpv, [B], Ns, [M], [uf], cplx, offs, rich=True))


def tfilter(ctx, lpv, Bs, Ns, o, cplx, offs):
    run(ctx, dcases.filters(lpv, Bs, Ns, [o], cplx, offs))


def tfir(ctx, lpv, Bs, Ns, orders, cplx, offs):
    run(ctx, dcases.firs(lpv, Bs, Ns, orders, cplx, offs))


def tcomb(ctx, Bs, Ns, d, ufs, cplx, offs):
    run(ctx, dcases.combs(Bs, Ns, [d], ufs, cplx, offs))

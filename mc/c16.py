"""C16: batch rows are independent of each other, shared operands mean repeated ones, and the memory layout of operands does not matter."""
import itertools

import torch

from . import api
from .c15 import diffable, embed, tol, w
from .core import differs, enc

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of row selections (all index tuples), of shared against repeated operands, and of memory layouts of the "
             "operands, each executed on the code and compared with the code's own answer for the plain form")
NOTE = ("The oracle is the function itself on one row, with repeated operands, or with contiguous copies; results of additions and products of small "
        "integers are compared exactly. Sizes are chosen so that a selection of rows never creates another reading of a shape.")
RULE = "one case = (function and operand layout, sizes, row selection | shared operand | assignment of memory layouts, values or gradients)"
SIZES = [dict(B=3, N=7, M=2, F=5, P=6, K=4, J=2, D=5), dict(B=3, N=5, M=4, F=6, P=7, K=2, J=4, D=4), dict(B=3, N=4, M=5, F=6, P=7, K=5, J=4, D=6)]
LAYOUTS = ("transposed", "strided", "offset", "negated", "conjugated", "expanded")
BOUNDS = {
    "quick": "about 700 calls of all public functions, 3 tuples of sizes, real and complex; all index tuples of length 1 to 3 over three rows, and "
             "batches of 5, 8, 17, 64 and 200 rows; every shared operand repeated; all assignments of six memory layouts to one or two operands and "
             "to all operands at once; five layouts of the output gradient",
    "thorough": "also index tuples of length 4, and all assignments of layouts to three operands",
}
ASSUMPTIONS = ["results that involve eigenvalues, solve or the spline filter are compared to 1e-9"]
TUPLES = [t for n in (1, 2, 3) for t in itertools.product(range(3), repeat=n)]
LONG = [tuple((i * i + i // 3) % 3 for i in range(n)) for n in (5, 8, 17, 64, 200)]


def grad_of(c, ops, ws):
    ops = {k: v.clone().requires_grad_(True) for k, v in ops.items()}
    r = [t for t in api.flatten(c.fn(**ops))]
    rr = [(t, x) for t, x in zip(r, ws) if t.requires_grad]
    if not rr:
        return {}
    g = torch.autograd.grad([t for t, _ in rr], list(ops.values()), [x for _, x in rr], allow_unused=True)
    return {k: v for k, v in zip(ops, g) if v is not None}


def rows(ctx, sizes, cplx, part, parts, big):
    tuples = TUPLES + LONG + ([t for t in itertools.product(range(3), repeat=4)] if big else [])
    for i, c in enumerate(api.book(sizes, cplx=cplx)):
        if i % parts != part or not c.rows or not c.bat:
            continue
        full = c.make()
        ref, err = ctx.call(c, full)
        if err:
            ctx.violation(f"{c.key}: {err}")
            continue
        ref = [t.clone() for t in api.flatten(ref)]
        ws = [w(t) for t in ref]
        g0, gerr = ctx.call(grad_of, c, full, ws)
        for t in tuples:
            idx = list(t)
            sub = {k: v[idx] if k in c.bat else v for k, v in full.items()}
            r, err = ctx.call(c, sub)
            ctx.case((c.key, str(sizes), cplx, t))
            d = err or differs([z[idx] for z in ref], [z for z in api.flatten(r)], tol(c))
            if d:
                ctx.violation(f"{c.key} at {sizes}: rows {t if len(t) < 9 else len(t)} of the batch differ from the selection of the full result: {d}",
                              dict(ops=enc(sub)))
                break
            if gerr is None and (len(t) < 3 or len(t) > 3 and len(t) < 20 or sum(t) % 3 == 0):
                g, err = ctx.call(grad_of, c, sub, [x[idx] for x in ws])
                ctx.case((c.key, str(sizes), cplx, t, "grad"))
                d = err or next((f"operand {k}: {e}" for k in g if k in c.bat and k in g0 for e in [differs(g0[k][idx], g[k], tol(c))] if e), None)
                if d:
                    ctx.violation(f"{c.key} at {sizes}: gradients of rows {t if len(t) < 9 else len(t)} differ from the selection of the gradients of the "
                                  f"full batch: {d}")
                    break
    ctx.sample(f"{c.key} rows {tuples[-1][:8]}")


def shared(ctx, sizes, cplx):
    calls = {c.key: c for c in api.book(sizes, cplx=cplx)}
    for c in calls.values():
        for o, label in c.labels.items():
            if label.startswith("B") or label == "1":
                continue
            twin = calls.get(c.key.replace(f"{o}={label}", f"{o}=B{label}", 1))
            if twin is None or not c.rows:
                continue
            ops = c.make()
            rep = dict(ops, **{o: ops[o].expand((sizes["B"],) + ops[o].shape).clone()})
            r1, e1 = ctx.call(c, ops)
            r2, e2 = ctx.call(twin, rep)
            ctx.case((c.key, o, str(sizes), cplx))
            d = (f"{e1} / {e2}" if e1 or e2 else None) or differs(api.flatten(r1), api.flatten(r2), tol(c))
            if d:
                ctx.violation(f"{c.key} at {sizes}: operand {o} shared by the batch and repeated for every row give different results: {d}",
                              dict(ops=enc(ops)))
                continue
            ws = [w(t) for t in api.flatten(r1)]
            g1, e1 = ctx.call(grad_of, c, ops, ws)
            g2, e2 = ctx.call(grad_of, twin, rep, ws)
            if e1 is None and e2 is None and o in g1 and o in g2:
                ctx.case((c.key, o, str(sizes), cplx, "grad"))
                d = differs(g1[o], g2[o].sum(0), tol(c))
                if d:
                    ctx.violation(f"{c.key} at {sizes}: the gradient of the shared operand {o} is not the sum of those of its repetitions: {d}")
        ctx.sample(c.key)


def lay(v, layout):
    """The values of v in another memory layout, or None if this layout cannot hold them."""
    if layout == "negated":
        return torch._neg_view(-v)
    if layout == "expanded":  # for operands whose rows are equal
        return v
    return embed(v, layout)[0]


def flat(v, dim):
    """v made constant along dim, contiguous and expanded."""
    s = v.narrow(dim, 0, 1)
    return s.expand(v.shape).clone(), s.clone().expand(v.shape)


def layouts(ctx, sizes, cplx, part, parts, big):
    lays = [l for l in LAYOUTS if l != "expanded" and (cplx or l != "conjugated")]
    for i, c in enumerate(api.book(sizes, cplx=cplx)):
        if i % parts != part:
            continue
        base = c.make()
        ref, err = ctx.call(c, base)
        if err:
            ctx.violation(f"{c.key}: {err}")
            continue
        ref = [t.clone() for t in api.flatten(ref)]
        names = list(base)
        assigns = []
        for n in (1, 2) + ((3,) if big else ()):
            for sub in itertools.combinations(names, n):
                for ls in itertools.product(lays, repeat=n):
                    assigns.append(dict(zip(sub, ls)))
        if len(names) > 2:
            assigns += [{k: l for k in names} for l in lays]
        for asg in assigns:
            ops = {k: lay(v, asg[k]) if k in asg else v for k, v in base.items()}
            r, err = ctx.call(c, ops)
            ctx.case((c.key, str(sizes), cplx, str(asg)))
            d = err or differs(ref, api.flatten(r), tol(c))
            if d:
                ctx.violation(f"{c.key} at {sizes} with {asg}: {d} (expected: the result for contiguous operands)", dict(ops=enc(base)))
                break
        # operands that are expanded along one dimension
        for k in names:
            for dim in range(base[k].dim()):
                if base[k].shape[dim] < 2 or not c.exact:
                    continue
                cont, exp = flat(base[k], dim)
                r0, e0 = ctx.call(c, dict(base, **{k: cont}))
                r1, e1 = ctx.call(c, dict(base, **{k: exp}))
                ctx.case((c.key, str(sizes), cplx, k, dim))
                if e0:
                    continue
                d = e1 or differs(api.flatten(r0), api.flatten(r1), tol(c))
                if d:
                    ctx.violation(f"{c.key} at {sizes} with operand {k} expanded along dimension {dim}: {d}", dict(ops=enc(base)))
        # gradients: layouts of the operands and of the output gradient
        ws = [w(t) for t in ref]
        g0, gerr = ctx.call(grad_of, c, base, ws)
        if gerr:
            continue
        for lo, lw in [(l, None) for l in lays] + [(None, l) for l in lays] + [("strided", "transposed"), ("transposed", "offset")]:
            def run():
                leaf = {k: v.clone().requires_grad_(True) for k, v in base.items()}
                ops = leaf
                if lo:
                    ops = {k: relay(v, lo) for k, v in leaf.items()}
                r = api.flatten(c.fn(**ops))
                rr = [(t, x if lw is None else lay(x, lw)) for t, x in zip(r, ws) if t.requires_grad]
                if not rr:
                    return {}
                g = torch.autograd.grad([t for t, _ in rr], list(leaf.values()), [x for _, x in rr], allow_unused=True)
                return {k: v for k, v in zip(leaf, g) if v is not None}
            g, err = ctx.call(run)
            ctx.case((c.key, str(sizes), cplx, lo, lw, "grad"))
            d = err or (None if set(g) == set(g0) else f"gradients for {sorted(g)} instead of {sorted(g0)}") or next(
                (f"operand {k}: {e}" for k in g for e in [differs(g0[k], g[k], tol(c))] if e), None)
            if d:
                ctx.violation(f"{c.key} at {sizes}: gradient with operands {lo or 'contiguous'} and output gradient {lw or 'contiguous'}: {d}")
                break
        # an output gradient that is a single number, expanded
        def run(exp):
            leaf = {k: v.clone().requires_grad_(True) for k, v in base.items()}
            r = [t for t in api.flatten(c.fn(**leaf)) if t.requires_grad]
            if not r:
                return []
            one = [torch.ones((), dtype=t.dtype).expand(t.shape) if exp else torch.ones_like(t) for t in r]
            return [v for v in torch.autograd.grad(r, list(leaf.values()), one, allow_unused=True) if v is not None]
        a, e0 = ctx.call(run, False)
        b, e1 = ctx.call(run, True)
        ctx.case((c.key, str(sizes), cplx, "ones"))
        d = e1 if e0 is None else None
        d = d or (differs(a, b, tol(c)) if e0 is None else None)
        if d:
            ctx.violation(f"{c.key} at {sizes}: gradient with an expanded output gradient: {d}")
    ctx.sample(f"{c.key} with {asg}")


def relay(v, layout):
    """A differentiable copy of v in another layout."""
    if layout == "transposed":
        p = tuple(reversed(range(v.dim())))
        return v.permute(p).contiguous().permute(p) if v.dim() > 1 else v * 1
    if layout == "strided":
        return torch.stack([v * 0 + 7, v], -1)[..., 1]
    if layout == "offset":
        return torch.cat([v.reshape(-1)[:1], v.reshape(-1)])[1:].view(v.shape)
    if layout == "negated":
        return torch._neg_view(-v)
    if layout == "conjugated":
        return v.conj().resolve_conj().conj()
    raise KeyError(layout)


def plan(tier):
    big = tier == "thorough"
    t = []
    for s, cplx in itertools.product(SIZES, (False, True)):
        for i in range(4):
            t.append(("rows", rows, dict(sizes=s, cplx=cplx, part=i, parts=4, big=big)))
            t.append(("layouts", layouts, dict(sizes=s, cplx=cplx, part=i, parts=4, big=big)))
        t.append(("shared", shared, dict(sizes=s, cplx=cplx)))
    for i in range(4):
        t.append(("large", layouts, dict(sizes=dict(B=11, N=12, M=5, F=6, P=7, K=8, J=6, D=13), cplx=False, part=i, parts=4, big=False)))
    return t

"""C14: fake tensors predict what execution returns, for every shape and layout, and traced or compiled functions agree with eager ones."""
import itertools

import torch
from torch._subclasses.fake_tensor import FakeTensorMode
from torch.fx.experimental.proxy_tensor import make_fx

from . import api
from .c15 import w
from .core import differs, enc
from .dcases import arr
from .ref import T

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of (operator, operand shapes), (operator, memory layouts, dtype) and (call of the catalogue, sizes, inputs that "
             "require gradients), each executed really, on fake tensors, and as a captured graph (make_fx, aot_eager), on the code")
NOTE = ("The oracle is the eager execution, whose results the other checks decide. Strides are compared in every dimension of more than one "
        "element. Graphs are captured with one set of data and also replayed with another, so that a value baked into the graph shows.")
RULE = "one case = (operator, shapes | layouts | dtype) or (call, sizes, kind of capture, inputs that require gradients)"
BOUNDS = {
    "quick": "7 operators x all shapes of rank 0 to 4, 0 to 3, 0 to 4 with sizes {1, 2}, all of the accepted ranks with sizes {1, 2, 3}; all axis "
             "orders, steps, offsets and expansions of each operand x dtypes, both fake and real; about 900 calls of the catalogue at 4 tuples of "
             "sizes on fake tensors and as make_fx graphs; aot_eager graphs of all calls (half of the filter and state-space calls) at the first tuple, and with every mask of inputs that require "
             "gradients for the operators at all tuples, outputs and gradients, replayed with other data",
    "thorough": "9 tuples of sizes and complex data for all captures, make_fx on real and fake tensors, float and complex double layouts",
}
ASSUMPTIONS = ["PyTorch's own fake kernels and compiler stages are right"]
OPS = ("recur2", "recurN", "lti_recur2", "lti_recurN", "lti_recur", "hl_lti_recurN", "hl_recurN")
SZ = [api.SIZES, dict(B=2, N=3, M=3, F=2, P=4, K=2, J=3, D=3), dict(B=1, N=1, M=2, F=3, P=1, K=1, J=2, D=2)]
LARGE = dict(B=13, N=30, M=5, F=3, P=4, K=7, J=6, D=12)
BIG = [dict(B=2, N=4, M=1, F=2, P=3, K=4, J=1, D=5), dict(B=4, N=9, M=4, F=1, P=2, K=5, J=2, D=1), dict(B=3, N=3, M=3, F=3, P=2, K=3, J=3, D=2),
       dict(B=1, N=8, M=2, F=1, P=2, K=3, J=4, D=4), dict(B=5, N=2, M=3, F=2, P=1, K=1, J=1, D=3), dict(B=2, N=6, M=2, F=4, P=5, K=6, J=3, D=7)]


def meta(t):
    """Everything a graph knows about a result."""
    return (tuple(int(n) for n in t.shape), t.dtype, tuple(int(s) for n, s in zip(t.shape, t.stride()) if n > 1) if t.numel() else (),
            t.device.type, t.layout)


def names(m):
    return f"shape {m[0]} dtype {m[1]} strides {m[2]} on {m[3]}"


def lop(op):
    return "lti" not in op


def valid(op, a, z, x):
    """Whether the execution is known to go beyond the operator's name (2 for states of another size)."""
    return not (op.endswith("recur2") and x and x[-1] != 2)


def shapes(ctx, op, ranks, sizes, part, parts):
    f = getattr(torch.ops.philtorch, op)
    sh = [[s for r in rk for s in itertools.product(sizes, repeat=r)] for rk in ranks]
    mode = FakeTensorMode()
    n = ok = 0
    for i, (a, z, x) in enumerate(itertools.product(*sh)):
        if i % parts != part:
            continue
        n += 1
        r, e = ctx.call(lambda: meta(f(torch.ones(a), torch.ones(z), torch.ones(x))))
        with mode:
            g, h = ctx.call(lambda: meta(f(torch.empty(a), torch.empty(z), torch.empty(x))))
        ctx.add("evaluations", 2)
        ok += not e
        if e and not h:
            ctx.violation(f"{op}: operands of shapes {a}, {z}, {x} are rejected ({e[:80]}), but the traced graph predicts {names(g)}")
        elif h and not e and valid(op, a, z, x):
            ctx.violation(f"{op}: operands of shapes {a}, {z}, {x} give {names(r)}, but tracing rejects them: {h[:120]}")
        elif not e and not h and r != g:
            ctx.violation(f"{op}: operands of shapes {a}, {z}, {x}: {names(r)}, but the traced graph predicts {names(g)}")
    ctx.case((op, str(ranks), str(sizes), part), n=0)
    ctx.sample(f"{op} {ranks} {sizes}: {n} tuples of shapes, {ok} accepted")


def layouts(t):
    """The same values in every memory layout: axis orders, every second element, an offset, a row of a larger tensor, expanded axes."""
    d = t.dim()
    for p in itertools.permutations(range(d)):
        q = [p.index(i) for i in range(d)]
        yield f"order {p}", t.permute(p).contiguous().permute(q)
    for i in range(d):
        b = torch.stack([t, t * 0 - 7], i + 1).flatten(i, i + 1)
        yield f"step in axis {i}", b[(slice(None),) * i + (slice(0, None, 2),)]
        b = torch.cat([t * 0 + 9, t], i)
        yield f"part in axis {i}", b.narrow(i, t.shape[i], t.shape[i])
        yield f"repeated in axis {i}", t.narrow(i, 0, 1).expand(t.shape)
    if t.is_complex():
        yield "conjugated view", t.conj().resolve_conj().conj()


def place(ctx, op, B, N, M, p, dtype):
    f = getattr(torch.ops.philtorch, op)
    if op == "lti_recur":
        A, z, x = ((1,) if p == 1 else (B,) if p == 2 else ()), (B,), (B, N)
    else:
        n = (N,) if lop(op) else ()
        A, z, x = ((B,) if p else ()) + n + (M, M), (B, M), (B, N, M)
    cplx = dtype.is_complex
    base = [T(arr(s, i, cplx)).to(dtype) for i, s in enumerate((A, z, x))]
    var = [list(layouts(t)) for t in base]
    mode = FakeTensorMode()
    for (la, a), (lz, zz), (lx, xx) in itertools.product(*var):
        if sum(l.startswith(("step", "part", "repeated", "conj")) for l in (la, lz, lx)) > 1:
            continue
        r, e = ctx.call(f, a, zz, xx)
        with mode:
            g, h = ctx.call(lambda: f(*[mode.from_tensor(t) for t in (a, zz, xx)]))
        ctx.case((op, B, N, M, p, str(dtype), la, lz, lx))
        what = f"{op} A {A} [{la}], zi {z} [{lz}], x {x} [{lx}] {dtype}"
        if e or h:
            if bool(e) != bool(h) and e and not ("not implemented" in e or "same scalar type" in e):
                ctx.violation(f"{what}: execution {e or 'accepts'}, tracing {h or 'accepts'}")
            continue
        if meta(r) != meta(g):
            ctx.violation(f"{what}: {names(meta(r))}, but the traced graph predicts {names(meta(g))}")
        s, e = ctx.call(f, *[t.resolve_conj().contiguous().clone() for t in (a, zz, xx)])
        d = e or differs(s, r)
        if d:
            ctx.violation(f"{what}: differs from the result for contiguous operands: {d}")
    ctx.sample(f"{op} B={B} N={N} M={M} {dtype}: {len(var[0])} x {len(var[1])} x {len(var[2])} layouts")


GROUPS = [g for g in api.GROUPS if g != "prototypes"]
SKIP = ("prototype.",)  # control flow and sizes that depend on values: cannot be captured


def calls(sizes, group, cplx):
    if group == "helion" and cplx:
        return []
    return [c for c in api.book(sizes, groups=[group], cplx=cplx) if not c.name.startswith(SKIP)]


def values(c, sizes, group, cplx):
    """The same call with other data."""
    if not hasattr(values, "memo") or values.memo[0] != (str(sizes), group, cplx):
        values.memo = ((str(sizes), group, cplx), {k.key: k for k in api.book(sizes, groups=[group], cplx=cplx, seed=4)})
    return values.memo[1][c.key]


def fakes(ctx, sizes, group, cplx):
    for c in calls(sizes, group, cplx):
        ref, err = ctx.call(c)
        if err:
            ctx.violation(f"{c.key} at {sizes}: {err}")
            continue
        mode = FakeTensorMode()

        def fake():
            with mode:
                return api.flatten(c.fn(**{k: mode.from_tensor(v) for k, v in c.ops.items()}))
        r, err = ctx.call(fake)
        if err and "torchlpc." in err:
            ctx.add("without a fake kernel in torchlpc")
            continue
        ctx.case((c.key, str(sizes), cplx, "fake"))
        if err:
            ctx.violation(f"{c.key} at {sizes} on fake tensors: {err}")
            continue
        got, exp = [meta(t) for t in r], [meta(t) for t in api.flatten(ref)]
        if got != exp:
            i = [a == b for a, b in zip(got, exp)].index(False)
            ctx.violation(f"{c.key} at {sizes}: result {i} has {names(exp[i])}, but the traced graph predicts {names(got[i])}")
    ctx.sample(f"{group} {sizes}: {c.key}")


def traces(ctx, sizes, group, cplx, mode):
    for c in calls(sizes, group, cplx):
        keys = list(c.ops)
        f = lambda *a: api.flatten(c.fn(**dict(zip(keys, a))))
        g, err = ctx.call(lambda: make_fx(f, tracing_mode=mode)(*c.make().values()))
        if err and "torchlpc." in err:
            continue
        ctx.case((c.key, str(sizes), cplx, "make_fx", mode))
        if err:
            ctx.violation(f"{c.key} at {sizes}: make_fx ({mode}): {err}")
            continue
        o = values(c, sizes, group, cplx)
        for k, data in (("", c), (" with other data", o)):
            exp, e1 = ctx.call(f, *data.make().values())
            r, err = ctx.call(g, *data.make().values())
            d = e1 or err or differs(exp, r, None if c.exact else 1e-12)
            if d:
                ctx.violation(f"{c.key} at {sizes}: graph of make_fx ({mode}){k}: {d}", dict(ops=enc(data.ops)))
                break
    ctx.sample(f"{group} {sizes} make_fx {mode}")


def masks(keys):
    if len(keys) <= 3:
        return [m for n in range(len(keys) + 1) for m in itertools.combinations(keys, n)]
    return [(), tuple(keys)] + [(k,) for k in keys]


def run(f, keys, ops, mask):
    """Outputs and gradients."""
    o = {k: v.requires_grad_(True) if k in mask else v for k, v in ops.items()}
    r = f(*[o[k] for k in keys])
    rr = [t for t in r if t.requires_grad]
    req = [t.requires_grad for t in r]
    g = torch.autograd.grad(rr, [o[k] for k in mask], [w(t) for t in rr], allow_unused=True) if rr else []
    return [t.detach() for t in r], list(g), req


def compiled(ctx, sizes, group, cplx, part, parts, dynamic=False):
    import torch._dynamo
    torch._dynamo.config.cache_size_limit = 1000
    for i, c in enumerate(calls(sizes, group, cplx)):
        if i % parts != part or ctx.tier == "quick" and group in ("spaces", "filters", "diagonal") and i // parts % 2:
            continue
        torch._dynamo.reset()
        keys = list(c.ops)
        f = lambda *a: api.flatten(c.fn(**dict(zip(keys, a))))
        g = torch.compile(f, backend="aot_eager", dynamic=dynamic)
        o = values(c, sizes, group, cplx)
        for mask in masks(keys) if group in ("natives", "helion") else [tuple(keys)] if ctx.tier == "quick" else [(), tuple(keys)]:
            for k, data in (("", c), (" with other data", o)):
                exp, e1 = ctx.call(run, f, keys, data.make(), mask)
                got, err = ctx.call(run, g, keys, data.make(), mask)
                ctx.case((c.key, str(sizes), cplx, "compiled", mask, dynamic))
                if e1:
                    ctx.violation(f"{c.key} at {sizes}: {e1}")
                    break
                tol = 1e-12 if c.exact else 1e-9
                d = err or differs(exp[0], got[0], tol) or differs(exp[1], got[1], tol) or (exp[2] != got[2] and f"requires_grad {got[2]} instead of {exp[2]}")
                if d:
                    ctx.violation(f"{c.key} at {sizes}: compiled{' (dynamic)' if dynamic else ''}, gradients of {mask}{k}: {d}", dict(ops=enc(data.ops)))
                    break
    ctx.sample(f"{group} {sizes} aot_eager")


def plan(tier):
    q = tier == "quick"
    t = []
    for op in OPS:
        wide = (range(5), range(4), range(5))
        for p in range(2):
            t.append(("shapes", shapes, dict(op=op, ranks=[list(r) for r in wide], sizes=[1, 2], part=p, parts=2)))
        r = [[0, 1], [1], [2]] if op == "lti_recur" else [[3, 4] if lop(op) else [2, 3], [2], [3]]
        n = 4
        for p in range(n):
            t.append(("shapes", shapes, dict(op=op, ranks=r, sizes=[1, 2, 3], part=p, parts=n)))
        dts = [torch.float64, torch.complex64] + ([] if q else [torch.float32, torch.complex128])
        if op.startswith("hl"):
            dts = [torch.float32]
        for dt, p, (B, N, M) in itertools.product(dts, (0, 1, 2) if op == "lti_recur" else (0, 1), ((2, 3, 2), (3, 2, 3), (1, 3, 2), (2, 1, 2))):
            if op.endswith("recur2") and M != 2 or op.startswith("hl") and (B, N, M) == (3, 2, 3):
                continue
            t.append(("layouts", place, dict(op=op, B=B, N=N, M=M, p=p, dtype=dt)))
        if not op.startswith("hl"):
            for dt in (torch.half, torch.bfloat16, torch.int64, torch.int32, torch.int8, torch.uint8, torch.bool, torch.float32, torch.complex128):
                t.append(("dtypes", place, dict(op=op, B=2, N=1, M=2, p=1, dtype=dt)))
    for grp in GROUPS:
        if grp != "helion":
            t.append((f"large fake {grp}", fakes, dict(sizes=LARGE, group=grp, cplx=False)))
            t.append((f"large make_fx {grp}", traces, dict(sizes=LARGE, group=grp, cplx=False, mode="real" if grp == "natives" else "fake")))
    for s, cplx in [(s, False) for s in SZ + ([] if q else BIG)] + [(SZ[0], True)]:
        for grp in GROUPS:
            if grp == "helion" and cplx:
                continue
            t.append((f"fake {grp}", fakes, dict(sizes=s, group=grp, cplx=cplx)))
            for mode in ("real", "fake", "symbolic") if grp in ("natives", "helion", "helpers") else ("fake",) if q else ("real", "fake"):
                t.append((f"make_fx {grp}", traces, dict(sizes=s, group=grp, cplx=cplx, mode=mode)))
            if q and grp not in ("natives", "recurrences", "helion") and (s is not SZ[0] or cplx):
                continue
            n = 8 if grp in ("spaces", "filters", "diagonal") else 4
            for p in range(n):
                t.append((f"compiled {grp}", compiled, dict(sizes=s, group=grp, cplx=cplx, part=p, parts=n)))
    return t

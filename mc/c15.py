"""C15: purity. The state that calls could leave behind is explored as a transition system: the state is the process after a history of
calls, a transition is a call. Every history up to a depth is executed (each from a fork of a pristine process), and every call after
it is compared with what it returns in a pristine process."""
import itertools
import os
import pickle
import tempfile

import torch
import torch.autograd.forward_ad as fwAD

from . import api
from .core import differs, enc, short

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the process: every history of calls up to a depth is executed from a pristine fork, and the call that "
             "follows is compared with its result in a pristine process; every aliasing and overwriting of operands and results is tried")
NOTE = ("The model is the system whose only state is the pristine process: a call that leaves state behind which another call sees breaks it. "
        "Every history runs on the real code. Functions that hand back their operand because the result is the operand (factor 1, power 1, "
        "one matrix, one polynomial, derivative 0, nothing to trim) are exempt from the aliasing part.")
RULE = ("state = history of calls (function, operand layout, sizes, data, dtype, autograd mode); transition = one more call; every transition is "
        "executed on the code and its result compared with the pristine one")
S1 = api.SIZES
S2 = dict(api.SIZES, B=2, N=7, M=3, K=2, J=3, D=3)
S3 = dict(api.SIZES, B=2, N=5, M=2, K=4, J=1, D=1)
MODES = ("plain", "backward", "no_grad", "inference", "jvp")
BOUNDS = {
    "quick": "about 700 calls of every public function; histories of depth 1: every call in two of eight variants (same sizes with other data, other "
             "sizes, float32, complex, backward, no_grad, inference mode, jvp), one call per function in all of them, and changes of the number "
             "of threads, followed by a third of all calls (in rotation), one call of every function, half of the calls of the same function, and gradients; depth 2: all pairs of representatives followed by every representative",
    "thorough": "every call in all eight variants, followed by all calls; depth 2 over two representatives per function and variant",
}
ASSUMPTIONS = ["results of floating-point library routines (eigenvalues, solve) are compared to 1e-9, all others exactly"]


def alphabet():
    return api.book(S1)




def books():
    out = {}
    out["other data"] = ({c.key: c for c in api.book(S1, seed=2)}, "plain")
    out["other sizes"] = ({c.key: c for c in api.book(S2, seed=1)}, "plain")
    out["float32"] = ({c.key: c for c in api.book(S1, dtype=torch.float32)}, "plain")
    out["complex"] = ({c.key: c for c in api.book(S3, cplx=True)}, "plain")
    out["backward"] = ({c.key: c for c in api.book(S1)}, "backward")
    out["no_grad"] = ({c.key: c for c in api.book(S2)}, "no_grad")
    out["inference"] = ({c.key: c for c in api.book(S1)}, "inference")
    out["jvp"] = ({c.key: c for c in api.book(S1)}, "jvp")
    return out


def diffable(ops):
    return {k: v for k, v in ops.items() if v.is_floating_point() or v.is_complex()}


def execute(call, mode):
    """Runs one call in a mode; errors of modes that a function does not support do not matter here."""
    ops = call.make()
    try:
        if mode == "plain":
            call(ops)
        elif mode == "no_grad":
            with torch.no_grad():
                call({k: v.requires_grad_(k in diffable(ops)) for k, v in ops.items()})
        elif mode == "inference":
            with torch.inference_mode():
                call(call.make())
        elif mode == "backward":
            for v in diffable(ops).values():
                v.requires_grad_(True)
            sum((t.real.sum() if t.is_complex() else t.sum()) for t in api.flatten(call(ops)) if t.requires_grad).backward()
        elif mode == "jvp":
            with fwAD.dual_level():
                call({k: fwAD.make_dual(v, torch.ones_like(v)) for k, v in ops.items()})
    except Exception:
        pass


def grads(call):
    """Results and gradients of a call."""
    ops = call.make()
    for v in diffable(ops).values():
        v.requires_grad_(True)
    r = api.flatten(call(ops))
    out = [t.detach().clone() for t in r]
    r = [t for t in r if t.requires_grad]
    if r:
        g = torch.autograd.grad(sum((w(t) * t.conj()).sum().real if t.is_complex() else (w(t) * t).sum() for t in r), list(diffable(ops).values()),
                                allow_unused=True)
        out += [t for t in g if t is not None]
    return out


def w(t):
    n = torch.arange(1, t.numel() + 1).reshape(t.shape) % 5 - 2
    return n.to(t.dtype)


def result(call, grad=False):
    if grad:
        return grads(call)
    return [t.detach().clone() for t in api.flatten(call())]


def tol(call):
    if call.ops and next(iter(call.ops.values())).dtype == torch.float32:
        return 1e-4
    return None if call.exact else 1e-9


def in_fork(fn):
    """fn() in a forked child of this process, with a picklable result; None if the child died."""
    fd, path = tempfile.mkstemp()
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        try:
            with open(path, "wb") as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except EOFError:
        return None
    finally:
        os.unlink(path)


def env_state():
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_num_threads(),
            torch.get_rng_state().sum().item(), torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled())


def pristine(calls, grad):
    """The result of every call, each as the first call of its own process."""
    out = []
    for c in calls:
        out.append(in_fork(lambda: [t.numpy() if not t.is_conj() else t.resolve_conj().numpy() for t in result(c, grad)]))
    return [None if r is None else [torch.from_numpy(v) for v in r] for r in out]


def compare(ctx, calls, base, grad, history):
    """In the current process: every call against its pristine result; returns what differs."""
    bad = []
    for c, b in zip(calls, base):
        if b is None:
            continue
        r, err = ctx.call(result, c, grad)
        d = f"raised {err}" if err else differs(b, [t.resolve_conj().resolve_neg() for t in r], tol(c))
        if d:
            bad.append((c.key, d))
            if len(bad) > 2:
                break
    return bad


def report(ctx, histories, bad, grad):
    for key, d in bad or []:
        ctx.violation(f"{key}{' and its gradients' if grad else ''}, called after {' ; '.join(histories)}: {d} "
                      "(expected: the result in a fresh process)")


def depth1(ctx, part, parts, full):
    calls = alphabet()
    bks = books()
    reps, hist = set(), []
    for i, c in enumerate(calls):
        first = c.name not in reps
        reps.add(c.name)
        names = list(bks)
        use = names if first or full else [names[i % 8], names[(i * 3 + i // 8 + 5) % 8]]
        for v in dict.fromkeys(use):
            if c.key in bks[v][0]:
                hist.append((c.key, v))
    hist = hist[part::parts]
    base_ = pristine(calls, False)
    gall = [c for i, c in enumerate(calls) if i % 8 == part % 8]
    gbase_ = pristine(gall, True)
    keys = [c.key for c in calls]
    one = {c.name: i for i, c in reversed(list(enumerate(calls)))}
    for j, (key, v) in enumerate(hist):
        bk, mode = bks[v]
        # what follows: a third of all calls, one call of every function and all calls of the same function
        name = calls[keys.index(key)].name
        sel = [i for i, c in enumerate(calls) if full or i % 3 == j % 3 or one[c.name] == i or c.name == name and i % 2]
        follow, base = [calls[i] for i in sel], [base_[i] for i in sel]
        gs = [i for i in range(len(gall)) if full or i % 2 == j % 2]
        gcalls, gbase = [gall[i] for i in gs], [gbase_[i] for i in gs]

        def run():
            before = env_state()
            execute(bk[key], mode)
            after = env_state()
            return (before != after and (before, after), compare(ctx, follow, base, False, None), compare(ctx, gcalls, gbase, True, None))
        r = in_fork(run)
        ctx.add("states")
        ctx.add("transitions", len(follow) + len(gcalls) + 1)
        ctx.add("traces_validated_against_impl", len(follow) + len(gcalls))
        if r is None:
            ctx.violation(f"the process died in a call after {key} [{v}]")
            continue
        if r[0]:
            ctx.violation(f"{key} [{v}] changes the global state of PyTorch: {r[0]}")
        report(ctx, [f"{key} [{v}]"], r[1], False)
        report(ctx, [f"{key} [{v}]"], r[2], True)
    ctx.sample(f"histories such as {hist[len(hist) // 2]} followed by {len(calls)} calls")


def representatives(n):
    out, cnt = [], {}
    for c in alphabet():
        if cnt.get(c.name, 0) < n:
            cnt[c.name] = cnt.get(c.name, 0) + 1
            out.append(c)
    return out


def depth2(ctx, part, parts, n):
    last = representatives(1)
    bks = books()
    names = list(bks)
    first = [(c.key, v) for i, c in enumerate(representatives(n)) for v in ([names[i % 8]] if n == 1 else [names[i % 8], names[(i + 3) % 8]])
             if c.key in bks[v][0]]
    base = pristine(last, False)
    for j, (k1, v1) in enumerate(first):
        if j % parts != part:
            continue
        for k2, v2 in first:
            def run():
                execute(bks[v1][0][k1], bks[v1][1])
                execute(bks[v2][0][k2], bks[v2][1])
                return compare(ctx, last, base, False, None)
            r = in_fork(run)
            ctx.add("states")
            ctx.add("transitions", len(last) + 2)
            ctx.add("traces_validated_against_impl", len(last))
            if r is None:
                ctx.violation(f"the process died in a call after {k1} [{v1}] ; {k2} [{v2}]")
            report(ctx, [f"{k1} [{v1}]", f"{k2} [{v2}]"], r, False)


def environments(ctx):
    """Other threads counts, autograd modes and determinism settings while the call runs."""
    calls = alphabet()
    base = pristine(calls, False)

    def threads(n):
        torch.set_num_threads(n)

    def rng():
        torch.manual_seed(123)
    for name, f in (("2 threads", lambda: threads(2)), ("5 threads", lambda: threads(5)), ("another seed", rng),
                    ("gradients disabled", lambda: torch.set_grad_enabled(False)),
                    ("default dtype float64", lambda: torch.set_default_dtype(torch.float64)),
                    ("deterministic algorithms", lambda: torch.use_deterministic_algorithms(True))):
        def run():
            f()
            return compare(ctx, calls, base, False, None)
        r = in_fork(run)
        ctx.add("states")
        ctx.add("transitions", len(calls))
        ctx.add("traces_validated_against_impl", len(calls))
        if r is None:
            ctx.violation(f"the process died with {name}")
        report(ctx, [f"setting {name}"], r, False)
    for mode in ("inference", "jvp", "backward"):
        for c, b in zip(calls, base):
            ops = c.make()
            if mode == "inference":
                def go():
                    with torch.inference_mode():
                        return [t.clone() for t in api.flatten(c(c.make()))]
            elif mode == "jvp":
                def go():
                    with fwAD.dual_level():
                        r = api.flatten(c({k: fwAD.make_dual(v, torch.ones_like(v)) for k, v in c.make().items()}))
                        return [fwAD.unpack_dual(t).primal.clone() for t in r]
            else:
                def go():
                    return [t.detach().clone() for t in api.flatten(c({k: v.requires_grad_(True) for k, v in c.make().items()}))]
            r, err = ctx.call(go)
            ctx.add("transitions")
            if err:
                continue  # a mode that is not supported: C06, C07
            d = differs(b, r, tol(c))
            if d:
                ctx.violation(f"{c.key} under {mode}: {d} (expected: the result of a plain call)")


def embed(v, layout):
    """The values of v as a view of a larger buffer that is filled with sentinels; (view, buffer)."""
    if layout == "offset":
        buf = torch.full((v.numel() + 6,), 77, dtype=v.dtype)
        view = buf[3:3 + v.numel()].view(v.shape)
    elif layout == "strided":
        buf = torch.full(tuple(2 * s + 1 for s in v.shape), 77, dtype=v.dtype)
        view = buf[tuple(slice(1, None, 2) for _ in v.shape)]
    elif layout == "transposed":
        buf = torch.full(tuple(reversed(v.shape)), 77, dtype=v.dtype)
        view = buf.permute(*reversed(range(v.dim()))) if v.dim() else buf
    elif layout == "conjugated":
        if not v.is_complex():
            return None, None
        buf = v.conj().resolve_conj().clone()
        return buf.conj(), buf
    view.copy_(v)
    return view, buf


def operands(ctx, sizes, cplx):
    """Operands, their surroundings and the results of other calls are left alone."""
    for c in api.book(sizes, cplx=cplx, groups=[g for g in api.GROUPS if g != "helion"] + ["helion"] * (sizes["N"] < 6)):
        t0 = tol(c)
        ref, err = ctx.call(result, c)
        if err:
            ctx.violation(f"{c.key}: {err}")
            continue
        for layout in ("offset", "strided", "transposed", "conjugated"):
            src = c.make()
            em = {k: embed(v, layout) for k, v in src.items()}
            if any(e[0] is None for e in em.values()):
                continue
            ops = {k: e[0] for k, e in em.items()}
            bufs = {k: e[1].clone() for k, e in em.items()}
            vers = {k: e[1]._version for k, e in em.items()}
            meta = {k: (e[0].shape, e[0].stride(), e[0].requires_grad) for k, e in em.items()}
            r, err = ctx.call(c, ops)
            ctx.add("transitions")
            ctx.add("traces_validated_against_impl")
            if err:
                ctx.violation(f"{c.key} with {layout} operands: {err}")
                continue
            r = api.flatten(r)
            for k, e in em.items():
                if not torch.equal(e[1], bufs[k]) or (e[0].shape, e[0].stride(), e[0].requires_grad) != meta[k]:
                    ctx.violation(f"{c.key} with {layout} operands modifies its operand {k} or the memory around it", dict(before=enc(bufs[k]),
                                                                                                                    after=enc(e[1])))
                elif e[1]._version != vers[k]:
                    ctx.violation(f"{c.key} with {layout} operands writes to its operand {k} (and restores it)")
            keep = [t.detach().clone() for t in r]
            d = differs(ref, keep, t0)
            if d:
                ctx.violation(f"{c.key} with {layout} operands: {d}")
            if not c.alias:
                for k, e in em.items():  # later changes of the operands
                    e[1].fill_(5)
                d = differs(keep, r)
                if d:
                    ctx.violation(f"{c.key} with {layout} operands: overwriting the operands changes the result that was returned: {d}")
        if c.alias:
            continue
        # results of two calls with the same operands do not share memory with each other, nor the results of one call
        ops = c.make()
        r1, r2 = api.flatten(c(ops)), api.flatten(c(ops))
        ctx.add("transitions", 2)
        for i, t in enumerate(r1):
            if not t.numel() or any(s == 0 and n > 1 for s, n in zip(t.stride(), t.shape)):
                continue
            others = [u.clone() for u in r1[:i] + r1[i + 1:]]
            keep = [u.clone() for u in r2]
            t.zero_().add_(9)
            d = differs(others, r1[:i] + r1[i + 1:])
            if d:
                ctx.violation(f"{c.key}: overwriting result {i} changes another result of the call: {d}")
                break
            d = differs(keep, r2)
            if d:
                ctx.violation(f"{c.key}: overwriting result {i} changes the result of an earlier or later call: {d}")
                break
        if any(not torch.equal(a, b) for a, b in zip(ops.values(), c.make().values())):
            ctx.violation(f"{c.key}: overwriting a result changes an operand")
        r3, err = ctx.call(c, c.make())
        d = err or differs(ref, api.flatten(r3), t0)
        if d:
            ctx.violation(f"{c.key}: after its results were overwritten, the same call gives: {d}")
    ctx.sample(f"operand embeddings at {sizes}, {'complex' if cplx else 'real'}")


def late(ctx, sizes, cplx):
    """Operands or results that are overwritten between forward and backward: the gradient is right or refused."""
    for c in api.book(sizes, cplx=cplx):
        t0 = tol(c) or 1e-9
        g0, err = ctx.call(grads, c)
        if err:
            continue
        nres = len(result(c))

        def go(target):
            ops = c.make()
            for v in diffable(ops).values():
                v.requires_grad_(True)
            r = api.flatten(c(ops))
            rr = [t for t in r if t.requires_grad]
            if not rr:
                return []
            ws = [w(t) for t in rr]
            with torch.no_grad():
                tens = {**ops, **{f"result {i}": t for i, t in enumerate(r)}}[target]
                if c.alias and target.startswith("result"):
                    return None
                tens.copy_(torch.full_like(tens, 3))
            g = torch.autograd.grad(rr, list(diffable(ops).values()), [a if not t.is_complex() else a for a, t in zip(ws, rr)], allow_unused=True)
            return [t for t in g if t is not None]

        def clean():
            ops = c.make()
            for v in diffable(ops).values():
                v.requires_grad_(True)
            rr = [t for t in api.flatten(c(ops)) if t.requires_grad]
            if not rr:
                return []
            g = torch.autograd.grad(rr, list(diffable(ops).values()), [w(t) for t in rr], allow_unused=True)
            return [t for t in g if t is not None]
        g0, err = ctx.call(clean)
        if err:
            continue
        for target in list(c.ops) + [f"result {i}" for i in range(nres)]:
            g, err = ctx.call(go, target)
            ctx.add("transitions")
            ctx.add("traces_validated_against_impl")
            if err or g is None:
                ctx.add("refused")
                continue
            d = differs(g0, g, t0)
            if d:
                ctx.violation(f"{c.key}: with {target} overwritten between forward and backward, backward silently returns a wrong gradient: {d}")


def plan(tier):
    big = tier == "thorough"
    t = [("depth1", depth1, dict(part=i, parts=16, full=big)) for i in range(16)]
    t += [("depth2", depth2, dict(part=i, parts=8, n=2 if big else 1)) for i in range(8)]
    t += [("environments", environments, {})]
    sizes = [S1, S2, S3, dict(S1, B=1, N=1), dict(S1, B=1, N=4, M=1, K=2, J=1, D=1)]
    for s in sizes:
        for cplx in (False, True):
            t.append(("operands", operands, dict(sizes=s, cplx=cplx)))
            if s in (S1, S2, S3):
                t.append(("late", late, dict(sizes=s, cplx=cplx)))
    return t

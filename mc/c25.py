"""C25: calls from several Python threads. Two real threads run under a controlled scheduler that owns every line of the package as a
preemption point; every schedule with up to one (two) preemptions is executed, and both threads have to get the results and gradients
that they get alone."""
import sys
import threading

import torch

from . import api
from .core import differs, enc
from .c15 import diffable, tol, w

LEVEL = "model_checking"
TECHNIQUE = ("stateless exploration of two Python threads on the real code under a controlled scheduler: every schedule with one preemption at any line "
             "of the package, and with two for one call of every function")
NOTE = ("Every schedule is executed with two real threads; one runs at a time. The points at which a thread may lose control are the lines of the package "
        "(also in backward and forward-mode rules); calls into PyTorch and into the compiled kernels are atomic here (C13 looks into the kernels).")
RULE = ("state = (position of both threads), transition = one line of the package executed by the scheduled thread; one case = (call, partner, mode, schedule)")
BOUNDS = {
    "quick": "about 700 calls of the public functions; partners: an observer that looks at the operands and at torch's settings, the same call on the same operand objects, the same call with other data, the same "
             "function with other sizes and in complex; values under no_grad, and results with gradients (one call of each function: all combinations, others: the observer, "
             "the same call with other data (a third of them with gradients), and some of the rest in rotation); every line at which the first thread can be preempted; two preemptions (line i of the first, line j of the second) for one call of each function with other data",
    "thorough": "all combinations for all calls, two preemptions for a third of all calls, opcodes instead of lines for one call of each function",
}
ASSUMPTIONS = ["a call into PyTorch or into a compiled kernel is one step"]


class Scheduler:
    """Runs f in the main thread and g in a second one: f up to its i-th point, then g up to its j-th (None: its end), then f to its end, then the
    rest of g. Returns the two results, (points of f, points of g)."""

    def __init__(self, opcodes=False):
        import os
        import philtorch
        self.root = os.path.dirname(os.path.abspath(philtorch.__file__)) + os.sep
        self.opcodes = opcodes
        self.kind = "opcode" if opcodes else "line"

    def trace(self, point):
        def local(frame, event, arg):
            if event == self.kind:
                point()
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def observe(self, f, look):
        """Runs f and calls look(i) at every point i; every schedule with an observer that runs to its end at once, in one execution, because
        the observer changes nothing."""
        n = [0]

        def point():
            sys.settrace(None)
            look(n[0])
            n[0] += 1
            sys.settrace(tr)
        tr = self.trace(point)
        sys.settrace(tr)
        try:
            return outcome(f), n[0]
        finally:
            sys.settrace(None)

    def run(self, f, g, i=None, j=None):
        n, m = [0], [0]
        res = [None, None]
        pause, resume, done = threading.Event(), threading.Event(), threading.Event()

        def gpoint():
            if m[0] == j:
                pause.set()
                resume.wait()
            m[0] += 1

        def second():
            sys.settrace(self.trace(gpoint) if j is not None else None)
            try:
                res[1] = outcome(g)
            finally:
                sys.settrace(None)
                done.set()
                pause.set()

        t = threading.Thread(target=second)

        def fpoint():
            if n[0] == i:
                sys.settrace(None)  # no further switch in this thread
                t.start()
                pause.wait()
            n[0] += 1

        sys.settrace(self.trace(fpoint))
        try:
            res[0] = outcome(f)
        finally:
            sys.settrace(None)
        if t.ident is not None:
            resume.set()
            t.join()
        return res, n[0], m[0]


def outcome(f):
    try:
        return f(), None
    except Exception as e:
        return None, f"{type(e).__name__}: {str(e)[:200]}"


DTYPES = [torch.half, torch.bfloat16, torch.float32, torch.float64]


def settings():
    """The settings that all threads share."""
    return torch.tensor([DTYPES.index(torch.get_default_dtype()), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled(),
                         torch.is_anomaly_enabled(), torch.backends.mkldnn.enabled, torch.initial_seed() % 2 ** 31], dtype=torch.int64)


def task(c, ops, grad):
    """The closure a thread executes: results and gradients of the call."""
    if not grad:
        def run():
            with torch.no_grad():
                return [t.clone() for t in api.flatten(c(ops))]
        return run
    leaves = list(diffable(ops).values())
    for v in leaves:
        v.requires_grad_(True)

    def run():
        r = [t for t in api.flatten(c(ops)) if t.requires_grad]
        out = [t.detach().clone() for t in r]
        return out + ([t for t in torch.autograd.grad(r, leaves, [w(t) for t in r], allow_unused=True) if t is not None] if r else [])
    return run


def watch(ctx, s, c, grad):
    """The operands and torch's settings at every point of the call."""
    ops = c.make()
    keep, state = [v.clone() for v in ops.values()], settings()
    bad = []

    def look(i):
        if not all(torch.equal(u, v) for u, v in zip(keep, ops.values())):
            bad.append((i, "an operand is changed"))
        if not torch.equal(settings(), state):
            bad.append((i, f"torch's settings are {settings().tolist()} instead of {state.tolist()}"))
    (_, err), n = s.observe(task(c, ops, grad), look)
    if err:
        return
    ctx.case(None)
    ctx.add("schedules", n)
    ctx.add("transitions", n)
    if bad:
        ctx.violation(f"{c.key}{' (gradients)' if grad else ''}: seen by another thread before line {bad[0][0]} of {n}, {bad[0][1]}", dict(ops=enc(c.ops)))


def pairs(ctx, part, parts, opcodes=False):
    a = [c for c in api.book(api.SIZES) if not c.name.startswith("hl_")]
    sizes = dict(api.SIZES, B=2, N=7, M=3, K=2, J=3, D=3)
    other = {"other data": {c.key: c for c in api.book(api.SIZES, seed=2)}, "other sizes": {c.key: c for c in api.book(sizes, seed=1)},
             "complex": {c.key: c for c in api.book(sizes, cplx=True)}}
    first = {}
    for k, c in enumerate(a):
        first.setdefault(c.name, k)
    s = Scheduler(opcodes)
    for k, c in enumerate(a):
        if k % parts != part:
            continue
        rep = first[c.name] == k
        if opcodes and not rep:
            continue
        turn = -1
        for grad in (False, True):
            if grad and not diffable(c.ops):
                continue
            watch(ctx, s, c, grad)
            for what in ("other data", "the same objects", "other sizes", "complex"):
                p = c if what == "the same objects" else other[what].get(c.key)
                if p is None or what in ("other sizes", "complex") and grad:
                    continue
                turn += what != "other data"
                if ctx.tier == "quick" and not rep and (grad and k // parts % 3 if what == "other data" else turn != k // parts % 12):
                    continue
                ops = c.make()
                pops = ops if p is c else p.make()
                keep = [v.clone() for v in ops.values()]
                state = settings()
                f, g = task(c, ops, grad), task(p, pops, grad)
                (e0, err0), _ = outcome(f), None
                e1, err1 = outcome(g)
                if err0 or err1:
                    if what == "the same objects":
                        ctx.add("refused")
                    continue
                # the number of preemption points, which do not depend on the schedule
                _, n, _ = s.run(f, g)
                two = what == "other data" and not opcodes and not grad and (rep or ctx.tier == "thorough" and k % 3 == 0)
                m = s.run(f, g, 0, 10 ** 9)[2] if two else 0
                for i in range(n):
                    for j in [None] + (list(range(m)) if two and n * m <= (2500 if ctx.tier == 'quick' else 20000) else []):
                        (r0, r1), _, m2 = s.run(f, g, i, j)
                        ctx.case(None)
                        ctx.add("schedules")
                        ctx.add("transitions", n + m2)
                        bad = None
                        for lab, e, r, t in (("first", e0, r0, tol(c)), ("second", e1, r1, tol(p))):
                            d = r[1] if r[1] else differs(e, r[0], t)
                            if d:
                                bad = f"the {lab} thread: {d}"
                        if not bad and not all(torch.equal(u, v) for u, v in zip(keep, ops.values())):
                            bad = "an operand was modified"
                        if not bad and not torch.equal(settings(), state):
                            bad = f"torch's settings changed from {state.tolist()} to {settings().tolist()}"
                        if bad:
                            ctx.violation(f"{c.key}, two threads ({what}{', gradients' if grad else ''}), the first preempted before its line {i} of {n}"
                                          f"{'' if j is None else f', the second before its line {j} of {m}'}: {bad}", dict(ops=enc(c.ops), other=enc(p.ops)))
                            break
                    if bad:
                        break
                ctx.add("states", n + m)
        ctx.distinct.add(hash(c.key))
    ctx.sample(f"{len(a)} calls, part {part} of {parts}")


def plan(tier):
    parts = 64
    t = [("two threads", pairs, dict(part=i, parts=parts)) for i in range(parts)]
    if tier == "thorough":
        t += [("opcodes", pairs, dict(part=i, parts=parts, opcodes=True)) for i in range(parts)]
    return t

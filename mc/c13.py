"""C13: the compiled recurrence operators under a controlled scheduler: every order of the threads of a team, and every
interleaving of their memory accesses with a bounded number of preemptions, on an instrumented build."""
import itertools
import json
import os
import subprocess
import sys

from . import c13_build

LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the compiled operators: an instrumented build runs the threads of each OpenMP team as coroutines; "
             "all schedules up to a preemption bound are enumerated depth first, with race, bounds and read-only monitors")
NOTE = ("The sources are compiled with access instrumentation, the OpenMP runtime is replaced by a scheduler that enumerates schedules, tensors "
        "live in a guarded arena. On every schedule: no race, no access outside a live tensor, no write to an input, exact result.")
RULE = ("state = scheduling point of a region (which threads may go on), transition = access to memory that threads share or to tensors; "
        "trace = one complete execution of a real operator under one schedule, its result compared exactly")
BOUNDS = {
    "quick": "5 operators, shared and batched A, teams of 1..4 threads: all orders of the threads for B 1..5, N 1..4, M 1..3, 4 memory layouts, teams smaller than the maximal number of threads (2..5), also B to 9, N to 17, M to 8, "
             "double and complex double (half, float, bfloat16, cfloat, int64 for a few); every interleaving of teams of 2 and 3 with at most two "
             "preemptions for B = 2, 3, N <= 2, M <= 2, and with at most three for B = 2, N = 1, M = 1",
    "thorough": "teams up to 6, B up to 7; two preemptions for N = 3 too, three for M = 2; one instance of more than 2^31 elements",
}
ASSUMPTIONS = ["no instance needs more schedules than the cap (instances_cut_off is 0)", "code outside the extension (libtorch) is not instrumented", "sequentially consistent interleavings; races are reported as such"]
LIB = None


def run(ctx, **p):
    r = subprocess.run([sys.executable, "-m", "mc.c13_worker", c13_build.make(), json.dumps(p)], capture_output=True,
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if r.returncode < 0 or r.returncode > 128:
        ctx.violation(f"the process of {p} ended by signal {-r.returncode}: {r.stderr.decode(errors='replace')[-300:]}")
        return
    if r.returncode:
        raise RuntimeError(r.stderr.decode(errors="replace")[-2000:])
    o = json.loads(r.stdout.decode().strip().splitlines()[-1])
    if "error" in o:
        raise RuntimeError(o["error"])
    ctx.add("states", o["choices"] + o["executions"])
    ctx.add("transitions", o["accesses"])
    ctx.add("traces_validated_against_impl", o["executions"])
    ctx.add("instances", o["instances"])
    ctx.add("instances_with_several_schedules", o["multi"])
    ctx.add("instances_cut_off", o["cut"])
    ctx.add("parallel_regions", o["regions"])
    ctx.sample(o["sample"])
    for v in o["viol"]:
        ctx.violation(v["what"], dict(params=p))


BIG = """
import torch, sys
torch.ops.load_library(sys.argv[1])
x = torch.ones(1, 1, dtype=torch.half).expand(3, 2 ** 30)
y = torch.ops.philtorch.lti_recur(torch.tensor(0.5, dtype=torch.half), torch.zeros(3, dtype=torch.half), x)
assert bool((y[:, :3] == torch.tensor([1, 1.5, 1.75], dtype=torch.half)).all()) and bool((y[:, -3:] == 2).all()), y[:, :4]
"""


def big(ctx):
    """More elements than an int can count, on the ordinary build."""
    import glob
    so = glob.glob(os.path.join(os.environ["PHILMC_TREE"], "philtorch", "_C*.so"))[0]
    r = subprocess.run([sys.executable, "-c", BIG, so], capture_output=True, env=dict(os.environ, OMP_NUM_THREADS="3"))
    ctx.add("traces_validated_against_impl")
    if r.returncode:
        ctx.violation(f"lti_recur of half precision (3, 2^30): status {r.returncode} {r.stderr.decode(errors='replace')[-300:]}")


OPS = ("lti_recur", "lti_recurN", "recurN", "lti_recur2", "recur2")


def plan(tier):
    c13_build.make()
    t = []
    th = tier == "thorough"

    def add(op, dtype, bound, teams, B, N, M, layouts, k=0):
        t.append((f"{op} {dtype} bound {bound}", run, dict(op=op, dtype=dtype, bound=bound, teams=[t if isinstance(t, tuple) else (t, t) for t in teams], B=B, N=N, M=M, layouts=layouts, k=k, cap=5000000 if th else 300000)))

    for op in OPS:
        for dt in ("float64", "complex128"):
            add(op, dt, 0, [1, 2, 3, 4] + ([5, 6] if th else []), [1, 2, 3, 4, 5] + ([6, 7] if th else []), [1, 2, 3, 4], [1, 2, 3], [0, 1, 2, 3])
            add(op, dt, 0, [(t, m) for m in (2, 3, 4, 5) for t in range(1, m)], [1, 2, 3, 5, 9] if dt == "float64" else [4], [1, 2], [1, 2], [0])
            add(op, dt, 0, [1, 3], [1, 2, 3, 8, 9], [1, 5, 8, 9, 17], [1, 2, 3, 4, 5, 8] + ([16, 17] if th else []), [0])
        for dt in ("float16", "bfloat16", "float32", "complex64") + (("int64",) if op != "lti_recur" else ()):
            add(op, dt, 0, [2, 3], [2, 3], [1, 3], [1, 2], [0, 3])
        for K in (2, 3):
            for M in ((1,) if op == "lti_recur" else (2,) if op[-1] == "2" else (1, 2)):
                for B in (2, 3):
                    add(op, "float64", 2, [K], [B], [1, 2] + ([3] if th else []), [M], [0])
                if th or M == 1:
                    add(op, "float64", 3, [K], [2], [1], [M], [0])
    if th:
        t.append(("big", big, {}))
    return t

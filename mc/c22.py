"""C22: the CUDA operators, compiled for the host, with the parallel scan replaced by the exploration of all scan trees."""
import json
import os
import subprocess
import sys

from . import c13_build

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all scan trees: the .cu files are compiled for the host, and the parallel scan they call is replaced "
             "by one that computes, for every interval of a segment, the set of values of all bracketings")
NOTE = ("The model is the scan (its interval/value states); input transforms, keys, combining operators, output transforms and the surrounding "
        "tensor code are the real ones. Each output must be the same for all trees and equal the recurrence exactly.")
RULE = ("state = (interval of a segment, value of one of its bracketings), transition = one application of the combining operator; trace = one "
        "output element of a call of a real operator compared with the reference recurrence")
BOUNDS = {
    "quick": "lti_recur, lti_recur2, recur2; segments up to 9 elements with all Catalan(8) = 1430 bracketings (17 for a few); every row (a, zi, x) "
             "over {0,1,-1,2} or {0,1,j,-1+j} for N <= 4 or bounded weight above; every 2x2 matrix over {0,1,-1} for N = 1, sampled by weight "
             "above; batches 1..5 and hundreds of rows in one call; shared, (1,) and batched A; 4 memory layouts; 7 dtypes",
    "thorough": "N up to 7 with larger caps, segments up to 33 elements",
}
ASSUMPTIONS = ["thrust::inclusive_scan_by_key combines each segment's elements in order with some bracketing", "g++ and nvcc agree on the C++ of the "
               "functors; launch errors and device memory are out of scope"]


def run(ctx, p):
    r = subprocess.run([sys.executable, "-m", "mc.c22_worker", c13_build.make(cuda=True), json.dumps(p)], capture_output=True,
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if r.returncode < 0 or r.returncode > 128:
        ctx.violation(f"the process of {p} ended by signal {-r.returncode}: {r.stderr.decode(errors='replace')[-300:]}")
        return
    if r.returncode:
        raise RuntimeError(r.stderr.decode(errors="replace")[-2000:])
    o = json.loads(r.stdout.decode().strip().splitlines()[-1])
    ctx.add("states", o["cells"])
    ctx.add("transitions", o["ops"])
    ctx.add("traces_validated_against_impl", o["outputs"])
    for k in ("calls", "rows", "scans"):
        ctx.add(k, o[k])
    ctx.sample(o["sample"])
    for v in o["viol"]:
        ctx.violation(v, dict(params=p))


def plan(tier):
    c13_build.make(cuda=True)
    th = tier == "thorough"
    t = []
    for op in ("lti_recur", "lti_recur2", "recur2"):
        for dt in ("float64", "complex128"):
            for part in range(2):
                p = [dict(op=op, dtype=dt, mode="rows", N=N, cap=32768 if not th else 200000, layouts=[0])
                     for N in ((1, 2, 3, 4), (5, 6) + ((7,) if th else ()))[part]]
                p += [dict(op=op, dtype=dt, mode="layouts", N=N, B=[1, 2, 3, 4, 5] if N < 16 else [1, 3], k=[0, 1, 2], layouts=[0, 1, 2, 3])
                      for N in ((1, 2, 3, 4), (5, 6, 8, 16) + ((7, 12, 32) if th else ()))[part]]
                t.append((f"{op} {dt} part {part}", run, dict(p=p)))
        p = [dict(op=op, dtype=dt, mode="layouts", N=N, B=[1, 2, 3], k=[0], layouts=[0, 3])
             for dt in ("float16", "bfloat16", "float32", "complex64") + (("int64",) if op != "lti_recur" else ()) for N in (1, 3)]
        t.append((f"{op} other dtypes", run, dict(p=p)))
    return t

"""C18: without the compiled extension every function gives the same result. The catalogue of calls is executed in two processes, one on a
tree with and one on a tree without (or with a defective) extension, and the results are compared call by call."""
import glob
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import torch
import torch.autograd.forward_ad as fwAD

from . import api, build
from .c15 import diffable, w
from .core import differs, enc

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of calls (every function, operand layout, size tuple and dtype of the catalogue) executed on two builds, "
             "with fault injection into the extension file (every way it can fail to load); outputs, gradients, second derivatives and "
             "Jacobian-vector products are compared")
NOTE = ("The oracle is the same call on the build with the extension, whose results the other checks decide. Values, gradients and products of "
        "small integers are compared exactly.")
RULE = "one case = (state of the extension file, call, sizes, dtype, derivative)"
SZ = [api.SIZES, dict(B=2, N=7, M=3, F=2, P=4, K=2, J=3, D=3), dict(B=1, N=1, M=2, F=3, P=1, K=1, J=2, D=2),
      dict(B=2, N=4, M=1, F=2, P=3, K=4, J=1, D=5), dict(B=4, N=12, M=4, F=1, P=2, K=5, J=2, D=1)]
BIG = [dict(B=b, N=n, M=m, F=2, P=3, K=k, J=j, D=d) for b in (1, 2, 5) for n in (1, 2, 6, 11) for m in (1, 2, 3, 5) for k, j, d in
       ((3, 2, 2), (1, 1, 1), (2, 4, 3))]
BOUNDS = {
    "quick": "about 700 calls at 5 tuples of sizes in double and complex double, 2 tuples in float and int64, the first tuple in half and bfloat16; "
             "values, gradients, second derivatives, Jacobian-vector products; extension file missing, empty, garbage, truncated, a link to nothing, "
             "without the init function, with an undefined symbol, a directory; and Helion missing",
    "thorough": "144 tuples of sizes",
}
ASSUMPTIONS = ["results that involve eigenvalues, solve or the spline filter are compared to 1e-9 (1e-4 in float)"]
NATIVE = ("ops.", "lti.recur.LTIRecurrence", "lti.ssm.LTIMatrixRecurrence", "lpv.ssm.MatrixRecurrence")
DT = dict(double=torch.float64, cdouble=torch.complex128, float=torch.float32, int64=torch.int64, half=torch.half, bfloat16=torch.bfloat16,
          cfloat=torch.complex64)


def calls(job):
    dt = DT[job["dtype"]]
    groups = [g for g in api.GROUPS if g not in ("helion", "natives")]
    if job["dtype"] in ("int64", "half", "bfloat16"):
        groups = ["recurrences", "spaces", "filters"]
    b = api.book(job["sizes"], cplx=dt.is_complex, dtype=dt, groups=groups)
    if "names" in job:
        b = [c for c in b if any(n in c.name for n in job["names"])]
    return {c.key: c for c in b if not c.name.startswith(NATIVE)}


def plainly(t):
    return t.detach().resolve_conj().resolve_neg().clone()


def outcome(c):
    """Values, gradients, second derivatives and tangents of one call; errors as strings."""
    out = {}

    def put(k, f):
        try:
            out[k] = f()
        except BaseException as e:
            out[k] = f"{type(e).__name__}: {str(e)[:200]}"

    def grads(second):
        ops = c.make()
        leaf = diffable(ops)
        for v in leaf.values():
            v.requires_grad_(True)
        r = [t for t in api.flatten(c(ops)) if t.requires_grad]
        if not r:
            return [None] * len(leaf)
        g = torch.autograd.grad(r, list(leaf.values()), [w(t) for t in r], allow_unused=True, create_graph=second)
        if second:
            gg = [t for t in g if t is not None and t.requires_grad]
            if not gg:
                return [None] * len(leaf)
            g = torch.autograd.grad(gg, list(leaf.values()), [w(t) for t in gg], allow_unused=True)
        return [None if t is None else plainly(t) for t in g]

    def jvp():
        with fwAD.dual_level():
            ops = c.make()
            r = api.flatten(c({k: fwAD.make_dual(v, w(v)) if k in diffable(ops) else v for k, v in ops.items()}))
            u = [fwAD.unpack_dual(t) for t in r]
            return [plainly(z.tangent) if z.tangent is not None else None for z in u]

    put("value", lambda: [plainly(t) for t in api.flatten(c())])
    if not isinstance(out["value"], str) and diffable(c.ops):
        put("gradient", lambda: grads(False))
        put("second derivative", lambda: grads(True))
        put("tangent", jvp)
    return out


def tol(c, dt):
    if dt in ("float", "cfloat"):
        return None if c.exact else 1e-4
    if dt in ("half", "bfloat16"):
        return 0.004 if dt == "half" else 0.03
    return None if c.exact else 1e-9


def worker(root, jobs, helion=True):
    d = tempfile.mkdtemp(prefix="philmc-c18-")
    try:
        src, dst = os.path.join(d, "in.pkl"), os.path.join(d, "out.pkl")
        with open(src, "wb") as f:
            pickle.dump(jobs, f)
        env = dict(os.environ, PHILMC_TREE=root)
        if not helion:
            env["PHILMC_NO_HELION"] = "1"
        r = subprocess.run([sys.executable, os.path.join(build.VERIF, "mc", "c18_worker.py"), src, dst], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if not os.path.exists(dst):
            return dict(error=f"the process ended with status {r.returncode}: {r.stdout.decode(errors='replace')[-300:]}", results=[], warnings=[])
        with open(dst, "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)




def compare(ctx, job, other, state):
    for k, c in calls(job).items():
        a, b = outcome(c), other.get(k)
        if isinstance(a["value"], str):
            ctx.add("refused")
            continue
        zero = lambda u, v: [torch.zeros_like(q) if p is None and q is not None else p for p, q in zip(u, v)]
        for part in a:
            ctx.case((state, k, str(job["sizes"]), job["dtype"], part))
            if isinstance(a[part], str):
                continue
            if b is None or part not in b or isinstance(b[part], str):
                d = "no result" if b is None else b.get(part, b["value"])
            else:
                e, g = a[part], b[part]
                if any(q is not None and not q.is_complex() and not torch.isfinite(q).all() for q in e):
                    continue  # not differentiable there
                d = differs(zero(e, g), zero(g, e), tol(c, job["dtype"])) if len(e) == len(g) else f"{len(g)} results instead of {len(e)}"
            if d:
                ctx.violation(f"{k} at {job['sizes']} in {job['dtype']} with {state}: {part}: {d} (expected: the result with the extension)",
                              dict(ops=enc(c.make())))
                break


def same(ctx, jobs):
    root, _ = build.prepare(build.REPO, with_ext=False, keep=True)
    try:
        r = worker(root, jobs)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if r["error"]:
        ctx.violation(f"without the extension: {r['error']}")
        return
    if r["loaded"] or not any("xtension" in m for m in r["warnings"]):
        ctx.violation(f"without the extension: EXTENSION_LOADED is {r['loaded']}, warnings {r['warnings'][:3]}")
    for job, res in zip(jobs, r["results"]):
        compare(ctx, job, res, "no extension")
    ctx.sample(f"no extension, {jobs[0]['dtype']}, {jobs[0]['sizes']}")


def defect(ctx, kind):
    root, _ = build.prepare(build.REPO, with_ext=kind == "no Helion", keep=True)
    so = os.path.join(root, "philtorch", build.EXT_NAME)
    real = glob.glob(os.path.join(os.environ["PHILMC_TREE"], "philtorch", "_C*.so"))[0]
    try:
        if kind == "empty":
            open(so, "wb").close()
        elif kind == "garbage":
            open(so, "wb").write(b"\x7fELF" + bytes(range(256)) * 64)
        elif kind == "text":
            open(so, "w").write("not a library\n")
        elif kind.startswith("cut"):
            data = open(real, "rb").read()
            open(so, "wb").write(data[:64])  # cut in the program headers, later the loader itself ends the process
        elif kind in ("no init", "undefined symbol"):
            src = os.path.join(root, "x.c")
            open(src, "w").write("int x(void) { return 1; }\n" if kind == "no init" else
                                 "extern int philmc_missing; int *PyInit__C(void) { return &philmc_missing; }\n")
            subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, src], check=True)
        elif kind == "directory":
            os.mkdir(so)
        elif kind == "unreadable link":
            os.symlink("/nonexistent/_C.so", so)
        jobs = [dict(sizes=SZ[1], dtype="double"), dict(sizes=SZ[0], dtype="cdouble")]
        for j in jobs:
            j["names"] = ("lfilter", "state_space", "linear_recurrence", "comb", "cspline")
        r = worker(root, jobs, helion=kind != "no Helion")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if r["error"]:
        ctx.violation(f"extension file: {kind}: importing philtorch fails: {r['error']}")
        return
    if bool(r["loaded"]) != (kind == "no Helion") or not r["warnings"]:
        ctx.violation(f"extension file: {kind}: EXTENSION_LOADED is {r['loaded']}, warnings {r['warnings'][:3]}")
    for job, res in zip(jobs, r["results"]):
        compare(ctx, job, res, f"extension file: {kind}" if kind != "no Helion" else kind)


KINDS = ("empty", "garbage", "text", "cut", "no init", "undefined symbol", "directory", "unreadable link", "no Helion")


def plan(tier):
    big = tier == "thorough"
    t = []
    for s in SZ + (BIG if big else []):
        t.append(("same", same, dict(jobs=[dict(sizes=s, dtype="double")])))
        t.append(("same", same, dict(jobs=[dict(sizes=s, dtype="cdouble")])))
    t.append(("large", same, dict(jobs=[dict(sizes=dict(B=13, N=9, M=5, F=3, P=4, K=7, J=6, D=12), dtype="double")])))
    t.append(("same", same, dict(jobs=[dict(sizes=s, dtype=d) for s in SZ[:2] for d in ("float", "int64")])))
    t.append(("same", same, dict(jobs=[dict(sizes=SZ[0], dtype=d) for d in ("half", "bfloat16")] + [dict(sizes=SZ[1], dtype="cfloat")])))
    t += [("defect", defect, dict(kind=k)) for k in KINDS]
    return t

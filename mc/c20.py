"""C20: every supported dtype is preserved, and small integers give the same numbers in each of them."""
import itertools

import torch

from . import api
from .c15 import diffable, w
from .core import differs, enc, resolve

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of (function, operand layout, sizes, dtype), each executed on the code; values and dtypes compared with "
             "the double precision result, exactly, also after scaling by the largest integer that the dtype still represents exactly")
NOTE = ("The oracle is the double (complex double) result, which the other checks decide, converted to the dtype. All data are integers small enough "
        "for every dtype to represent each intermediate value; the scaled variant needs all bits of the dtype, so that an intermediate of lower "
        "precision shows. Dtypes that PyTorch or torchlpc kernels do not implement on the CPU are not required, only never wrong.")
RULE = "one case = (dtype, call, sizes, scale, values | gradients)"
SZ = [dict(B=3, N=4, M=m, F=2, P=3, K=k, J=j, D=d) for m, (k, j, d) in itertools.product((1, 2, 3), ((3, 2, 2), (2, 1, 3), (1, 2, 1)))]
BIGSZ = [dict(B=b, N=n, M=m, F=2, P=3, K=k, J=j, D=d) for b in (1, 2, 4) for n in (1, 2, 3, 5) for m in (1, 2, 3, 4)
         for k, j, d in ((3, 2, 2), (2, 3, 3), (4, 1, 1))]
BOUNDS = {
    "quick": "about 700 calls, 9 tuples of sizes (state 1 to 3, both orders of numerator and denominator), half, bfloat16, float, complex float, "
             "int64; Helion kernels in interpreter mode; values, gradients, and values scaled to the full precision (float, double, complex, int64)",
    "thorough": "144 tuples of sizes",
}
ASSUMPTIONS = ["data in {-1, 0, 1}: every intermediate value is below 256 and so exact in bfloat16"]
DT = {"half": torch.half, "bfloat16": torch.bfloat16, "float": torch.float32, "cfloat": torch.complex64, "int64": torch.int64,
      "double": torch.float64, "cdouble": torch.complex128}
EPS = {"half": 2 ** -10, "bfloat16": 2 ** -7, "float": 1e-5, "cfloat": 1e-5}
SCALE = {"float": 2 ** 12 + 1, "cfloat": 2 ** 12 + 1, "double": 2 ** 40 + 1, "cdouble": 2 ** 40 + 1, "int64": 2 ** 52 + 1}
MATRIX = ("ops.recur", "ops.lti_recur2", "ops.lti_recurN", "lti.ssm.LTIMatrixRecurrence", "lpv.ssm.MatrixRecurrence", "hl_")


def required(c, dt, M):
    """Whether the call has to be accepted in the dtype (otherwise it may be refused, but never be wrong)."""
    if dt in ("float", "cfloat", "double", "cdouble"):
        return True
    lpc = c.opts.get("backend") == "torchlpc" or c.name == "lpv.allpole" or c.name.startswith("lpv.") and \
        1 in (M, max(c.ops["b"].shape[-1] - 1, c.ops["a"].shape[-1]) if "b" in c.ops and "a" in c.ops else M)
    if dt == "int64":
        return c.name.startswith(MATRIX) or c.name.endswith("state_space_recursion") or \
            c.name.endswith("state_space") and M > 1 and not any(k in c.labels for k in "BCD")
    return c.exact and not lpc and c.name != "mat.vandermonde"


def tiny(c):
    for k, v in c.ops.items():
        c.ops[k] = torch.complex(v.real.sign(), v.imag.sign()) if v.is_complex() else v.sign()
    return c


def books(sizes, cplx, helion):
    groups = [g for g in api.GROUPS if g not in ("helion", "prototypes")] + (["helion"] if helion else [])
    # (the sign of an eigenvector is not determined)
    return [c for c in api.book(sizes, cplx=cplx, groups=groups) if c.name != "mat.find_eigenvectors"]


def same_class(t, dt):
    """dtype of a double precision result in the precision of dt."""
    if dt == "int64":
        return torch.int64
    if t.dtype.is_complex:
        return torch.complex64 if dt in ("float", "cfloat") else torch.complex128
    return {"cfloat": torch.float32, "cdouble": torch.float64}.get(dt, DT[dt])


def dtypes(ctx, sizes, dt, helion):
    cplx = dt == "cfloat"
    d = DT[dt]
    for c in books(sizes, cplx, helion):
        if c.exact:
            tiny(c)
        elif dt in ("int64",):
            continue
        ops = {k: v.to(d) for k, v in c.ops.items()}
        ref, err = ctx.call(c)
        if err:
            ctx.violation(f"{c.key} at {sizes} in double: {err}")
            continue
        ref = api.flatten(ref)
        r, err = ctx.call(c, {k: v.clone() for k, v in ops.items()})
        ctx.case((c.key, str(sizes), dt))
        if err:
            if required(c, dt, sizes["M"]):
                ctx.violation(f"{c.key} at {sizes} in {dt}: {err}", dict(ops=enc(ops)))
            else:
                ctx.add("refused")
            continue
        r = api.flatten(r)
        exp = [t.to(same_class(t, dt)) for t in ref]
        bad = differs(exp, r, None if c.exact else 64 * EPS[dt])
        if bad:
            ctx.violation(f"{c.key} at {sizes} in {dt}: {bad}", dict(ops=enc(ops), expected=enc(exp), got=enc(r)))
            continue
        if dt == "int64":
            continue

        def grads(o):
            o = {k: v.clone().requires_grad_(True) for k, v in o.items()}
            rr = [t for t in api.flatten(c.fn(**o)) if t.requires_grad]
            if not rr:
                return []
            return torch.autograd.grad(rr, list(o.values()), [w(t) for t in rr], allow_unused=True)
        g0, e0 = ctx.call(grads, c.make())
        if e0:
            continue
        g, err = ctx.call(grads, ops)
        ctx.case((c.key, str(sizes), dt, "gradients"))
        bad = err or differs([None if t is None else t.to(same_class(t, dt)) for t in g0], list(g), 16 * EPS[dt] * (1 if c.exact else 64))
        if bad and not (err and not required(c, dt, sizes["M"])) and (c.exact or dt in ("float", "cfloat")):
            ctx.violation(f"{c.key} at {sizes} in {dt}: gradients: {bad}", dict(ops=enc(ops)))
    ctx.sample(f"{dt} {sizes} {c.key}")


def scaled(ctx, sizes, dt, helion):
    """Linear in x and the initial state: scaling both by s scales the result by s, without any rounding."""
    cplx = dt in ("cfloat", "cdouble")
    d, s = DT[dt], SCALE[dt]
    for c in books(sizes, cplx, helion):
        if not c.exact or not c.name.startswith(("lti.", "lpv.", "ops.", "hl_")) or "x" not in c.ops or "lfiltic" in c.name:
            continue
        tiny(c)
        ops = {k: v.to(d) for k, v in c.ops.items()}
        r0, err = ctx.call(c, {k: v.clone() for k, v in ops.items()})
        ctx.case((c.key, str(sizes), dt, "scaled"))
        if err:
            ctx.add("refused")
            continue
        r, err = ctx.call(c, {k: v * s if k in ("x", "zi", "init") else v.clone() for k, v in ops.items()})
        bad = err or differs([t * s for t in api.flatten(r0)], api.flatten(r))
        if bad:
            ctx.violation(f"{c.key} at {sizes} in {dt}, x and state times {s}: {bad}", dict(ops=enc(ops)))
    ctx.sample(f"{dt} {sizes} {c.key} scaled by {s}")


def plan(tier):
    t = []
    large = dict(B=13, N=9, M=5, F=3, P=4, K=7, J=6, D=12)
    t.append(("large", dtypes, dict(sizes=large, dt="float", helion=False)))
    for i, s in enumerate(SZ + (BIGSZ if tier == "thorough" else [])):
        h = s["K"] == 3
        for dt in ("half", "bfloat16", "float", "cfloat", "int64"):
            t.append(("dtypes", dtypes, dict(sizes=s, dt=dt, helion=h and dt != "cfloat")))
        for dt in SCALE:
            t.append(("scaled", scaled, dict(sizes=s, dt=dt, helion=h and dt not in ("cfloat", "cdouble"))))
    return t

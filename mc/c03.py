"""C03: state_space and state_space_recursion (lti and lpv) and the native operators against the state equations, exactly,
for every operand layout and every small size."""
import itertools

import numpy as np
import torch

from . import ref
from .ref import T, rows, cross, dense

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of the state-vector machine, crossed with every operand layout; traces replayed on the code"
NOTE = ("Exhaustive within the bounds: all sizes, all combinations of operand layouts and (for the recursions) all traces of the "
        "state machine over small alphabets run on the real functions and are compared bit for bit. Where a shape admits two "
        "readings of the same kind (batch or time), either is accepted; a shape that a more specific layout claims is not "
        "used for the wildcard layout.")
RULE = ("state = (time, state vector, matrices), transition = h -> A h + B x; a trace is one batch row; every trace is one row of "
        "a call of state_space / state_space_recursion / a native operator and is compared with ==")
BOUNDS = {
    "quick": "layouts: batch, length, state, output and input size all in {1,2,3} (and a state of 4 where all sizes differ), "
             "every layout of A, B, C, D, zi, every out_idx, unroll_factor 1, 2 and default (all pairs of layout groups); "
             "sizes (B,N,M) up to (300,4,3), (2,600,4), (3,130,9), (2,5,17) with matrices of bounded orbits; values: A over {-1,0,1,2} (all 2x2, weight <= 2 for 3x3 and 4x4), N <= 5, double, complex, int64",
    "thorough": "the full product of all layouts, sizes up to 4",
}
ASSUMPTIONS = ["values are small (Gaussian) integers: float rounding is outside of the model"]

AL = (1, 2, -1, 3, -2)


def layouts(lpv):
    t = ["", "N"] if lpv else [""]
    pre = [b + n for b in ("", "B") for n in t]
    return dict(
        A=[p + "MM" for p in pre] if not lpv else ["NMM", "BNMM"],
        B2=[p + "M" for p in pre], B3=[p + "MF" for p in pre],
        Cs=[p + "M" for p in pre], Cv=[p + "PM" for p in pre],
        D2s=["", "1"] + [p for p in pre if p], D3s=[p + "F" for p in pre],
        D2v=[p + "P" for p in pre], D3v=[p + "PF" for p in pre] + ["", "1"],
        zi=[None, "M", "BM"],
    )


def shape(label, S):
    return tuple(1 if c == "1" else S[c] for c in label)


def grow(t, label, full, S):
    """Expands an array with axes named by label to the axes named by full."""
    label = label.replace("1", "")
    t = t.reshape([S[c] for c in label]) if label else t.reshape(())
    idx = tuple(slice(None) if c in label else None for c in full)
    assert [c for c in full if c in label] == list(label)
    return np.broadcast_to(t[idx], [S[c] for c in full])


def vals(sh, off=0, al=AL):
    n = int(np.prod(sh, dtype=int))
    return dense(n, 1, al, off)[0].reshape(sh) if n else np.zeros(sh)


def readings(label, options, S):
    """All labels by which the tensor that was made for `label` may be read, or [] if a more specific layout claims its shape."""
    sh = shape(label, S)
    exact = [o for o in options if "P" not in o and shape(o, S) == sh]
    if "P" in label:
        if exact:
            return []
        return [o for o in options if "P" in o and shape(o, S) == sh]
    return exact


def signed_perms(sh, cplx):
    """Matrices whose products stay small, all different: permutations with units for entries; some rows are zero."""
    M = sh[-1]
    A = np.zeros((int(np.prod(sh[:-2], dtype=int)), M, M), complex)
    units = (1, -1, 1j, -1j) if cplx else (1, -1, 1, 1)
    for i, m in enumerate(A):
        for r in range(M):
            if (r + i) % 11 != 7:
                m[r, (r * (1 + i % 2 if M % 2 else 1) + 1 + i) % M] = units[(r * 3 + i) % 4]
    return (A if cplx else A.real).reshape(sh)


class Group:
    """All calls for one tuple of sizes."""

    def __init__(self, ctx, lpv, S, cplx, sparse=False):
        self.ctx, self.lpv, self.S, self.cplx, self.sparse = ctx, lpv, S, cplx, sparse
        self.L = layouts(lpv)
        self.name = ("lpv" if lpv else "lti") + ".state_space"

    def run(self, x3, Al, Bl, Cl, Dl, zl, out, ufs):
        S, L, ctx = dict(self.S), self.L, self.ctx
        Bsz, N, M = S["B"], S["N"], S["M"]
        vec = Cl is None and out is None or Cl is not None and "P" in Cl
        if Cl is None and out is None:
            S["P"] = M
        if Bl is None and x3:
            S["F"] = M
        if Dl in ("", "1") and vec and (not x3 or S["F"] != S["P"]):
            return
        if Dl == "1" and x3 and (S["F"] == 1 or not vec):
            return
        al = AL if not self.cplx else (1, 1j, -1, 1 + 1j, 2)
        A = vals(shape(Al, S), 0, (1, 0, -1, 1) if not self.cplx else (1, 0, 1j, -1))
        if self.sparse:
            A = signed_perms(shape(Al, S), self.cplx)
        x = vals((Bsz, N) + ((S["F"],) if x3 else ()), 1, al)
        zi = np.zeros((Bsz, M)) if zl is None else vals(shape(zl, S), 2, al)
        Bm = None if Bl is None else vals(shape(Bl, S), 3, al)
        C = None if Cl is None else vals(shape(Cl, S), 4, al)
        D = None if Dl is None else vals(shape(Dl, S), 5, al)
        if self.cplx:
            A, x, zi, Bm, C, D = [None if v is None else v.astype(complex) for v in (A, x, zi, Bm, C, D)]
        Bopts = [None] if Bl is None else readings(Bl, L["B3" if x3 else "B2"], S)
        Copts = [None] if Cl is None else readings(Cl, L["Cs"] + L["Cv"], S)
        if Dl is None:
            Dopts = [None]
        elif Dl in ("", "1"):
            Dopts = [Dl]
        else:
            Dopts = readings(Dl, (L["D3s"] + [v for v in L["D3v"] if "P" in v]) if x3 else (L["D2s"] + L["D2v"]), S)
        if not (Bopts and Copts and Dopts):
            return
        Af = grow(A, Al, "BNMM", S) if Al in ("BNMM",) else np.broadcast_to(
            A[:, None] if Al == "BMM" else A[None] if Al == "NMM" else A, (Bsz, N, M, M))
        zf0 = grow(zi, zl, "BM", S) if zl else zi
        want = []
        for bo, co, do in itertools.product(Bopts, Copts, Dopts):
            if Bl is None:
                Bx = x if x3 else np.concatenate([x[..., None], np.zeros((Bsz, N, M - 1))], -1)
            elif x3:
                Bx = (grow(Bm, bo, "BNMF", S) * x[:, :, None, :]).sum(-1)
            else:
                Bx = grow(Bm, bo, "BNM", S) * x[:, :, None]
            hs, zf = ref.state_space(Af, Bx, None, None, zf0, ctx if not want else None)
            if co is None:
                y = hs if out is None else hs[..., out]
            elif "P" in co:
                S2 = dict(S, P=C.shape[-2])
                y = (grow(C, co, "BNPM", S2) * hs[:, :, None, :]).sum(-1)
            else:
                y = (grow(C, co, "BNM", S) * hs).sum(-1)
            if do is not None:
                if do in ("", "1"):
                    Dx = x * D.reshape(())
                elif x3:
                    Dx = (grow(D, do, "BNPF", S) * x[:, :, None, :]).sum(-1) if "P" in do else \
                        (grow(D, do, "BNF", S) * x).sum(-1)
                else:
                    Dx = grow(D, do, "BNP", S) * x[:, :, None] if "P" in do else grow(D, do, "BN", S) * x
                y = y + Dx
            want.append((y, zf))
        ctx.add("traces_validated_against_impl", Bsz)
        kw = dict(A=T(A), x=T(x))
        for k, v in (("B", Bm), ("C", C), ("D", D)):
            if v is not None:
                kw[k] = T(v)
        if zl is not None:
            kw["zi"] = T(zi)
        if out is not None:
            kw["out_idx"] = out
        for uf in ufs:
            if uf is not None:
                kw["unroll_factor"] = uf
            else:
                kw.pop("unroll_factor", None)
            exps = [(T(y), T(zf)) if zl is not None else T(y) for y, zf in want]
            if len(exps) > 1:
                ctx.add("evaluations")
                from .core import differs, resolve
                got, err = ctx.call(resolve(self.name), **kw)
                if err is None and any(differs(e, got) is None for e in exps):
                    continue
            ctx.check(self.name, kw, exps[0], note=f"B={Bl} C={Cl} D={Dl} zi={zl} A={Al}")


def shapes(ctx, lpv, cplx, sizes, full, sparse=False):
    for Bsz, N, M, P, F in sizes:
        S = dict(B=Bsz, N=N, M=M, P=P, F=F)
        g = Group(ctx, lpv, S, cplx, sparse)
        L = g.L
        i = 0
        for x3 in (False, True):
            if not x3 and F > 1:
                continue
            Bs = [None] + L["B3" if x3 else "B2"]
            outs = [(None, o) for o in range(M)] + [(c, None) for c in L["Cs"]]
            scal = list(itertools.product(outs, [None] + L["D3s" if x3 else "D2s"]))
            vec = list(itertools.product([(None, None)] + [(c, None) for c in L["Cv"]],
                                         [None] + L["D3v" if x3 else "D2v"] + ([""] if x3 else [])))
            if P > 1:  # the scalar outputs do not depend on P
                scal = []
            abz = list(itertools.product(L["A"], Bs, L["zi"]))
            cds = scal + vec
            if full:
                combos = list(itertools.product(abz, cds))
            else:
                combos = [(abz[(i + 5 * j) % len(abz)], cd) for j, cd in enumerate(cds)]
                combos += [(a, cds[(i + 3 * j) % len(cds)]) for j, a in enumerate(abz)]
                combos += [(abz[(i + 7 * j + 3) % len(abz)], cd) for j, cd in enumerate(cds)]
            seen = set()
            for j, ((Al, Bl, zl), ((Cl, out), Dl)) in enumerate(combos):
                if (Al, Bl, zl, Cl, out, Dl) in seen:
                    continue
                seen.add((Al, Bl, zl, Cl, out, Dl))
                g.run(x3, Al, Bl, Cl, Dl, zl, out, (None, 1, 2) if full else (1, (None, 2)[j % 2]))
            i += 1
        ctx.sample(f"{g.name} sizes {S}: {len(seen)} layout combinations")


def values(ctx, lpv, M, kind, Ns, cap):
    """All traces of the recursion itself: every A, zi and x over an alphabet."""
    cplx = kind == "complex"
    al = (0, 1, 1j, -1 + 1j) if cplx else (0, 1, -1, 2)
    dt = {"double": None, "complex": None, "int": torch.int64}[kind]
    for N in Ns:
        k = (N if lpv else 1) * M * M
        As = rows(k, al, 300 if M < 3 else 150, 2, 3)
        xs, zs = rows(N * M, al[:3], cap, 1, 2), rows(M, al[:3], 9, 1, 1)
        if len(As) * len(xs) * len(zs) > 40000:
            xs = xs[-cap // 2:]
        A, x, zi = ref.same(cplx, *cross(As, xs, zs))
        R = len(A)
        A = A.reshape((R, N, M, M) if lpv else (R, M, M))
        x = x.reshape(R, N, M)
        Af = A if lpv else np.repeat(A[:, None], N, 1)
        h = ref.recursion(Af, zi, x, ctx)
        h2 = ref.recursion(Af, zi, np.concatenate([x[..., :1], np.zeros_like(x[..., 1:])], -1))
        if not ref.exact(h, h2):
            continue
        ctx.add("traces_validated_against_impl", 2 * R)
        ctx.sample(f"{'lpv' if lpv else 'lti'} A={A[-1].tolist()} zi={zi[-1].tolist()} x={x[-1].tolist()} -> {h[-1].tolist()}")
        mod = "lpv" if lpv else "lti"
        c = lambda v: T(v, dt)
        ops = []
        if M >= 2 or lpv:
            ops = [("ops.recurN" if lpv else "ops.lti_recurN")]
            ops += [("lpv.ssm.MatrixRecurrence" if lpv else "lti.ssm.LTIMatrixRecurrence")] if M >= 2 else []
        if M == 2:
            ops += ["ops.recur2" if lpv else "ops.lti_recur2"]
        for op in ops:
            ctx.check(op, {}, c(h), args=(c(A), c(zi), c(x)))
        if M == 1 and not lpv and kind != "int":
            for op in ("ops.lti_recur", "lti.recur.LTIRecurrence"):
                ctx.check(op, {}, c(h[..., 0]), args=(c(A[:, 0, 0]), c(zi[:, 0]), c(x[..., 0])))
        for uf in (1, 2, 3):
            fn = f"{mod}.ssm.state_space_recursion"
            ctx.check(fn, dict(A=c(A), zi=c(zi), x=c(x), unroll_factor=uf), c(h))
            ctx.check(fn, dict(A=c(A), zi=c(zi), x=c(x[..., 0]), unroll_factor=uf), c(h2))
            for o in range(M):
                ctx.check(fn, dict(A=c(A), zi=c(zi), x=c(x), unroll_factor=uf, out_idx=o), c(h[..., o]))
                ctx.check(fn, dict(A=c(A), zi=c(zi), x=c(x[..., 0]), unroll_factor=uf, out_idx=o), c(h2[..., o]))
        # matrices shared by the batch, for a selection of them
        for r in range(0, R, max(1, R // 40)):
            a0 = A[r]
            xs_, zs_ = x[r % 7::max(1, R // 6)][:6], zi[r % 5::max(1, R // 6)][:6]
            k = min(len(xs_), len(zs_))
            xs_, zs_ = xs_[:k], zs_[:k]
            Af = np.repeat((a0 if lpv else np.repeat(a0[None], N, 0))[None], k, 0)
            hs = ref.recursion(Af, zs_, xs_)
            if not ref.exact(hs):
                continue
            for op in ops:
                ctx.check(op, {}, c(hs), args=(c(a0), c(zs_), c(xs_)))
            if M == 1 and not lpv and kind != "int":
                for op in ("ops.lti_recur", "lti.recur.LTIRecurrence"):
                    ctx.check(op, {}, c(hs[..., 0]), args=(c(a0[0, 0]), c(zs_[:, 0]), c(xs_[..., 0])))
            for uf in (1, 2, 3):
                ctx.check(f"{mod}.ssm.state_space_recursion", dict(A=c(a0), zi=c(zs_), x=c(xs_), unroll_factor=uf), c(hs))


def plan(tier):
    q = tier == "quick"
    rng = (1, 2, 3) if q else (1, 2, 3, 4)
    tasks = []
    for lpv in (False, True):
        for M in rng:
            for B in rng:
                sizes = [(B, N, M, P, F) for N in rng for P in rng for F in rng]
                tasks.append((f"shapes{M}", shapes, dict(lpv=lpv, cplx=False, sizes=sizes, full=not q)))
        distinct = [(2, 3, 4, 5, 1), (3, 2, 5, 4, 1), (5, 4, 3, 2, 1), (2, 5, 3, 4, 6), (3, 2, 4, 1, 5), (1, 3, 2, 4, 5)]
        for cplx in (False, True):
            for s in distinct:
                tasks.append(("distinct", shapes, dict(lpv=lpv, cplx=cplx, sizes=[s], full=not lpv or s[4] == 1 or not q)))
        tasks.append(("complex", shapes, dict(lpv=lpv, cplx=True, full=not q,
                                              sizes=list(itertools.product((1, 2), (1, 2), (1, 2), (1, 2), (1, 2))))))
        large = [(19, 70, 2, 3, 2), (2, 600, 4, 3, 2), (300, 4, 3, 2, 1), (2, 5, 17, 2, 3), (37, 20, 6, 1, 2), (3, 130, 9, 2, 1), (70, 9, 5, 2, 3)]
        for cplx in (False, True):
            for s in large + ([(2, 2500, 4, 3, 2), (150, 33, 12, 5, 1)] if not q else []):
                tasks.append(("large", shapes, dict(lpv=lpv, cplx=cplx, sizes=[s], full=False, sparse=True)))
        for M in (1, 2, 3, 4):
            for kind in ("double", "complex", "int"):
                if kind == "int" and M == 1:
                    continue
                tasks.append(("values", values, dict(lpv=lpv, M=M, kind=kind, Ns=[1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 6, 7],
                                                     cap=12 if q else 60)))
    return tasks

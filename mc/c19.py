"""C19: operands of incompatible sizes are rejected, compatible ones accepted: every tuple of operand shapes within the bounds, against the
documented layouts (unification of shapes with axis labels)."""
import itertools

import numpy as np
import torch

from . import api
from .core import resolve
from .ref import T

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all tuples of operand shapes (ranks and sizes) for every function, executed on the real code in separate processes; the "
             "oracle is unification of the shapes with the documented axis labels")
NOTE = ("Every tuple of shapes of the stated ranks with sizes 2 and 3 (for the native operators also 1) is executed; one that no documented layout explains "
        "must raise, one that a layout explains must be accepted. Tuples that only broadcasting of a batch, time or output axis of size 1 explains may do "
        "either. Crashes end a task's own process and are reported.")
RULE = "one case = (function, options, tuple of operand shapes); distinct by all of these"
BOUNDS = {
    "quick": "native and Helion operators: all shapes of rank 0 to 4 with sizes {1, 2}, and all of the accepted ranks with sizes {1, 2, 3}; recurrences, "
             "filters: all shapes of the documented ranks and one more and one less, sizes {2, 3}; state_space and diag_state_space: all pairs of operands "
             "with A and x, sizes {2, 3}, and all single operands with all A and x; every function also with one axis of one operand changed from a "
             "compatible tuple with distinct sizes, and with the documented ranks and sizes {1, 2, 3} (four operands and lpv.state_space: {1, 2})",
    "thorough": "sizes {2, 3, 4} for the functions with up to three operands; all triples of the operands of state_space",
}
ASSUMPTIONS = ["torch itself rejects the shapes it documents as incompatible"]


class Spec:
    """ops: operand -> (kind of values, [documented layouts]); ok(S, L, kw): the sizes S of the layouts L agree;
    free(S, L, kw, shapes): accepted or not, both are fine; decide(shapes, kw) -> compatible: True, False or None (both are fine), instead of layouts."""

    def __init__(self, name, ops, kws=({},), ok=None, free=None, fn=None, key="", decide=None):
        self.name, self.ops, self.kws, self.ok, self.free, self.fn, self.key, self.decide = name, ops, kws, ok, free, fn, key, decide

    def layouts(self, shapes, kw, lenient=""):
        """All (labels, sizes) that explain the shapes; the axes in lenient may also have size 1, as in broadcasting."""
        names = list(self.ops)
        found = []

        def rec(i, S, L):
            if i == len(names):
                if self.ok is None or self.ok(S, L, kw):
                    found.append((dict(L), dict(S)))
                return
            o = names[i]
            sh = shapes[o]
            for lab in self.ops[o][1]:
                if len(lab) != len(sh):
                    continue
                S2, good = dict(S), True
                for c, n in zip(lab, sh):
                    if c == "1":
                        good = n == 1
                    elif c.isdigit():
                        good = n == int(c)
                    elif n == 1 and c in lenient:
                        pass
                    elif S2.setdefault(c, n) != n:
                        good = False
                    if not good:
                        break
                if good:
                    L[o] = lab
                    rec(i + 1, S2, L)
                    del L[o]
        rec(0, {}, {})
        return found

    def call(self, ops, kw):
        return self.fn(**ops, **kw) if self.fn else resolve(self.name)(**ops, **kw)


_cache = {}


def data(kind, shape, k):
    key = (kind, shape, k)
    if key not in _cache:
        try:
            v = np.asarray(api.values(kind, shape, k, False))
            assert v.shape == tuple(shape)
        except Exception:  # a shape this kind of data does not have
            v = np.full(shape, 0.25)
        _cache[key] = T(v).double()
    return _cache[key].clone()


def positional(name, names):
    return lambda **o: resolve(name)(*[o[k] for k in names])


def op_spec(name):
    lpv = "lti" not in name
    if name in ("ops.lti_recur", "lti.recur.LTIRecurrence"):
        return Spec(name, dict(A=("c", ["", "1", "B"]), zi=("x", ["B"]), x=("x", ["BN"])), fn=positional(name, ("A", "zi", "x")))
    m = "2" if name.endswith("recur2") else "M"
    n = "N" if lpv else ""

    labs = [f"{n}MM", f"B{n}MM"]
    return Spec(name, dict(A=("c", labs), zi=("x", ["BM"]), x=("x", ["BNM"])), fn=positional(name, ("A", "zi", "x")), key=m)


def eq(S, *names):
    v = {S[n] for n in names if n in S}
    return len(v) < 2


def filter_ok(zi_size):
    def ok(S, L, kw):
        if "Z" in S and S["Z"] != zi_size(S):
            return False
        if L["x"] == "N" and any("B" in v for v in L.values()) and S.get("B", 1) != 1:
            return False
        return True
    return ok


ORDER = lambda S: max(S["K"] - 1, S["J"])


def ss_ok(lpv):
    def ok(S, L, kw):
        x3 = L["x"] == "BNF"
        if "B" not in L and x3 and S["F"] != S["M"]:
            return False
        if kw.get("out_idx") is not None and "C" in L:
            return False
        if "B" in L and ("F" in L["B"]) != x3:
            return False
        C = L.get("C")
        vec = ("P" in C) if C is not None else kw.get("out_idx") is None
        P = S.get("P")
        if C is None and vec:
            if P is not None and P != S["M"]:
                return False
            P = S["M"]
        D = L.get("D")
        if D is not None:
            if D in ("", "1"):
                if x3 and not (vec and S["F"] == P) or not x3 and vec:
                    return False
            else:
                if ("F" in D) != x3 or ("P" in D) != vec:
                    return False
        return True
    return ok


def ambiguous(lpv):
    """The shape of D or C has several readings, and the function may take one that the other operands do not allow."""
    def free(lay, kw, sh):
        if "D" in sh and "C" not in sh and sh.get("A", sh.get("L"))[-1:] == (1,):
            return True  # a single state broadcasts over the outputs of D
        if not lay or "D" not in sh:
            return False
        S = lay[0][1]
        if len(sh.get("C", ())) > 1 and sh["C"][-2] in [S[k] for k in ("B", "N") if k in S]:
            return True
        n = sum(1 for k in ("B", "F", "P", "N" if lpv else "P2") if k in S and S[k] in sh["D"])
        return n > 1 or len({L["D"] for L, _ in lay}) > 1
    return free


def ss_specs(lpv, present):
    n = "N" if lpv else ""
    pre = ["", "N", "B", "BN"] if lpv else ["", "B"]
    ops = dict(A=("A", [f"{n}MM", f"B{n}MM"]), x=("x", ["BN", "BNF"]))
    if "B" in present:
        ops["B"] = ("c", [p + s for p in pre for s in ("M", "MF")])
    if "C" in present:
        ops["C"] = ("c", [p + s for p in pre for s in ("M", "PM")])
    if "D" in present:
        ops["D"] = ("c", list(dict.fromkeys(["", "1"] + [p + s for p in pre for s in ("", "P", "F", "PF")])))
    if "zi" in present:
        ops["zi"] = ("x", ["M", "BM"])
    return Spec(("lpv" if lpv else "lti") + ".state_space", ops, [{}, dict(unroll_factor=1)] + ([dict(out_idx=0)] if "C" not in present else []), ok=ss_ok(lpv),
                free=ambiguous(lpv))


def diag_spec(present, form):
    pre = ["", "B"]
    ops = dict(x=("x", ["BN", "BNF"]))
    if form == "A":
        ops["A"] = ("A", ["MM", "BMM"])
    else:
        ops["L"] = ("L", ["M", "BM"])
        ops[form] = ("V", ["MM", "BMM"])
    if "B" in present:
        ops["B"] = ("c", [p + s for p in pre for s in ("M", "MF")])
    if "C" in present:
        ops["C"] = ("c", [p + s for p in pre for s in ("M", "PM")])
    if "D" in present:
        ops["D"] = ("c", list(dict.fromkeys(["", "1"] + [p + s for p in pre for s in ("", "P", "F", "PF")])))
    if "zi" in present:
        ops["zi"] = ("x", ["M", "BM"])
    s = ss_ok(False)

    def ok(S, L, kw):
        if form != "A" and ("B" in L["L"]) != ("B" in L[form]):
            return False
        return s(S, dict(L, A="MM"), kw)
    return Spec("lti.diag_state_space", ops, [{}] + ([dict(out_idx=0)] if "C" not in present else []), ok=ok, key=form,
                free=ambiguous(False))


def lead_ok(shapes):
    try:
        np.broadcast_shapes(*[s[:-1] for s in shapes])
        return True
    except ValueError:
        return False


def lfiltic_ok(sh, kw):
    b, a, y = sh["b"], sh["a"], sh["y"]
    if not b or not a:
        return False
    if not y or "x" in sh and (not sh["x"] or b[-1] == 1):
        return None  # scalars broadcast; without past inputs x is not looked at
    return y[-1] == a[-1] and ("x" not in sh or sh["x"][-1] == b[-1] - 1) and lead_ok(sh.values())


def zi_ok(sh, kw):
    if not sh["a"]:
        return False
    if not kw["transpose"]:
        return True if sh["b"] and lead_ok(sh.values()) else None  # only the length of b matters
    return bool(sh["b"]) and lead_ok(sh.values())


def specs():
    """name of the group -> list of specs."""
    g = {}
    g["native"] = [op_spec(o) for o in ("ops.recur2", "ops.recurN", "ops.lti_recur2", "ops.lti_recurN", "ops.lti_recur")]
    g["helion"] = [op_spec(o) for o in ("hl_lti_recurN", "hl_recurN")]
    uf = [dict(unroll_factor=u) for u in (1, 2, 3)]
    g["recurrence"] = [
        Spec("lti.linear_recurrence", dict(a=("c", ["", "B"]), init=("x", ["", "B"]), x=("x", ["BN"])), uf),
        Spec("lpv.linear_recurrence", dict(a=("c", ["N", "BN"]), init=("x", ["", "B"]), x=("x", ["BN"])), uf)]
    okr = lambda S, L, kw: kw.get("out_idx") is None or kw["out_idx"] < S["M"]
    kws = [dict(unroll_factor=u, out_idx=o) for u in (1, 2) for o in (None, 1)]
    g["recursion"] = [
        Spec("lti.state_space_recursion", dict(A=("c", ["MM", "BMM"]), zi=("x", ["BM"]), x=("x", ["BNM", "BN"])), kws, ok=okr),
        Spec("lpv.state_space_recursion", dict(A=("c", ["NMM", "BNMM"]), zi=("x", ["BM"]), x=("x", ["BNM", "BN"])), kws, ok=okr)]
    lt = dict(b=("x", ["K", "BK"]), a=("a", ["J", "BJ"]), x=("x", ["BN", "N"]))
    lz = dict(lt, zi=("x", ["Z", "BZ"]))
    g["lti.lfilter"] = [Spec("lti.lfilter", lt, [dict(form=f) for f in ("df2", "tdf2", "df1", "tdf1")] + [dict(form="df2", unroll_factor=1)], ok=filter_ok(ORDER)),
                        Spec("lti.lfilter", lz, [dict(form=f) for f in ("df2", "tdf2")], ok=filter_ok(ORDER), key="zi")]
    dz = dict(lt, zi=("x", ["J", "BJ"]))
    g["diag lfilter"] = [Spec("lti.lfilter", lt, [dict(form=f, backend="diag_ssm", delayed_form=d) for f in ("df2", "tdf2") for d in (False, True)],
                              ok=filter_ok(ORDER)),
                         Spec("lti.lfilter", dz, [dict(form=f, backend="diag_ssm") for f in ("df2", "tdf2")], ok=filter_ok(None), key="zi",
                              free=lambda lay, kw, sh: len(sh["b"]) and len(sh["a"]) and sh["b"][-1] > sh["a"][-1] + 1)]  # C08: its known finding
    vt = dict(b=("x", ["NK", "BNK"]), a=("c", ["NJ", "BNJ"]), x=("x", ["BN", "N"]))
    vz = dict(vt, zi=("x", ["Z", "BZ"]))
    g["lpv.lfilter"] = [Spec("lpv.lfilter", vt, [dict(form=f) for f in ("df2", "tdf2", "df1", "tdf1")], ok=filter_ok(ORDER))]
    one = lambda lay, kw, sh: kw.get("backend") == "torchlpc" and len(sh["x"]) == 1  # this backend repeats a single signal
    g["lpv.lfilter torchlpc"] = [Spec("lpv.lfilter", vt, [dict(form=f, backend="torchlpc") for f in ("df2", "df1", "tdf1")], ok=filter_ok(ORDER), free=one)]
    g["lpv.lfilter zi"] = [Spec("lpv.lfilter", vz, [dict(form="df2", backend=b)], ok=filter_ok(ORDER), key="zi", free=one) for b in ("ssm", "torchlpc")] + [
        Spec("lpv.lfilter", vz, [dict(form="tdf2")], ok=filter_ok(ORDER), key="zi")]
    fz = lambda S, L, kw: "Q" not in S or S["Q"] == S["K"] - 1
    tr = [dict(transpose=t) for t in (True, False)]
    g["fir"] = []
    for mod, n in (("lti", ""), ("lpv", "N")):
        g["fir"] += [Spec(f"{mod}.fir", dict(b=("x", [f"B{n}K"]), x=("x", ["BN"])), tr),
                     Spec(f"{mod}.fir", dict(b=("x", [f"B{n}K"]), x=("x", ["BN"]), zi=("x", ["BQ"])), tr, ok=fz, key="zi")]
    g["fir"] += [Spec("lpv.allpole", dict(a=("c", ["BNK"]), x=("x", ["BN"])), tr),
                 Spec("lpv.allpole", dict(a=("c", ["BNK"]), x=("x", ["BN"]), zi=("x", ["BK"])), tr, key="zi")]
    g["comb"] = []
    for d in (1, 2, 3):
        for z in (False, True):
            ops = dict(a=("c", ["", "1", "B"]), x=("x", ["BN"]))
            if z:
                ops["zi"] = ("x", [str(d), f"B{d}"])
            g["comb"].append(Spec("lti.comb_filter", ops, [dict(unroll_factor=u) for u in (1, 2)], fn=lambda a, x, zi=None, d=d, **k: resolve(
                "lti.comb_filter")(a, d, x, zi=zi, **k), key=f"delay {d} zi {z}", free=lambda lay, kw, sh, d=d, z=z: d == 1 and z))
    g["zi"] = [Spec("lti.lfiltic", dict(b=("x", ["K", "BK"]), a=("c", ["J", "BJ"]), y=("x", ["J", "BJ"]), x=("x", ["Q", "BQ"])), decide=lfiltic_ok),
               Spec("lti.lfiltic", dict(b=("x", ["K", "BK"]), a=("c", ["J", "BJ"]), y=("x", ["J", "BJ"])), decide=lfiltic_ok),
               Spec("lti.lfilter_zi", dict(a=("a", ["J", "BJ"]), b=("x", ["K", "BK"])), [dict(transpose=t) for t in (True, False)], decide=zi_ok)]
    g["filtfilt"] = [Spec("lti.filtfilt", dict(lt, a=("a", ["J", "BJ"])), [dict(form=f, padlen=1) for f in ("df2", "tdf2", "df1", "tdf1")] + [
        dict(padmode=m, padlen=1) for m in (None, "reflect")], ok=filter_ok(ORDER), free=lambda lay, kw, sh: sh["x"][-1:] == (1,))]  # not longer than the pad
    for lpv in (False, True):
        m = "lpv" if lpv else "lti"
        g[f"{m}.state_space"] = [ss_specs(lpv, p) for k in (0, 1, 2) for p in itertools.combinations(("B", "C", "D", "zi"), k)]
        g[f"{m}.state_space 3"] = [ss_specs(lpv, p) for p in itertools.combinations(("B", "C", "D", "zi"), 3)]
    g["diag"] = [diag_spec(p, f) for f in ("A", "V", "Vinv") for k in (0, 1, 2) for p in itertools.combinations(("B", "C", "D", "zi"), k) if k < 2 or f == "A"]
    return g


def rank_range(labels, wide):
    r = sorted({len(l) for l in labels})
    return list(range(max(0, r[0] - wide), r[-1] + wide + 1))


def shapes(ranks, sizes):
    return [s for r in ranks for s in itertools.product(sizes, repeat=r)]


class Runner:
    def __init__(self, ctx, spec, lenient=""):
        self.ctx, self.spec, self.lenient, self.acc, self.rej = ctx, spec, lenient, 0, 0
        self.bad = {}

    def one(self, sh, kw):
        ctx, spec = self.ctx, self.spec
        if spec.decide:
            lay = spec.decide(sh, kw)
            if lay is None:
                return
            lay = [("leading axes broadcast",)] if lay else []
        else:
            lay = spec.layouts(sh, kw)
            if not lay and self.lenient and spec.layouts(sh, kw, self.lenient):
                return  # explained by broadcasting a batch or time axis, which no documentation promises or excludes
        if spec.free and spec.free(lay, kw, sh):
            return
        ops = {o: data(spec.ops[o][0], s, i) for i, (o, s) in enumerate(sh.items())}
        r, err = ctx.call(spec.call, ops, kw)
        ctx.add("evaluations")
        if lay:
            self.acc += 1
            if err:
                self.report(("rejected", err[:40], str(kw)), f"{spec.name} {spec.key} {kw}: operands {sh} are compatible ({lay[0][0]}) but were rejected: {err}", sh)
        else:
            self.rej += 1
            if not err:
                self.report(("accepted", tuple(len(s) for s in sh.values()), str(kw)), f"{spec.name} {spec.key} {kw}: operands {sh} are incompatible but a result of shape "
                            f"{[tuple(t.shape) for t in api.flatten(r)]} was returned", sh)

    def report(self, key, msg, sh):
        self.bad[key] = self.bad.get(key, 0) + 1
        if self.bad[key] == 1:
            self.ctx.violation(msg, dict(shapes={k: list(v) for k, v in sh.items()}))

    def done(self):
        self.ctx.add("accepted", self.acc)
        self.ctx.add("rejected", self.rej)
        self.ctx.case((self.spec.name, self.spec.key, tuple(self.spec.ops)), n=0)
        self.ctx.sample(f"{self.spec.name} {self.spec.key} {tuple(self.spec.ops)}: {self.acc} compatible, {self.rej} incompatible tuples")


def table(ctx, group, index, sizes, wide, part=0, parts=1, lenient=""):
    """All tuples of shapes."""
    spec = specs()[group][index]
    r = Runner(ctx, spec, lenient)
    opts = [shapes(rank_range(labs, wide), sizes) for _, labs in spec.ops.values()]
    for i, tup in enumerate(itertools.product(*opts)):
        if i % parts != part:
            continue
        sh = dict(zip(spec.ops, tup))
        for kw in spec.kws:
            r.one(sh, kw)
    r.done()


def anchored(ctx, group, index, sizes):
    """All shapes of the further operands with every compatible pair of the first two, and every pair with compatible further operands."""
    spec = specs()[group][index]
    r = Runner(ctx, spec)
    names = list(spec.ops)
    main, rest = names[:2], names[2:]
    base = Spec(spec.name, {k: spec.ops[k] for k in main})
    pairs = [p for p in itertools.product(*[shapes(rank_range(spec.ops[k][1], 0), sizes) for k in main]) if base.layouts(dict(zip(main, p)), {})]
    for p in pairs:
        for q in itertools.product(*[shapes(rank_range(spec.ops[k][1], 1 if len(rest) < 3 else 0), sizes) for k in rest]):
            for kw in spec.kws:
                r.one(dict(zip(names, p + q)), kw)
    r.done()


DISTINCT = [dict(B=2, N=9, M=4, F=5, P=6, K=7, J=3, Q=6, Z=6, D=3), dict(B=5, N=7, M=2, F=3, P=4, K=3, J=6, Q=2, Z=6, D=3)]


def changed(ctx, group, index):
    """Every single-axis change (and every dropped or added axis) of every documented combination of layouts with distinct sizes."""
    spec = specs()[group][index]
    r = Runner(ctx, spec)
    seen = set()
    for S in DISTINCT:
        for labs in itertools.product(*[l for _, l in spec.ops.values()]):
            base = {o: tuple(int(c) if c.isdigit() else S[c] for c in lab) for o, lab in zip(spec.ops, labs)}
            alts = [base]
            for o, s in base.items():
                for i in range(len(s)):
                    for v in (s[i] - 1, s[i] + 1, 13):
                        if v > 1:
                            alts.append(dict(base, **{o: s[:i] + (v,) + s[i + 1:]}))
                    alts.append(dict(base, **{o: s[:i] + s[i + 1:]}))
                for i in range(len(s) + 1):
                    alts.append(dict(base, **{o: s[:i] + (11,) + s[i:]}))
            for a in alts:
                key = tuple(a.values())
                if key in seen:
                    continue
                seen.add(key)
                for kw in spec.kws:
                    r.one(a, kw)
    r.done()


def plan(tier):
    q = tier == "quick"
    t = []
    for g, ss in specs().items():
        for i, s in enumerate(ss):
            if g in ("native", "helion"):
                t.append((g, table, dict(group=g, index=i, sizes=(1, 2), wide=2)))
                t.append((g, table, dict(group=g, index=i, sizes=(1, 2, 3) if q else (1, 2, 3, 4), wide=0)))
                t.append((g, changed, dict(group=g, index=i)))
                continue
            if g.endswith("state_space 3"):
                if not q:
                    t.append((g, anchored, dict(group=g, index=i, sizes=(2, 3))))
                continue
            t.append((g + " changed", changed, dict(group=g, index=i)))
            if "state_space" in g or g == "diag":
                if len(s.ops) <= 3:
                    t.append((g + " ones", table, dict(group=g, index=i, sizes=(1, 2) if q and g[1] == "p" else (1, 2, 3), wide=0, lenient="BNP")))
                    t.append((g, table, dict(group=g, index=i, sizes=(2, 3), wide=1)))
                else:
                    t.append((g, anchored, dict(group=g, index=i, sizes=(2, 3))))
            else:
                n = 8 if len(s.ops) > 3 else 2
                for p in range(n):
                    t.append((g + " ones", table, dict(group=g, index=i, sizes=(1, 2) if len(s.ops) > 3 and q else (1, 2, 3), wide=0, part=p, parts=n, lenient="BN")))
                n = 4 if len(s.ops) > 3 else 1
                for p in range(n):
                    t.append((g, table, dict(group=g, index=i, sizes=(2, 3) if q or len(s.ops) > 3 else (2, 3, 4), wide=1, part=p, parts=n)))
    return t

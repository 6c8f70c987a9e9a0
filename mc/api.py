"""The catalogue of calls that the checks about the whole interface share (C14, C15, C16, C18, C19, C20): every public function with
every kind of operand layout, for given sizes."""
import itertools

import numpy as np
import torch

from .core import resolve
from .dcases import arr, tup
from .ref import T

POLES = (0.5, -0.25, 0.75, -0.5, 0.25, -0.75)
CPOLES = (0.5 + 0.25j, -0.25, 0.25 - 0.5j, -0.5j, 0.75, -0.5 + 0.5j)


class Call:
    """fn(**ops) calls the function `name`; `bat`: the operands whose first dimension is the batch; `rows`: whether the results have the
    batch first; `exact`: computed by additions and products of the (small integer) data only."""

    def __init__(self, key, name, fn, ops, labels, rows, exact, alias, opts):
        self.key, self.name, self.fn, self.ops, self.labels = key, name, fn, ops, labels
        self.rows, self.exact, self.alias, self.opts = rows, exact, alias, opts
        self.bat = tuple(k for k, v in labels.items() if v.startswith("B"))

    def make(self):
        return {k: v.clone() for k, v in self.ops.items()}

    def __call__(self, ops=None):
        return tup(self.fn(**(self.make() if ops is None else ops)))


def poles(shape, k, cplx):
    """Coefficients a[1:] of polynomials with distinct roots inside of the unit circle."""
    al = CPOLES if cplx else POLES
    n = int(np.prod(shape[:-1], dtype=int))
    out = []
    for i in range(n):
        m = shape[-1]
        r = [al[(i + k + j) % len(al)] for j in range(m)]
        out.append(np.poly(r)[1:] if m else np.zeros(0))
    return np.array(out).reshape(shape).astype(complex if cplx else float)


def systems(shape, k, cplx):
    """Matrices with distinct eigenvalues inside of the unit circle."""
    a = poles(shape[:-1], k, cplx)
    m = shape[-1]
    A = np.zeros(shape, a.dtype)
    A[..., 0, :] = -a
    for i in range(1, m):
        A[..., i, i - 1] = 1
    return A


def values(kind, shape, k, cplx):
    if kind == "x":
        return arr(shape, k, cplx)
    if kind == "c":
        return arr(shape, k, cplx, True)
    if kind == "a":
        return poles(shape, k, cplx)
    if kind == "A":
        return systems(shape, k, cplx)
    if kind == "L":
        n = int(np.prod(shape[:-1], dtype=int))
        al = CPOLES if cplx else POLES
        return np.array([[al[(i + k + j) % 6] for j in range(shape[-1])] for i in range(n)]).reshape(shape)
    if kind == "V":
        m = shape[-1]
        return np.broadcast_to(np.eye(m), shape) + np.triu(arr(shape, k, cplx, True), 1)
    if kind == "inv":
        m = shape[-1]
        return np.broadcast_to(np.triu(np.ones((m, m))), shape) + np.triu(arr(shape, k, cplx, True), 1)
    if kind == "p":
        v = arr(shape, k, cplx)
        return v
    raise KeyError(kind)


def logistic(y, x):
    return x + 0.125 * y * y.roll(1, -1)


class Book:
    def __init__(self, S, cplx=False, dtype=None, seed=0, small=False):
        """S: sizes B N M F P K (numerator length) J (denominator order) D (delay)."""
        self.S = dict(S, Z=max(S["K"] - 1, S["J"]), Q=S["K"] - 1)
        self.cplx, self.seed = cplx, seed
        self.dtype = dtype or (torch.complex128 if cplx else torch.float64)
        self.calls = []

    def shape(self, label):
        return tuple(1 if c == "1" else self.S[c] for c in label)

    def add(self, name, spec, rows=True, exact=True, alias=False, pos=False, key="", fn=None, **kw):
        """spec: operand -> 'label kind'."""
        ops, labels = {}, {}
        for i, (o, s) in enumerate(spec.items()):
            label, kind = s.split(":")
            labels[o] = label
            v = values(kind, self.shape(label), self.seed + i, self.cplx)
            ops[o] = T(v).to(self.dtype).contiguous()
        f = fn or resolve(name)
        if fn is not None:
            call = lambda **o: fn(**o, **kw)
        elif pos:
            names = tuple(spec)
            call = lambda **o: f(*[o[k] for k in names], **kw)
        else:
            call = lambda **o: f(**o, **kw)
        k = f"{name}({', '.join(f'{o}={l}' for o, l in labels.items())}{''.join(f', {a}={b}' for a, b in kw.items())}){key}"
        self.calls.append(Call(k, name, call, ops, labels, rows, exact, alias, dict(kw)))


def recurrences(b):
    S = b.S
    for lpv, n, mod in ((0, "", "lti"), (1, "N", "lpv")):
        for sa in (("", "B") if not lpv else ("N", "BN")):
            for sz in ("", "B"):
                for uf in (1, 2, 3):
                    if uf > 1 and not sz:
                        continue
                    b.add(f"{mod}.linear_recurrence", dict(a=f"{sa}:c", init=f"{sz}:x", x="BN:x"), unroll_factor=uf)
        if S["M"] < 2:
            continue
        for p in ("", "B"):
            for x in ("BNM", "BN"):
                for uf, oi in itertools.product((1, 2), (None, 0, S["M"] - 1)):
                    b.add(f"{mod}.state_space_recursion", dict(A=f"{p}{n}MM:c", zi="BM:x", x=f"{x}:x"), unroll_factor=uf, out_idx=oi)


def spaces(b):
    S = b.S
    for lpv, n, mod in ((0, "", "lti"), (1, "N", "lpv")):
        name = f"{mod}.state_space"
        for p, q, uf in itertools.product(("", "B"), ("", "B"), (None, 1, 2)):
            A = f"{p}{n}MM:c"
            kw = {} if uf is None else dict(unroll_factor=uf)
            r = q + n
            for z in ({}, dict(zi="M:x"), dict(zi="BM:x")):
                if uf == 2 and z == dict(zi="M:x"):
                    continue
                if not q:
                    b.add(name, dict(A=A, x="BNM:x", **z), **kw)
                    b.add(name, dict(A=A, x="BN:x", **z), out_idx=S["M"] - 1, **kw)
                b.add(name, dict(A=A, x="BN:x", B=f"{r}M:c", C=f"{r}M:x", D=f"{r or ''}:x", **z), **kw)
                b.add(name, dict(A=A, x="BNF:x", B=f"{r}MF:c", C=f"{r}PM:x", D=f"{r}PF:x", **z), **kw)
            b.add(name, dict(A=A, x="BN:x", B=f"{r}M:c", zi="BM:x"), out_idx=0, **kw)


def filters(b):
    S = b.S
    for lpv, n, mod in ((0, "", "lti"), (1, "N", "lpv")):
        for be in ("ssm", "torchlpc") if lpv else ("ssm",):
            for form, uf, sb, sa in itertools.product(("df2", "tdf2", "df1", "tdf1"), (None, 1, 2), ("", "B"), ("", "B")):
                if be == "torchlpc" and (form == "tdf2" or S["J"] == 0 or uf):
                    continue
                kw = {} if uf is None else dict(unroll_factor=uf)
                if lpv:
                    kw["backend"] = be
                for z in ({}, dict(zi="BZ:x")) if form[-1] == "2" else ({},):
                    b.add(f"{mod}.lfilter", dict(b=f"{sb}{n}K:x", a=f"{sa}{n}J:c", x="BN:x", **z), form=form, **kw)
        for z, tr in itertools.product(({}, dict(zi="BQ:x")), (True, False)):
            b.add(f"{mod}.fir", dict(b=f"B{n}K:x", x="BN:x", **z), transpose=tr)
            if lpv and S["Q"]:
                b.add("lpv.allpole", dict(a=f"B{n}Q:c", x="BN:x", **z), transpose=tr)


def singles(b):
    """One signal without a batch dimension."""
    for lpv, n, mod in ((0, "", "lti"), (1, "N", "lpv")):
        for form in ("df2", "tdf2", "df1", "tdf1"):
            for z in ({}, dict(zi="Z:x")) if form[-1] == "2" else ({},):
                b.add(f"{mod}.lfilter", dict(b=f"{n}K:x", a=f"{n}J:c", x="N:x", **z), rows=False, form=form)
    for form in ("df2", "tdf2"):
        b.add("lti.filtfilt", dict(b="K:x", a="J:a", x="N:x"), rows=False, exact=False, form=form, padlen=min(2, b.S["N"] - 1))
    b.add("lti.lfilter", dict(b="J:x", a="J:a", x="N:x"), rows=False, exact=False, backend="diag_ssm", form="tdf2")


def diagonal(b):
    S = b.S
    for form, sb, sa in itertools.product(("df2", "tdf2"), ("", "B"), ("", "B")):
        for z in ({}, dict(zi="BJ:x")):
            b.add("lti.lfilter", dict(b=f"{sb}J:x", a=f"{sa}J:a", x="BN:x", **z), exact=False, form=form, backend="diag_ssm")
        for df in (False, True):
            b.add("lti.lfilter", dict(b=f"{sb}K:x", a=f"{sa}1:a", x="BN:x"), exact=False, form=form, backend="diag_ssm", delayed_form=df)
    for p, q, uf in itertools.product(("", "B"), ("", "B"), (None, 2)):
        kw = {} if uf is None else dict(unroll_factor=uf)
        for z in ({}, dict(zi="BM:x")):
            dec = [dict(A=f"{p}MM:A"), dict(L=f"{p}M:L", V=f"{p}MM:V"), dict(L=f"{p}M:L", Vinv=f"{p}MM:V")]
            for d in dec[:3 if uf is None else 1]:
                b.add("lti.diag_state_space", dict(x="BN:x", **d, B=f"{q}M:x", C=f"{q}M:x", D=f"{q}:x", **z), exact=False, **kw)
                b.add("lti.diag_state_space", dict(x="BNF:x", **d, B=f"{q}MF:x", C=f"{q}PM:x", D=f"{q}PF:x", **z), exact=False, **kw)
            if not q:
                b.add("lti.diag_state_space", dict(x="BNM:x", A=f"{p}MM:A", **z), exact=False, **kw)
                b.add("lti.diag_state_space", dict(x="BN:x", A=f"{p}MM:A", **z), exact=False, out_idx=0, **kw)


def others(b):
    S = b.S
    for a, z, uf, d in itertools.product(("", "B"), ({}, dict(zi="D:x"), dict(zi="BD:x")), (1, 2), (S["D"],)):
        b.add("lti.comb_filter", dict(a=f"{a}:c", x="BN:x", **z), fn=lambda a, x, zi=None, d=d, **k: resolve("lti.comb_filter")(
            a, d, x, zi=zi, **k), key=f" delay {d}", unroll_factor=uf)
    b.add("lti.comb_filter", dict(a="B:c", x="BN:x", zi="B1:x"), fn=lambda a, x, zi=None: resolve("lti.comb_filter")(a, 1, x, zi=zi),
          key=" delay 1")
    for sb, sa in itertools.product(("", "B"), ("", "B")):
        p = "B" if sb or sa else ""
        b.add("lti.lfiltic", dict(b=f"{sb}K:x", a=f"{sa}J:c", y=f"{p}J:x", x=f"{p}Q:x"), rows=bool(p))
        if S["J"]:
            for tr in (True, False):
                b.add("lti.lfilter_zi", dict(a=f"{sa}J:a", b=f"{sb}K:x"), rows=bool(p if tr else sa), exact=False, transpose=tr)
            for form in ("tdf2", "df2", "df1", "tdf1"):
                b.add("lti.filtfilt", dict(b=f"{sb}K:x", a=f"{sa}J:a", x="BN:x"), exact=False, form=form, padlen=min(3, S["N"] - 1))
    for mode in ("reflect", "circular", "constant", None):
        b.add("lti.filtfilt", dict(b="K:x", a="J:a", x="BN:x"), exact=False, padmode=mode, padlen=min(2, S["N"] - 1))
    if S["N"] > 1 and not b.cplx:
        for pf, sp in itertools.product((True, False), (True, False)):
            b.add("lti.interp.cspline", dict(x="BN:x"), exact=False, parallel_form=pf, scipy_padding=sp)
            b.add("lti.interp.cubic_spline", dict(x="BN:x"), exact=False, m=3, parallel_form=pf, scipy_padding=sp)
        b.add("lti.interp.cubic_spline", dict(x="BN:x"), m=1, alias=True)


def helpers(b):
    for p in ("", "B"):
        r = bool(p)
        b.add("mat.companion", dict(a=f"{p}M:x"), rows=r)
        b.add("mat.vandermonde", dict(poles=f"{p}M:x"), rows=r)
        for n in (0, 1, 2, 3, 4, 6):
            b.add("mat.matrix_power_accumulate", dict(A=f"{p}MM:c"), rows=r, alias=n == 1, n=n)
        b.add("mat.matrix_power_accumulate", dict(A=f"{p}MM:inv"), rows=r, exact=False, n=-3)
        b.add("mat.matrices_cumdot", dict(A=f"{p}NMM:c"), rows=r, alias=b.S["N"] == 1)
        b.add("mat.find_eigenvectors", dict(A=f"{p}MM:A", eigenvalues=f"{p}M:L"), rows=r, exact=False)
        for q in ("", "B"):
            b.add("poly.polydiv", dict(u=f"{p}K:x", v=f"{p}J:x"), rows=r, exact=False)
            b.add("poly.polydiv", dict(u=f"{p}J:x", v=f"{p}K:x"), rows=r, exact=False)
        for off, de in itertools.product((0, 1, 2), (False, True)):
            b.add("lpv.utils.diag_shift", dict(coef=f"{p}NM:x"), rows=r, offset=off, discard_end=de)


def natives(b):
    S = b.S
    for a in ("", "1", "B"):
        for name in ("ops.lti_recur", "lti.recur.LTIRecurrence"):
            if a == "1" and S["B"] > 1 and False:
                continue
            b.add(name, dict(A=f"{a}:c", zi="B:x", x="BN:x"), pos=True)
    for p, n in itertools.product(("", "B"), ("", "N")):
        names = ["ops.recurN" if n else "ops.lti_recurN", "lpv.ssm.MatrixRecurrence" if n else "lti.ssm.LTIMatrixRecurrence"]
        if S["M"] == 2:
            names.append("ops.recur2" if n else "ops.lti_recur2")
        for name in names:
            b.add(name, dict(A=f"{p}{n}MM:c", zi="BM:x", x="BNM:x"), pos=True)


def helion(b):
    for p, n in itertools.product(("", "B"), ("", "N")):
        b.add("hl_recurN" if n else "hl_lti_recurN", dict(A=f"{p}{n}MM:c", zi="BM:x", x="BNM:x"), pos=True)


def prototypes(b):
    """Functions without a batch dimension, and newton_solve."""
    kw = dict(rows=False, exact=False)
    for f in ("polyadd", "polysub", "polymul"):
        b.add(f"prototype.poly.{f}", dict(a1="K:x", a2="J:x"), **kw)
    b.add("prototype.poly.polysmul", dict(a1="K:x", a2="J:x", a3="J:x"), pos=True, **kw)
    b.add("prototype.poly.polydiv", dict(u="K:x", v="J:x"), **kw)
    b.add("prototype.poly.polyder", dict(p="K:x"), m=1, **kw)
    b.add("prototype.poly.polyval", dict(p="K:x", x="N:x"), **kw)
    if not b.cplx:
        b.add("prototype.poly.roots", dict(p="K:x"), **kw)
    if b.S["N"] > 3:
        b.add("prototype.nl.newton_solve", dict(x="BNM:c", y0="BNM:c", init="BM:c"), fn=lambda x, y0, init, **k: resolve(
            "prototype.nl.newton_solve")(logistic, x, y0, init, **k)[0], exact=False, max_iter=2)
    if not b.cplx and b.S["K"] == 3:  # fractions with single, double and complex poles
        for f in ("prototype.signal.residue", "prototype.signal.residuez"):
            for pole in ([1., -0.75, 0.125], [1., -1., 0.25], [1., 0., 0.25]):
                b.add(f, dict(b="K:x"), fn=lambda b, f=f, pole=pole: flatten(resolve(f)(b, torch.tensor(pole, dtype=b.dtype))),
                      key=str(pole), **kw)


def flatten(r):
    if isinstance(r, torch.Tensor):
        return [r]
    if isinstance(r, (tuple, list)):
        return [v for z in r for v in flatten(z)]
    return []


GROUPS = dict(recurrences=recurrences, spaces=spaces, filters=filters, singles=singles, diagonal=diagonal, others=others, helpers=helpers,
              natives=natives, helion=helion, prototypes=prototypes)


def book(S, groups=None, cplx=False, dtype=None, seed=0):
    b = Book(S, cplx, dtype, seed)
    for g in groups or [g for g in GROUPS if g != "helion"]:
        GROUPS[g](b)
    seen, out = set(), []
    for c in b.calls:
        if c.key not in seen:
            seen.add(c.key)
            out.append(c)
    return out


SIZES = dict(B=3, N=5, M=2, F=2, P=3, K=3, J=2, D=2)

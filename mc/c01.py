"""C01: lti.lfilter and lti.fir against the explicit delay-line machine, exactly."""
import itertools

import numpy as np

from . import ref
from .ref import T, rows, cross, product_rows, dense

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of the filter's delay-line machine; every maximal trace replayed on the real code"
NOTE = ("Exhaustive within the bounds: every trace of the delay-line machine over small integer alphabets is executed on the "
        "real functions and compared bit for bit. Assumes that the code treats values uniformly (no branch on values), so that "
        "the alphabets stand for all values; floating point rounding is not modelled.")
RULE = ("state = (coefficients, time, delay line) of the difference equation in the named form, transition = one input "
        "sample; every maximal trace is one batch row that is replayed on lti.lfilter / lti.fir and compared with ==")
BOUNDS = {
    "quick": "len(b) 1..4, len(a) 0..3, N 1..6, coefficients/inputs/states over {-1,0,1,2} (all vectors, or all of weight "
             "<= 2 plus dense ones where the product is larger), Gaussian integers for complex; all forms, "
             "unroll_factor default,1,2,3; shared/batched/1-row b and a; with and without zi; 1-D and 2-D x; "
             "some large ones (N to 1300, orders to 40, batches of 700; fir orders to 299)",
    "thorough": "len(b) 1..6, len(a) 0..5, N 1..9, larger products",
}
ASSUMPTIONS = ["values are small (Gaussian) integers: float rounding is outside of the model"]

REAL = (0, 1, -1, 2)
CPLX = (0, 1, 1j, -1 + 1j)
FORMS = ("df2", "tdf2", "df1", "tdf1")


def full(c, N):
    return np.repeat(c[:, None, :], N, axis=1)


def batched(ctx, form, cplx, nb, nas, Ns, cap):
    """Private coefficients: every row of one big batch has its own filter, signal and state."""
    al = CPLX if cplx else REAL
    for na in nas:
        M = max(nb - 1, na)
        if M == 0:
            continue
        for N in Ns:
            b, a, x, z = cross(rows(nb, al, cap, 1), rows(na, al, cap, 1), rows(N, al[:3], cap, 1),
                               rows(M, al[:2], 4, 1, 1))
            b, a, x, z = ref.same(cplx, b, a, x, z)
            zeros = np.zeros_like(z)
            use_zi = form in ("df2", "tdf2")
            y, zf = ref.lfilter(form, full(b, N), full(a, N), x, z if use_zi else None, ctx)
            y0, _ = ref.lfilter(form, full(b, N), full(a, N), x, None)
            if not ref.exact(y, zf, y0):
                continue
            ctx.add("traces_validated_against_impl", 2 * len(x))
            ctx.sample(f"{form} b={b[-1].tolist()} a={a[-1].tolist()} x={x[-1].tolist()} zi={z[-1].tolist()} -> "
                       f"y={y[-1].tolist()}")
            for uf in (None, 1, 2, 3):
                kw = {} if uf is None else dict(unroll_factor=uf)
                ctx.check("lti.lfilter", dict(b=T(b), a=T(a), x=T(x), form=form, **kw), T(y0))
                if use_zi:
                    ctx.check("lti.lfilter", dict(b=T(b), a=T(a), x=T(x), zi=T(z), form=form, **kw), (T(y), T(zf)))
                elif uf is None:  # these forms have no use for zi
                    ctx.check("lti.lfilter", dict(b=T(b), a=T(a), x=T(x), zi=T(z), form=form), T(y0))
            if form == "tdf2":
                ctx.check("lti.lfilter", dict(b=T(b), a=T(a), x=T(x)), T(y0), note="default form")


def shared(ctx, form, cplx, nb, nas, Ns, cap):
    """Shared coefficients in every combination of 1-D and 2-D b, a, zi and x."""
    al = CPLX if cplx else REAL
    for na in nas:
        M = max(nb - 1, na)
        if M == 0:
            continue
        use_zi = form in ("df2", "tdf2")
        bs, as_ = ref.same(cplx, rows(nb, al, cap, 1, 1), rows(na, al, cap, 1, 1))
        for N in Ns:
            for b1, a1 in itertools.product(bs, as_):
                for B in (1, 2, 3, M, N):
                    if B == 0:
                        continue
                    x = dense(N, B, [v for v in al if v] + [3])
                    z = dense(M, B, [v for v in al if v], 1)
                    x, z = ref.same(cplx, x, z)
                    b, a = np.repeat(b1[None], B, 0), np.repeat(a1[None], B, 0)
                    y, zf = ref.lfilter(form, full(b, N), full(a, N), x, z if use_zi else None, ctx)
                    y0, _ = ref.lfilter(form, full(b, N), full(a, N), x, None)
                    y1, zf1 = ref.lfilter(form, full(b, N), full(a, N), x, np.repeat(z[:1], B, 0) if use_zi else None)
                    if not ref.exact(y, zf, y0, y1):
                        continue
                    ctx.add("traces_validated_against_impl", B)
                    for bb, aa in ((b1, a1), (b, a1), (b1, a)):
                        ctx.check("lti.lfilter", dict(b=T(bb), a=T(aa), x=T(x), form=form), T(y0))
                        if use_zi:
                            ctx.check("lti.lfilter", dict(b=T(bb), a=T(aa), x=T(x), zi=T(z), form=form, unroll_factor=1),
                                      (T(y), T(zf)))
                            ctx.check("lti.lfilter", dict(b=T(bb), a=T(aa), x=T(x), zi=T(z[0]), form=form),
                                      (T(y1), T(zf1)))
                    if B == 1:  # one signal: results are squeezed only if every operand lacks the batch dimension
                        ctx.check("lti.lfilter", dict(b=T(b1), a=T(a1), x=T(x[0]), form=form), T(y0[0]))
                        ctx.check("lti.lfilter", dict(b=T(b1), a=T(a1), x=T(x), form=form), T(y0))
                        ctx.check("lti.lfilter", dict(b=T(b), a=T(a), x=T(x[0]), form=form), T(y0))
                        if use_zi:
                            ctx.check("lti.lfilter", dict(b=T(b1), a=T(a1), x=T(x[0]), zi=T(z[0]), form=form),
                                      (T(y[0]), T(zf[0])))
                            ctx.check("lti.lfilter", dict(b=T(b1), a=T(a1), x=T(x[0]), zi=T(z), form=form),
                                      (T(y), T(zf)))


def fir(ctx, cplx, nbs, Ns, cap):
    al = CPLX if cplx else REAL
    for nb in nbs:
        for N in Ns:
            b, x, z = cross(rows(nb, al, cap), rows(N, al, cap), rows(nb - 1, al[:3], 27))
            b, x, z = ref.same(cplx, b, x, z)
            for tr in (False, True):
                y, zf = ref.fir(full(b, N), x, z, tr, ctx)
                y0, _ = ref.fir(full(b, N), x, None, tr)
                ctx.add("traces_validated_against_impl", 2 * len(x))
                ctx.check("lti.fir", dict(b=T(b), x=T(x), transpose=tr), T(y0))
                ctx.check("lti.fir", dict(b=T(b), x=T(x), zi=T(z), transpose=tr), (T(y), T(zf)))
                for k in (1, 2, 3):  # few rows
                    ctx.check("lti.fir", dict(b=T(b[-k:]), x=T(x[-k:]), zi=T(z[-k:]), transpose=tr),
                              (T(y[-k:]), T(zf[-k:])))
                    ctx.check("lti.fir", dict(b=T(b[-k:]), x=T(x[-k:]), transpose=tr), T(y0[-k:]))
            ctx.check("lti.fir", dict(b=T(b), x=T(x)), T(y0), note="default implementation")


def long_(ctx, form, orders, Ns=None, B=3):
    """Long signals and high orders with bounded orbits (cyclotomic denominators), still exact."""
    for M, a1 in orders:
        for N in Ns or (1, 2, M, M + 1, 31, 64, 97):
            for nb in (1, M + 1, M + 3):
                b = dense(nb, B)
                a = np.repeat(np.array(a1, float)[None], B, 0)
                x = dense(N, B)
                z = dense(max(M, nb - 1), B)
                use_zi = form in ("df2", "tdf2")
                y, zf = ref.lfilter(form, full(b, N), full(a, N), x, z if use_zi else None, ctx)
                if not ref.exact(y, zf):
                    continue
                ctx.add("traces_validated_against_impl", B)
                for aa in (a, a[0]):
                    for uf in (None, 1, 5) if N < 200 else (None, 1):
                        kw = {} if uf is None else dict(unroll_factor=uf)
                        if use_zi:
                            ctx.check("lti.lfilter", dict(b=T(b), a=T(aa), x=T(x), zi=T(z), form=form, **kw), (T(y), T(zf)))
                        else:
                            ctx.check("lti.lfilter", dict(b=T(b), a=T(aa), x=T(x), form=form, **kw), T(y))


def long_fir(ctx, sizes):
    for nb, N, B in sizes:
        b, x, z = dense(nb, B), dense(N, B, off=1), dense(nb - 1, B, off=2)
        for tr in (False, True):
            y, zf = ref.fir(full(b, N), x, z, tr, ctx)
            ctx.add("traces_validated_against_impl", B)
            ctx.check("lti.fir", dict(b=T(b), x=T(x), zi=T(z), transpose=tr), (T(y), T(zf)))
            ctx.check("lti.fir", dict(b=T(b), x=T(x), transpose=tr), T(ref.fir(full(b, N), x, None, tr)[0]))


def plan(tier):
    q = tier == "quick"
    tasks = []
    nbs, nas, Ns = (range(1, 5), range(0, 4), (1, 2, 3, 4, 6)) if q else (range(1, 7), range(0, 6), range(1, 10))
    cap = 10 if q else 30
    for form in FORMS:
        for cplx in (False, True):
            for nb in nbs:
                tasks.append(("batched", batched, dict(form=form, cplx=cplx, nb=nb, nas=list(nas), Ns=list(Ns), cap=cap)))
                tasks.append(("shared", shared, dict(form=form, cplx=cplx, nb=nb, nas=list(nas),
                                                     Ns=[1, 3, 4] if q else [1, 2, 3, 4, 5, 7], cap=2 if q else 5)))
        orders = [(1, [-1]), (2, [1, 1]), (2, [0, 1]), (3, [0, 0, -1]), (4, [1, 1, 1, 1]), (6, [1, 1, 1, 1, 1, 1]),
                  (8, [0, 0, 0, 1, 0, 0, 0, 0]), (12, [0] * 11 + [-1])]
        tasks.append(("long", long_, dict(form=form, orders=orders)))
        tasks.append(("very long", long_, dict(form=form, orders=orders[:2] + orders[5:6], Ns=(300, 1300) if q else (300, 1300, 5000))))
        tasks.append(("wide", long_, dict(form=form, orders=orders[:2], Ns=(5,), B=700)))
        tasks.append(("deep", long_, dict(form=form, orders=[(20, [0] * 12 + [-1] + [0] * 7), (40, [0] * 39 + [-1])], Ns=(9, 90))))
    for cplx in (False, True):
        tasks.append(("fir", fir, dict(cplx=cplx, nbs=list(range(1, 7)), Ns=list(range(1, 8)), cap=30 if q else 100)))
    tasks.append(("long fir", long_fir, dict(sizes=[(40, 200, 3), (3, 1500, 2), (130, 40, 2), (7, 9, 300), (65, 64, 5), (300, 513, 1)])))
    return tasks

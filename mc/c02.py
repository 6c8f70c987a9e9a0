"""C02: lpv.lfilter, lpv.fir and lpv.allpole against the sample-by-sample execution of the named structure, exactly."""
import itertools

import numpy as np

from . import ref
from .ref import T, rows, cross, dense

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of the time-varying delay-line machine; every maximal trace replayed on the real code"
NOTE = ("Exhaustive within the bounds: all traces in which every coefficient of every sample is a separate letter are executed "
        "on both backends of the real functions and compared bit for bit with the machine of the named structure. Assumes that "
        "the code does not branch on values; floating point rounding is not modelled.")
RULE = ("state = (time, coefficients of this and later samples, delay line) of the named structure, transition = one sample; "
        "every maximal trace is one batch row of a call of lpv.lfilter / fir / allpole, compared with ==")
BOUNDS = {
    "quick": "len(b) 1..4, len(a) 0..3, N 1..5, private coefficients of every sample (all of weight <= 1 or 2 plus dense ones), "
             "real and Gaussian integers, 4 forms, backends ssm and torchlpc, unroll_factor default,1,2,3, "
             "2-D and 3-D coefficients with batch sizes 1,2,3,N,M, orders up to 8 with N up to 40; some larger ones (N to 700, orders to 69, batches of 300)",
    "thorough": "len(b) 1..5, len(a) 0..4, N 1..7 with larger products",
}
ASSUMPTIONS = ["values are small (Gaussian) integers: float rounding is outside of the model"]

REAL = (0, 1, -1, 2)
CPLX = (0, 1, 1j, -1 + 1j)
FORMS = ("df2", "tdf2", "df1", "tdf1")


def clip(sets, cap):
    """Thins the sets (keeping simple and dense rows) until their product is at most cap; every set keeps >= 3 rows."""
    sets = list(sets)
    while np.prod([len(s) for s in sets]) > cap:
        i = int(np.argmax([len(s) for s in sets]))
        if len(sets[i]) <= 3:
            break
        s = sets[i]
        keep = np.unique(np.concatenate([np.arange(0, len(s), 2), [len(s) - 1]]))
        if len(keep) == len(s):
            break
        sets[i] = s[keep]
    return sets


def coef(N, k, al, weight):
    """(R, N, k): coefficient sequences: all of weight <= weight, and dense ones."""
    r = rows(N * k, al, 300, weight, 2) if N * k else np.zeros((1, 0))
    return r


def backends(form, zi):
    # torchlpc: no tdf2
    return ["ssm"] if form == "tdf2" else ["ssm", "torchlpc"]


def batched(ctx, form, cplx, nb, nas, Ns, cap):
    al = CPLX if cplx else REAL
    for na in nas:
        M = max(nb - 1, na)
        if M == 0:
            continue
        for N in Ns:
            bs, as_, xs, zs = clip([coef(N, nb, al, 2), coef(N, na, al, 2), rows(N, al[:3], 12, 1),
                                    rows(M, al[:3], 9, 1)], cap)
            b, a, x, z = ref.same(cplx, *cross(bs, as_, xs, zs))
            b, a = b.reshape(len(x), N, nb), a.reshape(len(x), N, na)
            use_zi = form in ("df2", "tdf2")
            y, zf = ref.lfilter(form, b, a, x, z if use_zi else None, ctx)
            y0, _ = ref.lfilter(form, b, a, x, None)
            if not ref.exact(y, zf, y0):
                continue
            ctx.add("traces_validated_against_impl", 2 * len(x))
            ctx.sample(f"{form} b={b[-1].tolist()} a={a[-1].tolist()} x={x[-1].tolist()} zi={z[-1].tolist()} -> "
                       f"y={y[-1].tolist()}")
            for be in backends(form, use_zi):
                if be == "torchlpc" and na == 0:
                    continue
                for uf in (None, 1, 2, 3) if be == "ssm" and form in ("df2", "tdf2") else (None,):
                    kw = {} if uf is None else dict(unroll_factor=uf)
                    ctx.check("lpv.lfilter", dict(b=T(b), a=T(a), x=T(x), form=form, backend=be, **kw), T(y0))
                    if use_zi:
                        ctx.check("lpv.lfilter", dict(b=T(b), a=T(a), x=T(x), zi=T(z), form=form, backend=be, **kw),
                                  (T(y), T(zf)))
                    elif uf is None:
                        ctx.check("lpv.lfilter", dict(b=T(b), a=T(a), x=T(x), zi=T(z), form=form, backend=be), T(y0))
            if form == "df2":
                ctx.check("lpv.lfilter", dict(b=T(b), a=T(a), x=T(x)), T(y0), note="default form and backend")


def shared(ctx, form, cplx, nb, nas, Ns):
    """Every combination of 2-D and 3-D b and a, 1-D and 2-D zi and x, where sizes coincide or not."""
    al = CPLX if cplx else REAL
    nz = [v for v in al if v] + [3]
    use_zi = form in ("df2", "tdf2")
    for na in nas:
        M = max(nb - 1, na)
        if M == 0:
            continue
        for N in Ns:
            for B in sorted({1, 2, 3, M, N, nb}):
                b = dense(N * nb, B, nz).reshape(B, N, nb)
                a = dense(N * na, B, [v for v in al if v], 1).reshape(B, N, na)
                x, z = dense(N, B, nz, 2), dense(M, B, nz, 3)
                b, a, x, z = ref.same(cplx, b, a, x, z)
                for sb, sa, sz in itertools.product((False, True), repeat=3):
                    bb = np.repeat(b[:1], B, 0) if sb else b
                    aa = np.repeat(a[:1], B, 0) if sa else a
                    zz = np.repeat(z[:1], B, 0) if sz else z
                    if not use_zi and sz:
                        continue
                    y, zf = ref.lfilter(form, bb, aa, x, zz if use_zi else None, ctx)
                    y0, _ = ref.lfilter(form, bb, aa, x, None)
                    if not ref.exact(y, zf, y0):
                        continue
                    ctx.add("traces_validated_against_impl", B)
                    pb, pa, pz = b[0] if sb else b, a[0] if sa else a, z[0] if sz else z
                    for be in backends(form, use_zi):
                        if be == "torchlpc" and na == 0:
                            continue
                        ufs = (None, 1, 2) if be == "ssm" and form in ("df2", "tdf2") else (None,)
                        for uf in ufs:
                            kw = {} if uf is None else dict(unroll_factor=uf)
                            ctx.check("lpv.lfilter", dict(b=T(pb), a=T(pa), x=T(x), form=form, backend=be, **kw), T(y0))
                            if use_zi:
                                ctx.check("lpv.lfilter", dict(b=T(pb), a=T(pa), x=T(x), zi=T(pz), form=form, backend=be,
                                                              **kw), (T(y), T(zf)))
                        if B == 1 and sb and sa:
                            ctx.check("lpv.lfilter", dict(b=T(pb), a=T(pa), x=T(x[0]), form=form, backend=be), T(y0[0]))
                            if use_zi and sz:
                                ctx.check("lpv.lfilter", dict(b=T(pb), a=T(pa), x=T(x[0]), zi=T(pz), form=form, backend=be),
                                          (T(y[0]), T(zf[0])))
                        elif B == 1:
                            ctx.check("lpv.lfilter", dict(b=T(pb), a=T(pa), x=T(x[0]), form=form, backend=be), T(y0))


def fir_allpole(ctx, which, cplx, ks, Ns, cap):
    al = CPLX if cplx else REAL
    run = ref.fir if which == "fir" else ref.allpole
    for k in ks:
        M = k - 1 if which == "fir" else k
        for N in Ns:
            cs, xs, zs = clip([coef(N, k, al, 2), rows(N, al[:3], 30, 2), rows(M, al[:3], 30, 2)], cap)
            c, x, z = ref.same(cplx, *cross(cs, xs, zs))
            c = c.reshape(len(x), N, k)
            for tr in (False, True):
                y, zf = run(c, x, z, tr, ctx)
                y0, _ = run(c, x, None, tr)
                if not ref.exact(y, zf, y0):
                    continue
                ctx.add("traces_validated_against_impl", 2 * len(x))
                for r in (slice(None), slice(-1, None), slice(-N, None), slice(-k, None)):
                    nm = dict(b=T(c[r])) if which == "fir" else dict(a=T(c[r]))
                    ctx.check(f"lpv.{which}", dict(**nm, x=T(x[r]), transpose=tr), T(y0[r]))
                    ctx.check(f"lpv.{which}", dict(**nm, x=T(x[r]), zi=T(z[r]), transpose=tr), (T(y[r]), T(zf[r])))
            nm = dict(b=T(c)) if which == "fir" else dict(a=T(c))
            y, zf = run(c, x, z, False)
            if ref.exact(y, zf):
                ctx.check(f"lpv.{which}", dict(**nm, x=T(x), zi=T(z)), (T(y), T(zf)), note="default structure")


def long_(ctx, form, orders, Ns, B=3):
    """Higher orders and longer signals: sparse feedback that keeps the numbers small."""
    for M in orders:
        for N in Ns:
            for nb in (1, M, M + 1, M + 3):
                b = dense(N * nb, B).reshape(B, N, nb)
                a = np.zeros((B, N, M))
                for r, t in itertools.product(range(B), range(N)):
                    a[r, t, (t * (r + 1) + r) % M] = (1, -1)[(t // 2 + r) % 2]
                x, z = dense(N, B), dense(max(M, nb - 1), B)
                use_zi = form in ("df2", "tdf2")
                y, zf = ref.lfilter(form, b, a, x, z if use_zi else None, ctx)
                if not ref.exact(y, zf):
                    continue
                ctx.add("traces_validated_against_impl", B)
                for be in backends(form, use_zi):
                    for uf in (None, 1, 5) if be == "ssm" and use_zi else (None,):
                        kw = {} if uf is None else dict(unroll_factor=uf)
                        if use_zi:
                            ctx.check("lpv.lfilter", dict(b=T(b), a=T(a), x=T(x), zi=T(z), form=form, backend=be, **kw),
                                      (T(y), T(zf)))
                        else:
                            ctx.check("lpv.lfilter", dict(b=T(b), a=T(a), x=T(x), form=form, backend=be, **kw), T(y))


def long_coef(ctx, which, sizes):
    run = ref.fir if which == "fir" else ref.allpole
    for k, N, B in sizes:
        M = k - 1 if which == "fir" else k
        c = dense(N * k, B).reshape(B, N, k)
        if which == "allpole":  # sparse feedback keeps the numbers small
            c = np.zeros((B, N, k))
            for r, t in itertools.product(range(B), range(N)):
                c[r, t, (t * (r + 1) + r) % k] = (1, -1)[(t // 2 + r) % 2]
        x, z = dense(N, B, off=1), dense(M, B, off=2)
        for tr in (False, True):
            y, zf = run(c, x, z, tr, ctx)
            y0, _ = run(c, x, None, tr)
            if not ref.exact(y, zf, y0):
                continue
            ctx.add("traces_validated_against_impl", 2 * B)
            nm = {"b" if which == "fir" else "a": T(c)}
            ctx.check(f"lpv.{which}", dict(**nm, x=T(x), transpose=tr), T(y0))
            ctx.check(f"lpv.{which}", dict(**nm, x=T(x), zi=T(z), transpose=tr), (T(y), T(zf)))


def plan(tier):
    q = tier == "quick"
    nbs, nas, Ns, cap = (range(1, 5), range(0, 4), (1, 2, 3, 5), 3000) if q else \
        (range(1, 6), range(0, 5), range(1, 8), 40000)
    tasks = []
    for form in FORMS:
        for cplx in (False, True):
            for nb in nbs:
                tasks.append(("batched", batched, dict(form=form, cplx=cplx, nb=nb, nas=list(nas), Ns=list(Ns), cap=cap)))
                tasks.append(("shared", shared, dict(form=form, cplx=cplx, nb=nb, nas=list(nas),
                                                     Ns=[1, 2, 3, 4] if q else list(range(1, 8)))))
        tasks.append(("long", long_, dict(form=form, orders=[1, 2, 3, 5, 8], Ns=[1, 2, 4, 9, 17, 40])))
        tasks.append(("very long", long_, dict(form=form, orders=[1, 2, 5], Ns=[300] if q else [300, 1300])))
        tasks.append(("wide", long_, dict(form=form, orders=[1, 2], Ns=[5], B=300)))
        tasks.append(("deep", long_, dict(form=form, orders=[20], Ns=[50])))
    for which in ("fir", "allpole"):
        tasks.append(("long " + which, long_coef, dict(which=which, sizes=[(20, 60, 3), (2, 700, 2), (70, 30, 2), (3, 9, 200), (1, 300, 2)])))
        for cplx in (False, True):
            tasks.append(("fir_allpole", fir_allpole, dict(which=which, cplx=cplx, ks=list(range(1, 5)), Ns=list(range(1, 7)),
                                                           cap=cap * 3)))
    return tasks

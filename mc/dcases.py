"""Instances for the derivative checks (C06, C07): (group) -> list of Case, each with the function of the code under test, the
same function on the reference machine, and its differentiable operands."""
import itertools

import numpy as np
import torch

from . import ref, tref
from .core import resolve
from .ref import T, dense

REAL = (1, 2, -1, 3, -2)
CPLX = (1, 1j, -1, 1 + 1j, 2)
SM_R = (0, 1, -1, 1, 0, 2)
SM_C = (0, 1, 1j, -1, 0, 1 - 1j)


class Case:
    def __init__(self, name, api, fn, rf, ops):
        """ops: dict of operand name -> numpy array. fn(**tensors), rf(**tensors) -> tuple of tensors."""
        self.name, self.api, self.fn, self.rf, self.ops = name, api, fn, rf, ops


def tup(r):
    return r if isinstance(r, tuple) else tuple(r) if isinstance(r, list) else (r,)


def arr(shape, k, cplx, small=False):
    al = (SM_C if cplx else SM_R) if small else (CPLX if cplx else REAL)
    n = int(np.prod(shape, dtype=int))
    v = dense(n, 1, al, k)[0].reshape(shape) if n else np.zeros(shape)
    return v.astype(complex if cplx else float)


def native(ops, Bs, Ns, Ms, cplx, offs=(0, 1)):
    """The registered operators themselves."""
    out = []
    for op, B, N, k in itertools.product(ops, Bs, Ns, offs):
        lpv = "lti" not in op
        f = resolve(op) if op.startswith("hl") or "." in op else resolve("ops." + op)
        if op in ("lti_recur", "lti.recur.LTIRecurrence"):
            for sh in ((), (1,), (B,)):
                if sh == (1,) and B == 1:
                    continue
                o = dict(A=arr(sh, k, cplx, True), zi=arr((B,), k + 1, cplx), x=arr((B, N), k + 2, cplx))
                out.append(Case(f"{op} A={sh} B={B} N={N}", op, lambda A, zi, x, f=f: (f(A, zi, x),),
                                lambda A, zi, x: (tref.scalar(A.reshape(-1, 1).expand(x.shape), zi, x),), o))
            continue
        for M in ((2,) if op.endswith("recur2") else Ms):
            for sh in ((), (B,)):
                s = sh + ((N,) if lpv else ()) + (M, M)
                o = dict(A=arr(s, k, cplx, True), zi=arr((B, M), k + 1, cplx), x=arr((B, N, M), k + 2, cplx))
                out.append(Case(f"{op} A={s} B={B} N={N} M={M}", op, lambda A, zi, x, f=f: (f(A, zi, x),),
                                lambda A, zi, x, v=lpv: (tref.states(tref.mat2rows(A, *x.shape[:2], v), zi, x),), o))
    return out


def recurrences(lpv, Bs, Ns, ufs, cplx, offs=(0,)):
    f = resolve(("lpv" if lpv else "lti") + ".linear_recurrence")
    out = []
    for B, N, uf, k in itertools.product(Bs, Ns, ufs, offs):
        for sh in ({(N,), (B, N)} if lpv else {(), (1,), (B,)}):
            for zs in ((), (1,), (B,)):
                if uf > 1 and zs == () or B == 1 and zs == (1,):
                    continue
                o = dict(a=arr(sh, k, cplx, True), init=arr(zs, k + 1, cplx), x=arr((B, N), k + 2, cplx))
                rf = (lambda a, init, x: (tref.scalar(a.expand(x.shape) if lpv else a.reshape(-1, 1).expand(x.shape),
                                                      init.expand(x.shape[0]), x),))
                out.append(Case(f"linear_recurrence a={sh} init={zs} B={B} N={N} unroll={uf}", f, lambda a, init, x, uf=uf:
                                (f(a, init, x, unroll_factor=uf),), rf, o))
    return out


def spaces(lpv, Bs, Ns, Ms, ufs, cplx, offs=(0,), rich=True):
    """state_space with all operands, states only, and state_space_recursion."""
    mod = "lpv" if lpv else "lti"
    f, g = resolve(mod + ".state_space"), resolve(mod + ".state_space_recursion")
    out = []
    F, Pn = 2, 3
    for B, N, M, uf, k in itertools.product(Bs, Ns, Ms, ufs, offs):
        n = (N,) if lpv else ()
        kw = {} if uf is None else dict(unroll_factor=uf)
        for sh in ((), (B,)):
            As = sh + n + (M, M)
            tag = f"B={B} N={N} M={M} unroll={uf} A={As}"
            base = dict(A=arr(As, k, cplx, True), zi=arr((B, M), k + 1, cplx))

            def u3(A, x, Bm):
                return x if Bm is None else None

            # states, 3-D input
            o = dict(base, x=arr((B, N, M), k + 2, cplx))
            out.append(Case(f"state_space {tag}", f, lambda A, zi, x, kw=kw: f(A, x, zi=zi, **kw),
                            lambda A, zi, x: tref.ssm(tref.mat2rows(A, *x.shape[:2], lpv), x, zi), o))
            if uf is not None:
                for oi in (None, M - 1):
                    out.append(Case(f"state_space_recursion {tag} out_idx={oi}", g,
                                    lambda A, zi, x, kw=kw, oi=oi: (g(A, zi, x, out_idx=oi, **kw),),
                                    lambda A, zi, x, oi=oi: ((lambda h: h if oi is None else h[..., oi])(
                                        tref.states(tref.mat2rows(A, *x.shape[:2], lpv), zi, x)),), o))
                    o2 = dict(base, x=arr((B, N), k + 2, cplx))
                    out.append(Case(f"state_space_recursion {tag} 2-D x out_idx={oi}", g,
                                    lambda A, zi, x, kw=kw, oi=oi: (g(A, zi, x, out_idx=oi, **kw),),
                                    lambda A, zi, x, oi=oi, M=M: ((lambda h: h if oi is None else h[..., oi])(
                                        tref.states(tref.mat2rows(A, *x.shape[:2], lpv), zi,
                                                    torch.stack([x] + [torch.zeros_like(x)] * (M - 1), -1))),), o2))
            if not rich:
                continue
            # scalar input with B, C, D; every operand shared or batched together with A
            for cs in ((), (B,)):
                cn = cs + n
                o = dict(base, x=arr((B, N), k + 2, cplx), Bm=arr(cn + (M,), k + 3, cplx), C=arr(cn + (M,), k + 4, cplx),
                         D=arr(cs + n, k, cplx))
                exp = (lambda t, e, B, N: t.expand((B, N) + t.shape[-e:]) if lpv and e else
                       (t.expand(B, N) if lpv else (t.reshape((-1, 1) + t.shape[t.dim() - e:]).expand((B, N) + t.shape[t.dim() - e:]))))

                def rf(A, zi, x, Bm, C, D, exp=exp):
                    b, nn = x.shape
                    u = x[..., None] * exp(Bm, 1, b, nn)
                    h, zf = tref.ssm(tref.mat2rows(A, b, nn, lpv), u, zi)
                    return (h * exp(C, 1, b, nn)).sum(-1) + exp(D, 0, b, nn) * x, zf
                out.append(Case(f"state_space {tag} scalar input and output, B, C, D {'batched' if cs else 'shared'}", f,
                                lambda A, zi, x, Bm, C, D, kw=kw: f(A, x, B=Bm, C=C, D=D, zi=zi, **kw), rf, o))
                o = dict(base, x=arr((B, N, F), k + 2, cplx), Bm=arr(cn + (M, F), k + 3, cplx), C=arr(cn + (Pn, M), k + 4, cplx),
                         D=arr(cn + (Pn, F), k, cplx))

                def rf(A, zi, x, Bm, C, D, exp=exp):
                    b, nn = x.shape[:2]
                    u = (exp(Bm, 2, b, nn) * x[..., None, :]).sum(-1)
                    h, zf = tref.ssm(tref.mat2rows(A, b, nn, lpv), u, zi)
                    return (exp(C, 2, b, nn) * h[..., None, :]).sum(-1) + (exp(D, 2, b, nn) * x[..., None, :]).sum(-1), zf
                out.append(Case(f"state_space {tag} vector input and output, B, C, D {'batched' if cs else 'shared'}", f,
                                lambda A, zi, x, Bm, C, D, kw=kw: f(A, x, B=Bm, C=C, D=D, zi=zi, **kw), rf, o))
    return out


def filters(lpv, Bs, Ns, orders, cplx, offs=(0,), ufs=(None, 1), backends=("ssm", "torchlpc")):
    f = resolve(("lpv" if lpv else "lti") + ".lfilter")
    rows_ = tref.lpv2rows if lpv else tref.lti2rows
    out = []
    for B, N, (nb, na), uf, k in itertools.product(Bs, Ns, orders, ufs, offs):
        M = max(nb - 1, na)
        if M == 0:
            continue
        n = (N,) if lpv else ()
        for be in backends if lpv else ("ssm",):
            if be == "torchlpc" and (na == 0 or uf != ufs[0]):
                continue
            for form in ("df2", "tdf2", "df1", "tdf1"):
                if be == "torchlpc" and form == "tdf2":
                    continue
                for sb, sa in (((), ()), ((B,), (B,)), ((B,), ()), ((), (B,))):
                    kw = {} if uf is None or be == "torchlpc" else dict(unroll_factor=uf)
                    if lpv:
                        kw["backend"] = be
                    o = dict(b=arr(sb + n + (nb,), k, cplx), a=arr(sa + n + (na,), k + 1, cplx, True), x=arr((B, N), k + 2, cplx))
                    if form[-1] == "2":
                        o["zi"] = arr((B, M), k + 3, cplx)
                    out.append(Case(f"lfilter {form} {be} unroll={uf} b={o['b'].shape} a={o['a'].shape} x={(B, N)}", f,
                                    lambda b, a, x, zi=None, kw=kw, form=form: tup(f(b, a, x, zi=zi, form=form, **kw)),
                                    lambda b, a, x, zi=None, form=form: tref.lfilter(
                                        form, rows_(b, *x.shape), rows_(a, *x.shape), x, zi), o))
    return out


def firs(lpv, Bs, Ns, orders, cplx, offs=(0,)):
    mod = "lpv" if lpv else "lti"
    f = resolve(mod + ".fir")
    rows_ = tref.lpv2rows if lpv else tref.lti2rows
    out = []
    for B, N, m, k, tr, st in itertools.product(Bs, Ns, orders, offs, (True, False), (True, False)):
        n = (N,) if lpv else ()
        o = dict(b=arr((B,) + n + (m + 1,), k, cplx), x=arr((B, N), k + 1, cplx))
        if st:
            o["zi"] = arr((B, m), k + 2, cplx)
        out.append(Case(f"fir order {m} transpose={tr} x={(B, N)}", f, lambda b, x, zi=None, tr=tr: tup(f(b, x, zi=zi, transpose=tr)),
                        lambda b, x, zi=None, tr=tr: tref.fir(tr, rows_(b, *x.shape), x, zi), o))
        if lpv and m:
            g = resolve("lpv.allpole")
            o = dict(a=arr((B, N, m), k, cplx, True), x=arr((B, N), k + 1, cplx))
            if st:
                o["zi"] = arr((B, m), k + 2, cplx)
            out.append(Case(f"allpole order {m} transpose={tr} x={(B, N)}", g,
                            lambda a, x, zi=None, tr=tr: tup(g(a, x, zi=zi, transpose=tr)),
                            lambda a, x, zi=None, tr=tr: tref.allpole(tr, a, x, zi), o))
    return out


def combs(Bs, Ns, ds, ufs, cplx, offs=(0,)):
    f = resolve("lti.comb_filter")
    out = []
    for B, N, d, uf, k in itertools.product(Bs, Ns, ds, ufs, offs):
        for sa in ((), (1,), (B,)):
            for zs in (None, (d,), (B, d)):
                if B == 1 and sa == (1,):
                    continue
                if d == 1 and zs == (d,) and False:
                    continue
                o = dict(a=arr(sa, k, cplx, True), x=arr((B, N), k + 1, cplx))
                if zs is not None:
                    o["zi"] = arr(zs, k + 2, cplx)
                kw = {} if uf is None else dict(unroll_factor=uf)
                out.append(Case(f"comb_filter d={d} a={sa} zi={zs} x={(B, N)} unroll={uf}", f,
                                lambda a, x, zi=None, d=d, kw=kw: tup(f(a, d, x, zi=zi, **kw)),
                                lambda a, x, zi=None, d=d: tref.comb(a.expand(x.shape[0]), d, x,
                                                                     None if zi is None else zi.expand(x.shape[0], d)), o))
    return out

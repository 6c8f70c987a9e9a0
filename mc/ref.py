"""Reference models: explicit state machines, one transition per sample, vectorised over rows (= traces) with numpy.
All data are small (Gaussian) integers, so that floating point arithmetic is exact and results can be compared with ==.
"""
import itertools

import numpy as np
import torch

LIMIT = 2.0 ** 50


def count(ctx, t, key, state, fan=1):
    """Adds the distinct states (key, state) at time t to the counters."""
    if ctx is None:
        return
    m = np.concatenate([np.asarray(z, dtype=complex).reshape(len(z), -1) for z in (key, state) if z is not None and len(z)],
                       axis=1) if len(state) else np.zeros((0, 1))
    if m.shape[1] == 0:
        n = 1
    else:
        h = np.ascontiguousarray(m).view(np.float64).reshape(len(m), -1)
        # two independent random-free linear hashes of the rows: a collision could only make the count smaller
        w1 = np.cos(np.arange(1, h.shape[1] + 1) * 1.2345678) * 1e3
        n = len(np.unique(h @ w1))
    ctx.add("states", n)
    ctx.add("transitions", n * fan)


def shift(s, first=None):
    """Delay line: (s1, ..., sM) -> (first, s1, ..., s_{M-1})."""
    if s.shape[1] == 0:
        return s
    return np.concatenate([first[:, None], s[:, :-1]], axis=1)


def up(s):
    """(s1, ..., sM) -> (s2, ..., sM, 0)."""
    return np.concatenate([s[:, 1:], np.zeros_like(s[:, :1])], axis=1) if s.shape[1] else s


def pad(c, n):
    """Pads the last dimension with zeros up to n."""
    return np.concatenate([c, np.zeros(c.shape[:-1] + (n - c.shape[-1],), c.dtype)], axis=-1)


def lfilter(form, b, a, x, zi=None, ctx=None, fan=1):
    """b (B, N, nb), a (B, N, na): coefficients of every sample; x (B, N); zi (B, M). Returns y, zf (M = max order)."""
    R, N = x.shape
    dt = np.result_type(b, a, x, *([] if zi is None else [zi]))
    M = max(b.shape[-1] - 1, a.shape[-1])
    b, a = pad(b, M + 1), pad(a, M)
    y = np.zeros((R, N), dt)
    s = np.zeros((R, M), dt) if zi is None else zi.astype(dt).copy()
    u = np.zeros((R, M), dt)  # second delay line of the df1 forms
    for t in range(N):
        if ctx is not None:
            count(ctx, t, np.concatenate([b[:, t], a[:, t]], 1), np.concatenate([s, u], 1), fan)
        bt, at, xt = b[:, t], a[:, t], x[:, t]
        if form == "df2":
            w = xt - (at * s).sum(1)
            y[:, t] = bt[:, 0] * w + (bt[:, 1:] * s).sum(1)
            s = shift(s, w)
        elif form == "tdf2":
            yt = bt[:, 0] * xt + (s[:, 0] if M else 0)
            s = up(s) + bt[:, 1:] * xt[:, None] - at * yt[:, None]
            y[:, t] = yt
        elif form == "df1":
            v = bt[:, 0] * xt + (bt[:, 1:] * u).sum(1)
            u = shift(u, xt)
            yt = v - (at * s).sum(1)
            s = shift(s, yt)
            y[:, t] = yt
        elif form == "tdf1":
            w = xt + (s[:, 0] if M else 0)
            s = up(s) - at * w[:, None]
            y[:, t] = bt[:, 0] * w + (u[:, 0] if M else 0)
            u = up(u) + bt[:, 1:] * w[:, None]
    return y, s


def fir(b, x, zi=None, transpose=False, ctx=None):
    """b (B, N, M + 1). Returns y, zf."""
    R, N = x.shape
    M = b.shape[-1] - 1
    dt = np.result_type(b, x, *([] if zi is None else [zi]))
    y = np.zeros((R, N), dt)
    s = np.zeros((R, M), dt) if zi is None else zi.astype(dt).copy()
    for t in range(N):
        count(ctx, t, b[:, t], s)
        if transpose:
            y[:, t] = b[:, t, 0] * x[:, t] + (s[:, 0] if M else 0)
            s = up(s) + b[:, t, 1:] * x[:, t, None]
        else:
            y[:, t] = b[:, t, 0] * x[:, t] + (b[:, t, 1:] * s).sum(1)
            s = shift(s, x[:, t])
    return y, s


def allpole(a, x, zi=None, transpose=False, ctx=None):
    R, N = x.shape
    M = a.shape[-1]
    dt = np.result_type(a, x, *([] if zi is None else [zi]))
    y = np.zeros((R, N), dt)
    s = np.zeros((R, M), dt) if zi is None else zi.astype(dt).copy()
    for t in range(N):
        count(ctx, t, a[:, t], s)
        if transpose:
            yt = x[:, t] + (s[:, 0] if M else 0)
            s = up(s) - a[:, t] * yt[:, None]
        else:
            yt = x[:, t] - (a[:, t] * s).sum(1)
            s = shift(s, yt)
        y[:, t] = yt
    return y, s


def recursion(A, zi, x, ctx=None):
    """A (B, N, M, M), zi (B, M), x (B, N, M): h[t] = A[t] h[t-1] + x[t]. Returns h (B, N, M)."""
    h = zi
    out = np.zeros(x.shape, np.result_type(A, zi, x))
    for t in range(x.shape[1]):
        count(ctx, t, A[:, t].reshape(len(A), -1), h)
        h = (A[:, t] * h[:, None, :]).sum(-1) + x[:, t]
        out[:, t] = h
    return out


def state_space(A, Bx, C, Dx, zi, ctx=None):
    """A (B,N,M,M), Bx (B,N,M) the driven state input, C (B,N,P,M) or None, Dx (B,N,P') broadcastable or None.
    Returns outputs before squeezing, and zf."""
    h = recursion(A, zi, Bx, ctx)
    prev = np.concatenate([zi[:, None].astype(h.dtype), h[:, :-1]], axis=1)
    return prev, h[:, -1]


# ---------------------------------------------------------------- alphabets
def product_rows(n, alphabet):
    """All len(alphabet)**n vectors, simplest first."""
    if n == 0:
        return np.zeros((1, 0))
    return np.array(list(itertools.product(alphabet, repeat=n)), dtype=np.result_type(*alphabet, float))


def weighted_rows(n, alphabet, weight):
    """All vectors of length n with at most `weight` non-zero entries from the alphabet (which excludes 0)."""
    rows = [np.zeros(n, dtype=np.result_type(*alphabet, float))]
    for w in range(1, min(weight, n) + 1):
        for pos in itertools.combinations(range(n), w):
            for vals in itertools.product(alphabet, repeat=w):
                r = rows[0].copy()
                r[list(pos)] = vals
                rows.append(r)
    return np.array(rows)


def dense(n, k, alphabet=(1, 2, -1, 3, -2), off=0):
    """k dense vectors of length n without zeros (a fixed aperiodic pattern), so that index errors change values."""
    out = np.zeros((k, n), dtype=np.result_type(*alphabet, float))
    q = len(alphabet)
    for i in range(k):
        for j in range(n):
            out[i, j] = alphabet[(3 * i + j * j + j // 2 + (i * j) % 7 + off) % q]
    return out


def rows(n, alphabet, cap, weight=2, k=2):
    """All vectors over the alphabet if there are at most cap of them, otherwise all of bounded weight plus dense ones."""
    if len(alphabet) ** n <= cap:
        return product_rows(n, alphabet)
    nz = [v for v in alphabet if v != 0]
    for w in range(weight, 0, -1):
        r = weighted_rows(n, nz, w)
        if len(r) <= cap:
            return np.concatenate([r, dense(n, k, nz)])
    return np.concatenate([weighted_rows(n, nz[:1], 1), dense(n, k, nz)])


def cross(*sets):
    """Cartesian product of row sets: list of arrays with equal numbers of rows."""
    idx = np.array(list(itertools.product(*[range(len(s)) for s in sets])), dtype=int).reshape(-1, len(sets))
    return [np.asarray(s)[idx[:, i]] for i, s in enumerate(sets)]


def T(a, dtype=None):
    a = np.array(a, order="C")
    t = torch.from_numpy(a)
    if dtype is not None:
        return t.to(dtype)
    return t if t.dtype in (torch.float64, torch.complex128, torch.int64) else t.double()


def same(cplx, *arrs):
    """All operands in the same dtype."""
    return [np.asarray(a).astype(complex if cplx else float) for a in arrs]


def exact(*arrs):
    return all(np.abs(a).max(initial=0) < LIMIT for a in arrs)

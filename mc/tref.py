"""The reference machines of ref.py once more, written with elementary torch operations (index, +, *, sum, stack) only, so
that derivatives of the machine itself are available. Trusted: torch's own derivatives of these elementary operations.
Every function returns a tuple of tensors."""
import torch


def z(x, *shape):
    return torch.zeros(shape, dtype=x.dtype)


def dt(*ts):
    d = None
    for t in ts:
        if t is not None:
            d = t.dtype if d is None else torch.promote_types(d, t.dtype)
    return d


def lti2rows(c, B, N):
    """(n,) or (B, n) -> (B, N, n)"""
    if c.dim() == 1:
        c = c[None]
    return c[:, None, :].expand(B, N, c.shape[-1])


def lpv2rows(c, B, N):
    if c.dim() == 2:
        c = c[None]
    return c.expand(B, N, c.shape[-1])


def lfilter(form, b, a, x, zi=None):
    """b (B, N, nb), a (B, N, na), x (B, N); returns (y,) or (y, zf)."""
    B, N = x.shape
    nb, na = b.shape[-1], a.shape[-1]
    M = max(nb - 1, na)
    zero = z(x, B)
    s = [zero] * M if zi is None else [zi[:, k] for k in range(M)]
    u = [zero] * M
    bb = lambda t, k: b[:, t, k] if k < nb else zero
    aa = lambda t, k: a[:, t, k - 1] if k <= na else zero
    ys = []
    for t in range(N):
        xt = x[:, t]
        if form == "df2":
            w = xt
            for k in range(1, M + 1):
                w = w - aa(t, k) * s[k - 1]
            y = bb(t, 0) * w
            for k in range(1, M + 1):
                y = y + bb(t, k) * s[k - 1]
            s = [w, *s[:-1]] if M else s
        elif form == "tdf2":
            y = bb(t, 0) * xt + (s[0] if M else 0)
            s = [(s[k] if k < M else zero) + bb(t, k) * xt - aa(t, k) * y for k in range(1, M + 1)]
        elif form == "df1":
            y = bb(t, 0) * xt
            for k in range(1, M + 1):
                y = y + bb(t, k) * u[k - 1] - aa(t, k) * s[k - 1]
            u = [xt, *u[:-1]] if M else u
            s = [y, *s[:-1]] if M else s
        elif form == "tdf1":
            w = xt + (s[0] if M else 0)
            s = [(s[k] if k < M else zero) - aa(t, k) * w for k in range(1, M + 1)]
            y = bb(t, 0) * w + (u[0] if M else 0)
            u = [(u[k] if k < M else zero) + bb(t, k) * w for k in range(1, M + 1)]
        ys.append(y)
    y = torch.stack(ys, 1)
    if zi is None or form in ("df1", "tdf1"):
        return (y,)
    return y, torch.stack(s, 1) if M else z(x, B, 0)


def fir(transpose, b, x, zi=None):
    return lfilter("tdf2" if transpose else "df2", b, b[..., :0], x, zi)


def allpole(transpose, a, x, zi=None):
    one = torch.ones(a.shape[:-1] + (1,), dtype=a.dtype)
    return lfilter("tdf2" if transpose else "df2", one, a, x, zi)


def scalar(a, zi, x):
    """a (), (1,), (B,), (N,) handled by the caller: a (B, N), zi (B,), x (B, N)."""
    h, out = zi, []
    for t in range(x.shape[1]):
        h = a[:, t] * h + x[:, t]
        out.append(h)
    return torch.stack(out, 1)


def states(A, zi, u):
    """A (B, N, M, M), zi (B, M), u (B, N, M): h[1..N]."""
    h, out = zi, []
    for t in range(u.shape[1]):
        h = (A[:, t] * h[:, None, :]).sum(-1) + u[:, t]
        out.append(h)
    return torch.stack(out, 1)


def mat2rows(A, B, N, lpv):
    """() layouts of a state matrix -> (B, N, M, M)"""
    if lpv:
        return A.expand(B, N, *A.shape[-2:])
    A = A if A.dim() == 3 else A[None]
    return A[:, None].expand(B, N, *A.shape[-2:])


def ssm(A, u, zi):
    """states before every step and the last one."""
    h = states(A, zi, u)
    return torch.cat([zi[:, None], h[:, :-1]], 1), h[:, -1]


def comb(a, d, x, zi=None):
    """a (B,), zi (B, d) most recent output first."""
    B, N = x.shape
    hist = [z(x, B)] * d if zi is None else [zi[:, d - 1 - k] for k in range(d)]  # oldest first
    for t in range(N):
        hist.append(x[:, t] - a * hist[t])
    y = torch.stack(hist[d:], 1)
    if zi is None:
        return (y,)
    return y, torch.stack([hist[N + d - 1 - k] for k in range(d)], 1)

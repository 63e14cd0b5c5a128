"""Independent reference models of the four propagators.

Written from docs/*.rst and the module docstrings (equations, staggering, PML,
source and receiver conventions), not by calling deepwave.  Space derivatives
are dense one-dimensional matrices derived by solving the Taylor conditions;
everything is differentiable torch code, so that gradients of the reference
come from autograd.

All arrays live on the computational domain (survey region plus PML), without
finite-difference padding; fields are zero outside it.
"""

import math
from fractions import Fraction
from functools import lru_cache

import numpy as np
import torch

IGNORE = -(2**31)


# ---------------------------------------------------------------- stencils
def _solve(a, b):
    n = len(b)
    m = [[Fraction(x) for x in row] + [Fraction(y)] for row, y in zip(a, b)]
    for i in range(n):
        p = next(r for r in range(i, n) if m[r][i] != 0)
        m[i], m[p] = m[p], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for r in range(n):
            if r != i and m[r][i] != 0:
                m[r] = [x - m[r][i] * y for x, y in zip(m[r], m[i])]
    return [m[i][n] for i in range(n)]


@lru_cache(None)
def centred1(acc):
    """c_k, k=1..h: f'(0) ~ sum_k c_k (f(k) - f(-k))."""
    h = acc // 2
    a = [[2 * Fraction(k) ** (2 * j + 1) for k in range(1, h + 1)] for j in range(h)]
    return tuple(_solve(a, [1] + [0] * (h - 1)))


@lru_cache(None)
def centred2(acc):
    """c_0, c_k: f''(0) ~ c_0 f(0) + sum_k c_k (f(k) + f(-k))."""
    h = acc // 2
    a = [
        [2 * Fraction(k) ** (2 * j) for k in range(1, h + 1)] for j in range(1, h + 1)
    ]
    c = _solve(a, [2] + [0] * (h - 1))
    return (-2 * sum(c), *c)


@lru_cache(None)
def staggered1(acc):
    """c_k, k=1..h: f'(0) ~ sum_k c_k (f(k-1/2) - f(-k+1/2))."""
    h = acc // 2
    a = [
        [2 * (Fraction(2 * k - 1, 2)) ** (2 * j + 1) for k in range(1, h + 1)]
        for j in range(h)
    ]
    return tuple(_solve(a, [1] + [0] * (h - 1)))


@lru_cache(None)
def _mat(kind, n, acc):
    m = np.zeros((n, n))

    def put(i, j, val):
        if 0 <= j < n:
            m[i, j] += float(val)

    for i in range(n):
        if kind == "d1":
            for k, c in enumerate(centred1(acc), 1):
                put(i, i + k, c)
                put(i, i - k, -c)
        elif kind == "d2":
            c = centred2(acc)
            put(i, i, c[0])
            for k, ck in enumerate(c[1:], 1):
                put(i, i + k, ck)
                put(i, i - k, ck)
        elif kind == "toh":  # integer -> i + 1/2
            for k, c in enumerate(staggered1(acc), 1):
                put(i, i + k, c)
                put(i, i - k + 1, -c)
        elif kind == "toi":  # half (i + 1/2 stored at i) -> integer
            for k, c in enumerate(staggered1(acc), 1):
                put(i, i + k - 1, c)
                put(i, i - k, -c)
        else:
            raise AssertionError(kind)
    return torch.from_numpy(m)


def deriv(kind, u, dim, acc, scale):
    """Applies a derivative along spatial dimension dim of [batch, *space]."""
    m = _mat(kind, u.shape[dim + 1], acc) * scale
    return torch.tensordot(u, m, dims=([dim + 1], [1])).movedim(-1, dim + 1)


# ---------------------------------------------------------------- time
def cfl(dx, dt, vmax, c_max=0.6):
    """docs: inner time step is dt divided by the smallest adequate integer."""
    max_dt = c_max / math.sqrt(sum(1 / d**2 for d in dx)) / vmax
    n = max(1, math.ceil(abs(dt) / max_dt))
    return dt / n, n


def max_dt(dx, vmax, c_max=0.6):
    return c_max / math.sqrt(sum(1 / d**2 for d in dx)) / vmax


def _hann(n):
    if n == 1:
        return torch.ones(1, dtype=torch.float64)
    k = torch.arange(n, dtype=torch.float64)
    return 0.5 * (1 - torch.cos(2 * math.pi * k / (n - 1)))


def _end_taper(nf, frac):
    """Multiplier of the frequency bins."""
    w = np.ones(nf)
    n = int(frac * nf) if frac > 0 else 0
    if n > 0:
        k = np.arange(1, n + 1)
        w[nf - n :] = (np.cos(k / n * np.pi) + 1) / 2
    if nf > 1:
        w[-1] = 0
    return torch.from_numpy(w)


def upsample(x, r, freq_taper=0.0, pad=0.0, time_taper=False):
    """Trigonometric interpolation of the low-passed signal, written as an
    explicit sum of sines and cosines (no inverse FFT)."""
    if r == 1 or x.numel() == 0:
        return x
    n0 = x.shape[-1]
    npad = int(pad * n0)
    n = n0 + npad
    xp = torch.nn.functional.pad(x, (0, npad))
    nf = n // 2 + 1
    k = torch.arange(nf, dtype=torch.float64)
    t = torch.arange(n, dtype=torch.float64)
    w = _end_taper(nf, freq_taper)
    ang = 2 * math.pi * k[:, None] * t[None, :] / n
    cr = xp @ torch.cos(ang).T * w / n
    ci = xp @ -torch.sin(ang).T * w / n
    mult = torch.full((nf,), 2.0, dtype=torch.float64)
    mult[0] = 1
    T = torch.arange(n0 * r, dtype=torch.float64) / r
    ang2 = 2 * math.pi * k[:, None] * T[None, :] / n
    y = (cr * mult) @ torch.cos(ang2) - (ci * mult) @ torch.sin(ang2)
    if time_taper:
        y = y * _hann(n0 * r)
    return y


def downsample(x, r, freq_taper=0.0, pad=0.0, time_taper=False, shift=0.0):
    """With shift, delayed by that many samples."""
    if (r == 1 and shift == 0) or x.numel() == 0:
        return x
    n0 = x.shape[-1]
    if time_taper:
        x = x * _hann(n0)
    m0 = n0 // r
    npad = int(pad * m0)
    x = torch.nn.functional.pad(x, (0, npad * r))
    n = x.shape[-1]
    m = n // r
    nf = m // 2 + 1
    k = torch.arange(nf, dtype=torch.float64)
    t = torch.arange(n, dtype=torch.float64)
    w = _end_taper(nf, freq_taper)
    ang = 2 * math.pi * k[:, None] * t[None, :] / n
    cr = x @ torch.cos(ang).T * w / n
    ci = x @ -torch.sin(ang).T * w / n
    mult = torch.full((nf,), 2.0, dtype=torch.float64)
    mult[0] = 1
    T = torch.arange(m0, dtype=torch.float64) - shift / r
    ang2 = 2 * math.pi * k[:, None] * T[None, :] / m
    return (cr * mult) @ torch.cos(ang2) - (ci * mult) @ torch.sin(ang2)


# ---------------------------------------------------------------- PML
def pml_profile(n, w, max_w, dt, vmax, freq, half, ext=0):
    """C-PML a and b at the cells -ext .. n-1+ext of one dimension.

    sigma0 = -(1+2) vmax ln(0.001) / (2 W), W the physical width of the widest
    PML; quadratic sigma, linear alpha = pi f (1 - d)."""
    x = np.arange(-ext, n + ext, dtype=np.float64) + (0.5 if half else 0.0)
    if max_w == 0:
        z = torch.zeros(len(x), dtype=torch.float64)
        return z, z.clone()
    d = np.zeros_like(x)
    if w[0] > 0:
        d = np.maximum(d, (w[0] - x) / w[0])
    if w[1] > 0:
        d = np.maximum(d, (x - (n - 1 - w[1])) / w[1])
    d = np.clip(d, 0, 1)
    sigma0 = -3 * vmax * math.log(0.001) / (2 * max_w)
    sigma = sigma0 * d**2
    alpha = math.pi * freq * (1 - d)
    sa = sigma + alpha
    a = np.exp(-sa * abs(dt))
    with np.errstate(all="ignore"):
        b = np.where(sa > 0, sigma / np.where(sa > 0, sa, 1) * (a - 1), 0.0)
    a[d == 0] = 0
    b[d == 0] = 0
    return torch.from_numpy(a), torch.from_numpy(b)


def _bc(x, dim, nd):
    s = [1] * (nd + 1)
    s[dim + 1] = x.numel()
    return x.reshape(s)


def pad_model(m, w, mode="replicate"):
    """[batch, *space] -> with PML cells."""
    pad = []
    for d in range(m.ndim - 2, -1, -1):
        pad += [w[2 * d], w[2 * d + 1]]
    nd = m.ndim - 1
    if mode == "constant":
        return torch.nn.functional.pad(m, pad)
    out = m
    for d in range(nd):
        n = out.shape[d + 1]
        idx = torch.clamp(torch.arange(-w[2 * d], n + w[2 * d + 1]), 0, n - 1)
        out = out.index_select(d + 1, idx)
    return out


def flat_index(loc, w, shape):
    """loc [shots, n, nd] relative to the survey region -> (index, mask)."""
    nd = loc.shape[-1]
    mask = (loc != IGNORE).all(-1)
    idx = torch.zeros(loc.shape[:-1], dtype=torch.long)
    for d in range(nd):
        idx = idx * shape[d] + torch.where(mask, loc[..., d] + w[2 * d], 0)
    return torch.where(mask, idx, 0), mask


def inject(u, idx, mask, amp):
    if idx.numel() == 0:
        return u
    flat = u.reshape(u.shape[0], -1)
    flat = flat.scatter_add(1, idx, torch.where(mask, amp, torch.zeros_like(amp)))
    return flat.reshape(u.shape)


def record(u, idx, mask):
    if idx.numel() == 0:
        return None
    val = u.reshape(u.shape[0], -1).gather(1, idx)
    return torch.where(mask, val, torch.zeros_like(val))


def at(m, idx):
    return m.reshape(m.shape[0], -1).expand(idx.shape[0], -1).gather(1, idx)


def sampled(m, t, every):
    """Model as used in step t: the gradient is accumulated only every
    `every` steps, with weight `every`."""
    if every == 1:
        return m
    if t % every:
        return m.detach()
    return m.detach() + every * (m - m.detach())


class _Use(torch.autograd.Function):
    """M * S, noting in box[key] a bound on the error of the gradient of M if S
    (the sum of `parts`) is only known to one part of its largest value."""

    @staticmethod
    def forward(ctx, M, S, box, key, size):
        ctx.save_for_backward(M, S)
        ctx.box, ctx.key, ctx.size = box, key, size
        return M * S

    @staticmethod
    def backward(ctx, g):
        M, S = ctx.saved_tensors
        e = (g.abs() * ctx.size).sum_to_size(M.shape)
        box = ctx.box
        box["E"][ctx.key] = box["E"].get(ctx.key, 0) + e
        return (g * S).sum_to_size(M.shape), g * M, None, None, None


def use(m, key, M, t, S, parts=None):
    """The product of a (padded) model and a field in step t."""
    box = m.box
    if box is None:
        return sampled(M, t, m.every) * S
    box["M"][key] = M
    if t % m.every:
        return M.detach() * S
    dims = tuple(range(1, S.ndim))
    size = sum(p.detach().abs().amax(dims, keepdim=True) for p in parts or [S])
    size = size * m.every
    # gradients of M are taken with weight `every`
    Mt = M.detach() + m.every * (M - M.detach()) if m.every > 1 else M
    return _Use.apply(Mt, S, box, key, size)


def _stack(recs, n_shots):
    if not recs or recs[0] is None:
        return None
    return torch.stack(recs, -1)


# ---------------------------------------------------------------- scalar
class _Base:
    """Common set-up; case data `c` is a dict of torch float64 tensors.

    keys: dx, dt, acc, pml (2*nd), freq, vmax, nt (internal), every,
    n_shots."""

    def setup(self, c, shape):
        self.nd = len(shape)
        self.dx, self.dt, self.acc = c["dx"], c["dt"], c["acc"]
        self.w = c["pml"]
        self.N = [shape[d] + self.w[2 * d] + self.w[2 * d + 1] for d in range(self.nd)]
        self.max_w = max(
            max(self.w[2 * d : 2 * d + 2]) * self.dx[d] for d in range(self.nd)
        )
        self.every = c.get("every", 1)
        self.nt = c["nt"]
        self.S = c["n_shots"]
        self.box = c.get("box")

    def zeros(self):
        return torch.zeros(self.S, *self.N, dtype=torch.float64)

    def prof(self, c, half, ext=0):
        out = []
        for d in range(self.nd):
            a, b = pml_profile(
                self.N[d],
                self.w[2 * d : 2 * d + 2],
                self.max_w,
                self.dt,
                c["vmax"],
                c["freq"],
                half,
                ext,
            )
            out.append((a, b))
        return out


class Scalar(_Base):
    """u(t+dt) = 2u - u(t-dt) + v^2 dt^2 (w - f), w the PML Laplacian."""

    def __init__(self, c, shape):
        self.setup(c, shape)
        h = self.acc // 2
        self.a, self.b, self.db = [], [], []
        for d, (a, b) in enumerate(self.prof(c, False, ext=h)):
            db = sum(
                float(ck) * (torch.roll(b, -k) - torch.roll(b, k))
                for k, ck in enumerate(centred1(self.acc), 1)
            ) / self.dx[d]
            n = self.N[d]
            self.a.append(_bc(a[h : h + n], d, self.nd))
            self.b.append(_bc(b[h : h + n], d, self.nd))
            self.db.append(_bc(db[h : h + n], d, self.nd))

    def lap(self, u, psi, zeta):
        w = 0
        psin, zetan = [], []
        for d in range(self.nd):
            r = 1 / self.dx[d]
            a, b, db = self.a[d], self.b[d], self.db[d]
            du = deriv("d1", u, d, self.acc, r)
            d2 = deriv("d2", u, d, self.acc, r * r)
            tmp = (1 + b) * d2 + db * du + deriv("d1", a * psi[d], d, self.acc, r)
            w = w + (1 + b) * tmp + a * zeta[d]
            psin.append(b * du + a * psi[d])
            zetan.append(b * tmp + a * zeta[d])
        return w, psin, zetan


def scalar(c):
    """c: v [B, *shape] (survey region), f [S, ns, nt] or None, src, rec,
    w0: initial wavefields in deepwave's order or None entries."""
    v0 = c["v"]
    m = Scalar(c, v0.shape[1:])
    nd = m.nd
    v = pad_model(v0, m.w)
    wf = [m.zeros() if x is None else x for x in c["w0"]]
    u, up, psi, zeta = wf[0], wf[1], list(wf[2 : 2 + nd]), list(wf[2 + nd : 2 + 2 * nd])
    si, sm = flat_index(c["src"], m.w, m.N)
    ri, rm = flat_index(c["rec"], m.w, m.N)
    amp = None
    if c["f"] is not None and si.numel():
        amp = -c["f"] * (at(v, si) ** 2 * m.dt**2)[..., None]
    recs = []
    v2 = v**2
    for t in range(m.nt):
        recs.append(record(u, ri, rm))
        w, psi, zeta = m.lap(u, psi, zeta)
        un = 2 * u - up + m.dt**2 * use(m, "v2", v2, t, w)
        if amp is not None:
            un = inject(un, si, sm, amp[..., t])
        u, up = un, u
    return [u, up, *psi, *zeta], [_stack(recs, m.S)]


def scalar_born(c):
    """Adds scatter [B, *shape], rec (scattered) and bgrec."""
    v0 = c["v"]
    m = Scalar(c, v0.shape[1:])
    nd = m.nd
    v = pad_model(v0, m.w)
    s = pad_model(c["scatter"], m.w, "constant")
    wf = [m.zeros() if x is None else x for x in c["w0"]]
    k = 2 + 2 * nd
    u, up, psi, zeta = wf[0], wf[1], list(wf[2 : 2 + nd]), list(wf[2 + nd : k])
    q = wf[k:]
    us, usp, psis, zetas = q[0], q[1], list(q[2 : 2 + nd]), list(q[2 + nd :])
    si, sm = flat_index(c["src"], m.w, m.N)
    ri, rm = flat_index(c["rec"], m.w, m.N)
    bi, bm = flat_index(c["bgrec"], m.w, m.N)
    amp = None
    if c["f"] is not None and si.numel():
        amp = -c["f"] * (at(v, si) ** 2 * m.dt**2)[..., None]
        amps = -c["f"] * (2 * at(v, si) * at(s, si) * m.dt**2)[..., None]
    recs, bgs = [], []
    v2, vs = v**2, 2 * v * s
    for t in range(m.nt):
        recs.append(record(us, ri, rm))
        bgs.append(record(u, bi, bm))
        w, psi, zeta = m.lap(u, psi, zeta)
        ws, psis, zetas = m.lap(us, psis, zetas)
        un = 2 * u - up + m.dt**2 * use(m, "v2", v2, t, w)
        usn = 2 * us - usp + m.dt**2 * (
            use(m, "v2", v2, t, ws) + use(m, "vs", vs, t, w)
        )
        if amp is not None:
            un = inject(un, si, sm, amp[..., t])
            usn = inject(usn, si, sm, amps[..., t])
        u, up, us, usp = un, u, usn, us
    return (
        [u, up, *psi, *zeta, us, usp, *psis, *zetas],
        [_stack(bgs, m.S), _stack(recs, m.S)],
    )


# ---------------------------------------------------------------- staggered
class Stag(_Base):
    def __init__(self, c, shape):
        self.setup(c, shape)
        self.ai, self.bi, self.ah, self.bh = [], [], [], []
        self.edge = []  # zero in the last cell of a dimension
        for d, (a, b) in enumerate(self.prof(c, False)):
            self.ai.append(_bc(a, d, self.nd))
            self.bi.append(_bc(b, d, self.nd))
        for d, (a, b) in enumerate(self.prof(c, True)):
            self.ah.append(_bc(a, d, self.nd))
            self.bh.append(_bc(b, d, self.nd))
            e = torch.ones(self.N[d], dtype=torch.float64)
            e[-1] = 0
            self.edge.append(_bc(e, d, self.nd))

    def half(self, x, *dims):
        for d in dims:
            x = x * self.edge[d]
        return x


def _shift(x, d):
    """x at i+1 along spatial dim d (last cell repeated: unused)."""
    n = x.shape[d + 1]
    return x.index_select(d + 1, torch.clamp(torch.arange(1, n + 1), max=n - 1))


def _safe_inv(x):
    ok = x.abs() > 0
    return torch.where(ok, 1 / torch.where(ok, x, torch.ones_like(x)), torch.zeros_like(x))


def acoustic(c):
    """c: v, rho [B, *shape]; f/src/rec: lists [p, (z, y, x)];
    w0 = [p, v.., phi.., psi..]."""
    m = Stag(c, c["v"].shape[1:])
    nd = m.nd
    v = pad_model(c["v"], m.w)
    rho = pad_model(c["rho"], m.w)
    K = rho * v**2
    B = [m.half(_safe_inv((rho + _shift(rho, d)) / 2), d) for d in range(nd)]
    wf = [m.zeros() if x is None else x for x in c["w0"]]
    p = wf[0]
    vel = [m.half(wf[1 + d], d) for d in range(nd)]
    phi = list(wf[1 + nd : 1 + 2 * nd])
    psi = [m.half(wf[1 + 2 * nd + d], d) for d in range(nd)]
    S = [flat_index(x, m.w, m.N) for x in c["src"]]
    R = [flat_index(x, m.w, m.N) for x in c["rec"]]
    amp = []
    for (si, sm), f, mod in zip(S, c["f"], [K, *B]):
        amp.append(
            None if f is None or not si.numel() else f * (at(mod, si) * m.dt)[..., None]
        )
    recs = [[] for _ in range(nd + 1)]
    for t in range(m.nt):
        for k, u in enumerate([p, *vel]):
            recs[k].append(record(u, *R[k]))
        for d in range(nd):
            g = deriv("toh", p, d, m.acc, 1 / m.dx[d])
            psi[d] = m.half(m.ah[d] * psi[d] + m.bh[d] * g, d)
            vel[d] = m.half(
                vel[d] - m.dt * use(m, ("B", d), B[d], t, g + psi[d]), d
            )
            if amp[1 + d] is not None:
                vel[d] = inject(vel[d], *S[1 + d], amp[1 + d][..., t])
        div = 0
        for d in range(nd):
            g = deriv("toi", vel[d], d, m.acc, 1 / m.dx[d])
            phi[d] = m.ai[d] * phi[d] + m.bi[d] * g
            div = div + g + phi[d]
        p = p - m.dt * use(m, "K", K, t, div)
        if amp[0] is not None:
            p = inject(p, *S[0], amp[0][..., t])
    return [p, *vel, *phi, *psi], [_stack(r, m.S) for r in recs]


def elastic_names(nd):
    """deepwave's documented return order of the final wavefields."""
    ax = "zyx"[3 - nd :]
    names = [f"v{a}" for a in ax]
    # symmetric stresses in the documented order
    if nd == 3:
        names += ["sigmazz", "sigmayz", "sigmaxz", "sigmayy", "sigmaxy", "sigmaxx"]
    elif nd == 2:
        names += ["sigmayy", "sigmaxy", "sigmaxx"]
    else:
        names += ["sigmaxx"]
    return ax, names


def elastic(c):
    """c: lamb, mu, b [B, *shape]; f/src/rec lists [(z, y,) x, p];
    w0: dict name -> tensor (names without time suffix, e.g. 'vx',
    'sigmaxy' (later letters first: xy, xz, yz), 'm_vxy', 'm_sigmaxyy').
    Returns a dict of final wavefields and receivers [(z, y,) x, p]."""
    m = Stag(c, c["lamb"].shape[1:])
    nd = m.nd
    ax = "zyx"[3 - nd :]
    lam = pad_model(c["lamb"], m.w)
    mu = pad_model(c["mu"], m.w)
    rho = _safe_inv(pad_model(c["b"], m.w))
    B = [m.half(_safe_inv((rho + _shift(rho, d)) / 2), d) for d in range(nd)]
    MU = {}
    for i in range(nd):
        for j in range(i + 1, nd):
            four = [mu, _shift(mu, i), _shift(mu, j), _shift(_shift(mu, i), j)]
            ok = torch.stack([x.abs() > 0 for x in four]).all(0)
            hm = 4 / sum(1 / torch.where(ok, x, torch.ones_like(x)) for x in four)
            MU[i, j] = m.half(torch.where(ok, hm, torch.zeros_like(hm)), i, j)

    def sname(i, j):
        i, j = min(i, j), max(i, j)
        return f"sigma{ax[j]}{ax[i]}" if i != j else f"sigma{ax[i]}{ax[i]}"

    def get(n, *half):
        x = c["w0"].get(n)
        return m.zeros() if x is None else m.half(x, *half)

    v = [get(f"v{ax[i]}", i) for i in range(nd)]
    sg = {}
    for i in range(nd):
        for j in range(i, nd):
            sg[i, j] = get(sname(i, j), *(() if i == j else (i, j)))
    mv = {
        (i, j): get(f"m_v{ax[i]}{ax[j]}", *(() if i == j else (i, j)))
        for i in range(nd)
        for j in range(nd)
    }
    ms = {
        (i, j): get(f"m_{sname(i, j)}{ax[j]}", i) for i in range(nd) for j in range(nd)
    }
    S = [flat_index(x, m.w, m.N) for x in c["src"]]
    R = [flat_index(x, m.w, m.N) for x in c["rec"]]
    amp = []
    for k, ((si, sm), f) in enumerate(zip(S, c["f"])):
        if f is None or not si.numel():
            amp.append(None)
        elif k < nd:
            amp.append(f * (at(B[k], si) * m.dt)[..., None])
        else:
            amp.append(-f * m.dt)
    recs = [[] for _ in range(nd + 1)]
    for t in range(m.nt):
        for k in range(nd):
            recs[k].append(record(v[k], *R[k]))
        recs[nd].append(record(-sum(sg[i, i] for i in range(nd)) / nd, *R[nd]))
        for i in range(nd):
            tot = 0
            for j in range(nd):
                s = sg[min(i, j), max(i, j)]
                if i == j:
                    g = deriv("toh", s, j, m.acc, 1 / m.dx[j])
                    a, b = m.ah[j], m.bh[j]
                else:
                    g = deriv("toi", s, j, m.acc, 1 / m.dx[j])
                    a, b = m.ai[j], m.bi[j]
                ms[i, j] = m.half(a * ms[i, j] + b * g, i)
                tot = tot + g + ms[i, j]
            v[i] = m.half(v[i] + m.dt * use(m, ("B", i), B[i], t, tot), i)
        for k in range(nd):
            if amp[k] is not None:
                v[k] = inject(v[k], *S[k], amp[k][..., t])
        e = {}
        for i in range(nd):
            for j in range(nd):
                if i == j:
                    g = deriv("toi", v[i], j, m.acc, 1 / m.dx[j])
                    mv[i, j] = m.ai[j] * mv[i, j] + m.bi[j] * g
                else:
                    g = m.half(deriv("toh", v[i], j, m.acc, 1 / m.dx[j]), i, j)
                    mv[i, j] = m.half(m.ah[j] * mv[i, j] + m.bh[j] * g, i, j)
                e[i, j] = g + mv[i, j]
        div = sum(e[i, i] for i in range(nd))
        for i in range(nd):
            sg[i, i] = sg[i, i] + m.dt * (
                use(m, "lamb", lam, t, div, [e[j, j] for j in range(nd)])
                + 2 * use(m, "mu", mu, t, e[i, i])
            )
            for j in range(i + 1, nd):
                sg[i, j] = sg[i, j] + m.dt * use(
                    m, ("MU", i, j), MU[i, j], t, e[i, j] + e[j, i]
                )
            if amp[nd] is not None:
                sg[i, i] = inject(sg[i, i], *S[nd], amp[nd][..., t])
    out = {f"v{ax[i]}": v[i] for i in range(nd)}
    out.update({sname(i, j): x for (i, j), x in sg.items()})
    out.update({f"m_v{ax[i]}{ax[j]}": x for (i, j), x in mv.items()})
    out.update({f"m_{sname(i, j)}{ax[j]}": x for (i, j), x in ms.items()})
    return out, [_stack(r, m.S) for r in recs]

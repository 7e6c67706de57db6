"""Reference arithmetic: exact float64 / integer models, written from the documentation only (no HGQ code)."""
import numpy as np


def is_floor(rnd, bias_like=None):
    return rnd in ('floor', 3)


def rq(x, f, rnd):
    """Deployment-time quantisation of x to the grid 2**-f; rnd: 'floor' or anything else (round half up)."""
    s = np.exp2(np.asarray(f, dtype=np.float64))
    y = np.asarray(x, dtype=np.float64) * s
    y = np.floor(y) if is_floor(rnd) else np.floor(y + 0.5)
    return y / s


def frac_bits(arr):
    """Smallest F with arr * 2**F integral (elementwise); 0 for zeros."""
    a = np.asarray(arr, dtype=np.float64)
    m, e = np.frexp(a)
    n = np.abs(m * 2.0**53).astype(np.int64)
    low = np.where(n == 0, 0, n & -n)
    tz = np.where(n == 0, 0, np.log2(np.maximum(low, 1)).astype(np.int64))
    return np.where(n == 0, 0, 53 - e - tz)


def int_width(lo, hi):
    """Bits (excluding sign) a two's complement integer type needs to hold the integers lo..hi."""
    def bl(v):
        return int(v).bit_length()
    w = 0
    if hi > 0:
        w = max(w, bl(hi))
    if lo < 0:
        w = max(w, bl(-lo - 1))
    return w


def kif_minmax(mn, mx, f, pos_only=False):
    """Minimal (k, i, f) per element whose type holds every multiple of 2**-f in [mn, mx]. All zero -> (0, 0, 0)."""
    mn, mx, f = np.broadcast_arrays(np.asarray(mn, np.float64), np.asarray(mx, np.float64), np.asarray(f))
    k = np.zeros(mn.shape, int)
    i = np.zeros(mn.shape, int)
    ff = np.zeros(mn.shape, int)
    for idx in np.ndindex(*mn.shape):
        F = int(f[idx])
        lo, hi = mn[idx] * 2.0**F, mx[idx] * 2.0**F
        assert lo == int(lo) and hi == int(hi), (lo, hi)
        lo, hi = int(lo), int(hi)
        if pos_only:
            lo, hi = max(lo, 0), max(hi, 0)
        kk = int(lo < 0)
        w = int_width(lo, hi)
        if kk + w:
            k[idx], i[idx], ff[idx] = kk, w - F, F
    return k, i, ff


def weight_bits(w):
    """(k, i, f) per element: shortest fixed-point format holding exactly |w| (sign flagged apart). 0 -> zeros."""
    w = np.asarray(w, np.float64)
    f = frac_bits(w)
    n = np.abs(w) * np.exp2(f.astype(np.float64))
    width = np.where(n > 0, np.floor(np.log2(np.maximum(n, 1))) + 1, 0).astype(int)
    nz = w != 0
    return (w < 0).astype(int), np.where(nz, width - f, 0), np.where(nz, f, 0)


def ap_fixed(x, k, b, i, RND='TRN', SAT='WRAP'):
    """ap_(u)fixed<b, i, RND, SAT> cast of float64 x (exact while |x|*2**(b-i) < 2**52). k: signed. b == 0 -> 0."""
    x = np.asarray(x, np.float64)
    k, b, i = (np.asarray(v, np.int64) for v in (k, b, i))
    x, k, b, i = np.broadcast_arrays(x, k, b, i)
    f = b - i
    y = x * np.exp2(f.astype(np.float64))
    fl = np.floor(y)
    frac = y - fl
    up = {
        'TRN': np.zeros(y.shape, bool),
        'TRN_ZERO': (y < 0) & (frac > 0),
        'RND': frac >= 0.5,
        'RND_ZERO': (frac > 0.5) | ((frac == 0.5) & (y < 0)),
        'RND_INF': (frac > 0.5) | ((frac == 0.5) & (y > 0)),
        'RND_MIN_INF': frac > 0.5,
        'RND_CONV': (frac > 0.5) | ((frac == 0.5) & (np.mod(fl, 2) == 1)),
    }[RND]
    n = fl + up
    mag = np.exp2((b - k).astype(np.float64))
    hi, lo = mag - 1, -mag * k
    if SAT == 'SAT':
        n = np.minimum(np.maximum(n, lo), hi)
    elif SAT == 'SAT_SYM':
        n = np.minimum(np.maximum(n, -hi * k), hi)
    elif SAT == 'SAT_ZERO':
        n = np.where((n > hi) | (n < lo), 0, n)
    elif SAT == 'WRAP':
        w = hi - lo + 1
        n = n - w * np.floor((n - lo) / w)
    elif SAT == 'WRAP_SM':
        w = hi - lo + 1
        q = np.floor((n - lo) / w)
        m = n - w * q
        n = np.where(np.mod(q, 2) == 1, hi + lo - m, m)
    else:
        raise KeyError(SAT)
    return np.where(b == 0, 0.0, n / np.exp2(f.astype(np.float64)))


def same_pad(n, k, s, d=1):
    out = -(-n // s)
    eff = (k - 1) * d + 1
    tot = max((out - 1) * s + eff - n, 0)
    return out, tot // 2, tot - tot // 2


def conv_nd(x, k, strides, padding, dilation):
    """Plain channels-last convolution (cross-correlation) of any rank, float64, explicit loops over kernel taps; grouped if the kernel has fewer input channels."""
    rank = x.ndim - 2
    c, g = k.shape[-2], x.shape[-1] // k.shape[-2]
    if g > 1:
        o = k.shape[-1] // g
        return np.concatenate([conv_nd(x[..., j * c:(j + 1) * c], k[..., j * o:(j + 1) * o], strides, padding, dilation) for j in range(g)], -1)
    pads, outs = [(0, 0)], []
    for d in range(rank):
        n, ks, s, dl = x.shape[1 + d], k.shape[d], strides[d], dilation[d]
        eff = (ks - 1) * dl + 1
        if padding == 'same':
            o, a, b = same_pad(n, ks, s, dl)
        else:
            o, a, b = (n - eff) // s + 1, 0, 0
        outs.append(o)
        pads.append((a, b))
    xp = np.pad(x, pads + [(0, 0)])
    z = np.zeros((x.shape[0], *outs, k.shape[-1]))
    for tap in np.ndindex(*k.shape[:rank]):
        sl = [slice(None)]
        for d in range(rank):
            st = tap[d] * dilation[d]
            sl.append(slice(st, st + (outs[d] - 1) * strides[d] + 1, strides[d]))
        z += np.matmul(xp[tuple(sl)], k[tap])
    return z


def pool_nd(x, size, strides, padding, op):
    rank = x.ndim - 2
    pads, outs = [(0, 0)], []
    for d in range(rank):
        n, ks, s = x.shape[1 + d], size[d], strides[d]
        if padding == 'same':
            o, a, b = same_pad(n, ks, s)
        else:
            o, a, b = (n - ks) // s + 1, 0, 0
        outs.append(o)
        pads.append((a, b))
    xp = np.pad(x, pads + [(0, 0)], constant_values=np.nan)
    out = np.empty((x.shape[0], *outs, x.shape[-1]))
    for pos in np.ndindex(*outs):
        sl = tuple([slice(None)] + [slice(p * s, p * s + k) for p, s, k in zip(pos, strides, size)])
        w = xp[sl].reshape(x.shape[0], -1, x.shape[-1])
        out[(slice(None), *pos)] = np.nanmax(w, axis=1) if op == 'max' else np.nanmean(w, axis=1)
    return out

"""Shared generators and independent reference definitions (no qampy code is used for the references)."""
import numpy as np

SQUARE = [4, 16, 64, 256, 1024]
CROSS = [8, 32, 128, 512]
QAM = SQUARE + CROSS
PSK = [2, 4, 8, 16, 32]
DT = [np.complex128, np.complex64]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def more(rng, k):
    """now and then more modes than usual"""
    return k if rng.random() < .88 else int(rng.integers(4, 9))


def loguniform(rng, a, b):
    """integer in [a, b], every order of magnitude equally likely"""
    return int(np.clip(round(np.exp(rng.uniform(np.log(a), np.log(b + 1)))), a, b))


def ref_square(M):
    L = int(round(np.sqrt(M)))
    lv = np.arange(-(L - 1), L, 2)
    p = (lv[:, None] + 1j * lv[None, :]).ravel()
    return p / np.sqrt(np.mean(abs(p) ** 2))


def ref_cross(M):
    """M = 2**(odd): the 4x2 rectangle for 8, otherwise the square with its four corners removed."""
    if M == 8:
        p = (np.array([-3, -1, 1, 3])[:, None] + 1j * np.array([-1, 1])[None, :]).ravel()
    else:
        n = int(round(np.log2(M)))
        L = 3 * 2 ** ((n - 3) // 2)
        c = 2 ** ((n - 5) // 2)
        lv = np.arange(-(2 * (L // 2)) + 1, 2 * (L // 2), 2)
        p = (lv[:, None] + 1j * lv[None, :]).ravel()
        lim = 2 * (L // 2 - c)
        p = p[~((abs(p.real) > lim) & (abs(p.imag) > lim))]
    assert p.size == M, (p.size, M)
    return p / np.sqrt(np.mean(abs(p) ** 2))


def ref_qam(M):
    return ref_square(M) if M in SQUARE else ref_cross(M)


def same_set(a, b, tol):
    """largest distance of a point of a to b and vice versa"""
    d = abs(np.asarray(a)[:, None] - np.asarray(b)[None, :])
    return max(d.min(0).max(), d.min(1).max()) <= tol


def nearest(x, alphabet):
    """index of the nearest alphabet point and the margin to the second nearest (brute force, float64)"""
    x = np.asarray(x, np.complex128).ravel(); a = np.asarray(alphabet, np.complex128).ravel()
    idx = np.empty(x.size, int); m = np.empty(x.size)
    for s in range(0, x.size, 4096):
        d = abs(x[s:s + 4096, None] - a[None, :])
        idx[s:s + 4096] = d.argmin(1)
        if a.size > 1:
            p = np.partition(d, 1, axis=1)
            m[s:s + 4096] = p[:, 1] - p[:, 0]
        else:
            m[s:s + 4096] = np.inf
    return idx, m


def labels(bits, k):
    """integer labels, first bit most significant"""
    b = np.asarray(bits).astype(np.int64)
    n = b.shape[-1] // k * k
    b = b[..., :n].reshape(b.shape[:-1] + (n // k, k))
    return (b << np.arange(k - 1, -1, -1)).sum(-1)


def all_label_bits(M):
    k = int(round(np.log2(M)))
    return ((np.arange(M)[:, None] >> np.arange(k - 1, -1, -1)) & 1).astype(bool)


def dmin(a):
    a = np.asarray(a, np.complex128)
    d = abs(a[:, None] - a[None, :]); d[np.arange(a.size), np.arange(a.size)] = np.inf
    return d.min()


def cnoise(rng, shape, sigma=1.0):
    """complex noise with variance sigma**2"""
    return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)) * sigma / np.sqrt(2)


def qam_signal(rng, M=None, N=None, nmodes=None, dtype=None, fb=None, Ms=QAM, nmax=3000, nmin=1, modes=(1, 2, 3, 4), **kw):
    from qampy import signals
    M = M or pick(rng, Ms); N = N or loguniform(rng, nmin, nmax); nmodes = nmodes or pick(rng, modes)
    dtype = dtype or pick(rng, DT); fb = fb or pick(rng, [1, 25e9, 10e9])
    return signals.SignalQAMGrayCoded(M, N, nmodes=nmodes, fb=fb, dtype=dtype, seed=int(rng.integers(2**31)), **kw)


def raw(x):
    """plain ndarray copy"""
    return np.array(np.asarray(x))


def digest(o, depth=0):
    """Bit-exact fingerprint of an argument: arrays, signal objects with all their attributes, containers."""
    import hashlib
    if isinstance(o, np.ndarray):
        h = hashlib.sha1(np.ascontiguousarray(np.asarray(o)).tobytes()).hexdigest()
        ex = ()
        if type(o) is not np.ndarray and depth < 4:
            ex = tuple((k, digest(v, depth + 1)) for k, v in sorted(vars(o).items()) if v is not o)
        return (type(o).__name__, o.shape, str(o.dtype), h, ex)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(digest(v, depth + 1) for v in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((k, digest(v, depth + 1)) for k, v in sorted(o.items(), key=lambda x: str(x[0])))
    if isinstance(o, (int, float, complex, str, bool, bytes, type(None), np.generic)):
        return (type(o).__name__, repr(o))
    return (type(o).__name__,)

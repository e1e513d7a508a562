"""C22 windowing, averaging, normalisation and truncation helpers against explicit definitions."""
import numpy as np
import gen
from vp import Skip
from qampy import helpers, signals
from qampy.core import utils, filter as cf
from qampy.core.segmentaxis import segment_axis

RULE = ("random arrays (1-3 dimensions, all dtypes, contiguous, strided, reversed and Fortran-ordered views, signal objects) of lengths from one element, with random "
        "window lengths, overlaps, axes and end policies; every window is compared element by element with index arithmetic; non-trivial: more than one window or a changed value")
REQUIRED = ["windows compared", "cut ends", "padded ends", "wrapped ends", "non-contiguous inputs", "rejections", "moving averages", "wrapped rolling windows", "normalised modes",
            "pilot index geometries", "offsets searched", "bit streams interleaved", "signals normalised in place"]


def arr(ctx, rng, ndim=None, nmin=1, nmax=200, dt=None, views=True):
    ndim = ndim or int(rng.integers(1, 4)); dt = dt or gen.pick(rng, [np.complex128, np.complex64, np.float64, np.float32, np.int64, np.int32, np.int16, bool])
    shape = [int(rng.integers(1, 5)) for _ in range(ndim)]
    shape[int(rng.integers(ndim))] = gen.loguniform(rng, nmin, nmax)
    if np.dtype(dt).kind == "c": a = gen.cnoise(rng, shape).astype(dt)
    elif np.dtype(dt).kind == "f": a = rng.standard_normal(shape).astype(dt)
    else: a = rng.integers(0, 2 if dt is bool else 1000, shape).astype(dt)
    v = "C"
    if views and rng.random() < 0.5:
        v = gen.pick(rng, ["F", "step", "reversed", "transposed", "slice"])
        if v == "F": a = np.asfortranarray(a)
        if v == "step": a = np.repeat(a, 2, axis=-1)[..., ::2]
        if v == "reversed": a = a[..., ::-1]
        if v == "transposed": a = a.T
        if v == "slice": a = np.concatenate([a, a], axis=0)[:a.shape[0]]
        if not a.flags.c_contiguous: ctx.count("non-contiguous inputs")
    ctx.case(shape=a.shape, dtype=a.dtype.name, layout=v)
    return a


def seg(ctx, rng, i):
    a = arr(ctx, rng)
    axis = gen.pick(rng, [None] + list(range(a.ndim)))
    x = np.ravel(a) if axis is None else a; ax = axis or 0; n = x.shape[ax]
    L = gen.loguniform(rng, 1, max(2, n + 4)); ov = int(rng.integers(0, L)); end = gen.pick(rng, ["cut", "pad", "wrap"]); ev = gen.pick(rng, [0, 1, 7])
    ctx.case(length=L, overlap=ov, axis=axis, end=end)
    hop = L - ov; b = gen.digest(a)
    # number of windows: all that fit, plus one completed by padding or wrapping if samples are left
    full = 0 if n < L else 1 + (n - L) // hop
    rest = n < L or (n - L) % hop
    if end == "cut" and full == 0:
        ctx.raises(lambda: segment_axis(a, L, ov, axis, end, ev), "no full window", ValueError); ctx.count("rejections"); return
    K = full + (1 if rest and end != "cut" else 0)
    need = (K - 1) * hop + L
    if end == "wrap" and need - n > n: raise Skip
    y = segment_axis(a, L, ov, axis, end, ev)
    ctx.ok(gen.digest(a) == b, "segment_axis altered its argument")
    idx = np.arange(K)[:, None] * hop + np.arange(L)[None, :]
    m = np.moveaxis(np.array(x), ax, -1)
    if end == "wrap": w = m[..., idx % n]
    else:
        w = m[..., np.minimum(idx, n - 1)]
        if end == "pad": w = np.where(idx >= n, np.asarray(ev).astype(a.dtype), w)
    w = np.moveaxis(w, (-2, -1), (ax, ax + 1))
    ctx.ok(y.dtype == a.dtype, "dtype %s" % y.dtype)
    ctx.eq(np.array(y), w, "segment_axis")
    ctx.count("windows compared", K)
    if rest: ctx.count({"cut": "cut ends", "pad": "padded ends", "wrap": "wrapped ends"}[end])
    if K > 1: ctx.nontrivial()


def seg_reject(ctx, rng, i):
    a = arr(ctx, rng, ndim=1); L = int(rng.integers(1, 20))
    bad = gen.pick(rng, [(L, L), (L, L + int(rng.integers(0, 5))), (L, -int(rng.integers(1, 5))), (0, -1), (-L, -L - 1)]); ctx.case(bad=bad)
    ctx.raises(lambda: segment_axis(a, bad[0], bad[1]), "length %d overlap %d" % bad, ValueError)
    ctx.count("rejections"); ctx.nontrivial()


def rolling(ctx, rng, i):
    a = arr(ctx, rng); n = a.shape[-1]; wrap = bool(rng.integers(2))
    size = gen.loguniform(rng, 1, n if not wrap else n + 3); ctx.case(size=size, wrap=wrap)
    b = gen.digest(a)
    y = utils.rolling_window(a, size, wrap=wrap)
    K = n if wrap else n - size + 1
    idx = np.arange(K)[:, None] + np.arange(size)[None, :]
    ctx.eq(np.array(y), np.array(a)[..., idx % n], "rolling_window")
    ctx.ok(gen.digest(a) == b, "rolling_window altered its argument")
    ctx.count("windows compared", K)
    if wrap: ctx.count("wrapped rolling windows")
    if K > 1: ctx.nontrivial()


def movavg(ctx, rng, i):
    a = arr(ctx, rng, ndim=int(rng.integers(1, 3)), nmax=3000, dt=gen.pick(rng, [np.complex128, np.complex64, np.float64, np.float32]))
    n = a.shape[-1]; N = gen.loguniform(rng, 1, n); ctx.case(N=N)
    b = gen.digest(a)
    y = cf.moving_average(a, N)
    ctx.ok(gen.digest(a) == b, "moving_average altered its argument")
    x = np.array(a, np.complex128)
    c = np.lib.stride_tricks.sliding_window_view(x, N, axis=-1).mean(axis=-1)
    eps = np.finfo(a.real.dtype).eps
    ctx.close(y, c, eps * (4 * n * max(1, abs(x).max())) / N + eps * 10 * abs(x).max(), "moving_average")
    ctx.count("moving averages"); ctx.count("windows compared", c.shape[-1])
    if c.shape[-1] > 1: ctx.nontrivial()


def sigs(ctx, rng, nmin=2, real=False, ndim=None):
    """A 1D or 2D array or signal with different offset and power in each mode."""
    k = int(rng.integers(3)) if ndim is None else ndim; dt = gen.pick(rng, gen.DT); N = gen.loguniform(rng, nmin, 3000); nm = gen.more(rng, int(rng.integers(1, 4)))
    if k == 2 and not real:
        s = signals.SignalQAMGrayCoded(16, N, nmodes=nm, dtype=dt, seed=int(rng.integers(2**31)))
        s = s * rng.uniform(.1, 4, (nm, 1)).astype(s.real.dtype)
        s += (gen.cnoise(rng, (nm, 1), 2) + gen.cnoise(rng, s.shape, .1)).astype(dt)
    else:
        s = gen.cnoise(rng, (nm, N)) * rng.uniform(.1, 4, (nm, 1)) + gen.cnoise(rng, (nm, 1), 2)
        s = s.astype(dt)
        if real: s = s.real.copy()
        if k == 1: s = s[0]
    ctx.case(shape=s.shape, dtype=s.dtype.name, type=type(s).__name__)
    return s, gen.raw(s).astype(np.complex128), (3e-5 if dt is np.complex64 else 1e-11)


def pure(ctx, s, fn, what):
    b = gen.digest(s); y = fn(s)
    ctx.ok(gen.digest(s) == b, what + " altered its argument")
    ctx.ok(y.shape == s.shape and y.dtype == s.dtype, "%s: %s %s for %s %s" % (what, y.shape, y.dtype, s.shape, s.dtype))
    ctx.ok(type(y) is type(s), what + " returned %s" % type(y).__name__)
    return gen.raw(y).astype(complex)


def norm(ctx, rng, i):
    s, x, tol = sigs(ctx, rng, nmin=3)
    c = x - x.mean(-1, keepdims=True); p = np.sqrt((abs(c) ** 2).mean(-1, keepdims=True))
    cond = 1 + (abs(x).max() / p).max()
    y = pure(ctx, s, helpers.normalise_and_center, "normalise_and_center")
    ctx.close(y, c / p, tol * cond * max(1, abs(c / p).max()), "normalise_and_center")
    ctx.count("normalised modes", p.size)
    v = x.real if x.ndim == 1 else x[0].real; v = v * rng.uniform(.5, 2); u = (v - v.mean()) / v.std()     # real samples, whatever the type of the result
    if v.std() > 1e-3 * abs(v).max(): b = gen.digest(v); ctx.close(np.asarray(helpers.normalise_and_center(v)).astype(complex), u.astype(complex), tol * cond * (1 + abs(u).max() + abs(v).max() / v.std()), "normalise_and_center of real samples"); ctx.ok(gen.digest(v) == b, "normalise_and_center altered real samples")
    # only on part of the samples
    idx = rng.random(x.shape[-1]) < 0.5; idx[:2] = True
    if rng.random() < .5: idx = np.nonzero(idx)[0]
    xp = x[..., idx]; mu = xp.mean(-1, keepdims=True); pp = np.sqrt((abs(xp - mu) ** 2).mean(-1, keepdims=True))
    y = pure(ctx, s, lambda s: helpers.normalise_and_center_pil(s, idx), "normalise_and_center_pil")
    ctx.close(y, (x - mu) / pp, tol * (1 + (abs(x).max() / pp).max()) ** 2, "normalise_and_center_pil")
    f = helpers.get_center_shift_fac(s)
    ctx.close(np.asarray(f).ravel(), -x.mean(-1).ravel(), tol * abs(x).max(), "get_center_shift_fac")
    ctx.nontrivial()


def edges(ctx, rng, i):
    s, x, tol = sigs(ctx, rng, nmin=3); n = x.shape[-1]; N = int(rng.integers(0, n // 2 + 1)); ctx.case(cut=N)
    b = gen.digest(s)
    y = helpers.dump_edges(s, N)
    ctx.eq(np.array(y), x[..., N:n - N].astype(s.dtype), "dump_edges")
    ctx.ok(gen.digest(s) == b and type(y) is type(s), "dump_edges altered its argument")
    ctx.nontrivial()


def rescale(ctx, rng, i):
    real = rng.random() < 0.3
    s, x, tol = sigs(ctx, rng, nmin=2, real=real)
    sw = float(rng.uniform(.2, 3))
    if x.ndim > 1 and rng.random() < 0.3: sw = rng.uniform(.2, 3, x.shape[0])
    ctx.case(swing=sw, real=real)
    mx = np.maximum(abs(x.real).max(-1, keepdims=True), abs(x.imag).max(-1, keepdims=True))
    S = np.asarray(sw)[:, None] if np.ndim(sw) else sw
    y = pure(ctx, s, lambda s: helpers.rescale_signal(s, sw), "rescale_signal")
    ctx.close(y, x / mx * S, tol * np.max(S) * 2, "rescale_signal")
    # moving the middle of the range (all modes together, "1-pol")
    mid = float(rng.uniform(-2, 2)) + (0 if real else 1j * float(rng.uniform(-2, 2)))
    o = (x.real.max() + x.real.min()) / 2 + 1j * (x.imag.max() + x.imag.min()) / 2
    if s.dtype in (np.complex64, np.float32): mid = np.array(mid, s.dtype)
    y = helpers.set_mid_point(s, mid)
    ctx.close(gen.raw(y), x - o + mid, tol * (1 + abs(x).max()) * 4, "set_mid_point")
    z = x - o + mid; mz = np.maximum(abs(z.real).max(-1, keepdims=True), abs(z.imag).max(-1, keepdims=True))
    if mz.min() > 1e-2:
        y = helpers.set_mid_and_resale(s, mid, sw)
        ctx.close(gen.raw(y), z / mz * S, tol * np.max(S) * 10 * (1 + (abs(x).max() / mz).max()) * 4, "set_mid_and_resale")
    ctx.nontrivial()


def units(ctx, rng, i):
    x = rng.uniform(-60, 60, int(rng.integers(1, 50))); s, c, tol = sigs(ctx, rng, nmin=1)
    ctx.close(helpers.dB2lin(x) / 10 ** (x / 10), np.ones(x.size), 1e-12, "dB2lin"); ctx.close(helpers.lin2dB(10 ** (x / 10)), x, 1e-11, "lin2dB")
    ctx.close(helpers.cabssquared(s), abs(c) ** 2, tol * max(1, (abs(c) ** 2).max()), "cabssquared")
    n = int(rng.integers(0, 21)); f = 1
    for k in range(2, n + 1): f *= k
    ctx.ok(utils.factorial(n) == f, "factorial(%d)" % n)
    v = rng.integers(0, 2 ** 40, 50); g = [sum((((int(a) >> k) & 1) ^ ((int(a) >> (k + 1)) & 1)) << k for k in range(42)) for a in v]
    ctx.eq(utils.bin2gray(v), np.array(g), "bin2gray"); ctx.ok(utils.bin2gray(int(v[0])) == g[0], "bin2gray of a number")
    bits = rng.integers(0, 2, int(rng.integers(1, 64)))
    form = gen.pick(rng, [bits, bits.astype(bool), list(bits), bits.astype(float)])
    ctx.ok(int(utils.bool2bin(form)) == sum(int(b) << k for k, b in enumerate(bits)), "bool2bin of %d bits" % len(bits))
    st, h, N = int(rng.integers(-50, 50)), int(gen.pick(rng, [1, 2, 3, -1, -4])), int(rng.integers(1, 300))
    ctx.eq(utils.linspacestep(st, h, N), st + h * np.arange(N), "linspacestep")
    h = float(gen.pick(rng, [.5, .25, -.125])); ctx.eq(utils.linspacestep(float(st), h, N), st + h * np.arange(N), "linspacestep")
    for _ in range(4):
        st, h = gen.pick(rng, [0., 1., -3., float(rng.normal()), 1e9]), float(gen.pick(rng, [.1, .3, 1 / 3, .01, -.1, 1e-3, 7.7, 40e9, float(rng.normal())])); N = int(rng.integers(0, 200)); ctx.close(utils.linspacestep(st, h, N), st + h * np.arange(N), 1e-12 * (abs(st) + abs(h) * (N + 1)), "linspacestep(%r, %r, %d)" % (st, h, N))
    ctx.nontrivial(i)


def pilots(ctx, rng, i):
    fl, sl, ir, nf, os = int(rng.integers(8, 400)), None, None, int(rng.integers(1, 4)), int(gen.pick(rng, [1, 2, 3, 4]))
    sl = int(rng.integers(0, fl)); ir = int(rng.integers(1, 40)); ctx.case(frame_len=fl, seq=sl, ins=ir, nframes=nf, os=os)
    m = np.asarray(helpers.find_pilot_idx(nf, fl, os, sl, ir))
    ctx.ok(m.shape == (nf * fl * os,), "shape %s" % (m.shape,))
    w = np.zeros(fl, bool); w[:sl] = True; w[sl::ir] = True
    ctx.eq(m, np.repeat(np.tile(w, nf), os), "pilot positions"); ctx.count("pilot index geometries"); ctx.nontrivial()


def offset(ctx, rng, i):
    dt = gen.pick(rng, [bool, np.uint8, np.int32, np.int64, np.float64, np.complex64]); n = gen.loguniform(rng, 2, 3000)
    d = rng.integers(0, 2 if rng.random() < .7 else 300, n).astype(np.int64).astype(dt); k = gen.loguniform(rng, 1, n - 1) if n > 2 else 1
    p = int(rng.integers(0, n - k + 1)); q = d[p:p + k].copy(); ctx.case(dtype=np.dtype(dt).name, n=n, k=k, at=p)
    got = utils.find_offset(q, d)
    w = np.lib.stride_tricks.sliding_window_view(d, k); want = int(np.nonzero((w == q).all(1))[0][0])
    ctx.ok(got == want, "find_offset %s instead of %d" % (got, want)); ctx.count("offsets searched")
    # a sequence that does not occur
    if k > 12 and dt is not bool:
        q = q.copy(); q[k // 2] += 1
        if not (w == q).all(1).any(): ctx.raises(lambda: utils.find_offset(q, d), "a sequence that does not occur", ValueError); ctx.count("rejections")
    ctx.nontrivial()


def iqbits(ctx, rng, i):
    nb = int(rng.integers(2, 13)); a = rng.integers(0, 2, gen.loguniform(rng, 8, 2000)).astype(bool); b = rng.integers(0, 2, gen.loguniform(rng, 8, 2000)).astype(bool)
    ctx.case(nbits=nb, ni=a.size, nq=b.size)
    k1, k2 = (nb + 1) // 2, nb // 2; n = min(a.size // k1, b.size // k2)
    w = []
    for k in range(n): w += list(a[k * k1:(k + 1) * k1]) + list(b[k * k2:(k + 1) * k2])
    ctx.eq(utils.convert_iqtosinglebitstream(a, b, nb), np.array(w, bool), "interleaved bits"); ctx.count("bit streams interleaved")
    if n > 1: ctx.nontrivial()


def signal_norm(ctx, rng, i):
    """the method of the signal objects: in place, by mean power or by the power of the symbols"""
    s = gen.qam_signal(rng, Ms=[4, 8, 16, 64], nmin=60, nmax=2000, fb=float(rng.uniform(.5, 30)))
    tol = 1e-3 if s.dtype == np.complex64 else 1e-9
    symbol_based = rng.random() < .7; roll = 0; N = s.shape[1]
    tx = gen.raw(s.symbols).copy(); desc = (s.fb, s.fs, s.M); bits = np.array(s.bits)
    n = rng.choice([.01, .1, .5]) * gen.cnoise(rng, s.shape)
    if symbol_based and rng.random() < .5 and N > 300: roll = int(rng.integers(0, N)); n = n * .1
    x = np.roll(tx, roll, axis=1).astype(complex) + n
    x = x * rng.uniform(.2, 5, (s.shape[0], 1)) + (0 if roll else gen.cnoise(rng, (s.shape[0], 1), .7))
    x = x.astype(s.dtype); s[:] = x; x = x.astype(complex); x = x - x.mean(-1, keepdims=True)
    if symbol_based:
        t = np.roll(tx, roll, axis=1); p = np.zeros((s.shape[0], 1))
        for j in range(s.shape[0]):
            for a in np.unique(t[j]):
                sel = t[j] == a; p[j] += abs(x[j, sel].mean()) ** 2 * sel.mean()
    else: p = (abs(x) ** 2).mean(-1, keepdims=True)
    ctx.case(M=s.M, shape=s.shape, dtype=s.dtype.name, symbol_based=symbol_based, roll=roll)
    kw = dict(symbol_based=symbol_based, synced=roll == 0 and rng.random() < .8); kw = {k: v for k, v in kw.items() if v or rng.random() < .4}; out = s.normalize_and_center(**kw)
    ctx.ok(out is None or out is s, "normalize_and_center returned something else")
    ctx.close(gen.raw(s).astype(complex), x / np.sqrt(p), tol * max(1, abs(x / np.sqrt(p)).max()), "normalize_and_center")
    ctx.ok((s.fb, s.fs, s.M) == desc and np.array_equal(tx, gen.raw(s.symbols)) and np.array_equal(bits, s.bits), "normalize_and_center changed the description or the reference")
    ctx.count("signals normalised in place", s.shape[0]); ctx.nontrivial()


SCENARIOS = [("segment", seg, 2500, 40000), ("segment_reject", seg_reject, 100, 1000), ("rolling", rolling, 800, 12000), ("moving_average", movavg, 500, 8000),
             ("normalise", norm, 500, 8000), ("edges", edges, 300, 4000), ("rescale", rescale, 500, 8000), ("units", units, 200, 2000),
             ("pilot_index", pilots, 400, 5000), ("find_offset", offset, 500, 8000), ("iq_bits", iqbits, 300, 4000),
             ("signal_normalise", signal_norm, 200, 3000)]

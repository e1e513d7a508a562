"""C25 receiver front-end corrections: Gram-Schmidt orthonormalisation, IQ-imbalance and RF-delay compensation."""
import numpy as np
import gen
from qampy import signals, analog_frontend as af
from qampy.core import analog_frontend as caf

RULE = ("QAM and noise signals (1-4 modes of different power, both precisions, os 1-4, arrays and signal objects) impaired per mode with random gains, phases, offsets and "
        "delays; the corrected output is tested for zero mean, zero correlation and equal power, for equality with the correction of the unimpaired signal (both corrections are "
        "invariant to these impairments), and against the unimpaired signal; non-trivial: the impairment changes the signal")
REQUIRED = ["modes orthonormalised", "impairments undone", "iq compensations", "rf delays", "signal objects", "oversampled", "single precision"]


def mk(ctx, rng, nmin=50, nmax=6000, os=None, obj=None):
    nm, N = int(rng.integers(1, 5)), gen.loguniform(rng, nmin, nmax); dt = gen.pick(rng, gen.DT); os = os or int(gen.pick(rng, [1, 1, 2, 3, 4]))
    obj = rng.random() < 0.6 if obj is None else obj
    fb = float(gen.pick(rng, [1, 20e9, 28.3e9]))
    if obj:
        s = signals.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 64, 32]), N, nmodes=nm, dtype=dt, fb=fb, seed=int(rng.integers(2**31)))
        if os > 1: s = s.resample(s.fs * os, beta=0.3, renormalise=True); ctx.count("oversampled")
        s = s + gen.cnoise(rng, s.shape, 0.2).astype(dt)
        ctx.count("signal objects")
    else:
        s = gen.cnoise(rng, (nm, N * os)).astype(dt)
    if dt is np.complex64: ctx.count("single precision")
    ctx.case(nmodes=nm, N=N, os=os, fb=fb, dtype=np.dtype(dt).name, signal=obj)
    return s, gen.raw(s).astype(np.complex128), os, (2e-5 if dt is np.complex64 else 1e-11)


def impair(ctx, rng, s, x):
    """gain, phase imbalance and offset of the quadrature and in-phase parts, per mode"""
    nm = x.shape[0]
    g1, g2 = rng.uniform(.3, 3, (nm, 1)), rng.uniform(.3, 3, (nm, 1)); ph = rng.uniform(-.6, .6, (nm, 1)); o = gen.cnoise(rng, (nm, 1), .5)
    ctx.case(phase=ph.ravel(), gain=(g2 / g1).ravel())
    y = g1 * x.real + 1j * g2 * (np.sin(ph) * x.real + np.cos(ph) * x.imag) + o
    z = s.copy(); z[...] = y.astype(s.dtype)
    return z, g1, y


def gs(x, os):
    """Gram-Schmidt by definition"""
    I = x.real - x.real.mean(-1, keepdims=True); Q = x.imag - x.imag.mean(-1, keepdims=True)
    Q = Q - (I * Q).mean(-1, keepdims=True) / (I * I).mean(-1, keepdims=True) * I
    y = I / np.sqrt((I * I).mean(-1, keepdims=True)) + 1j * Q / np.sqrt((Q * Q).mean(-1, keepdims=True))
    y = y - y[:, ::os].mean(-1, keepdims=True)
    return y / np.sqrt((abs(y[:, ::os]) ** 2).mean(-1, keepdims=True))


def stats(ctx, y, tol, os=1):
    c = y - y.mean(-1, keepdims=True)
    p = (abs(c) ** 2).mean(-1)
    ctx.ok(np.all(abs((c.real * c.imag).mean(-1)) <= tol * p), "in-phase and quadrature parts correlate: %s" % ((c.real * c.imag).mean(-1) / p))
    ctx.ok(np.all(abs((c.real ** 2).mean(-1) - (c.imag ** 2).mean(-1)) <= tol * p), "powers of in-phase and quadrature parts differ: %s" % ((c.real ** 2).mean(-1) / (c.imag ** 2).mean(-1)))
    ctx.ok(np.all(abs(y[:, ::os].mean(-1)) <= tol * np.sqrt(p)), "mean is %s" % y[:, ::os].mean(-1))


def run(ctx, s, fn, what):
    b = gen.digest(s); y = fn(s)
    ctx.ok(gen.digest(s) == b, what + " altered its argument")
    ctx.ok(y.shape == s.shape and y.dtype == s.dtype, "%s: %s %s" % (what, y.shape, y.dtype))
    if type(s) is not np.ndarray:
        ctx.ok(type(y) is type(s) and y.fs == s.fs and y.fb == s.fb and y.M == s.M, what + ": description of the signal")
        ctx.eq(np.array(y.symbols), np.array(s.symbols), what + ": transmitted symbols")
    return gen.raw(y).astype(complex)


def ortho(ctx, rng, i):
    s, x, os, tol = mk(ctx, rng)
    f = af.orthonormalize_signal if type(s) is not np.ndarray else (lambda v: caf.orthonormalize_signal(v, os) if os > 1 else caf.orthonormalize_signal(v))
    z, g1, y = impair(ctx, rng, s, x)
    cond = 20 * (1 + abs(y).max() / np.sqrt(min(np.var(y.real, axis=-1).min(), np.var(y.imag, axis=-1).min()))) ** 2
    a = run(ctx, z, f, "orthonormalize_signal"); stats(ctx, a, tol * cond, os)
    ctx.ok(np.allclose((abs(a[:, ::os]) ** 2).mean(-1), 1, atol=tol * cond), "power %s" % (abs(a[:, ::os]) ** 2).mean(-1))
    ctx.close(a, gs(x, os), tol * cond * 5, "orthonormalised impaired signal against the unimpaired one"); ctx.count("impairments undone", x.shape[0])
    ctx.count("modes orthonormalised", x.shape[0])
    # direct calls on the unimpaired signal, on one mode
    u = run(ctx, s, f, "orthonormalize_signal"); ctx.close(u, gs(x, os), tol * 200, "orthonormalize_signal")
    one = np.asarray(caf.orthonormalize_signal(gen.raw(z)[-1], os)); ctx.close(one.reshape(1, -1), a[-1:], tol * cond * 5, "last mode alone")
    # the true signal, up to its own sample correlation
    if x.shape[1] > 1000:
        t = x - x.mean(-1, keepdims=True); t = t / np.sqrt((abs(t) ** 2).mean(-1, keepdims=True)); v = a / np.sqrt((abs(a) ** 2).mean(-1, keepdims=True))
        ctx.ok(np.all((abs(v - t) ** 2).mean(-1) < 60 * os / x.shape[1]), "not the unimpaired signal: error power %s" % (abs(v - t) ** 2).mean(-1))
    ctx.nontrivial()


def iq(ctx, rng, i):
    s, x, os, tol = mk(ctx, rng); one = type(s) is np.ndarray and rng.random() < .3
    z, g1, y = impair(ctx, rng, s, x)
    if np.any(abs((lambda I, Q: (I * Q).sum(-1) / (I * I).sum(-1))(*(lambda c: (c.real, c.imag))(y - y.mean(-1, keepdims=True)))) > .98):
        z, y, g1 = s, x, np.ones((x.shape[0], 1))        # outside of the domain of the arcsine
    if one: z, y, x, g1 = z[0], y[:1], x[:1], g1[:1]
    ctx.case(ndim=z.ndim)
    cond = 20 * (1 + abs(y).max() / np.sqrt(min(np.var(y.real, axis=-1).min(), np.var(y.imag, axis=-1).min()))) ** 2
    a = np.atleast_2d(run(ctx, z, af.comp_IQ_inbalance, "comp_IQ_inbalance")); stats(ctx, a, tol * cond)
    I = x.real - x.real.mean(-1, keepdims=True); Q = x.imag - x.imag.mean(-1, keepdims=True)
    Q = Q - (I * Q).mean(-1, keepdims=True) / (I * I).mean(-1, keepdims=True) * I
    want = g1 * (I + 1j * Q * np.sqrt((I * I).mean(-1, keepdims=True) / (Q * Q).mean(-1, keepdims=True)))
    ctx.close(a, want, tol * cond * 5 * abs(want).max(), "IQ-imbalance compensation of the impaired signal")
    ctx.count("iq compensations"); ctx.count("impairments undone", x.shape[0])
    ctx.nontrivial()


def rf(ctx, rng, i):
    s, x, os, tol = mk(ctx, rng, nmin=8)
    fs = float(s.fs) if type(s) is not np.ndarray else float(gen.pick(rng, [50e9, 1, 80e9])); n = x.shape[-1]
    obj = type(s) is not np.ndarray
    one = not obj and rng.random() < .4
    k = float(rng.uniform(-5, 5) if rng.random() < .7 else rng.integers(-n, n)); d = k / fs; ctx.case(samples=k, fs=fs, ndim=1 if one else 2)
    r = s.real
    if one: r = r[0]
    f = (lambda v, d: af.comp_rf_delay(v, d)) if obj else (lambda v, d: caf.comp_rf_delay(v, d) if fs == 50e9 and rng.random() < .5 else caf.comp_rf_delay(v, d, fs))
    b = gen.digest(r); y = f(r, d)
    ctx.ok(gen.digest(r) == b, "comp_rf_delay altered its argument")
    ctx.ok(y.shape == r.shape and not np.iscomplexobj(y), "comp_rf_delay: %s %s" % (y.shape, y.dtype))
    if obj: ctx.ok(type(y) is type(s) and y.fs == s.fs and y.fb == s.fb, "description")
    # the trigonometric interpolation of the samples, evaluated at t - delay; the Nyquist line of an even length is ambiguous
    xr = x.real[:1] if one else x.real; Y = np.atleast_2d(gen.raw(y)).astype(float)
    F = np.fft.fft(xr, axis=-1); fr = np.fft.fftfreq(n); ny = np.zeros(n, bool)
    if n % 2 == 0: ny[n // 2] = True
    W = np.where(ny, 0, F * np.exp(-2j * np.pi * fr * k)); w = np.fft.ifft(W, axis=-1).real
    nq = np.zeros(n) if n % 2 else F[:, n // 2:n // 2 + 1].real / n * (-1.0) ** np.arange(n) * np.cos(np.pi * k)
    sc = max(1, abs(xr).max()) * (1 + abs(k) * 1e-1 if s.dtype == np.complex64 else 1 + abs(k))
    ctx.close(Y, w + nq, tol * 10 * sc, "comp_rf_delay by %g samples" % k)
    if k == round(k): ctx.close(Y, np.roll(xr, int(k), axis=-1), tol * 10 * sc, "delay by %d samples" % k)
    # undone by the opposite delay, apart from the Nyquist line
    back = np.atleast_2d(gen.raw(f(y, -d))).astype(float); B = np.fft.fft(back, axis=-1)
    ctx.close(np.where(ny, 0, B) / n, np.where(ny, 0, F) / n, tol * 20 * sc, "opposite delay")
    ctx.count("rf delays"); ctx.nontrivial()


SCENARIOS = [("orthonormalize", ortho, 600, 12000), ("iq_imbalance", iq, 500, 10000), ("rf_delay", rf, 600, 12000)]

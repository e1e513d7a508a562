"""C18 resampling, pulse shaping and filtering: exact reference implementation of the rrc interpolation, Nyquist round trips, tones through filters."""
import numpy as np
from fractions import Fraction
from scipy import signal as ss
from scipy.linalg import expm
import gen
from vp import Skip
from qampy import signals, filtering
from qampy.core import filter as cf, resample as rs, special_fcts as sp

RULE = ("random format x 1-8 modes x length 2..3000 x precision x ratio (integer, rational, down, equal) x roll-off 0.01..1 x taps (odd, even, None) x "
        "renormalisation; reference: zero stuffing, convolution with an independently computed root-raised-cosine and decimation; tones and impulses "
        "through every filter type; non-trivial: ratio other than one or a filter that changes the signal")
REQUIRED = ["rrc points", "rrc limits", "resampled by reference", "tones resampled", "round trips", "matched filters", "filters", "filter designs", "filter tones", "pre filters",
            "interpolating kernels", "pilot signals", "equal rates", "fine ratios", "special functions"]


def rrc(t, beta, T=1.):
    """root-raised cosine, 1/T normalisation, singular points by their limits"""
    x = np.asarray(t, float) / T
    with np.errstate(all="ignore"):
        y = (np.sin(np.pi * x * (1 - beta)) + 4 * beta * x * np.cos(np.pi * x * (1 + beta))) / (np.pi * x * (1 - (4 * beta * x) ** 2))
    y[abs(x) < 1e-8] = 1 + beta * (4 / np.pi - 1)
    if beta > 0:
        s = abs(abs(x) - 1 / (4 * beta)) < 1e-8
        y[s] = beta / np.sqrt(2) * ((1 + 2 / np.pi) * np.sin(np.pi / (4 * beta)) + (1 - 2 / np.pi) * np.cos(np.pi / (4 * beta)))
    return y / T


def ref_kernel(taps, fs, T, beta):
    t = (np.arange(taps) - (taps - 1) // 2) / fs
    h = rrc(t, beta, T)
    return h / h.max()


def conv_same(x, h):
    """centre of the full convolution"""
    return np.convolve(x, h)[(h.size - 1) // 2:][:x.size]


def norm(y, p):
    y = y - y.mean()
    return y / np.sqrt(np.mean(abs(y) ** 2)) * np.sqrt(p)


def ratio(rng):
    k = gen.pick(rng, ["int", "rat", "down", "rat"])
    if k == "int": return Fraction(int(rng.integers(2, 5)))
    if k == "down": return Fraction(1, int(rng.integers(2, 4)))
    a, b = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    return Fraction(a, b)


def special(ctx, rng, i):
    T = float(gen.pick(rng, [1, 2., 0.25, 1e-10])); beta = float(gen.pick(rng, [0.01, 0.1, 0.25, 0.5, 1, rng.uniform(0.01, 1), 0]))
    n = int(gen.pick(rng, [4, 8, 3, 5, 7, 10])); t = (np.arange(401) - 200) / n * T
    ctx.case(T=T, beta=beta, per_symbol=n)
    y = sp.rrcos_time(t, beta, T)
    ctx.close(y * T, rrc(t, beta, T) * T, 1e-5, "rrcos_time")
    if beta:
        ts = T / (4 * beta) * (np.arange(-8, 9) / 4.)      # contains both singular points
        ctx.close(sp.rrcos_time(ts, beta, T) * T, rrc(ts, beta, T) * T, 1e-5, "rrcos_time at its singular points"); ctx.count("rrc limits")
        h = 1e-4
        a = T / (4 * beta); l = rrc(np.array([a * (1 - h), a * (1 + h)]), beta, T).mean()
        ctx.ok(abs(rrc(np.array([a]), beta, T)[0] - l) * T < 1e-4, "harness: reference limit")
    f = np.linspace(-1.2, 1.2, 301) / T
    g = sp.rcos_freq(f, beta, T) / T
    a = abs(f) * T
    ref = np.where(a <= (1 - beta) / 2, 1., np.where(a <= (1 + beta) / 2, 0.5 * (1 + np.cos(np.pi / max(beta, 1e-30) * (a - (1 - beta) / 2))), 0.))
    edge = (abs(a - (1 - beta) / 2) < 1e-9) | (abs(a - (1 + beta) / 2) < 1e-9)
    ctx.close(np.where(edge, 0, g), np.where(edge, 0, ref), 1e-9, "rcos_freq")
    ctx.close(sp.rrcos_freq(f, beta, T) ** 2 / T, g, 1e-9, "rrcos_freq squared")
    fe = np.array([-1, 1]) * .25; ge = sp.rcos_freq(fe, .5, 1.); ctx.close(ge, np.ones(2), 1e-12, "rcos_freq where the roll-off begins"); ctx.close(sp.rcos_freq(3 * fe, .5, 1.), np.zeros(2), 1e-12, "rcos_freq where the roll-off ends")
    x = t / T
    with np.errstate(all="ignore"):
        r = np.sinc(x) * np.cos(np.pi * beta * x) / (1 - 4 * (beta * x) ** 2)
    bad = abs(1 - 4 * (beta * x) ** 2) < 1e-6
    r[bad] = np.pi / 4 * np.sinc(x[bad])
    ctx.close(sp.rcos_time(t, beta, T), r, 1e-6, "rcos_time")
    if n > 2 and beta:       # the raised cosine is the autocorrelation of the root-raised cosine: no intersymbol interference
        k = rrc((np.arange(40 * n * 50 + 1) - 20 * n * 50) / n, beta)
        c = np.convolve(k, k, "same")[k.size // 2::n][:10] / n
        ctx.ok(beta < 0.05 or abs(c[1:]).max() < 5e-3, "harness: not a Nyquist pulse")
    A, x0, w, o = float(rng.normal()), float(rng.normal()), float(rng.uniform(.3, 3) * gen.pick(rng, [1, -1])), int(rng.integers(1, 5)); u = rng.normal(0, 3, 50); v = (u - x0) / w
    for nm, got, want in (("ttanh", sp.ttanh(u, A, x0, w), A * (1 - 2 / (np.exp(2 * v) + 1))), ("gauss", sp.gauss(u, A, x0, w), A * np.exp(-v * v / 2)), ("supergauss", sp.supergauss(u, A, x0, w, o), A * np.exp(-.5 * (v * v) ** o)),
                          ("sech", sp.sech(u, A, x0, w), 2 * A / (np.exp(v) + np.exp(-v)))): ctx.close(got, want, 1e-9 * (1 + abs(A)), nm)
    from math import erfc
    ctx.close(sp.q_function(u), np.array([.5 * erfc(q / 2 ** .5) for q in u]), 1e-12, "q_function"); ctx.count("special functions", u.size)
    ctx.count("rrc points", t.size); ctx.nontrivial()


def shaping(ctx, rng, i):
    """core pulse shaping is convolution with the root-raised cosine"""
    nm, N = int(rng.integers(1, 4)), gen.loguniform(rng, 1, 2000); dt = gen.pick(rng, gen.DT + [np.float64])
    x = gen.cnoise(rng, (nm, N)); x = x.astype(dt) if dt is not np.float64 else x.real
    n = gen.pick(rng, [2, 4, 2.5, 1.25, 1]); T = gen.pick(rng, [1., 1 / 25e9]); fs = n / T
    beta = rng.uniform(0.02, 1); taps = gen.pick(rng, [1001, 101, 64, 33, None]); one = rng.random() < 0.4
    ctx.case(nmodes=nm, N=N, dtype=np.dtype(dt).name, per_symbol=n, beta=beta, taps=taps, ndim=1 if one else 2)
    y = cf.rrcos_pulseshaping(x[0] if one else x, fs, T, beta) if taps == 1001 else cf.rrcos_pulseshaping(x[0] if one else x, fs, T, beta, taps=taps)
    if taps is None:
        f = np.fft.fftfreq(N, 1 / fs); a = abs(f) * T
        H = np.where(a <= (1 - beta) / 2, 1., np.where(a <= (1 + beta) / 2, 0.5 * (1 + np.cos(np.pi / beta * (a - (1 - beta) / 2))), 0.)) ** .5
        ref = np.fft.ifft(np.fft.fft(x, axis=1) * H, axis=1)
    else:
        h = ref_kernel(taps, fs, T, beta)
        ref = np.array([conv_same(m.astype(complex), h) for m in x])
    ref = ref[0] if one else ref
    ctx.close(y, ref, (1e-4 if dt is np.complex64 else 1e-5) * np.sqrt(n) * 3, "rrcos_pulseshaping")
    ctx.count("matched filters"); ctx.nontrivial()


def core_resample(ctx, rng, i):
    r = ratio(rng); fold = float(gen.pick(rng, [1, 25e9, 32e9, 50e9])); fnew = fold * r.numerator / r.denominator
    N = gen.loguniform(rng, 2, 1500); dt = gen.pick(rng, gen.DT + [np.float64])
    x = gen.cnoise(rng, N) + 0.3; x = x.astype(dt) if dt is not np.float64 else x.real
    beta = rng.uniform(0.02, 1); taps = gen.pick(rng, [4001, 201, 100, None]); ren = bool(rng.integers(2)); conv = bool(rng.integers(2)) or taps is None
    Ts = gen.pick(rng, [None, 1 / fold, 2 / fold])
    ctx.case(ratio=str(r), fold=fold, N=N, dtype=np.dtype(dt).name, beta=beta, taps=taps, renormalise=ren, fftconv=conv, Ts=Ts)
    b = gen.digest(x)
    y = rs.rrcos_resample(x, fold, fnew, Ts=Ts, beta=beta, taps=taps, renormalise=ren, fftconv=conv)
    ctx.ok(gen.digest(x) == b, "resampling altered its argument")
    up, down = r.numerator, r.denominator
    T = Ts or 1 / fold; fup = up * fold
    z = np.zeros(N * up, complex); z[::up] = x
    if taps is None:
        a = abs(np.fft.fftfreq(z.size, 1 / fup)) * T
        H = np.where(a <= (1 - beta) / 2, 1., np.where(a <= (1 + beta) / 2, 0.5 * (1 + np.cos(np.pi / beta * (a - (1 - beta) / 2))), 0.)) ** .5
        ref = np.fft.ifft(np.fft.fft(z) * H)
    else:
        ref = conv_same(z, ref_kernel(taps, fup, T, beta))
        if not conv: ref = ref * up           # scipy's convention for the interpolation filter
    if not conv and (taps % 2 == 0 or r == 1): raise Skip  # half a sample between the conventions
    ref = ref[::down]
    if ren and np.std(ref) < 1e-6: raise Skip  # only the mean is left
    if ren: ref = norm(ref, np.mean(abs(x) ** 2))
    ctx.ok(y.size == -(-N * up // down), "length %d instead of %d" % (y.size, -(-N * up // down)))
    if not ren or (abs(ref).max() < 1e3 and y.size > 2):
        ctx.close(y, ref, 1e-4 * max(1, abs(ref).max()), "rrcos_resample")
    if ren and y.size > 2: ctx.ok(abs(np.mean(abs(y) ** 2) / np.mean(abs(x) ** 2) - 1) < 1e-4, "power after renormalisation")
    ctx.count("resampled by reference")
    if r != 1: ctx.nontrivial()


def interpolating(ctx, rng, i):
    """resampling without roll-off: original samples stay (integer ratios), slow tones are resampled in phase"""
    r = ratio(rng); fold = float(gen.pick(rng, [1, 25e9])); fnew = fold * r.numerator / r.denominator
    N = int(rng.integers(200, 1200)); f = rng.uniform(-1, 1) * 0.3 * min(1, float(r)); ph = rng.uniform(0, 6)
    ctx.case(ratio=str(r), fold=fold, N=N, tone=f)
    t = np.arange(N); x = np.exp(2j * np.pi * f * t + 1j * ph)
    for call in ("poly", "rrcos"):
        y = rs.resample_poly(x, fold, fnew) if call == "poly" else rs.rrcos_resample(x, fold, fnew)
        L = -(-N * r.numerator // r.denominator)
        ctx.ok(y.size == L, "length %d instead of %d" % (y.size, L))
        k = np.arange(L); e = int(25 * max(1, float(r)) + 5)
        if L <= 3 * e: continue
        ctx.close(y[e:-e], np.exp(2j * np.pi * f * k / float(r) + 1j * ph)[e:-e], 0.03, "tone resampled by " + call)
        ctx.count("tones resampled")
    if r.denominator == 1 and r > 1:
        w = gen.cnoise(rng, 60)
        ctx.close(rs.resample_poly(w, fold, fnew)[::int(r)], w, 1e-2, "original samples"); ctx.count("interpolating kernels")
    for y in (rs.resample_poly(x + .5, fold, fnew, renormalise=True), rs.rrcos_resample(x + .5, fold, fnew, renormalise=True)): ctx.ok(abs(np.mean(abs(y) ** 2) - np.mean(abs(x + .5) ** 2)) < 1e-9 and abs(y.mean()) < 1e-9, "renormalised power and mean")
    win = np.array([0, .5, 1, .5, 0.]) if r == 2 else None
    if win is not None:      # linear interpolation
        w = gen.cnoise(rng, 30); y = rs.resample_poly(w, fold, fnew, window=win)
        ctx.close(y[::2], 2 * w if abs(y[0] - 2 * w[0]) < abs(y[0] - w[0]) else w, 1e-9, "window argument")
    ctx.nontrivial()


def fine(ctx, rng, i):
    """sampling rates with a ratio of large integers, as used to correct clock deviations: no drift along the signal"""
    k = i % 3
    if k == 0: d = int(gen.pick(rng, [250, 500, 1000, 2000])); r = Fraction(d + gen.pick(rng, [-3, -1, 1, 3, 7]), d)
    elif k == 1: r = Fraction(int(rng.integers(101, 1500)), int(rng.integers(101, 1500)))
    else: r = Fraction(int(rng.integers(150, 700)), 100) / Fraction(int(rng.integers(150, 700)), 100)
    if not Fraction(1, 3) < r < 3: r = 1 + Fraction(1, int(rng.integers(101, 900)))
    fold = float(gen.pick(rng, [1, 25e9, 28.05e9])); fnew = fold * r.numerator / r.denominator; N = int(rng.integers(1500, 4000)); f = rng.uniform(-1, 1) * .2 * min(1, float(r)); ph = rng.uniform(0, 6)
    ctx.case(ratio=str(r), fold=fold, N=N, tone=f); x = np.exp(2j * np.pi * f * np.arange(N) + 1j * ph); y = rs.resample_poly(x, fold, fnew); L = -(-N * r.numerator // r.denominator)
    ctx.ok(y.size == L, "resampled by %s: length %d instead of %d" % (r, y.size, L)); e = int(25 * max(1, float(r)) + 5)
    ctx.close(y[e:-e], np.exp(2j * np.pi * f * np.arange(L) / float(r) + 1j * ph)[e:-e], .03, "tone resampled by %s" % r); ctx.count("fine ratios")
    M = 40; x = gen.cnoise(rng, M); beta = rng.uniform(.05, 1); taps = int(gen.pick(rng, [2001, 6001])); y = rs.rrcos_resample(x, fold, fnew, beta=beta, taps=taps); z = np.zeros(M * r.numerator, complex); z[::r.numerator] = x
    from scipy.signal import fftconvolve
    h = ref_kernel(taps, r.numerator * fold, 1 / fold, beta); ref = fftconvolve(z, h)[(h.size - 1) // 2:][:z.size][::r.denominator]
    ctx.ok(y.size == ref.size, "rrcos_resample by %s: length %d instead of %d" % (r, y.size, ref.size)); ctx.close(y, ref, 1e-4 * max(1, abs(ref).max()), "rrcos_resample by %s" % r)
    s = signals.SignalQAMGrayCoded(4, 300, fb=fold, seed=1); q = s.resample(fnew, beta=beta, taps=taps); ctx.ok(q.shape == (1, -(-300 * r.numerator // r.denominator)) and abs(q.fs / fnew - 1) < 1e-12 and q.fb == s.fb, "signal resampled by %s: shape %s, fs %g of %g" % (r, q.shape, q.fs, fnew)); ctx.nontrivial()


def make(rng, dt, N=None):
    k = gen.pick(rng, ["qam", "qam", "psk", "pilots"])
    nm = gen.more(rng, int(rng.integers(1, 4))); fb = float(gen.pick(rng, [1, 25e9, 32e9])); N = N or int(rng.integers(500, 1500))
    if k == "qam": s = signals.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 32, 64]), N, nmodes=nm, fb=fb, dtype=dt)
    elif k == "psk": s = signals.SignalPSKGrayCoded(8, N, nmodes=nm, fb=fb, dtype=dt)
    else: s = signals.SignalWithPilots(gen.pick(rng, [4, 16]), 512, 64, 16, nframes=2, nmodes=nm, fb=fb, dtype=dt)
    return k, s


def roundtrip(ctx, rng, i):
    """up, back: the symbols return at the symbol instants with the known gain; rates, length and description follow"""
    dt = gen.pick(rng, gen.DT); k, s = make(rng, dt); fb = s.fb; nm, N = s.shape
    r = gen.pick(rng, [Fraction(2), Fraction(2), Fraction(3), Fraction(4), Fraction(3, 2), Fraction(5, 4), Fraction(8, 5)])
    beta = float(rng.uniform(0.05, 1)); fnew = fb * r.numerator / r.denominator
    ren = bool(rng.integers(2))
    ctx.case(cls=k, nmodes=nm, N=N, fb=fb, ratio=str(r), beta=beta, renormalise=ren, dtype=np.dtype(dt).name)
    b = gen.digest(s)
    u = s.resample(fnew, beta=beta, renormalise=ren)
    L = -(-N * r.numerator // r.denominator)
    ctx.ok(u.shape == (nm, L) and u.dtype == s.dtype and type(u) is type(s), "resampled: %s %s %s" % (type(u).__name__, u.shape, u.dtype))
    ctx.ok(u.fs == fnew and u.fb == fb and s.fs == fb, "rates %r %r" % (u.fs, u.fb))
    ctx.ok(abs(u.fs / u.fb - float(r)) < 1e-9 and (r.denominator > 1 or u.os == r), "oversampling %r" % u.os)
    z = np.zeros((nm, N * r.numerator), complex); z[:, ::r.numerator] = gen.raw(s)
    h = ref_kernel(4001, fb * r.numerator, 1 / fb, beta)
    ref = np.array([conv_same(m, h)[::r.denominator] for m in z])
    if ren: ref = np.array([norm(m, np.mean(abs(gen.raw(s)[j].astype(complex)) ** 2)) for j, m in enumerate(ref)])
    ctx.close(gen.raw(u), ref, 1e-4 * max(1, abs(ref).max()), "resampled signal")
    taps = int(gen.pick(rng, [301, 1001, 2501])); Ts = float(gen.pick(rng, [1, 1.25, .8])) / fb; conv = bool(rng.integers(2))
    v = s.resample(fnew, beta=beta, taps=taps, Ts=Ts, fftconv=conv) if rng.random() < .7 else signals.ResampledQAM.from_symbol_array(s, fnew, beta=beta, taps=taps, Ts=Ts, fftconv=conv)
    h = ref_kernel(taps, fb * r.numerator, Ts, beta); ref = np.array([conv_same(m, h)[::r.denominator] for m in z]) * (1 if conv else r.numerator); ctx.case(taps=taps, Ts=Ts * fb, fftconv=conv)
    ctx.ok(v.shape == (nm, L) and v.fs == fnew and v.fb == fb, "resampled with options: %s fs %r" % (v.shape, v.fs)); ctx.close(gen.raw(v), ref, 1e-4 * max(1, abs(ref).max()), "resampled signal, Ts and taps given")
    # on from a signal that is oversampled already, to any rate
    r2 = Fraction(gen.pick(rng, [3, 4, 5])) / gen.pick(rng, [1, 2]); g = r2 / r
    if g != 1 and g.numerator < 12 and u.shape[1] * g.numerator < 40000:
        fn2 = fb * r2.numerator / r2.denominator; k2 = dict(beta=beta, taps=taps, renormalise=ren); w = u.resample(fn2, **k2) if rng.random() < .5 else signals.ResampledQAM.from_symbol_array(u, fn2, **k2)
        z2 = np.zeros((nm, u.shape[1] * g.numerator), complex); z2[:, ::g.numerator] = gen.raw(u); h2 = ref_kernel(taps, u.fs * g.numerator, 1 / fb, beta)
        ref2 = np.array([conv_same(m, h2)[::g.denominator] for m in z2])
        if ren: ref2 = np.array([norm(m, np.mean(abs(gen.raw(u)[j].astype(complex)) ** 2)) for j, m in enumerate(ref2)])
        ctx.ok(w.shape == ref2.shape and w.fs == fn2 and w.fb == fb, "resampled again: %s fs %r fb %r" % (w.shape, w.fs, w.fb)); ctx.close(gen.raw(w), ref2, 1e-4 * max(1, abs(ref2).max()), "signal resampled again"); ctx.count("resampled again")
    d = u.resample(fb, beta=beta, renormalise=ren)
    ctx.ok(d.fs == fb and type(d) is type(s) and abs(d.shape[1] - N) <= 1 and d.shape[1] >= N, "resampled back: %s fs %r" % (d.shape, d.fs))
    ctx.eq(gen.raw(d.symbols), gen.raw(s.symbols), "transmitted symbols")
    ctx.ok(gen.digest(s) == b, "resampling altered its argument")
    ctx.count("resampled by reference")
    if (1 + beta) / 2 <= float(r) / 2:
        y, x = gen.raw(d).astype(complex)[:, :N], gen.raw(s).astype(complex)
        e = 60
        for m in range(nm):
            a, q = y[m, e:-e], x[m, e:-e]
            if ren:
                a = a - a.mean() + q.mean()
                ctx.ok(abs(np.mean(abs(y[m]) ** 2) / np.mean(abs(x[m]) ** 2) - 1) < 2e-2, "power")
                g = np.vdot(q, a) / np.vdot(q, q)
                ctx.ok(abs(g - 1) < 0.03, "gain %r after renormalisation" % g)
            else:
                g = float(r) / (1 + beta * (4 / np.pi - 1)) ** 2
            er = np.sqrt(np.mean(abs(a / g - q) ** 2) / np.mean(abs(q) ** 2))
            ctx.peak("round trip error", er)
            ctx.ok(er < 0.005, "symbols differ after resampling up and back: relative error %g" % er)
        ctx.count("round trips")
    if k == "pilots": ctx.count("pilot signals")
    q = s.resample(fb, beta=beta)
    ctx.eq(gen.raw(q), gen.raw(s), "resampling to the same rate"); ctx.count("equal rates")
    ctx.ok(not np.may_share_memory(q, s), "resampling to the same rate returns the same memory")
    w = s.resample(2 * fb)
    ctx.ok(w.fs == 2 * fb and w.shape == (nm, 2 * N), "resampling without roll-off")
    ctx.close(gen.raw(w)[:, ::2], gen.raw(s), 2e-2, "symbols at the symbol instants, resampling without roll-off")
    ctx.nontrivial()


def shaped(ctx, rng, i):
    """pulse shaping then matched filter through the signal interface; ResampledQAM"""
    dt = gen.pick(rng, gen.DT); fb = float(gen.pick(rng, [1, 25e9])); M = gen.pick(rng, [4, 16, 64]); nm = gen.more(rng, int(rng.integers(1, 4))); N = int(rng.integers(600, 1500))
    os = int(rng.integers(2, 5)); beta = float(rng.uniform(0.05, 1))
    ctx.case(M=M, fb=fb, nmodes=nm, N=N, os=os, beta=beta, dtype=np.dtype(dt).name)
    seed = int(rng.integers(2**31))
    s = signals.ResampledQAM(M, N, fb=fb, fs=os * fb, nmodes=nm, dtype=dt, resamplekwargs={"beta": beta}, seed=seed)
    ctx.ok(s.shape == (nm, N * os) and s.fs == os * fb and s.fb == fb and s.os == os and s.dtype == dt and s.symbols.shape == (nm, N), "ResampledQAM description")
    z = np.zeros((nm, N * os), complex); z[:, ::os] = gen.raw(s.symbols)
    ref = np.array([conv_same(m, ref_kernel(4001, os * fb, 1 / fb, beta)) for m in z])
    ctx.close(gen.raw(s), ref, 2e-4, "ResampledQAM samples")
    kw = {} if rng.random() < 0.6 else {"T": 1 / fb}
    y = filtering.rrcos_pulseshaping(s, beta, **kw)
    ctx.ok(type(y) is type(s) and y.shape == s.shape and y.fs == s.fs and y.dtype == s.dtype, "matched filter: description")
    g = os / (1 + beta * (4 / np.pi - 1)) ** 2
    e = 60
    a = gen.raw(y)[:, ::os][:, e:-e] / g; q = gen.raw(s.symbols)[:, e:-e]
    er = np.sqrt(np.mean(abs(a - q) ** 2)); ctx.peak("matched filter error", er)
    ctx.ok(er < 0.005, "shaped and matched filtered symbols differ by %g" % er)
    # a signal with a fraction of a sample per symbol: the pulse still has the duration of a symbol
    r = gen.pick(rng, [Fraction(3, 2), Fraction(5, 2), Fraction(5, 4), Fraction(8, 5)]); v = s.recreate_from_np_array(gen.raw(s)[:, :400].copy(), fs=fb * r.numerator / r.denominator); o = filtering.rrcos_pulseshaping(v, beta)
    ctx.close(gen.raw(o), np.array([conv_same(m.astype(complex), ref_kernel(1001, float(r), 1., beta)) for m in gen.raw(v)]), 1e-4 * max(1, abs(gen.raw(o)).max()), "matched filter at %s samples per symbol" % r); ctx.ok(o.fs == v.fs and o.fb == fb, "matched filter: rates"); ctx.count("fractional matched filters")
    ctx.count("matched filters"); ctx.nontrivial()


def H_of(f, fs, fc, ftype, order, analog):
    """magnitude of the documented response, None where only the cutoff is documented"""
    if ftype == "gauss": return np.exp(-np.log(2) * (2 * f / fc) ** 2)
    if ftype == "exp": return np.exp(-np.log(2) * abs(f) / fc)
    if ftype == "butter":
        q = f / fc if analog else np.tan(np.pi * f / fs) / np.tan(np.pi * fc / fs)
        return 1 / np.sqrt(1 + q ** (2 * order))
    return 1 / np.sqrt(2) if f == fc else 1. if f == 0 else None


def foh(A, B, C, D, u):
    """response from rest to the straight lines between the samples u (spacing 1)"""
    n = A.shape[0]; Z = np.zeros((n + 2, n + 2)); Z[:n, :n] = A; Z[:n, n:n + 1] = B; Z[n, n + 1] = 1; E = expm(Z); P, G1, G2 = E[:n, :n], E[:n, n], E[:n, n + 1]; x = np.zeros(n, complex); r = np.empty(u.size, complex)
    for k in range(u.size):
        r[k] = (C @ x)[0] + D[0, 0] * u[k]
        if k + 1 < u.size: x = P @ x + G1 * u[k] + G2 * (u[k + 1] - u[k])
    return r


def filters(ctx, rng, i):
    ftype = ["bessel", "butter", "gauss", "exp"][i % 4]; analog = ftype in ("bessel", "butter") and rng.random() < 0.4
    order = int(rng.integers(1, 5)); fs = float(gen.pick(rng, [2., 50e9])); fc = fs * rng.uniform(0.05, 0.2) * (0.3 if analog else 1)
    nm = gen.more(rng, int(rng.integers(1, 5))); N = int(gen.pick(rng, [1024, 999, 1500, int(rng.integers(800, 1500))])); dt = gen.pick(rng, gen.DT)
    tol = 3e-4 if dt is np.complex64 else 1e-7
    if dt is np.complex64 and ftype in ("bessel", "butter") and not analog: tol *= 10 ** (order / 2.)   # the recursion is computed in the precision of the signal
    ctx.case(ftype=ftype, analog=analog, order=order, nmodes=nm, N=N, dtype=np.dtype(dt).name, fc_per_fs=fc / fs)
    f = lambda x: cf.filter_signal(x, fs, fc, ftype=ftype, order=order, analog=analog)
    x, w = gen.cnoise(rng, (nm, N)).astype(dt), gen.cnoise(rng, (nm, N)).astype(dt)
    b = gen.digest(x)
    y = f(x)
    ctx.ok(gen.digest(x) == b, "the filter altered its argument")
    ctx.ok(y.shape == x.shape and y.dtype == dt, "filter: %s %s" % (y.shape, y.dtype))
    for m in range(nm):
        o = f(x[m]); ctx.ok(o.shape == (N,), "1D filter shape %s" % (o.shape,))
        ctx.close(y[m], o, tol, "mode %d filtered with the others or alone" % m)
    p = rng.permutation(nm)
    ctx.close(f(np.ascontiguousarray(x[p])), y[p], tol, "filtering permuted modes")
    c = np.array(rng.standard_normal() + 1j * rng.standard_normal(), dt)
    ctx.close(f(x + c * w), y + c * f(w), 10 * tol * (1 + abs(c)), "linearity")
    if ftype in ("bessel", "butter"):      # the design itself, held between the samples by straight lines when it is analog
        d = dict(norm="mag") if ftype == "bessel" else {}; D = ss.bessel if ftype == "bessel" else ss.butter; n = int(rng.integers(30, N)); u = x[0, :n].astype(complex); one = f(x[:1, :n])[0]
        if analog: r = foh(*ss.tf2ss(*D(order, 2 * np.pi * fc / fs, "low", analog=True, **d)), u)
        else: r = ss.sosfilt(D(order, fc, "low", fs=fs, output="sos", **d), u)
        ctx.close(one, r, tol * 30 * (1 + abs(r).max()), "%s filter against its design" % ftype); ctx.count("filter designs")
    # tones at DC, cutoff and elsewhere
    M = 4096 if not analog else 8192
    for k in (0, 1, 2):
        fr = [0., fc, rng.uniform(0.3, 1.7) * fc][k]
        if ftype in ("gauss", "exp"): fr = round(fr / fs * M) * fs / M
        h = H_of(fr, fs, fc, ftype, order, analog)
        if h is None: continue
        t = np.exp(2j * np.pi * fr / fs * np.arange(M)).reshape(1, -1)
        o = f(t)[0, M // 2:M // 2 + M // 4]
        ctx.close(abs(o), np.full(o.size, h), 0.02 if not analog else 0.05, "tone at %.3g of the cutoff frequency through %s" % (fr / fc, ftype))
        q = o * np.conj(t[0, M // 2:M // 2 + M // 4])
        ctx.ok(np.std(q) < 0.02, "a tone does not stay a tone")
        if ftype in ("gauss", "exp"): ctx.close(q, np.full(q.size, h), 1e-6, "zero-phase filter")
        ctx.count("filter tones")
    if ftype in ("gauss", "exp"):       # an impulse stays where it is, for even and odd lengths
        j = int(rng.integers(N)); d = np.zeros((nm, N), complex); d[:, j] = 1
        o = f(d); ctx.ok(np.all(abs(o).argmax(1) == j), "impulse moved"); ctx.close(o.imag, 0 * o.imag, 1e-6, "impulse response is real")
    s = signals.SignalQAMGrayCoded(16, N, nmodes=nm, fb=fs, dtype=dt)
    o = filtering.filter_signal_analog(s, fc, ftype=ftype, order=order) if analog else filtering.filter_signal(s, fc, ftype=ftype, order=order)
    ctx.ok(type(o) is type(s) and o.fs == s.fs, "filter_signal: description")
    ctx.close(gen.raw(o), f(gen.raw(s)), tol, "filter_signal of a signal object")
    ctx.count("filters"); ctx.nontrivial()


def prefilter(ctx, rng, i):
    nm = gen.more(rng, int(rng.integers(1, 4))); N = int(rng.integers(20, 2000)); dt = gen.pick(rng, gen.DT); bw = float(gen.pick(rng, [0.01, 0.5, 0, rng.uniform(0, 0.9)]))
    ctx.case(nmodes=nm, N=N, bw=bw, dtype=np.dtype(dt).name)
    x = gen.cnoise(rng, (nm, N)).astype(dt)
    n = int(N * bw / 2)
    tol = 1e-4 if dt is np.complex64 else 1e-10
    X = np.fft.fftshift(np.fft.fft(x, axis=1), axes=1)
    for y, m in ((cf.pre_filter(x, bw), slice(None)), (cf.pre_filter(x[0], bw), 0)):
        ctx.ok(y.shape == x[m].shape and y.dtype == dt, "pre_filter: %s %s" % (y.shape, y.dtype))
        Y = np.fft.fftshift(np.fft.fft(np.atleast_2d(y), axis=1), axes=1); Xm = np.atleast_2d(X[m])
        ctx.close(Y[:, n + 1:N - n - 1], Xm[:, n + 1:N - n - 1], tol * N, "passed spectrum")
        k = max(0, n - 1)
        ctx.close(Y[:, :k], 0 * Y[:, :k], tol * N, "rejected spectrum"); ctx.close(Y[:, N - k:], 0 * Y[:, N - k:], tol * N, "rejected spectrum")
    s = signals.SignalQAMGrayCoded(4, N, nmodes=nm, dtype=dt, fb=gen.pick(rng, [1, 20e9]))
    if rng.random() < .6 and N > 60: s = s.resample(gen.pick(rng, [2, 1.5, 4]) * s.fb, beta=.2, taps=51); ctx.case(os=float(s.os))
    ctx.close(gen.raw(filtering.pre_filter(s, bw)), cf.pre_filter(gen.raw(s), bw), tol, "pre_filter of a signal object")
    os = float(gen.pick(rng, [2, 1, 1.5, 4, 25e9])); z = x[0]; b, c = rng.uniform(0.1, 1) * os / 2, rng.uniform(-.3, .3) * os / 2
    if rng.random() < .3: c = 0; y = cf.pre_filter_wdm(z, b, os)
    else: y = cf.pre_filter_wdm(z, b, os, c)
    k = np.arange(N); fr = np.where(k < (N + 1) // 2, k, k - N) * os / N
    if np.any(abs(abs(fr - c) - b / 2) < 1e-9 * os): raise Skip
    ctx.close(np.fft.fft(y), np.fft.fft(z) * (abs(fr - c) < b / 2), tol * N, "pre_filter_wdm")
    ctx.count("pre filters")
    if bw: ctx.nontrivial()


SCENARIOS = [("fine", fine, 40, 600), ("special", special, 120, 2000), ("shaping", shaping, 200, 2000), ("core_resample", core_resample, 300, 4000), ("interpolating", interpolating, 100, 1500),
             ("roundtrip", roundtrip, 120, 1500), ("shaped", shaped, 60, 800), ("filters", filters, 200, 3000), ("prefilter", prefilter, 150, 2000)]

"""C29 noise loading: the added noise itself (output minus input) is watched."""
import numpy as np
import gen
from qampy import signals, impairments
from qampy.core import impairments as ci, resample as cr

RULE = ("change_snr and add_awgn (array and signal form, and through simulate_transmission) on QAM, shaped and oversampled signals, tones and constants of any power, 1-4 modes or 1-d, both precisions, "
        "any symbol rate and oversampling, -20..60 dB; the noise is output minus input and is tested for power per mode and quadrature, mean, circularity, whiteness (correlation at every lag, band powers), "
        "independence between modes and of the signal at every lag, Gaussian shape, freshness between calls and reproducibility from numpy's seed, all at 7 sigma; non-trivial: noise above the rounding of the dtype")
REQUIRED = ["noise samples", "modes", "oversampled", "single precision", "mode pairs", "fresh noises", "seeded", "snr estimates", "signals", "one dimensional", "unequal modes", "transmissions", "strengths", "in-band"]


def noise_stats(ctx, n, sg, x, what="noise"):
    """n (modes, N) is circular white Gaussian with standard deviation sg in every mode"""
    nm, N = n.shape; d = lambda v: 7 / np.sqrt(N) * v; ctx.count("noise samples", n.size); ctx.count("modes", nm)
    z = n / sg; F = np.fft.fft(z, axis=1); ctx.peak("power deviation in sigma", np.max(abs(np.mean(abs(z) ** 2, axis=1) - 1)) * np.sqrt(N))
    for m in range(nm):
        v = z[m]; ctx.close([2 * np.mean(v.real ** 2), 2 * np.mean(v.imag ** 2)], [1, 1], d(np.sqrt(2)), what + " power per quadrature of mode %d" % m); ctx.close(np.mean(abs(v) ** 2), 1, d(1), what + " power of mode %d" % m)
        ctx.close(v.mean(), 0, d(1), what + " mean"); ctx.close(np.mean(v ** 2), 0, d(np.sqrt(2)), what + " circularity"); ctx.close(np.mean(v.real * v.imag) * 2, 0, d(1), what + " quadratures correlated")
        for q in (v.real, v.imag): ctx.close(np.mean(q ** 4) / np.mean(q ** 2) ** 2, 3, d(np.sqrt(24)) + 300 / N, what + " kurtosis"); ctx.close(np.mean(q ** 3) * 2 ** 1.5, 0, d(np.sqrt(15)), what + " skew")
        u = np.sort(v.real); from_cdf = .5 * (1 + erf(u)); k = np.max(abs(from_cdf - (np.arange(N) + .5) / N)) * np.sqrt(N); ctx.ok(k < 3.4, what + " distribution: %g" % k)
        r = np.fft.ifft(abs(F[m]) ** 2) / N; c = np.fft.ifft(F[m] * F[m][(-np.arange(N)) % N].conj().conj()) / N
        ctx.close(r[1:], np.zeros(N - 1), d(1.45), what + " correlated with itself"); ctx.close(np.fft.ifft(np.fft.fft(v) ** 2) / N, np.zeros(N), d(1.45), what + " mirrored")
        B = min(16, max(1, N // 64)); P = np.array([np.mean(abs(b) ** 2) for b in np.array_split(F[m], B)]) / N; ctx.ok(np.all(abs(P - 1) < 7 / np.sqrt(N / B) + 30 * B / N), what + " spectrum %s" % P)
        for l in range(m):
            ctx.close(np.fft.ifft(F[m] * F[l].conj()) / N, np.zeros(N), d(1.2), what + " of modes %d and %d correlated" % (l, m)); ctx.close(np.mean(z[m] * z[l]), 0, d(1.2), what + " of modes conjugate correlated"); ctx.count("mode pairs")
        if x is not None:
            p = np.sqrt(np.mean(abs(x[m]) ** 2)); X = np.fft.fft(x[m] / (p or 1)); ctx.close(np.fft.ifft(F[m] * X.conj()) / N, np.zeros(N), d(1.2), what + " correlated with the signal")
            # power must not follow the signal either
            a = abs(x[m]) ** 2 / (p * p or 1); a = a - a.mean(); s = np.sqrt(np.mean(a ** 2))
            if s > 1e-6: ctx.close(np.mean(a / s * (abs(v) ** 2 - 1)), 0, d(1.2) + 20 / N * np.max(abs(a / s)), what + " power follows the signal")


from scipy.special import erf  # noqa: E402


def make(ctx, rng):
    nm = gen.more(rng, gen.pick(rng, [1, 2, 3, 4])); N = gen.loguniform(rng, 2**11, 2**14); dt = gen.pick(rng, gen.DT); fb = float(gen.pick(rng, [1, 10e9, 28e9])); M = gen.pick(rng, gen.QAM)
    kind = gen.pick(rng, ["symbols", "symbols", "shaped", "tone", "constant", "gain"])
    s = signals.SignalQAMGrayCoded(M, N, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31))); os = 1.
    if kind == "shaped": os = float(gen.pick(rng, [1, 2, 2, 4])); s = s.resample(os * fb, beta=float(rng.uniform(.05, .5)), renormalise=bool(rng.integers(2)))
    if kind in ("tone", "constant", "gain"):
        fs = fb * float(gen.pick(rng, [1, 1.5, 2, 8, float(rng.uniform(1, 10))])); os = fs / fb; k = float(10 ** rng.uniform(-3, 3)) * (rng.uniform(.2, 3, (nm, 1)) if rng.random() < .4 else np.ones((nm, 1)))
        v = gen.raw(s) if kind == "gain" else np.exp(2j * np.pi * .037 * np.arange(N)) * np.ones((nm, 1)) if kind == "tone" else np.ones((nm, N))
        s = s.recreate_from_np_array((v * k).astype(dt), fs=fs)
        if np.ptp(k) > 0: ctx.count("unequal modes")
    if os > 1: ctx.count("oversampled")
    if dt is np.complex64: ctx.count("single precision")
    ctx.case(kind=kind, M=M, nmodes=nm, N=s.shape[1], fb=fb, os=os, dtype=np.dtype(dt).name)
    return s, os


def load(ctx, rng, i):
    s, os = make(ctx, rng); dt = s.dtype; x = gen.raw(s); P = np.mean(abs(x.astype(complex)) ** 2); h = gen.digest(s)
    db = float(rng.uniform(-20, 60 if dt == np.complex128 else 35)); db = int(db) if rng.random() < .2 else gen.pick(rng, [0, 0.]) if rng.random() < .08 else db; form = gen.pick(rng, ["signal", "array", "1d", "transmission", "core transmission"]); ctx.case(snr=db, form=form); seed = int(rng.integers(2**31))
    sg = np.sqrt(P * os) * 10 ** (-db / 20); rng_form = rng.random() < .5
    def go(seed=None):
        if seed is not None: np.random.seed(seed)
        if form == "signal": return impairments.change_snr(s, db)
        if form == "transmission": return impairments.simulate_transmission(s, snr=db)
        if form == "core transmission": return gen.raw(ci.simulate_transmission(s if rng_form else x, s.fb, s.fs, snr=db))
        if form == "array": return ci.change_snr(x, db, s.fb, s.fs)
        return ci.change_snr(x[0], db, s.fb, s.fs)
    if form == "1d": P = np.mean(abs(x[0].astype(complex)) ** 2); sg = np.sqrt(P * os) * 10 ** (-db / 20); ctx.count("one dimensional")
    y, y2 = go(), go(); y3, y4 = go(seed), go(seed)
    ctx.ok(gen.digest(s) == h, "the signal was altered"); ref = x[0] if form == "1d" else x
    for v in (y, y2, y3): ctx.ok(v.shape == ref.shape and v.dtype == dt, "%s %s for %s %s" % (v.shape, v.dtype, ref.shape, dt))
    if form in ("signal", "transmission"):
        ctx.ok(type(y) is type(s) and y.fs == s.fs and y.fb == s.fb and y.M == s.M, "description of the noisy signal"); ctx.eq(np.array(y.symbols), np.array(s.symbols), "transmitted symbols"); ctx.count("signals")
        if form == "transmission": ctx.count("transmissions")
    ctx.eq(np.asarray(y3), np.asarray(y4), "noise with the same seed"); ctx.count("seeded")
    f = lambda v: np.atleast_2d(gen.raw(v).astype(complex) - ref); a, b = f(y), f(y2)
    # the property holds up to the rounding of the sum in single precision
    if sg < 300 * np.finfo(dt).eps * abs(x).max(): return
    noise_stats(ctx, a, sg, np.atleast_2d(ref).astype(complex))
    N = a.shape[1]
    for m in range(a.shape[0]): ctx.close(np.mean(a[m] * b[m].conj()) / sg ** 2, 0, 7 / np.sqrt(N), "noise of two calls correlated"); ctx.count("fresh noises")
    c = f(y3); ctx.close(np.mean(a * c.conj()) / sg ** 2, 0, 7 / np.sqrt(a.size), "noise of two calls correlated")
    if os >= 1.2:                                        # what a receiver filter of one symbol-rate bandwidth leaves
        F = np.fft.fft(a, axis=1); k = int(round(N / os / 2)); k = max(k, 1); B = 2 * k + 1; inb = np.concatenate([F[:, :k + 1], F[:, -k:]], axis=1); p = np.sum(abs(inb) ** 2, axis=1) / N ** 2
        w = P * 10 ** (-db / 10) * (B / (N / os)); ctx.ok(np.all(abs(p / w - 1) < 7 / np.sqrt(B)), "in-band noise %s for %s" % (p, w)); ctx.count("in-band")
    ctx.nontrivial()


def strength(ctx, rng, i):
    nd = gen.pick(rng, [1, 2, 2]); shp = (gen.loguniform(rng, 2**11, 2**13),) if nd == 1 else (gen.pick(rng, [1, 2, 3]), gen.loguniform(rng, 2**11, 2**13)); dt = gen.pick(rng, gen.DT)
    x = (gen.cnoise(rng, shp) * gen.pick(rng, [0, 1e-3, 1, 1e3])).astype(dt); st = float(10 ** rng.uniform(-4, 3)); ctx.case(shape=shp, dtype=np.dtype(dt).name, strength=st); h = gen.digest(x)
    sd = int(rng.integers(2**31)); np.random.seed(sd); y = ci.add_awgn(x, st); ctx.ok(gen.digest(x) == h and y.dtype == dt and y.shape == x.shape, "argument or type")
    n = np.atleast_2d(y.astype(complex) - x)
    if st > 300 * np.finfo(dt).eps * abs(x).max(): noise_stats(ctx, n, st, np.atleast_2d(x).astype(complex)); ctx.count("strengths"); ctx.nontrivial()
    np.random.seed(sd); k = float(rng.uniform(.1, 10)); z = np.atleast_2d(ci.add_awgn(x, k * st).astype(complex) - x); ctx.close(z / st, n / st * k, 50 * np.finfo(dt).eps * (abs(x).max() / st + 5) * max(k, 1) * 10, "noise is not proportional to its strength")
    if nd == 1: ctx.count("one dimensional")


def estimate(ctx, rng, i):
    """the library's own measures see the SNR that was asked for"""
    M = gen.pick(rng, [4, 16, 64, 8, 32]); nm = gen.more(rng, gen.pick(rng, [1, 2, 3])); N = gen.loguniform(rng, 2**12, 2**14); dt = gen.pick(rng, gen.DT); fb = float(gen.pick(rng, [1, 25e9])); db = float(rng.uniform(5, 30))
    s = signals.SignalQAMGrayCoded(M, N, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31))); ctx.case(M=M, nmodes=nm, N=N, snr=db, dtype=np.dtype(dt).name)
    r = impairments.change_snr(s, db); P = np.mean(abs(gen.raw(s)) ** 2, axis=1).astype(float); w = 10 ** (db / 10) * P / P.mean()
    ctx.close(10 * np.log10(r.est_snr(synced=True) / w), np.zeros(nm), 10 / np.log(10) * 8 / np.sqrt(N) * 1.3 + 8 * np.sqrt(1 / N) * 2, "estimated SNR in dB"); ctx.close(r.cal_evm(synced=True), np.sqrt(P.mean() / 10 ** (db / 10) ) * np.ones(nm), 8 * 10 ** (-db / 20) / np.sqrt(N), "EVM")
    # oversampled, shaped and matched filtered
    beta = float(rng.uniform(.05, .5)); os = int(gen.pick(rng, [2, 4])); t = s.resample(os * fb, beta=beta, renormalise=True); y = impairments.change_snr(t, db); z = gen.raw(y - t)
    F = np.fft.fft(z.astype(complex), axis=1); f = np.fft.fftfreq(z.shape[1], 1 / os); k = abs(f) < .5; p = np.sum(abs(F[:, k]) ** 2, axis=1) / z.shape[1] ** 2
    e = np.mean(abs(gen.raw(t)) ** 2) * 10 ** (-db / 10); ctx.ok(np.all(abs(p / e - 1) < 8 / np.sqrt(N)), "noise in the symbol-rate band %s for %s" % (p, e)); ctx.count("snr estimates", nm); ctx.nontrivial()


SCENARIOS = [("load", load, 300, 6000), ("strength", strength, 150, 3000), ("estimate", estimate, 80, 1500)]

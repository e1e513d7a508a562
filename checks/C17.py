"""C17 lossless impairments: independent reference transforms, energy conservation, inversion and exact amounts."""
import numpy as np
import gen
from vp import Skip
from qampy import impairments, signals
from qampy.core import impairments as ci
from qampy.core.equalisation import equalisation as ceq

RULE = ("random signals (format, 1-8 modes, even and odd lengths 2..4096, both precisions, sampling rates 1..1e11, signal objects and plain arrays, "
        "1D where accepted) x random parameters of every lossless impairment; the oracle recomputes the output with its own transform in double "
        "precision, checks the energy, and undoes the impairment; non-trivial: parameters that change the signal")
REQUIRED = ["rotations", "pmd", "pmd exact delays", "pmd of odd length", "rolled frames", "phase noise", "carrier offsets", "dispersion", "modal delays", "combinations", "CDcomp", "block CDcomp"]
C0 = 2.99792458e8


def sig(ctx, rng, nm=None, nmin=2, nmax=4096, obj=None):
    nm = nm or gen.more(rng, int(rng.integers(1, 5))); N = gen.loguniform(rng, nmin, nmax); dt = gen.pick(rng, gen.DT)
    obj = rng.random() < 0.6 if obj is None else obj
    fs = gen.pick(rng, [1, 2., 10e9, 50e9, 1e11])
    if obj:
        s = signals.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 64]), N, nmodes=nm, dtype=dt, fb=fs, seed=int(rng.integers(2**31)))
        if rng.random() < 0.5:
            s = s + np.asarray(gen.cnoise(rng, s.shape, 0.3)).astype(dt)
    else:
        s = gen.cnoise(rng, (nm, N), 1).astype(dt)
    # unequal powers make exchanged modes visible
    s = s * np.asarray(rng.uniform(0.3, 2, (nm, 1))).astype(s.real.dtype)
    assert s.dtype == dt
    ctx.case(nmodes=nm, N=N, dtype=np.dtype(dt).name, signal=obj, fs=fs)
    return s, gen.raw(s).astype(complex), fs, (3e-5 if dt is np.complex64 else 1e-10)


def energy(ctx, a, b, tol, axis=None, what=""):
    ea, eb = np.sum(abs(a) ** 2, axis=axis), np.sum(abs(b) ** 2, axis=axis)
    ctx.close(eb / np.maximum(ea, 1e-300), np.ones_like(ea), 20 * tol, what + " energy ratio")


def checkout(ctx, s, y, ref, tol, what):
    ctx.ok(y.dtype == s.dtype, "%s changed the dtype to %s" % (what, y.dtype))
    if hasattr(s, "fb"):
        ctx.ok(type(y) is type(s) and y.fs == s.fs and y.fb == s.fb, what + ": type or rates changed")
    ctx.close(gen.raw(y), ref, tol * max(1, abs(ref).max()), what)


def rotation(ctx, rng, i):
    s, x, fs, tol = sig(ctx, rng, 2)
    th = float(gen.pick(rng, [0, np.pi / 4, np.pi / 2, np.pi, rng.uniform(-7, 7)])); ctx.case(theta=th)
    y = impairments.rotate_field(s, th)
    c, z = np.cos(th), np.sin(th)
    checkout(ctx, s, y, np.array([c * x[0] - z * x[1], z * x[0] + c * x[1]]), tol, "rotate_field")
    energy(ctx, x, gen.raw(y), tol, what="rotate_field")
    ctx.close(gen.raw(impairments.rotate_field(y, -th)), x, tol * 10, "rotation undone")
    p = rng.uniform(-3, 3)
    ctx.close(gen.raw(impairments.rotate_field(y, p)), gen.raw(impairments.rotate_field(s, th + p)), tol * 10, "consecutive rotations")
    ctx.count("rotations")
    if th: ctx.nontrivial()


def pmd(ctx, rng, i):
    s, x, fs, tol = sig(ctx, rng, 2)
    N = x.shape[1]
    th = float(gen.pick(rng, [0, np.pi / 4, np.pi / 2, rng.uniform(-4, 4), rng.uniform(-4, 4)]))
    whole = i % 3 == 0
    dgd = 2 * int(rng.integers(-5, 6)) / fs if whole else rng.uniform(-20, 20) / fs
    ctx.case(theta=th, dgd_samples=dgd * fs)
    y = impairments.apply_PMD(s, th, dgd) if hasattr(s, "fs") else ci.apply_PMD_to_field(s, th, dgd, fs)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    r = R @ x
    if whole:   # exact opposite cyclic shifts of the principal states, dgd/2 each
        k = int(round(dgd * fs / 2))
        q = np.array([np.roll(r[0], k), np.roll(r[1], -k)])
        ctx.count("pmd exact delays")
    else:
        w = 2 * np.pi * np.fft.fftfreq(N, 1 / fs)
        q = np.fft.ifft(np.fft.fft(r, axis=1) * np.exp(np.array([[-.5j], [.5j]]) * w * dgd), axis=1)
    checkout(ctx, s, y, R.T @ q, 10 * tol, "PMD")
    if N % 2: ctx.count("pmd of odd length")
    energy(ctx, x, gen.raw(y), tol, what="PMD")
    u = impairments.apply_PMD(y, th, -dgd) if hasattr(s, "fs") else ci.apply_PMD_to_field(y, th, -dgd, fs)
    ctx.close(gen.raw(u), x, tol * 20, "PMD undone")
    w = 2 * np.pi * rng.uniform(-fs, fs, 7)
    H, h3 = ci.H_PMD(th, dgd, w)
    for k in range(7):
        ref = R @ np.diag([np.exp(-.5j * w[k] * dgd), np.exp(.5j * w[k] * dgd)])
        ctx.close(H[:, :, k], ref, 1e-9, "H_PMD"); ctx.close(h3, R.T, 1e-12, "H_PMD inverse rotation")
    ctx.count("pmd")
    if dgd and th: ctx.nontrivial()


def phase(ctx, rng, i):
    s, x, fs, tol = sig(ctx, rng, nmin=20, nmax=30000)
    if not hasattr(s, "fs") and rng.random() < 0.3:
        s, x = s[0], x[0]
    # the phase is read from samples that are not too small
    var = np.exp(rng.uniform(np.log(1e-6), np.log(0.05))); df = var * fs / (2 * np.pi)
    ctx.case(linewidth_per_fs=df / fs, ndim=x.ndim)
    f = lambda: impairments.apply_phase_noise(s, df) if hasattr(s, "fs") else ci.apply_phase_noise(s, df, fs)
    y = f()
    ctx.ok(y.dtype == s.dtype and y.shape == s.shape, "phase noise changed dtype or shape")
    ctx.close(abs(gen.raw(y)), abs(x), tol * max(1, abs(x).max()), "magnitudes under phase noise")
    r = lambda y: np.atleast_2d(np.angle(gen.raw(y).astype(complex) / np.where(x == 0, 1, x)))
    p = r(y)
    d = (np.diff(p, axis=1) + np.pi) % (2 * np.pi) - np.pi
    n = d.shape[1]
    noise = 20 * (1e-6 if s.dtype == np.complex64 else 1e-13)   # rounding of the phase itself
    for m in range(p.shape[0]):
        v = np.mean(d[m] ** 2)
        ctx.ok(abs(v - var) < 7 * var * np.sqrt(2 / n) + noise ** 2 + 2 * noise * np.sqrt(var), "phase increments have variance %g instead of %g" % (v, var))
        ctx.ok(abs(d[m].mean()) < 7 * np.sqrt(var / n) + noise, "phase increments have mean %g" % d[m].mean())
        if n > 200 and var > 1e-9:
            c = np.mean(d[m][1:] * d[m][:-1]) / var
            ctx.ok(abs(c) < 7 / np.sqrt(n) + noise / np.sqrt(var), "phase increments are correlated (%g)" % c)
            for k in range(m):
                c = np.mean(d[m] * d[k]) / var
                ctx.ok(abs(c) < 7 / np.sqrt(n) + noise / np.sqrt(var), "phase noise of two modes is correlated (%g)" % c)
    ctx.ok(abs(p[:, 0]).max() < 7 * np.sqrt(var) + noise, "phase noise does not start at zero")
    p2 = r(f())
    if n > 50:
        ctx.ok(abs(p - p2).max() > 1e-5, "repeated calls give the same phase noise")
    ph = ci.phase_noise((3, 50), df, fs)
    ctx.ok(ph.shape == (3, 50) and np.isrealobj(ph) and ci.phase_noise(50, df, fs).shape == (50,) and ci.phase_noise((1, 50), df, fs).shape == (1, 50), "phase_noise shape")
    z = impairments.apply_phase_noise(s, 0) if hasattr(s, "fs") else ci.apply_phase_noise(s, 0, fs)
    ctx.close(gen.raw(z), x, tol, "phase noise of zero linewidth")
    ctx.count("phase noise"); ctx.nontrivial()


def offset(ctx, rng, i):
    s, x, fs, tol = sig(ctx, rng)
    if not hasattr(s, "fs") and rng.random() < 0.4:
        s, x = s[0], x[0]
    fo = float(gen.pick(rng, [0, fs / 8, -fs / 2, rng.uniform(-.5, .5) * fs, rng.uniform(-1e-3, 1e-3) * fs])); ctx.case(fo_per_fs=fo / fs, ndim=x.ndim)
    f = lambda s, fo: impairments.add_carrier_offset(s, fo) if hasattr(s, "fs") else ci.add_carrier_offset(s, fo, fs)
    y = f(s, fo)
    N = x.shape[-1]
    t = tol + (N * 2 * np.pi * abs(fo) / fs * 1e-6 if s.dtype == np.complex64 else 0) + N * 1e-14
    checkout(ctx, s, y, x * np.exp(2j * np.pi * fo / fs * np.arange(N)), t, "carrier offset")
    energy(ctx, x, gen.raw(y), tol, axis=-1, what="carrier offset")
    ctx.close(gen.raw(f(y, -fo)), x, 10 * tol * abs(x).max(), "carrier offset undone")
    ctx.count("carrier offsets")
    if fo: ctx.nontrivial()


def beta2(D, wl):
    return D * wl ** 2 / (2 * np.pi * C0)


def disp_ref(x, fs, D, L, wl):
    w = 2 * np.pi * np.fft.fftfreq(x.shape[-1], 1 / fs)
    return np.fft.ifft(np.fft.fft(x, axis=-1) * np.exp(-.5j * w ** 2 * beta2(D, wl) * L), axis=-1)


def dispersion(ctx, rng, i):
    s, x, fs, tol = sig(ctx, rng)
    wl = gen.pick(rng, [1550e-9, 1300e-9])
    L = float(gen.pick(rng, [1e3, 8e4, 1.]))
    spread = rng.uniform(-30, 30)        # phase at the band edge
    D = spread / (0.5 * (np.pi * fs) ** 2 * beta2(1, wl) * L)
    ctx.case(edge_phase=spread, wl=wl)
    f = lambda s, D, L: impairments.add_dispersion(s, D, L, wl0=wl) if hasattr(s, "fs") else ci.add_dispersion(s, fs, D, L, wl0=wl)
    y = f(s, D, L)
    t = 20 * tol
    checkout(ctx, s, y, disp_ref(x, fs, D, L, wl), t, "dispersion")
    energy(ctx, x, gen.raw(y), tol, axis=-1, what="dispersion")
    ctx.close(gen.raw(f(y, -D, L)), x, 10 * t, "dispersion undone by negative D")
    ctx.close(gen.raw(f(y, D, -L)), x, 10 * t, "dispersion undone by negative length")
    ctx.close(gen.raw(f(f(s, D, L / 3), D, L * 2 / 3)), gen.raw(y), 20 * t, "dispersion of two pieces")
    if wl == 1550e-9:
        z = impairments.add_dispersion(s, D, L) if hasattr(s, "fs") else ci.add_dispersion(s, fs, D, L)
        ctx.close(gen.raw(z), gen.raw(y), t, "dispersion with the default wavelength")
    # compensation
    m = int(rng.integers(x.shape[0]))
    v = gen.raw(y)[m].astype(complex); c, H = ceq.CDcomp(v if rng.random() < .7 else v[None], fs, 0, L, D, wl)
    ctx.close(c, x[m], 20 * t, "dispersion compensated by CDcomp")
    ctx.count("CDcomp")
    nb = int(gen.pick(rng, [128, 256]))
    N = (int(rng.integers(2, 6)) if rng.random() < .8 else gen.loguniform(rng, 6, 200)) * nb
    sp = rng.uniform(-1, 1) * 3          # impulse response much shorter than the zero padding
    D2 = sp / (0.5 * (np.pi * fs) ** 2 * beta2(1, wl) * L)
    X = np.fft.fft(gen.cnoise(rng, N)); X[abs(np.fft.fftfreq(N)) > 0.3] = 0; z = np.fft.ifft(X)
    c, H = ceq.CDcomp(disp_ref(z, fs, D2, L, wl), fs, nb, L, D2, wl)
    k = nb // 2
    e = c[k:N - k] - z[k:N - k]
    ctx.ok(c.size == N and np.sqrt(np.mean(abs(e) ** 2)) < 0.03 * np.sqrt(np.mean(abs(z) ** 2)), "block-wise CDcomp: error %g" % np.sqrt(np.mean(abs(e) ** 2)))
    ctx.count("block CDcomp"); ctx.count("dispersion"); ctx.nontrivial()


def modal(ctx, rng, i):
    s, x, fs, tol = sig(ctx, rng)
    nm, N = x.shape
    d = [int(gen.pick(rng, [0, 1, -1, N, N - 1, N // 2, int(rng.integers(-2 * N, 2 * N + 1))])) for _ in range(nm)]
    ctx.case(delays=d)
    y = impairments.add_modal_delay(s, d if rng.random() < 0.5 else np.array(d))
    ctx.eq(gen.raw(y), np.array([np.roll(gen.raw(s)[m], d[m]) for m in range(nm)]), "modal delay")
    checkout(ctx, s, y, gen.raw(y).astype(complex), tol, "modal delay")
    ctx.eq(gen.raw(impairments.add_modal_delay(y, [-v for v in d])), gen.raw(s), "modal delay undone")
    ctx.count("modal delays")
    if len(set(v % N for v in d)) > 1: ctx.nontrivial()


def combos(ctx, rng, i):
    """simulate_transmission applies each requested impairment with the stated amount, and nothing else"""
    s, x, fs, tol = sig(ctx, rng, 2, nmin=16, obj=True)
    if x.shape[1] % 2: raise Skip
    N = x.shape[1]
    kw, core = {}, {}
    pn = rng.random() < 0.3
    use = {k: rng.random() < 0.5 for k in ("freq_off", "modal_delay", "dispersion", "dgd")}
    ref = x.copy()
    if pn:
        kw["lwdth"] = 1e-4 * fs
    if use["freq_off"]:
        kw["freq_off"] = rng.uniform(-.1, .1) * fs; ref = ref * np.exp(2j * np.pi * np.arange(N) * kw["freq_off"] / fs)
    if use["modal_delay"]:
        kw["modal_delay"] = [int(v) for v in rng.integers(0, N, 2)]; ref = np.array([np.roll(ref[m], kw["modal_delay"][m]) for m in range(2)])
    nodisp = dict(kw)
    if use["dispersion"]:
        kw["dispersion"] = rng.uniform(-20, 20) / (0.5 * (np.pi * fs) ** 2 * beta2(1, 1550e-9)); ref = disp_ref(ref, fs, kw["dispersion"], 1, 1550e-9)
    pm = {}
    if use["dgd"]:
        pm["dgd"] = rng.uniform(-4, 4) / fs
        th = np.pi / 3.731
        if rng.random() < 0.7:
            th = pm["theta"] = rng.uniform(-3, 3)
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        w = 2 * np.pi * np.fft.fftfreq(N, 1 / fs)
        ref = R.T @ np.fft.ifft(np.fft.fft(R @ ref, axis=1) * np.exp(np.array([[-.5j], [.5j]]) * w * pm["dgd"]), axis=1)
    ctx.case(**kw, **pm)
    b = gen.digest(s)
    y = impairments.simulate_transmission(s, **kw, **pm)
    ctx.ok(gen.digest(s) == b, "simulate_transmission altered its argument")
    t = 40 * tol + (N * 2 * np.pi * 1e-7 if s.dtype == np.complex64 else 0)
    if pn:
        ctx.ok(y.dtype == s.dtype and type(y) is type(s), "type or dtype")
        ctx.ok(kw and not np.allclose(gen.raw(y), ref, atol=1e-4) , "no phase noise was applied")
    else:
        checkout(ctx, s, y, ref, t, "simulate_transmission")
        if not use["dispersion"]:
            z = ci.simulate_transmission(s, s.fb, s.fs, **nodisp, **pm)
            checkout(ctx, s, z, ref, t, "core simulate_transmission")
    energy(ctx, x, gen.raw(y), tol, what="simulate_transmission")
    ctx.count("combinations")
    if len(kw) + len(pm) > 1: ctx.nontrivial()


def frames(ctx, rng, i):
    """roll_frame_sync shifts the frame by the length of its pilots"""
    nm = gen.more(rng, int(rng.integers(1, 4))); p = signals.SignalWithPilots(gen.pick(rng, [4, 16]), 512, 32, 16, nframes=int(rng.integers(1, 4)), nmodes=nm, dtype=gen.pick(rng, gen.DT)); os = gen.pick(rng, [1, 2])
    ctx.case(nframes=p.nframes, nmodes=nm, os=os); n = p.pilots.shape[1]
    if os > 1: p = p.recreate_from_np_array(np.repeat(gen.raw(p), os, axis=-1), fs=p.fb * os)
    h = gen.digest(p); f = float(rng.uniform(-.1, .1)) * p.fs; d = [int(v) for v in rng.integers(-50, 50, nm)]; want = np.roll(gen.raw(p), n, axis=-1)
    for g, what in ((lambda **k: impairments.simulate_transmission(p, **k), "signal"), (lambda **k: ci.simulate_transmission(p, p.fb, p.fs, **k), "core")):
        y = g(roll_frame_sync=True); ctx.eq(gen.raw(y), want, "roll_frame_sync, " + what); ctx.ok(type(y) is type(p) and y.fs == p.fs, "type")
        y = gen.raw(g(roll_frame_sync=True, freq_off=f, modal_delay=d)); r = want * np.exp(2j * np.pi * f / p.fs * np.arange(want.shape[1])); ctx.close(y, np.array([np.roll(v, k) for v, k in zip(r, d)]), (1e-9 if p.dtype == np.complex128 else 2e-4), "rolled frame with an offset and delays, " + what)
        ctx.eq(gen.raw(g()), gen.raw(p), "transmission without any impairment")
    ctx.ok(gen.digest(p) == h, "the signal was altered"); ctx.nontrivial(); ctx.count("rolled frames")


SCENARIOS = [("rotation", rotation, 200, 3000), ("pmd", pmd, 300, 4000), ("phase", phase, 150, 2000), ("offset", offset, 250, 3000),
             ("dispersion", dispersion, 250, 3000), ("modal", modal, 200, 3000), ("combos", combos, 300, 4000), ("frames", frames, 30, 300)]

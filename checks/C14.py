"""C14 carrier offset and phase estimators against what was applied."""
import numpy as np
import gen
from vp import Skip
from qampy import signals, phaserec, impairments
from qampy.core import phaserecovery as pr, pilotbased_receiver as prx

RULE = ("QPSK and QAM at one and two samples per symbol with a different carrier offset in every mode anywhere in the estimator's range, transform sizes that are and are not powers of two, shorter and longer "
        "than the signal; phase walks, drifts and constants with noise for the fourth-power, partition and pilot estimators (frames and blocks) with even and odd windows; 1-4 modes or 1-d, both precisions. Offsets must come out within "
        "half a spectral bin whenever the spectral line (computed from the true offset) stands clear, removal is compared with the exact inverse, phases with the applied phase; non-trivial: a non-zero offset or phase was found")
REQUIRED = ["offsets found", "averaged offsets", "offsets removed", "fourth power", "window definition", "partition", "pilot constant", "pilot walks", "one dimensional", "single precision", "oversampled", "signal objects", "broadcast offsets", "mode comparisons", "drift fits", "rings", "pilot frames", "shifts", "block pilots", "short blocks", "rejected", "few pilots", "limited pilots"]


def off(ctx, rng, i):
    M = gen.pick(rng, [4, 4, 4, 16, 64]); dt = gen.pick(rng, gen.DT); nm = gen.more(rng, gen.pick(rng, [1, 2, 3, 4])); fb = float(gen.pick(rng, [1, 25e9])); os = gen.pick(rng, [1, 1, 2, 1.5]); n = gen.loguniform(rng, 200, 9000)
    s = signals.SignalQAMGrayCoded(M, n, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31)))
    if os > 1: s = s.resample(os * fb, beta=float(rng.uniform(.05, .3)), renormalise=True); ctx.count("oversampled")
    if dt is np.complex64: ctx.count("single precision")
    L = s.shape[1]; f = rng.uniform(-.95, .95, nm) * os / 8; f[rng.random(nm) < .1] = 0; t = np.arange(L) / os
    x = gen.raw(s).astype(complex) * np.exp(2j * np.pi * f[:, None] * t + 1j * rng.uniform(-3, 3, (nm, 1))) * rng.uniform(.5, 2) + gen.cnoise(rng, (nm, L)) * 10 ** rng.uniform(-3, -.9)
    fft = int(gen.pick(rng, [2**k for k in (9, 10, 11, 12, 13)] + [1000, 3000, 5000, 600])); K = 2 ** int(np.ceil(np.log2(fft))); x = s.recreate_from_np_array(x.astype(dt)); av = bool(rng.integers(2)); h = gen.digest(x)
    ctx.case(M=M, os=os, n=n, nmodes=nm, fft=fft, average=av, dtype=np.dtype(dt).name, f=np.round(f, 5))
    form = gen.pick(rng, ["signal", "array", "1d"] if nm == 1 else ["signal", "array"]); kw = {} if fft == 4096 and form == "signal" and rng.random() < .5 else dict(fft_size=fft)
    if form == "signal": est = phaserec.find_freq_offset(x, **(dict(kw, average_over_modes=av) if av or rng.random() < .5 else kw)); ctx.count("signal objects")
    elif form == "array": est = pr.find_freq_offset(gen.raw(x), os, **(dict(kw, average_over_modes=av) if not av or rng.random() < .5 else kw))
    else: est = pr.find_freq_offset(gen.raw(x)[0], os, average_over_modes=av, **kw); ctx.count("one dimensional")
    ctx.ok(gen.digest(x) == h, "the signal was altered"); ctx.ok(np.shape(est) == (nm, 1), "offsets of shape %s" % (np.shape(est),))
    bin_, U, good = os / K / 4, min(L, K), []
    for m in range(nm):
        p = abs(np.fft.fft(gen.raw(x)[m, :U].astype(complex) ** 4 * np.exp(-8j * np.pi * f[m] * t[:U]), 8 * K)) ** 2; w = int(np.ceil(8 * K / U)) + 4; q = p.copy(); q[:w] = 0; q[-w:] = 0; good.append(p[0] * .35 > q.max() and K >= U * .5)
        # the range wraps around: stay clear of its end
        good[-1] = good[-1] and abs(f[m]) < os / 8 - bin_
    slack = (.6 if M == 4 else 1.1) * bin_ + (0 if L >= K else (.12 if M == 4 and os == 1 else .4) * os / 4 / L)
    if av:
        ctx.ok(np.ptp(est) == 0, "averaged offsets differ")
        if all(good): ctx.close(est[0, 0], f.mean(), slack, "averaged offset"); ctx.count("averaged offsets"); ctx.nontrivial()
    else:
        for m in range(nm):
            if good[m]: ctx.close(est[m, 0], f[m], slack, "offset of mode %d (bin %g)" % (m, bin_)); ctx.count("offsets found"); ctx.nontrivial()
            one = pr.find_freq_offset(gen.raw(x)[m], os, fft_size=fft); ctx.close(one[0, 0], est[m, 0], 1e-12, "mode alone"); ctx.count("mode comparisons")


def remove(ctx, rng, i):
    M = gen.pick(rng, gen.QAM); dt = gen.pick(rng, gen.DT); nm = gen.more(rng, gen.pick(rng, [1, 2, 3, 4])); fb = float(gen.pick(rng, [1, 25e9])); N = gen.loguniform(rng, 2, 5000); os = gen.pick(rng, [1, 2, 1.5, 4])
    s = signals.SignalQAMGrayCoded(M, N, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31))); x = gen.raw(s); s = s.recreate_from_np_array(x, fs=fb * os); t = np.arange(N) / os; form = gen.pick(rng, ["column", "flat", "scalar", "list", "one"])
    f = rng.uniform(-.4, .4, nm) * gen.pick(rng, [1, 1e-3, 1]); f = np.full(nm, f[0]) if form in ("scalar", "one") else f
    v = {"column": f.reshape(-1, 1), "flat": f, "scalar": f[:1], "list": list(f), "one": f[:1].reshape(1, 1)}[form]; ctx.case(M=M, N=N, nmodes=nm, os=os, form=form, dtype=np.dtype(dt).name, f=np.round(f, 4))
    if form in ("scalar", "one") and nm > 1: ctx.count("broadcast offsets", nm)
    y = s.recreate_from_np_array((x.astype(complex) * np.exp(2j * np.pi * f[:, None] * t)).astype(dt), fs=fb * os); h = gen.digest([y, v])
    k = gen.pick(rng, ["signal", "array", "1d"] if nm == 1 else ["signal", "array"])
    if k == "signal":
        z = phaserec.comp_freq_offset(y, v); ctx.ok(type(z) is type(y) and z.fs == fb * os and z.fb == fb and z.M == M, "description"); ctx.eq(np.array(z.symbols), np.array(y.symbols), "transmitted symbols"); ctx.count("signal objects")
    elif k == "array": z = pr.comp_freq_offset(gen.raw(y), v, os)
    else: z = pr.comp_freq_offset(gen.raw(y)[0], v, os); ctx.ok(z.shape == (N,), "shape %s" % (z.shape,)); ctx.count("one dimensional")
    ctx.ok(gen.digest([y, v]) == h, "arguments were altered"); ctx.ok(z.dtype == dt, "dtype %s" % z.dtype); z = np.atleast_2d(gen.raw(z).astype(complex)); ctx.ok(z.shape == x.shape, "shape %s" % (z.shape,))
    r = z / x; ctx.close(abs(r), np.ones(r.shape), 1e-9 if dt is np.complex128 else 2e-5, "amplitude"); ctx.close(r / r[:, :1], np.ones(r.shape), 1e-9 if dt is np.complex128 else 3e-5, "phase of the restored signal"); ctx.close(r[:, 0], np.exp(-2j * np.pi * f / os), 1e-9 if dt is np.complex128 else 3e-5, "constant phase")
    ctx.count("offsets removed", nm)
    # the library's own impairment is undone (its time axis is that of the signal's precision)
    w = impairments.add_carrier_offset(s, float(f[0]) * fb); z = gen.raw(phaserec.comp_freq_offset(w, np.full(nm, f[0]))).astype(complex) / x; ctx.close(z / z[:, :1], np.ones(r.shape), 1e-8 if dt is np.complex128 else 1e-5 + 1e-5 * N * abs(f[0]) / os, "carrier offset of the channel model is undone")
    if np.any(f): ctx.nontrivial()


def walk(rng, nm, L, slow=-3.2): return np.cumsum(rng.standard_normal((nm, L)), axis=1) * 10 ** rng.uniform(-5, slow) + rng.uniform(-4, 4, (nm, 1)) + np.arange(L) * rng.uniform(-1e-3, 1e-3, (nm, 1)) * (rng.random() < .5)


def vv(ctx, rng, i):
    psk = rng.random() < .3; M = gen.pick(rng, [2, 8]) if psk else 4; nm = gen.more(rng, gen.pick(rng, [1, 2, 3])); dt = gen.pick(rng, gen.DT); L = gen.loguniform(rng, 100, 4000); N = gen.loguniform(rng, 1, 60); N = min(N, L // 2); sg = 10 ** rng.uniform(-3, -.8)
    cls = signals.SignalPSKGrayCoded if psk else signals.SignalQAMGrayCoded; s = cls(M, L, nmodes=nm, dtype=dt, seed=int(rng.integers(2**31))); th = walk(rng, nm, L); x = (gen.raw(s).astype(complex) * np.exp(1j * th) * rng.uniform(.3, 3) + gen.cnoise(rng, (nm, L)) * sg * .3).astype(dt)
    ctx.case(M=M, psk=psk, nmodes=nm, L=L, N=N, dtype=np.dtype(dt).name); form = gen.pick(rng, ["signal", "array", "1d"] if nm == 1 else ["signal", "array"]); X = s.recreate_from_np_array(x); h = gen.digest(X)
    if form == "signal": y, ph = phaserec.viterbiviterbi(X, N); ctx.ok(type(y) is cls and y.M == M, "type"); ctx.eq(np.array(y.symbols), np.array(s.symbols), "transmitted symbols"); ctx.count("signal objects")
    elif form == "array": y, ph = pr.viterbiviterbi(gen.raw(X), N, M)
    else: y, ph = pr.viterbiviterbi(gen.raw(X)[0], N, M); ctx.ok(y.ndim == 1 and ph.ndim == 1, "one dimension"); ctx.count("one dimensional")
    ctx.ok(gen.digest(X) == h, "the signal was altered"); ctx.ok(y.dtype == dt, "dtype %s" % y.dtype); y, ph = np.atleast_2d(gen.raw(y)), np.atleast_2d(ph); n = L - N + 1; a = (N - 1) // 2; ctx.ok(ph.shape == (nm, n) and y.shape == x.shape, "phase of shape %s for %s" % (ph.shape, (nm, n)))
    e = 1e-9 if dt is np.complex128 else 1e-4
    for m in range(nm):
        u = (x[m].astype(complex) / abs(x[m])) ** M; c = np.array([u[k:k + N].sum() for k in range(n)]); ok = abs(c) > 1e-3 * N
        ctx.close(np.exp(1j * M * ph[m])[ok], (-c / abs(c))[ok], e * 10 / (1e-3 if np.any(abs(c[ok]) < .05 * N) else 1), "phase against the windowed power"); ctx.ok(np.all(abs(np.diff(ph[m])) <= np.pi / M + 1e-6), "jump of the phase")
        ctx.close(y[m, a:a + n], x[m, a:a + n].astype(complex) * np.exp(-1j * ph[m]), e * 5 * (1 + abs(x).max()), "returned signal against the returned phase"); ctx.count("window definition", n)
        q = th[m, a:a + n] - ph[m]; o = 0 if not psk else np.pi / M; k = np.round(np.median(q - o) / (2 * np.pi / M)); q = q - o - k * 2 * np.pi / M
        # walk within the window and averaged noise
        lim = 1.5 * np.max([np.ptp(th[m, j:j + N]) for j in range(0, n, max(1, N // 4))]) + 6.5 * sg * .3 * M / 2 / np.sqrt(N) / .3 / M * 1.5
        if lim < .6 * np.pi / M and sg * M < .6: ctx.ok(np.all(abs(q) <= lim + e * 10), "phase off by %g, allowed %g" % (abs(q).max(), lim)); ctx.count("fourth power"); ctx.nontrivial()
        if nm > 1: ctx.close(pr.viterbiviterbi(x[m], N, M)[1], ph[m], e, "mode alone"); ctx.count("mode comparisons")


def partition(ctx, rng, i):
    nm = gen.pick(rng, [1, 2, 3]); L = gen.loguniform(rng, 2000, 8000); B = int(rng.integers(80, 250)); dt = gen.pick(rng, gen.DT); s = signals.SignalQAMGrayCoded(16, L, nmodes=nm, dtype=dt, seed=int(rng.integers(2**31))); db = float(rng.uniform(20, 35)); th = walk(rng, nm, L, -4) * 1.
    if np.ptp(th, axis=1).max() > 40: raise Skip()
    x = (gen.raw(s) * np.exp(1j * th) + gen.cnoise(rng, (nm, L)) * 10 ** (-db / 20)).astype(dt); g = float(rng.uniform(.5, 2)); x = (x * g).astype(dt); ctx.case(nmodes=nm, L=L, B=B, snr=db, dtype=np.dtype(dt).name); form = gen.pick(rng, ["signal", "array", "1d"] if nm == 1 else ["signal", "array"]); X = s.recreate_from_np_array(x); h = gen.digest(X)
    y, ph = (phaserec.phase_partition_16qam(X, B) if form == "signal" else pr.phase_partition_16qam(x if form == "array" else x[0], B)); ctx.ok(gen.digest(X) == h, "the signal was altered")
    if form == "signal": ctx.ok(type(y) is type(s), "type"); ctx.count("signal objects")
    if form == "1d": ctx.ok(y.shape == ph.shape == (L,), "one dimension"); ctx.count("one dimensional")
    y, ph = np.atleast_2d(gen.raw(y)), np.atleast_2d(ph); ctx.ok(y.shape == ph.shape == x.shape, "shapes"); ctx.close(y, x.astype(complex) * np.exp(-1j * ph), 1e-12 if dt is np.complex128 else 1e-5, "returned signal against the returned phase")
    for m in range(nm):
        q = th[m] - ph[m]; q = q[:L // B * B] if L % B < 80 else q; k = np.round(np.median(q) / (np.pi / 2)); q = q - k * np.pi / 2; w = max(np.ptp(th[m, j:j + B]) for j in range(0, L, B // 2)); lim = w + 10 ** (-db / 20) / np.sqrt(B) * 14 + .13
        if lim < .4: ctx.ok(np.all(abs(q) < lim), "phase off by %g, allowed %g" % (abs(q).max(), lim)); ctx.count("partition"); ctx.nontrivial()
        if nm > 1: ctx.close(pr.phase_partition_16qam(x[m], B)[1], ph[m], 1e-9 if dt is np.complex128 else 1e-4, "mode alone"); ctx.count("mode comparisons")
    a, b = pr.partition_16qam(x[0]); r = abs(gen.raw(s)[0]); one = (r < .7) | (r > 1.2); ctx.ok(np.all(a != b), "classes overlap"); d = abs(r * g - abs(x[0])) < .1 * g; ctx.eq(a[d], one[d], "rings"); ctx.count("rings", d.sum())


def pilots(ctx, rng, i):
    """constant phase and drift from known symbols"""
    nm, n = gen.pick(rng, [1, 2, 3, 4]), gen.loguniform(rng, 4, 2000); p = gen.pick(rng, [gen.ref_qam(4), gen.ref_qam(16)]); tx = p[rng.integers(p.size, size=(nm, n))]; c = rng.uniform(-2.9, 2.9, nm); sg = 10 ** rng.uniform(-3, -1.1); h0 = float(rng.uniform(.5, 2))
    rx = tx * np.exp(1j * c[:, None]) * h0 + gen.cnoise(rng, (nm, n)) * sg * .3; ctx.case(nmodes=nm, n=n); h = gen.digest([rx, tx])
    f = phaserec.find_pilot_const_phase(rx, tx); ctx.ok(np.shape(f) == (nm, 1), "shape %s" % (np.shape(f),)); d = np.angle(np.exp(1j * (f[:, 0] - c))); ctx.ok(np.all(abs(d) < 7 * sg * .3 / h0 / .44 / np.sqrt(n)), "constant phase off by %g" % abs(d).max()); ctx.count("pilot constant", nm)
    x = gen.cnoise(rng, (nm, n + 5)); y = phaserec.correct_pilot_const_phase(x, f); ctx.close(y, x * np.exp(-1j * f), 1e-12, "corrected signal")
    if nm == 1: ctx.close(phaserec.find_pilot_const_phase(rx[0], tx[0]), f, 1e-12, "one dimension"); ctx.count("one dimensional")
    # drift of known symbols
    fo = rng.uniform(-.4, .4, nm); z = rx * np.exp(2j * np.pi * fo[:, None] * np.arange(n)); mean, per, ph0 = prx.pilot_based_foe(z, tx); ctx.ok(gen.digest([rx, tx]) == h, "arguments were altered")
    if n >= 20 and sg < .02: ctx.close(per[:, 0], fo, 7 * sg / h0 / n ** 1.5 + 1e-9, "drift"); ctx.close(mean, per.mean(), 1e-12, "mean drift"); ctx.count("drift fits", nm); ctx.close(np.exp(1j * ph0[:, 0]), np.exp(1j * c), 14 * sg / np.sqrt(n) + 1e-6, "phase at the start")
    elif sg < .02 and abs(fo).max() < .4:      # few pilots: the noise of the steepest line through them
        e = sg * .3 / h0 / abs(p).min() * 6; ctx.close(per[:, 0], fo, e / 2 / np.pi * np.sqrt(12 / (n * (n * n - 1.))) + 1e-9, "drift of few pilots"); ctx.close(mean, per.mean(), 1e-12, "mean drift"); ctx.count("few pilots", nm)
    # moving every mode to the start of its frame, one mode as well as several
    k = [int(v) for v in rng.integers(0, n, nm)]; w = np.array([np.roll(r, v) for r, v in zip(tx, k)]); hw = gen.digest(w); ctx.ok(np.array_equal(prx.shift_signal(w, gen.pick(rng, [k, np.array(k)])), tx), "shift_signal by %s does not undo the delay" % k); ctx.ok(gen.digest(w) == hw, "shift_signal changed its signal"); ctx.count("shifts")
    ctx.nontrivial()


def walk_cpe(ctx, rng, i):
    """phase from the phase pilots: a straight drift is recovered exactly, a walk within its averaging"""
    nf = int(rng.integers(1, 5)); ins, seq = int(rng.integers(2, 20)), int(rng.integers(2, 80)); npil = int(rng.integers(10, 60)) if i % 25 else gen.loguniform(rng, 300, 6000); nf = nf if npil < 300 else min(nf, 2); fl = seq + ins * npil; nm = gen.more(rng, gen.pick(rng, [1, 2, 3])); M = gen.pick(rng, [4, 16, 64]); dt = gen.pick(rng, gen.DT)
    rp = rng.random() < .6; s = signals.SignalWithPilots(M, fl, seq, ins, nframes=nf, nmodes=nm, Mpilots=gen.pick(rng, [4, 4, 16]), dtype=dt, seed=int(rng.integers(2**31)), repeat_pilots=rp, repeat_data=bool(rng.integers(2))); ctx.count("pilots differ between the frames", not rp and nf > 1); L = s.shape[1]; t = np.arange(L)
    sl = rng.uniform(-1, 1, (nm, 1)) * 2 / ins; c = rng.uniform(-3, 3, (nm, 1)); lin = rng.random() < .6; th = c + sl * t if lin else walk(rng, nm, L, -2.6); N = int(gen.pick(rng, [3, 3, 5, 7, 4])); k = int(rng.integers(1, nf + 1)); rat = int(gen.pick(rng, [1, 1, 2, 3])); us = bool(rng.integers(2))
    if lin and rat > 1: sl = sl / rat; th = c + sl * t
    if not us and lin: sl = sl / (1 + seq / ins); th = c + sl * t        # phase must not turn by more than pi between used pilots
    tot = npil + (seq if us else 0); mx = int(rng.integers(1, tot + 4)) if rng.random() < .2 else None        # only the first pilots of every frame
    if mx is not None and lin: sl = rng.uniform(-2.5, 2.5, (nm, 1)) / fl / rat; th = c + sl * t
    elif mx is not None: k = 1
    x = s.recreate_from_np_array((gen.raw(s) * np.exp(1j * th)).astype(dt)); h = gen.digest(x); kw = dict(N=N, nframes=k)
    if mx is not None: kw["max_blocks"] = mx
    if rat > 1: kw["pilot_rat"] = rat
    if us: kw["use_seq"] = True
    ctx.case(frame=(fl, seq, ins, nf), nmodes=nm, M=M, linear=lin, dtype=np.dtype(dt).name, **kw)
    nu = (min(tot, tot if mx is None else mx) + rat - 1) // rat * k
    if nu < (N if N % 2 else N + 1): ctx.raises(lambda: phaserec.pilot_cpe(x, **kw), "more averages than pilots"); return
    if rng.random() < .05: ctx.raises(lambda: phaserec.pilot_cpe(x, **dict(kw, N=1)), "an average over one pilot", AssertionError)
    y, ph = phaserec.pilot_cpe(x, **kw); ctx.ok(gen.digest(x) == h, "the signal was altered"); n = min(k * fl, L); ctx.ok(type(y) is type(x) and y.shape == (nm, n) == np.shape(ph), "shapes %s %s for %d" % (y.shape, np.shape(ph), n))
    e = 1e-9 if dt is np.complex128 else 1e-4 * (1 + abs(th).max() / 10); ctx.close(np.array(y), gen.raw(x)[:, :n] * np.exp(-1j * np.real(ph)), e * 3, "returned signal against the returned phase"); ctx.ok(np.all(np.imag(ph) == 0), "complex phase")
    idx = np.nonzero(np.array(s._idx_pil))[0]; idx = (idx if us else idx[seq:])[:mx]; ctx.count("limited pilots", mx is not None); pos = (idx[::rat][None, :] + np.arange(k)[:, None] * fl).ravel(); w = N if N % 2 else N + 1; pos = pos[(w - 1) // 2:len(pos) - (w - 1) // 2]
    cen = np.array([np.convolve(th[m][(idx[::rat][None, :] + np.arange(k)[:, None] * fl).ravel()], np.ones(w) / w, "valid") for m in range(nm)])
    for m in range(nm):
        r = cen[m] - np.interp(pos, np.arange(n), np.real(ph)[m]); q = np.round(np.median(r) / (2 * np.pi)) * 2 * np.pi; ctx.close(r - q, np.zeros(r.size), e * 10, "phase at the pilots against the mean applied phase"); ctx.count("pilot walks")
        # straight between the pilots
        g = np.real(ph)[m]; ctx.close(g, np.interp(np.arange(n), pos, g[pos]), e * 10, "phase between the pilots")
    ctx.count("pilot frames", k); ctx.nontrivial()


def core_cpe(ctx, rng, i):
    """pilots at the start of every block: each mode gets its own phase"""
    nm, ins, B = gen.pick(rng, [1, 1, 2, 3, 4]), int(rng.integers(2, 40)), int(rng.integers(4, 90)); dt = gen.pick(rng, gen.DT); rat = int(gen.pick(rng, [1, 1, 2, 3, 4])); N = int(rng.integers(1, 9)); nref = B + int(gen.pick(rng, [0, 0, 0, 5, -int(rng.integers(0, B // 2))])); mx = None if rng.random() < .6 else int(rng.integers(2, B + 5))
    L = B * ins + int(rng.integers(0, ins)); used = min(B, B if mx is None else mx, nref); used -= used % rat; p = gen.ref_qam(gen.pick(rng, [4, 16])); ref = p[rng.integers(p.size, size=(nm, nref))]; lin = rng.random() < .6
    th = rng.uniform(-3, 3, (nm, 1)) + (rng.uniform(-2.8, 2.8, (nm, 1)) / ins / rat * np.arange(L) if lin else np.cumsum(rng.standard_normal((nm, L)), axis=1) * .3 / np.sqrt(ins * rat) * rng.uniform(.1, 1)); k = min(nref, B); tx = p[rng.integers(p.size, size=(nm, L))]; tx[:, :k * ins:ins] = ref[:, :k]
    x = (tx * np.exp(1j * th) * rng.uniform(.4, 2)).astype(dt); rem = bool(rng.integers(2)); kw = dict(num_average=N, use_pilot_ratio=rat, max_num_blocks=mx, remove_phase_pilots=rem); ctx.case(nmodes=nm, ins=ins, blocks=B, L=L, nref=nref, linear=lin, dtype=np.dtype(dt).name, **kw)
    if not rem or rng.random() < .5: f = lambda: prx.pilot_based_cpe(x, ref, ins, **kw)
    else: f = lambda: prx.pilot_based_cpe(x, ref, ins, N, rat, mx)
    n = used // rat; h = gen.digest([x, ref])
    if n <= N or rat >= used: ctx.raises(f, "%d pilots for averages over %d" % (n, N), ValueError); ctx.count("rejected"); return
    y, ph = f(); ctx.ok(gen.digest([x, ref]) == h, "arguments were altered"); U = used * ins; ctx.ok(ph.shape == (nm, U), "phase of shape %s for %d blocks of %d" % (ph.shape, used, ins)); ctx.ok(y.dtype == dt, "dtype %s" % y.dtype)
    z = x[:, :U].astype(complex) * np.exp(-1j * ph); keep = np.ones(U, bool); keep[::ins] = not rem; e = 1e-9 if dt is np.complex128 else 3e-5; ctx.ok(y.shape == (nm, keep.sum()), "signal of shape %s" % (y.shape,)); ctx.close(y, z[:, keep], e * (1 + abs(ph).max()) * 4, "returned signal against the returned phase")
    w = N if N % 2 else N + 1; a = (w - 1) // 2; pos = np.arange(n) * ins * rat
    for m in range(nm):
        g = np.unwrap(np.angle(x[m, pos].astype(complex) * ref[m, ::rat][:n].conj())); c = np.convolve(g, np.ones(w) / w, "valid"); want = np.concatenate([g[:a], c, np.full(a, c[-1])]); ctx.close(ph[m], np.interp(np.arange(U), pos, want), e * 20 * (1 + abs(g).max()), "phase of mode %d" % m); r = ph[m] - th[m, :U]; r = r - 2 * np.pi * np.round(r[0] / 2 / np.pi)
        if lin: ctx.close(r[:pos[n - 1 - a] + 1], np.zeros(pos[n - 1 - a] + 1), e * 20 * (1 + abs(th).max()), "straight drift of mode %d" % m)
        ctx.count("block pilots")
    ctx.nontrivial()


def short_blocks(ctx, rng, i):
    """blocks of a few symbols need the outer and the inner rings: rms error of the partition estimator at high SNR"""
    N = int(rng.integers(3000, 5000)); B = int(gen.pick(rng, [8, 9, 10])); dt = gen.pick(rng, gen.DT); db = float(rng.uniform(26, 36)); s = signals.SignalQAMGrayCoded(16, N, dtype=dt, seed=int(rng.integers(2**31))); th = np.cumsum(rng.normal(size=N)) * 1e-3 + rng.uniform(-3, 3)
    x = (gen.raw(s) * np.exp(1j * th) + gen.cnoise(rng, (1, N)) * 10 ** (-db / 20)).astype(dt); ctx.case(N=N, B=B, snr=db, dtype=np.dtype(dt).name); y, ph = phaserec.phase_partition_16qam(s.recreate_from_np_array(x), B)
    e = np.angle(np.exp(4j * (np.ravel(ph) - th))) / 4; q = abs(gen.raw(s)[0]); one = (q < .7) | (q > 1.2); sel = np.repeat([one[k:k + B].sum() >= 2 and len(one[k:k + B]) == B for k in range(0, N, B)], B)[:N]; r = np.sqrt(np.mean(e[sel] ** 2)); ctx.ok(r < .03, "rms phase error %g with blocks of %d" % (r, B)); ctx.count("short blocks"); ctx.nontrivial()
    f = float(rng.uniform(-2, 2)); z = (x.astype(complex) * np.exp(1j * f)).astype(dt); p2 = np.ravel(pr.phase_partition_16qam(z, B)[1]); d = abs(np.angle(np.exp(4j * (p2 - np.ravel(ph) - f))) / 4)
    ctx.ok(np.mean(d > (1e-9 if dt is np.complex128 else 1e-3)) < 4 * 2. ** -B + (.01 if dt is np.complex128 else .03), "a constant phase of %g changes the estimate of the rest by %g" % (f, d.max()))


SCENARIOS = [("offset", off, 350, 6000), ("remove", remove, 250, 4000), ("viterbi", vv, 250, 5000), ("partition", partition, 100, 2000), ("pilots", pilots, 150, 3000), ("pilot_cpe", walk_cpe, 150, 3000), ("block_cpe", core_cpe, 200, 4000), ("short_blocks", short_blocks, 60, 1500)]

"""C27 blind equalisation recovers dispersive polarisation-mixed signals"""
import warnings
import numpy as np
import gen, ops
from vp import Skip

RULE = ("dual-polarisation 4/16/32/64-QAM (both precisions, 2 or 3 samples per symbol, 8-18 taps, fixed and adaptive step size) through any rotation (0..2pi, and exactly 0, 45 and 90 degrees), 0-0.6 symbols of differential delay and noise, equalised with every single and two stage combination suited to the format, "
        "phase recovered and measured against both transmitted streams; phase noise and carrier offsets in front of the equaliser for the phase insensitive methods; continued training from the returned taps; a channel counts as failed only when a second realisation of symbols and noise fails as well; non-trivial: both streams were measured")
REQUIRED = ["channels", "single stage", "two stage", "streams measured", "taps reproduce output", "phase noise", "carrier offset", "continued", "single precision", "special angles", "chained stages", "equaliser runs"]
ASSUMPTIONS = ["The step sizes are the usual ones for the format (3e-4 to 1e-3)", "cma2, sgncma_real and data-aided methods are not claimed to converge blindly",
               "Real-valued blind training (cma_real) and cross constellations converge to one stream twice for some rotations (such as 45 degrees); they, like any channel that failed twice, are judged on a rotation nearby as well",
               "The residual penalty of gradient descent with a finite step size, up to the limits stated in the check (0.9 to 5 dB), is no loss of the signal"]

# format: SNR (dB), step size, {methods: largest penalty in dB}; observed maxima are about half of it
FMT = {
    4: (10, 1e-3, {"cma": .9, "mcma": .9, "sgncma": 2.6, ("cma", "sbd"): .9, ("mcma", "sbd"): .9, ("mcma", "mddma"): .9, "cma_real": .9, ("cma_real", "dd_real"): .9, ("mcma", "dd"): .9, ("cma", "cma"): .9}),
    16: (17, 1e-3, {"cma": 4, "mcma": 3, ("mcma", "sbd"): .9, ("mcma", "mddma"): .9, ("mcma", "rde"): 2, ("mcma", "mrde"): 1.2, ("mcma", "dd"): .9, "cma_real": 3.5, ("cma_real", "dd_real"): 1.2}),
    64: (23, 3e-4, {"mcma": 5, ("mcma", "sbd"): 4.2, ("mcma", "mddma"): 4, ("mcma", "mrde"): 4.2, ("mcma", "dd"): 4, ("cma_real", "dd_real"): 4.5}),
    32: (20, 3e-4, {("cma", "mddma"): 3.2, ("cma", "sbd"): 3.8, ("cma", "dd"): 3.4})}


def transmit(rng, M, snr, dt, os_, theta, dgd, lw=0, fo=0, N=2**14):
    from qampy import signals as S, impairments as I
    s = S.SignalQAMGrayCoded(M, N, nmodes=2, fb=25e9, seed=int(rng.integers(2**31)), dtype=dt)
    x = s.resample(os_ * s.fb, beta=.2, renormalise=True, taps=1001); np.random.seed(int(rng.integers(2**31))); x = I.change_snr(x, snr)
    y = I.apply_PMD(x, theta, dgd / s.fb)
    if lw: y = I.apply_phase_noise(y, lw)
    if fo: y = I.add_carrier_offset(y, fo)
    return s, x, y


def equalise(ctx, y, mu, Nt, it, meth, ad):
    from qampy import equalisation as Q
    ctx.count("equaliser runs"); k = {}
    if isinstance(meth, str): o, w, e = Q.equalise_signal(y, mu, Ntaps=Nt, Niter=it, method=meth, adaptive_stepsize=ad, apply=True); ctx.count("single stage")
    else:
        o, w, e = Q.dual_mode_equalisation(y, (mu, mu), Nt, Niter=(it, it), methods=meth, adaptive_stepsize=(ad, ad)); ctx.count("two stage"); 
    d = Q.apply_filter(y, w); ctx.count("taps reproduce output")
    ctx.ok(d.shape == o.shape and d.dtype == o.dtype and np.allclose(np.asarray(d), np.asarray(o), rtol=0, atol=1e-4 if o.dtype == np.complex64 else 1e-9), "%s: the taps returned do not give the equalised signal" % (meth,))
    ctx.ok(o.fs == o.fb and type(o) is type(y) and o.shape[0] == 2 and abs(o.shape[1] - y.shape[1] // y.os) <= Nt, "%s returned a signal of shape %s at %s samples per symbol" % (meth, o.shape, o.fs / o.fb))
    return o, w, e


def penalty(ctx, s, o, snr, fo=False):
    """SNR penalty and error rate of the worse stream after phase recovery; infinite when a stream is lost"""
    from qampy import phaserec as P, theory as T
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not np.all(np.isfinite(np.asarray(o))): return np.inf, 1.
        if fo: o = P.comp_freq_offset(o, P.find_freq_offset(o, average_over_modes=True, fft_size=2**14))
        z, ph = P.bps(o, 32 if s.M < 32 else 64, 20 if s.M < 32 else 30); z = z[:, 800:-800]; ctx.count("streams measured", 2)
        try: e, ser = np.min(z.est_snr()), np.max(z.cal_ser())
        except Exception: return np.inf, 1.
    return (snr - 10 * np.log10(e) if e > 0 else np.inf), ser


def judge(ctx, p, ser, M, snr, lim, n):
    """within the limit of the format: penalty, and the error rate that belongs to it"""
    from qampy import theory as T
    ref = float(T.ser_vs_es_over_n0_qam(10**((snr - lim) / 10), M)); return p <= lim and ser <= ref + 5 * np.sqrt(ref / n) + 8 / n


def channel(rng, i, full=.6):
    theta = [None, 0., np.pi / 4, np.pi / 2][i % 4] if i % 3 == 0 else None
    return (float(rng.uniform(0, 2 * np.pi)) if theta is None else theta), float(rng.uniform(0, full)), theta is not None


def static(ctx, rng, i):
    Ms = list(FMT); M = Ms[i % len(Ms)]; snr, mu, ml = FMT[M]; ms = list(ml); meth = ms[(i // len(Ms)) % len(ms)]; lim = ml[meth]; snr = snr + float(rng.uniform(-1, 1.5)) if M == 4 else snr
    theta, dgd, sp = channel(rng, i); dt = gen.DT[int(rng.integers(2))]; os_ = 2 if rng.random() < .8 else 3; Nt = int(rng.integers(9, 18)); ad = rng.random() < .3; it = 4 if M > 4 else 3
    if os_ == 3: Nt += 4; lim += 0 if M == 4 else .3 if M == 16 else 1
    ctx.case(what="%d-QAM, %s, theta %.3f, delay %.2f symbols, %d taps, os %d, %s%s" % (M, meth, theta, dgd, Nt, os_, np.dtype(dt).name, ", adaptive" if ad else "")); res = []
    for t in range(3):
        if t == 2 or t and ("real" in str(meth) or M == 32): theta += .25; dgd *= .7       # these have channels they do not converge for, whatever the realisation
        s, x, y = transmit(rng, M, snr, dt, os_, theta, dgd); o, w, e = equalise(ctx, y, mu, Nt, it, meth, ad); p, ser = penalty(ctx, s, o, snr); res.append((round(p, 2), round(float(ser), 5)))
        if judge(ctx, p, ser, M, snr, lim, o.shape[1]): break
        ctx.count("second realisations")
    ctx.count("channels"); ctx.count("single precision", dt == np.complex64); ctx.count("special angles", sp); ctx.peak("penalty/limit %d %s" % (M, meth), p / lim if np.isfinite(p) else 0)
    ctx.ok(judge(ctx, p, ser, M, snr, lim, o.shape[1]), "%d-QAM equalised with %s: penalties (dB) and symbol error rates %s, allowed %.1f dB" % (M, meth, res, lim)); ctx.nontrivial()
    if t == 0 and rng.random() < .4:             # training continued from the returned taps, in any order of the modes
        from qampy import equalisation as Q
        m2 = meth if isinstance(meth, str) else meth[1]; T = int(rng.integers(3000, 9000)); md = None if rng.random() < .5 or "real" in m2 else [1, 0][:int(rng.integers(1, 3))]
        w2, e2 = Q.equalise_signal(y, mu, wxy=w, TrSyms=T, method=m2, modes=md, apply=False); o2 = Q.apply_filter(y, w2); p2, ser2 = penalty(ctx, s, o2, snr); ctx.count("continued")
        ctx.ok(judge(ctx, p2, ser2, M, snr, lim + .3, o.shape[1]), "%d-QAM: training continued with %s from the taps returned by %s: penalty %.2f dB (before %.2f), error rate %.4f" % (M, m2, meth, p2, p, ser2))


def moving(ctx, rng, i):
    """phase noise and a carrier offset in front of the equaliser"""
    M = [4, 4, 16][i % 3]; meth = gen.pick(rng, ["cma", "mcma", "cma_real", ("cma", "sbd"), "sgncma"]) if M == 4 else "cma"; lim = {4: 2., 16: 5.}[M] + (1.2 if meth == "sgncma" else 0); snr, mu = (11, 1e-3) if M == 4 else (18, 5e-4)
    k = i % 2; theta, dgd, sp = channel(rng, i, .5); dt = gen.DT[int(rng.integers(2))]; lw = 0; fo = 0; fo_ = bool(k)
    if k == 0: lw = 5e4 if M == 4 else 5e3; ctx.count("phase noise")
    else: fo = float(rng.uniform(-1, 1)) * 1e8; meth = "cma"; ctx.count("carrier offset")
    ctx.case(what="%d-QAM, %s, theta %.3f, delay %.2f, linewidth %g, offset %.3g" % (M, meth, theta, dgd, lw, fo)); res = []
    for t in range(3):
        if t and "real" in str(meth): theta += .25
        s, x, y = transmit(rng, M, snr, dt, 2, theta, dgd, lw, fo); o, w, e = equalise(ctx, y, mu, int(rng.integers(9, 16)), 3, meth, False); p, ser = penalty(ctx, s, o, snr, bool(fo)); res.append((round(p, 2), round(float(ser), 5)))
        if p <= lim: break
        ctx.count("second realisations")
    ctx.count("channels"); ctx.peak("penalty/limit moving %d %s" % (M, meth), p / lim if np.isfinite(p) else 0)
    ctx.ok(p <= lim, "%d-QAM with %s equalised with %s: penalties (dB) and symbol error rates %s, allowed %.1f dB" % (M, "phase noise" if lw else "a carrier offset", meth, res, lim)); ctx.nontrivial()


def stages(ctx, rng, i):
    """equalise_signal in two calls is dual_mode_equalisation; a two stage equaliser is not worse than its first stage"""
    from qampy import equalisation as Q
    M = [16, 4, 64, 32][i % 4]; snr, mu, ml = FMT[M]; m = gen.pick(rng, [k for k in ml if not isinstance(k, str)]); theta, dgd, sp = channel(rng, i); dt = gen.DT[i % 2]; Nt = int(rng.integers(9, 16)); ad = (bool(rng.integers(2)), bool(rng.integers(2))); T = tuple(int(v) for v in rng.integers(4000, 12000, 2)); it = (int(rng.integers(1, 4)), int(rng.integers(1, 3))); mus = (mu, mu * float(rng.uniform(.2, 1)))
    s, x, y = transmit(rng, M, snr, dt, 2, theta, dgd); ctx.case(what="%d-QAM, stages %s" % (M, m))
    o, w, (e1, e2) = Q.dual_mode_equalisation(y, mus, Nt, TrSyms=T, Niter=it, methods=m, adaptive_stepsize=ad)
    w1, f1 = Q.equalise_signal(y, mus[0], Ntaps=Nt, TrSyms=T[0], Niter=it[0], method=m[0], adaptive_stepsize=ad[0], apply=False); o1 = Q.apply_filter(y, w1)
    o2, w2, f2 = Q.equalise_signal(y, mus[1], wxy=w1, TrSyms=T[1], Niter=it[1], method=m[1], adaptive_stepsize=ad[1], apply=True); ctx.count("chained stages"); ctx.count("equaliser runs", 2)
    a = 1e-4 if dt == np.complex64 else 1e-9
    for u, v, n in ((w, w2, "taps"), (np.asarray(o), np.asarray(o2), "signal"), (e1, f1, "errors of the first stage"), (e2, f2, "errors of the second stage")):
        ctx.ok(u.shape == v.shape and np.allclose(u, v, rtol=0, atol=a), "two stage equalisation %s and two calls of equalise_signal give different %s" % (m, n))
    ctx.ok(np.allclose(np.asarray(Q.apply_filter(y, w)), np.asarray(o), rtol=0, atol=a), "the taps of the two stage equaliser do not give its signal")
    p1, _ = penalty(ctx, s, o1, snr); p2, _ = penalty(ctx, s, o2, snr)
    if p1 < FMT[M][2].get(m[0], 0) and m[1] in ("sbd", "mddma", "dd", "dd_real"): ctx.ok(p2 < p1 + .5, "the second stage %s (penalty %.2f dB) is worse than the first %s (%.2f dB)" % (m[1], p2, m[0], p1))
    ctx.nontrivial()


SCENARIOS = [("static", static, 84, 1600), ("moving", moving, 24, 400), ("stages", stages, 16, 300)]

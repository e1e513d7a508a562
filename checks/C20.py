"""C20 soft metrics: log-likelihood ratios, GMI, mutual information and SNR estimates against their definitions."""
import numpy as np
import gen
from qampy import signals
from qampy.core import pythran_dsp, signal_quality as sq

RULE = ("QAM and PSK signals of every order, both precisions, 1-3 modes with a different SNR (-10..45 dB) in each, also far outliers, absent constellation points and mismatched "
        "SNR values; LLRs, GMI, MI and SNR are recomputed in double precision from the same samples by log-sum-exp over an independently built label table; "
        "non-trivial: the noise changes at least one likelihood")
REQUIRED = ["llr values", "max-log signs", "gmi values", "mi values", "snr estimates", "absent points", "outliers", "saturated", "orderings", "statistical snr", "single precision"]
PSK = [2, 4, 8, 16]


def table(cls, M, dt):
    """label -> point, through modulation of every label"""
    s = cls.from_bit_array(gen.all_label_bits(M).reshape(1, -1), M, dtype=dt)
    return np.array(s)[0].astype(complex)


def mk(ctx, rng, nmin=20, nmax=1500, mmax=1024, lo=-10, hi=45, modes=(1, 2, 3)):
    psk = rng.random() < .3; cls = signals.SignalPSKGrayCoded if psk else signals.SignalQAMGrayCoded
    M = gen.pick(rng, PSK if psk else [m for m in gen.QAM if m <= mmax]); nm, dt = gen.pick(rng, modes), gen.pick(rng, gen.DT)
    N = gen.loguniform(rng, nmin, nmax)
    s = cls(M, N, nmodes=nm, dtype=dt, seed=int(rng.integers(2**31)))
    snr = rng.uniform(lo, hi, nm)
    n = gen.cnoise(rng, s.shape) * 10 ** (-snr[:, None] / 20)
    r = s + n.astype(dt)
    ctx.case(cls=cls.__name__, M=M, N=N, nmodes=nm, dtype=np.dtype(dt).name, snr=np.round(snr, 2))
    if dt is np.complex64: ctx.count("single precision")
    k = int(round(np.log2(M)))
    return s, r, snr, table(cls, M, dt), k


def lse(a, axis):
    m = a.max(axis, keepdims=True)
    return (np.log(np.exp(a - m).sum(axis, keepdims=True)) + m).squeeze(axis)


def llr_ref(x, pts, k, snr):
    """exact and max-log ratios ln p(b=1)/p(b=0), shape (N, k)"""
    lab = gen.all_label_bits(pts.size); d = -snr * abs(np.asarray(x, complex)[:, None] - pts[None, :]) ** 2
    e, m = np.empty((len(x), k)), np.empty((len(x), k))
    for b in range(k):
        one, zero = d[:, lab[:, b]], d[:, ~lab[:, b]]
        e[:, b] = lse(one, 1) - lse(zero, 1); m[:, b] = one.max(1) - zero.max(1)
    return e, m


def bitmap(pts, k):
    lab = gen.all_label_bits(pts.size)
    return np.array([[pts[~lab[:, b]], pts[lab[:, b]]] for b in range(k)]).transpose(0, 2, 1).copy()


def eps(dt): return np.finfo(dt).eps


def llr(ctx, rng, i):
    s, r, snr, pts, k = mk(ctx, rng, nmax=300, mmax=256, modes=(1,)); dt = s.dtype
    lin = float(10 ** (snr[0] / 10)); x = gen.raw(r)[0]
    if rng.random() < .3:
        x = x.copy(); j = rng.integers(0, x.size, 3); x[j] *= np.array(gen.loguniform(rng, 5, 1000), x.real.dtype); ctx.count("outliers")
    bm = bitmap(pts, k).astype(dt)
    a = [x, bm]; b = gen.digest(a)
    e, m = llr_ref(x, pts, k, lin)
    tol = 40 * eps(dt) * lin * (np.max(abs(x)) + 2) ** 2 + 1e-9 + (3e-5 if dt == np.complex64 else 0)
    sn = np.float32(lin) if dt == np.complex64 and rng.random() < .5 else lin
    if sn is not lin: tol += lin * 1e-6 * (np.max(abs(x)) + 2) ** 2
    f = gen.pick(rng, [sq.soft_l_value_demapper, pythran_dsp.soft_l_value_demapper])
    L = f(x, k, sn, bm); ctx.close(L, e, tol, "log-likelihood ratios")
    Lm = pythran_dsp.soft_l_value_demapper_minmax(x, k, sn, bm); ctx.close(Lm, m, tol, "max-log ratios")
    ctx.ok(gen.digest(a) == b, "the demapper altered its arguments")
    idx, mar = gen.nearest(x, pts); bits = gen.all_label_bits(pts.size)[idx]; sure = abs(Lm) > tol
    ctx.ok(np.all(((Lm > 0) == bits)[sure]), "sign of a max-log ratio is not the bit of the nearest point"); ctx.count("max-log signs", sure.sum())
    ctx.ok(np.all(abs(L - Lm) <= np.log(pts.size / 2 + 1e-9) + 2 * tol), "exact and max-log ratios differ by more than ln(M/2)")
    # a bit map of fewer bits than labelled
    if k > 1:
        L1 = f(x, k - 1, sn, bm); ctx.eq(L1, L[:, :-1], "ratios of the first bits")
    ctx.count("llr values", L.size); ctx.nontrivial()


def gmi_ref(rx, lab, pts, k, lin, minmax):
    e, m = llr_ref(rx, pts, k, lin); L = m if minmax else e
    b = gen.all_label_bits(pts.size)[lab]
    return 1 - np.mean(np.logaddexp(0, np.where(b, -L, L)), axis=0) / np.log(2)


def snr_ref(rx, lab, n):
    c = np.bincount(lab, minlength=n); c1 = np.maximum(c, 1)
    mu = (np.bincount(lab, rx.real, n) + 1j * np.bincount(lab, rx.imag, n)) / c1
    N0 = np.mean(abs(rx - mu[lab]) ** 2); S = np.sum(abs(mu) ** 2 * c) / rx.size
    return S / N0, S, N0


def gmi(ctx, rng, i):
    s, r, snr, pts, k = mk(ctx, rng, nmax=700, mmax=256); mm = rng.random() < .3; dt = s.dtype
    lab = gen.labels(np.array(s.bits), k); x = gen.raw(r).astype(complex)
    how = gen.pick(rng, ["estimate", "scalar", "vector"]); kw = dict(synced=True)
    if mm: kw["llr_minmax"] = True
    if how == "scalar": kw["snr"] = float(snr[0] + rng.uniform(-2, 2)); lin = np.full(x.shape[0], 10 ** (kw["snr"] / 10))
    elif how == "vector": kw["snr"] = snr + rng.uniform(-1, 1, snr.size); lin = 10 ** (kw["snr"] / 10)
    else:
        lin = np.array([snr_ref(x[m], lab[m], pts.size)[0] for m in range(x.shape[0])])
        c = np.array([np.bincount(lab[m], minlength=pts.size) for m in range(x.shape[0])])
        if np.any(c == 0): ctx.count("absent points")
        if np.any(lin > 1e7): return                      # every point occurs once: no noise left
    ctx.case(snr_from=how, minmax=mm); b = gen.digest(r)
    if rng.random() < .5: G, Gb = r.cal_gmi(**kw)
    else: G, Gb = s.cal_gmi(signal_rx=r, **kw)
    ctx.ok(gen.digest(r) == b, "cal_gmi altered the signal")
    ctx.ok(G.shape == (x.shape[0],) and Gb.shape == (x.shape[0], k), "shapes %s %s" % (G.shape, Gb.shape))
    for m in range(x.shape[0]):
        w = gmi_ref(x[m], lab[m], pts, k, lin[m], mm)
        tol = 1e-7 + (abs(w).max() + lin[m]) * (1e-5 if dt == np.complex64 else 1e-10) + (2e-3 if dt == np.complex64 and how == "estimate" else 0)
        ctx.close(Gb[m], w, tol, "GMI per bit of mode %d" % m); ctx.close(G[m], w.sum(), tol * k, "GMI of mode %d" % m)
        ctx.ok(np.all(Gb[m] <= 1 + 1e-9), "GMI per bit %s" % Gb[m])
        if how != "scalar" and not mm and x.shape[1] > 40 * pts.size:
            # with matched SNR the expectation is positive
            ctx.ok(G[m] > -12 * k / np.sqrt(x.shape[1]), "GMI %g is negative" % G[m])
    ctx.count("gmi values", G.size); ctx.nontrivial()


def mi_ref(x, t, pts, N0):
    d = -(abs(x[:, None] - pts[None, :]) ** 2 - abs(x - t)[:, None] ** 2) / N0
    return np.log2(pts.size) - np.mean(lse(d, 1)) / np.log(2)


def mi(ctx, rng, i):
    s, r, snr, pts, k = mk(ctx, rng, nmax=500, mmax=128); dt = s.dtype; fast = rng.random() < .7
    if not fast and pts.size * s.shape[1] > 6000: s, r = s[:, :6000 // pts.size + 1], r[:, :6000 // pts.size + 1]
    if rng.random() < .2:
        r = r.copy(); r[0, int(rng.integers(r.shape[1]))] *= np.array(30, r.real.dtype); ctx.count("outliers")
    x, t = gen.raw(r).astype(complex), gen.raw(s).astype(complex); lab = gen.nearest(t, pts)[0].reshape(t.shape)
    how = gen.pick(rng, ["estimate", "scalar", "vector"]); kw = dict(synced=True, fast=fast)
    if how == "scalar": kw["snr"] = float(snr[0]); lin = np.full(x.shape[0], 10 ** (snr[0] / 10))
    elif how == "vector": kw["snr"] = snr; lin = 10 ** (snr / 10)
    else:
        lin = np.array([snr_ref(x[m], lab[m], pts.size)[0] for m in range(x.shape[0])])
        if np.any(lin > 1e6): return
    ctx.case(snr_from=how, fast=fast, N=x.shape[1]); b = gen.digest(r)
    I = s.cal_mi(signal_rx=r, **kw)
    ctx.ok(gen.digest(r) == b, "cal_mi altered the signal"); ctx.ok(np.shape(I) == (x.shape[0],), "shape %s" % (np.shape(I),))
    for m in range(x.shape[0]):
        if fast: w = mi_ref(x[m], t[m], pts, 1 / lin[m])
        else:
            n = x[m] - t[m]                                # every noise sample with every point
            w = mi_ref((pts[:, None] + n[None, :]).ravel(), np.repeat(pts, n.size), pts, 1 / lin[m])
        tol = (1 + abs(w)) * (1e-8 if dt == np.complex128 else 3e-4) + (0 if dt == np.complex128 else lin[m] * 2e-5)
        ctx.close(I[m], w, tol, "mutual information of mode %d" % m)
        ctx.ok(I[m] <= k + 1e-4 or fast, "mutual information %g above log2(M)" % I[m])
        y = sq.cal_mi(gen.raw(r)[m], gen.raw(s)[m], np.asarray(s.coded_symbols), 1 / float(lin[m]), fast)
        ctx.close(y, I[m], tol, "core.cal_mi")
    ctx.count("mi values", I.size); ctx.nontrivial()


def snr_est(ctx, rng, i):
    s, r, snr, pts, k = mk(ctx, rng, nmin=2, nmax=4000); dt = s.dtype
    g = rng.uniform(.2, 3, (s.shape[0], 1)); r = r * g.astype(r.real.dtype)          # the estimate is scale invariant
    x, lab = gen.raw(r).astype(complex), gen.labels(np.array(s.bits), k); b = gen.digest(r)
    vb = rng.random() < .6
    o = r.est_snr(synced=True, verbose=True) if vb else (s.est_snr(signal_rx=r, synced=True),)
    ctx.ok(gen.digest(r) == b, "est_snr altered the signal")
    for m in range(x.shape[0]):
        if np.any(np.bincount(lab[m], minlength=pts.size) == 0): ctx.count("absent points")
        q, S, N0 = snr_ref(x[m], lab[m], pts.size); rt = 1e-9 if dt == np.complex128 else 1e-3
        if N0 < S * (1e-7 if dt == np.complex64 else 1e-14): continue
        rt = rt + 30 * eps(dt) * np.sqrt(S / N0) + 300 * eps(dt) ** 2 * S / N0
        ctx.close(o[0][m] / q, 1, rt, "SNR of mode %d (%g)" % (m, q))
        if vb:
            ctx.close(o[1][m] / S, 1, rt, "signal power"); ctx.close(o[2][m] / N0, 1, rt, "noise power")
            ctx.close((o[1][m] + o[2][m]) / np.mean(abs(x[m]) ** 2), 1, 1e-4 if dt == np.complex64 else 1e-9, "signal and noise power add up to the total power")
        ctx.count("snr estimates")
        if x.shape[1] > 100 * pts.size:
            # N0 estimated from N - M degrees of freedom (complex): standard deviation 1/sqrt(N) ; signal power of the sent symbols
            want = 10 ** (snr[m] / 10) * np.mean(abs(pts[lab[m]]) ** 2); d = o[0][m] / want - 1
            N = x.shape[1]; bias = pts.size / N * (1 + 1 / want)
            ctx.ok(abs(d) < 7 * (1 + np.sqrt(2 / want)) / np.sqrt(N) + 2 * bias, "estimated SNR %g of %g" % (o[0][m], want)); ctx.count("statistical snr")
    ctx.nontrivial()


def limits(ctx, rng, i):
    s, r, snr, pts, k = mk(ctx, rng, nmin=200, nmax=2000, mmax=256); nm, N = s.shape; dt = s.dtype
    n = gen.cnoise(rng, s.shape); step = 10.0
    # the minimum distance of the alphabet decides where the information saturates
    top = float(10 * np.log10(150 / gen.dmin(pts) ** 2)); lv = np.array([-12.0, -2, 5, 10, 15, 20, 25]); lv = np.append(lv[lv < top], [top, 70])
    G, I = [], []
    for q in lv:
        x = s + (n * 10 ** (-q / 20)).astype(dt)
        G.append(x.cal_gmi(synced=True, snr=float(q))[0]); I.append(x.cal_mi(synced=True, snr=float(q)))
    G, I = np.array(G), np.array(I); t = 8 / np.sqrt(N)
    ctx.ok(np.all(np.isfinite(G)) and np.all(np.isfinite(I)), "not finite")
    ctx.close(G[-2:], np.full((2, nm), k), 2e-3, "GMI at high SNR"); ctx.close(I[-2:], np.full((2, nm), k), 2e-3, "MI at high SNR"); ctx.count("saturated", 4 * nm)
    lim = np.log2(1 + 10 ** (lv / 10))[:, None]
    ctx.ok(np.all(G <= np.minimum(k, lim) + 1e-6 + t * np.sqrt(k)), "GMI above the channel capacity"); ctx.ok(np.all(I <= np.minimum(k, lim) + t * np.sqrt(k)), "MI above the capacity")
    ctx.ok(np.all(np.diff(G, axis=0) > -t * np.sqrt(k)) and np.all(np.diff(I, axis=0) > -t * np.sqrt(k)), "information falls with SNR: %s %s" % (G.T, I.T))
    ctx.ok(np.all(G <= I + t * np.sqrt(k)), "GMI above MI: %s" % (G - I).max()); ctx.count("orderings", G.size)
    ctx.nontrivial()


SCENARIOS = [("llr", llr, 500, 10000), ("gmi", gmi, 500, 9000), ("mi", mi, 350, 6000), ("snr", snr_est, 500, 10000), ("limits", limits, 100, 1500)]

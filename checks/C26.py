"""C26 theoretical curves against exact integrals and against Monte-Carlo runs through the library's own channel and metrics."""
import numpy as np
from scipy import integrate
from scipy.special import erfc, ndtr
from scipy.stats import binom, norm
import gen
from vp import Skip
from qampy import theory, signals, impairments

RULE = ("every square QAM, PSK and 4-PAM order and hybrid pair over -5..45 dB: the curves are compared with independently evaluated exact probabilities (product form, angular integral), "
        "checked for range and monotonicity, and the library's modulator, noise loading and error counters are run against them with binomial confidence at 6 sigma; mutual-information "
        "curves against Gauss-Hermite quadrature; non-trivial: error probability between 1e-9 and saturation, or at least 30 errors counted")
REQUIRED = ["long simulations", "curves", "curve points", "monte carlo", "errors counted", "hybrid runs", "information values", "shaped alphabets", "evm runs", "hybrid points", "per-mode runs"]
SQ = [4, 16, 64, 256, 1024]
Q = lambda x: .5 * erfc(np.asarray(x) / np.sqrt(2))


def exact_ser_qam(snr, M):
    p = 2 * (1 - 1 / np.sqrt(M)) * Q(np.sqrt(3 * snr / (M - 1)))
    return 2 * p - p ** 2


def exact_ber_qam(snr, M):
    """bit error probability of binary-reflected Gray PAM per dimension, summed over all transitions"""
    L = int(round(np.sqrt(M))); lv = np.arange(-(L - 1), L, 2) / np.sqrt(2 * (M - 1) / 3); g = np.arange(L) ^ (np.arange(L) >> 1)
    ed = np.concatenate([[-np.inf], (lv[1:] + lv[:-1]) / 2, [np.inf]]); sg = np.sqrt(1 / (2 * np.atleast_1d(snr)))
    w = np.array([[bin(a ^ b).count("1") for b in g] for a in g]) / np.log2(L) / L
    # tails from whichever side is small keeps the relative accuracy
    out = np.zeros(sg.size)
    for a in range(L):
        for b in range(L):
            if b != a:
                lo, hi = (ed[b] - lv[a]) / sg, (ed[b + 1] - lv[a]) / sg
                out += w[a, b] * (Q(lo) - Q(hi) if b > a else Q(-hi) - Q(-lo))
    return out


def exact_ser_psk(snr, M):
    f = lambda t: np.exp(-snr * np.sin(np.pi / M) ** 2 / np.sin(t) ** 2)
    return integrate.quad(f, 0, np.pi * (1 - 1 / M), epsabs=0, epsrel=1e-10, points=[np.pi / 2], limit=200)[0] / np.pi


def grid(rng): return np.sort(rng.uniform(-5, 45, int(rng.integers(3, 40))))


def falling(ctx, y, what, top=1):
    ctx.ok(np.all(np.isfinite(y)) and np.all(y >= 0) and np.all(y <= top), what + " is no probability", y=y); d = np.diff(y)
    ctx.ok(np.all(d <= 0), what + " rises with the SNR"); ctx.ok(np.all((d < 0) | (y[1:] < 1e-280)), what + " is flat"); ctx.count("curves"); ctx.count("curve points", y.size)


def curves(ctx, rng, i):
    db = grid(rng); snr = 10 ** (db / 10); M = gen.pick(rng, SQ); kind = gen.pick(rng, ["ser", "ber", "evm", "psk", "pam"]); ctx.case(kind=kind, M=M, points=db.size, first=db[0])
    h = gen.digest([db, snr])
    if kind == "ser":
        y = theory.ser_vs_es_over_n0_qam(snr, M); falling(ctx, y, "QAM symbol error rate"); e = exact_ser_qam(snr, M)
        g = e > 1e-290; ctx.close(y[g] / e[g], np.ones(g.sum()), 1e-9, "QAM symbol error rate over the exact one"); ctx.ok(np.all(y[~g] < 1e-288), "QAM symbol error rate does not vanish")
    elif kind in ("ber", "evm"):
        # the formula counts the nearest transitions only: a lower bound that is tight where errors are rare
        y = theory.ber_vs_es_over_n0_qam(snr, M) if kind == "ber" else theory.ber_vs_evm_qam(-db, M); falling(ctx, y, "QAM bit error rate", .5)
        e = exact_ber_qam(snr, M); g = (e > 1e-250) & (e < .1)
        ctx.ok(np.all(y[g] <= e[g] * (1 + 1e-6)), "bit error rate above the exact one by %g" % (np.max(y[g] / e[g], initial=0)))
        ctx.ok(np.all(y[g] >= e[g] * (1 - 8 * np.sqrt(e[g]) - 1e-6)), "bit error rate far below the exact one", ratio=y[g] / e[g], exact=e[g])
        g = (e > 1e-250) & (e < 1e-4); ctx.close(y[g] / e[g], np.ones(g.sum()), .02, "bit error rate over the exact one")
        n = 1.5 * snr / (M - 1) * 2; L = np.sqrt(M); ctx.close(np.where(y > 1e-300, y / np.maximum(2 * (1 - 1 / L) / np.log2(L) * Q(np.sqrt(n)), 1e-305), 1), np.ones(y.size), 1e-8, "bit error rate over the nearest-neighbour formula")
    elif kind == "psk":
        M = gen.pick(rng, [4, 8, 16, 32, 64]); y = theory.ser_vs_es_over_n0_psk(snr, M); falling(ctx, y, "PSK symbol error rate"); ctx.case(M=M)
        for k in rng.integers(0, y.size, 4):
            e = exact_ser_psk(snr[k], M)          # union bound: exact in [y - y^2/4, y]
            if e > 1e-200: ctx.ok(y[k] * (1 - y[k] / 4) * (1 - 1e-7) <= e <= y[k] * (1 + 1e-7), "PSK symbol error rate %g, exact %g" % (y[k], e))
    else:
        y = theory.ser_vs_es_over_n0_4pam(snr); falling(ctx, y, "4-PAM symbol error rate", .75); e = 1.5 * Q(np.sqrt(2 * snr / 5))
        ctx.close(np.where(e > 1e-300, y / np.maximum(e, 1e-305), 1), np.ones(y.size), 1e-9, "4-PAM symbol error rate over the exact one")
    ctx.ok(gen.digest([db, snr]) == h, "argument altered"); k = int(rng.integers(y.size))
    one = {"ser": lambda: theory.ser_vs_es_over_n0_qam(snr[k], M), "ber": lambda: theory.ber_vs_es_over_n0_qam(snr[k], M), "evm": lambda: theory.ber_vs_evm_qam(-db[k], M),
           "psk": lambda: theory.ser_vs_es_over_n0_psk(snr[k], M), "pam": lambda: theory.ser_vs_es_over_n0_4pam(snr[k])}[kind]()
    ctx.close(one, y[k], 1e-12 * max(y[k], 1e-300) + 1e-300, "single value against the array"); ctx.nontrivial()


def binomial(ctx, k, n, lo, hi, what):
    """k of n events for a probability in [lo, hi]: two-sided at 6.5 sigma"""
    t = norm.sf(6.5); a, b = binom.ppf(t, n, min(max(lo, 0), 1)), binom.isf(t, n, min(max(hi, 0), 1))
    ctx.ok(a <= k <= b, "%s: counted %d of %d (rate %g) for a probability of %g..%g, accepted %d..%d" % (what, k, n, k / n, lo, hi, a, b)); ctx.count("errors counted", k)


def mc(ctx, rng, i):
    psk = rng.random() < .3; M = gen.pick(rng, [4, 8, 16] if psk else SQ[:-1] + [32, 128]); nm = gen.more(rng, gen.pick(rng, [1, 1, 2, 3])); N = gen.loguniform(rng, 2**12, 2**15); fb = float(gen.pick(rng, [1, 20e9]))
    dt = gen.pick(rng, gen.DT); cls = signals.SignalPSKGrayCoded if psk else signals.SignalQAMGrayCoded
    s = cls(M, N, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31)))
    p = 10 ** rng.uniform(-3, -.4)                       # symbol error rate looked for
    g = np.linspace(-5, 45, 2001); e = exact_ser_qam(10 ** (g / 10), M) if not psk else theory.ser_vs_es_over_n0_psk(10 ** (g / 10), M)
    db = float(np.interp(-np.log10(p), -np.log10(np.maximum(e, 1e-100)), g)); snr = 10 ** (db / 10)
    ctx.case(M=M, psk=psk, nmodes=nm, N=N, snr=round(db, 2), dtype=np.dtype(dt).name)
    r = impairments.change_snr(s, db) if rng.random() < .7 else impairments.simulate_transmission(s, snr=db)
    ser, ber, evm = np.atleast_1d(r.cal_ser(synced=True)), np.atleast_1d(r.cal_ber(synced=True)), np.atleast_1d(r.cal_evm(synced=True))
    P = np.mean(abs(gen.raw(s)) ** 2, axis=1); P = P.mean()   # noise is set against the power of the drawn symbols
    snr, k = snr / P, int(np.log2(M))
    if nm > 1: ctx.count("per-mode runs", nm)
    for m in range(nm):
        if psk: t = float(theory.ser_vs_es_over_n0_psk(snr, M)); lo, hi = t - t * t / 4, t
        elif M in SQ:
            # exact rate for the symbols that were drawn: corner, edge and inner points
            lv = np.sqrt(M) - 1; a = 3 * snr / (M - 1); x = gen.raw(s)[m] * np.sqrt(2 * (M - 1) / 3); q = Q(np.sqrt(a))
            pi, pq = (np.where(abs(abs(v) - lv) < .5, 1, 2) * q for v in (x.real, x.imag)); lo = hi = float(np.mean(pi + pq - pi * pq))
            t = float(theory.ser_vs_es_over_n0_qam(snr, M)); ctx.ok(abs(lo - t) < 7 * q * np.sqrt(1 / N) + 1e-3 * t + 2 * np.sqrt(q / N) , "theory %g against the drawn symbols %g" % (t, lo))
        else: q = Q(np.sqrt(gen.dmin(gen.ref_qam(M)) ** 2 * snr / 2)); lo, hi = 1.5 * q * (1 - q), 4 * q
        binomial(ctx, round(ser[m] * N), N, lo, hi, "symbol errors of mode %d" % m)
        # every wrong symbol has at least one wrong bit; near errors have exactly one for Gray labelled square QAM and PSK
        ctx.ok(ser[m] / k - 1e-12 <= ber[m] <= ser[m], "bit error rate %g for symbol error rate %g" % (ber[m], ser[m]))
        if not psk and M in SQ:
            b, bt = float(exact_ber_qam(np.array([snr]), M)[0]), float(theory.ber_vs_es_over_n0_qam(snr, M)); n = N * k; sd = np.sqrt(k * max(b, 1 / n) / n) * 2.2
            ctx.ok(abs(ber[m] - b) <= 7 * sd + 10 / n, "bit error rate %g, exact %g" % (ber[m], b))
            if b < .03: ctx.ok(abs(ber[m] - bt) <= 7 * sd + 10 / n + .1 * b, "bit error rate %g, formula %g" % (ber[m], bt))
        w = np.sqrt(1 / snr); ctx.close(evm[m], w, 7 * w / 2 / np.sqrt(N) * 1.5 + 1e-6, "EVM against the noise"); ctx.count("evm runs")
        ev = theory.ber_vs_evm_qam(20 * np.log10(evm[m]), M) if not psk and M in SQ else None
        if ev is not None and 1e-3 < ber[m] < .03: ctx.ok(abs(ber[m] - ev) <= 7 * sd + 10 / n + .3 * b, "bit error rate %g, from the EVM %g" % (ber[m], ev))
        ctx.count("monte carlo")
    if ser.min() * N > 30: ctx.nontrivial()


def hybrid(ctx, rng, i):
    M1, M2 = (gen.pick(rng, SQ) for _ in range(2)); fr = float(rng.uniform(0, 1)) if rng.random() < .8 else float(gen.pick(rng, [0, 1, .5])); pr = float(10 ** rng.uniform(-1.5, 1.5)); db = grid(rng)
    ctx.case(M=(M1, M2), fr=fr, pr=pr, n=db.size)
    y = theory.hybrid_qam_ber_vs_esn0(db, pr, fr, M1, M2); snr = 10 ** (db / 10); d = (1 - fr) + fr * pr; b = lambda x, M: 2 * (1 - 1 / np.sqrt(M)) / np.log2(np.sqrt(M)) * Q(np.sqrt(3 * x / (M - 1)))
    k1, k2 = (1 - fr) * np.log2(M1), fr * np.log2(M2); e = (k1 * b(snr / d, M1) + k2 * b(pr * snr / d, M2)) / (k1 + k2)
    falling(ctx, y, "hybrid bit error rate", .5); ctx.close(np.where(e > 1e-300, y / np.maximum(e, 1e-305), 1), np.ones(y.size), 1e-7, "hybrid bit error rate over the weighted one"); ctx.count("hybrid points", y.size)
    ctx.close(theory.hybrid_qam_ber_vs_esn0(db[0], 1 / pr, 1 - fr, M2, M1), y[0], 1e-9 * y[0] + 1e-300, "exchanged formats")
    ctx.nontrivial()


def hybrid_mc(ctx, rng, i):
    M1, M2 = (gen.pick(rng, SQ[:4]) for _ in range(2)); fr = gen.pick(rng, [.25, .5, .75, 1 / 3]); N = 12 * gen.loguniform(rng, 800, 2500)
    o = signals.TDHQAMSymbols((M1, M2), N, fr=fr, nmodes=1, seed=int(rng.integers(2**31))); pr = float(np.mean(abs(gen.raw(o.symbols_M2)) ** 2) / np.mean(abs(gen.raw(o.symbols_M1)) ** 2))
    ctx.case(M=(M1, M2), fr=fr, N=N)
    # noise at a bit error rate of about 1e-2 from the formula
    g = np.linspace(0, 45, 400); db = float(np.interp(2 + rng.uniform(-.3, .5), -np.log10(np.maximum(theory.hybrid_qam_ber_vs_esn0(g, pr, fr, M1, M2), 1e-90)), g))
    x = gen.raw(o); x = impairments.core.impairments.change_snr(x, db, 1, 1); one = np.arange(x.shape[1]) % o.f_M < o.f_M1; err = n = 0
    for sel, s, sc in ((one, o.symbols_M1, 1), (~one, o.symbols_M2, np.sqrt(o.powratio))):
        w = gen.ref_qam(s.M); cls = type(s); al = np.array(cls.from_bit_array(gen.all_label_bits(s.M).reshape(1, -1), s.M))[0]; k = int(np.log2(s.M))
        p = np.sqrt(np.mean(abs(al) ** 2)); a = al / p; sc = np.sqrt(np.mean(abs(gen.raw(s)) ** 2)); tx = gen.nearest(gen.raw(s)[0] , a * (gen.dmin(a) and scale(gen.raw(s)[0], a)))[0]
        rx = gen.nearest(x[0, sel], a * scale(gen.raw(s)[0], a))[0]; lb = gen.all_label_bits(s.M); err += (lb[tx] != lb[rx]).sum(); n += tx.size * k
    e = float(theory.hybrid_qam_ber_vs_esn0(db, pr, fr, M1, M2)); ctx.ok(abs(err / n - e) <= 7 * 2.2 * np.sqrt(np.log2(max(M1, M2)) * e / n) + .12 * e + 10 / n, "bit error rate %g, formula %g" % (err / n, e))
    ctx.count("errors counted", err); ctx.count("hybrid runs"); ctx.nontrivial()


def scale(x, a):
    """amplitude that maps the alphabet a onto the symbols x (both on a grid): ratio of the smallest spacings"""
    u = np.unique(np.round(x.real, 6)); v = np.unique(np.round(a.real, 6))
    return np.diff(u).min() / np.diff(v).min()


def hermite_mi(pts, snr, n=24):
    t, w = np.polynomial.hermite.hermgauss(n); sg = np.sqrt(1 / snr); z = (t[:, None] + 1j * t[None, :]).ravel() * sg; W = (w[:, None] * w[None, :]).ravel() / np.pi
    tot = 0
    for p in pts:
        a = -snr * abs(p + z[:, None] - pts[None, :]) ** 2; m = a.max(1); l = np.log(np.exp(a - m[:, None]).sum(1)) + m + snr * abs(z) ** 2
        tot += (W * l).sum() / np.log(2)
    return np.log2(pts.size) - tot / pts.size


def information(ctx, rng, i):
    M = gen.pick(rng, [4, 16, 64]); s = signals.SignalQAMGrayCoded(M, 64); pts = np.array(s.coded_symbols); db = float(rng.uniform(-8, 28)); snr = 10 ** (db / 10); k = np.log2(M)
    n = 400 if M == 64 else 1500; e = hermite_mi(pts, snr); f = float(rng.uniform(.3, 4)) if rng.random() < .4 else 1; a = pts * f; h = gen.digest(a)
    ctx.case(M=M, snr=round(db, 2))
    y = float(theory.sim_mi_mc(a, db, n)); ctx.ok(gen.digest(a) == h, "the alphabet was altered")
    tol = 7 * 1.6 / np.sqrt(n) if e < k - .01 else 7 * .3 / np.sqrt(n)      # the loss per noise sample, averaged over the alphabet, has a deviation below 1.5 bit
    ctx.close(y, e, tol, "mutual information"); ctx.ok(y <= k + 1e-9, "more information than bits")
    v = np.sort(rng.uniform(-8, 28, 3)); g = theory.cal_gmi(M, v, n); ctx.ok(np.shape(g) == (3,), "GMI curve of shape %s" % (np.shape(g),))
    for d, x in zip(v, g):
        mi = hermite_mi(pts, 10 ** (d / 10)); ctx.ok(x <= mi + tolg(k, n), "GMI %g above the mutual information %g" % (x, mi)); ctx.close(x, hermite_gmi(s, pts, 10 ** (d / 10)), tolg(k, n), "GMI"); ctx.ok(x <= k + 1e-9, "more information than bits")
    ctx.count("information values", 4); ctx.nontrivial()


def precise(ctx, rng, i):
    """long simulations, against quadrature to a few hundredths of a bit: where the information depends on the SNR most"""
    M = gen.pick(rng, [4, 8, 16, 16, 32]); s = signals.SignalQAMGrayCoded(M, 64) if M != 8 or rng.random() < .5 else signals.SignalPSKGrayCoded(8, 64); pts = np.array(s.coded_symbols).ravel(); k = np.log2(M)
    db = float(rng.uniform(0, 3 * k)); snr = 10 ** (db / 10); n = {4: 300000, 8: 300000, 16: 200000, 32: 60000}[M]; f = float(rng.uniform(.3, 4)) if rng.random() < .5 else 1; ctx.case(M=M, snr=round(db, 2), cls=type(s).__name__)
    y = float(theory.sim_mi_mc(pts * f, db, n)); ctx.close(y, hermite_mi(pts, snr), 7 * 1.6 / np.sqrt(n), "mutual information of %d samples" % n)
    if type(s) is signals.SignalQAMGrayCoded:
        n = 100000 if M <= 16 else 30000; g = float(np.ravel(theory.cal_gmi(M, db, n))[0]); ctx.close(g, hermite_gmi(s, pts, snr), 7 * 1.6 * np.sqrt(k) / np.sqrt(n), "GMI of %d samples" % n)
    ctx.count("long simulations"); ctx.nontrivial()


def tolg(k, n): return 7 * 1.6 * k / 2 / np.sqrt(n)


def hermite_gmi(s, pts, snr, n=16):
    k = int(np.log2(pts.size)); lab = gen.all_label_bits(pts.size); al = np.array(type(s).from_bit_array(lab.reshape(1, -1), pts.size))[0]
    t, w = np.polynomial.hermite.hermgauss(n); z = (t[:, None] + 1j * t[None, :]).ravel() / np.sqrt(snr); W = (w[:, None] * w[None, :]).ravel() / np.pi; loss = 0
    for j, p in enumerate(al):
        a = -snr * abs(p + z[:, None] - al[None, :]) ** 2 + snr * abs(z)[:, None] ** 2; A = np.exp(a); tot = np.log2(A.sum(1))
        for b in range(k): loss += (W * (tot - np.log2(A[:, lab[:, b] == lab[j, b]].sum(1)))).sum()
    return k - loss / al.size


def shaped(ctx, rng, i):
    M = gen.pick(rng, SQ[:4] + [32, 128]); pts = np.array(signals.SignalQAMGrayCoded(M, 10).coded_symbols) * (float(rng.uniform(.5, 3)) if rng.random() < .3 else 1); nu = float(rng.uniform(0, 4)); ctx.case(M=M, nu=nu); h = gen.digest(pts)
    x, p = theory.cal_ps_probablts(pts, nu); ctx.ok(gen.digest(pts) == h, "the alphabet was altered"); u = np.unique(pts.real); e = np.exp(-nu * u ** 2); e /= e.sum(); ctx.eq(x, u, "levels"); ctx.close(p, e, 1e-12, "probabilities")
    N = 20000; u = np.unique(np.round(pts.real, 9)); x, p = u, np.exp(-nu * u ** 2) / np.exp(-nu * u ** 2).sum(); y = theory.generate_ps_symbols(N, x, p, normalize=False); ctx.ok(y.shape == (N,), "shape %s" % (y.shape,))
    for v in (y.real, y.imag):
        c = np.array([(v == a).sum() for a in x]); ctx.ok(c.sum() == N, "levels outside the alphabet"); ctx.ok(np.all(abs(c - N * p) <= 7 * np.sqrt(N * p * (1 - p)) + 8), "frequencies %s for %s" % (c / N, p))
    ctx.close(np.mean(y.real * y.imag), 0, 7 * np.sum(p * x ** 2) / np.sqrt(N), "quadratures are correlated")
    y = theory.generate_ps_symbols(N, x, p) if rng.random() < .5 else theory.generate_ps_symbols(N, x, p, normalize=True); ctx.close([y.mean(), np.mean(abs(y) ** 2)], [0, 1], 1e-9, "normalised mean and power")
    ctx.ok(np.unique(np.round(y.real, 6)).size <= x.size, "more levels than the alphabet"); ctx.count("shaped alphabets"); ctx.nontrivial()


SCENARIOS = [("curves", curves, 600, 12000), ("monte_carlo", mc, 160, 4000), ("hybrid", hybrid, 200, 3000), ("hybrid_mc", hybrid_mc, 60, 1000), ("precise", precise, 24, 300), ("information", information, 60, 800), ("shaped", shaped, 60, 800)]

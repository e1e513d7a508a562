"""C02 constellations: exhaustive over format, order, dtype and constructor; every point and every pair of points is inspected."""
import itertools
import numpy as np
import gen
from qampy import signals, theory

RULE = ("exhaustive: {QAM 4..1024 (square and cross), PSK 2..32} x {complex64, complex128} x {random bits, given bits, given symbols, "
        "resampled, pilot payload/pilots}; every pair of points is compared; non-trivial: alphabet of at least two points inspected")
REQUIRED = ["points inspected", "labels inspected", "neighbour pairs inspected", "theory tables inspected"]
COMBOS = [(c, M, dt, how) for c, Ms in (("qam", gen.QAM), ("psk", gen.PSK)) for M in Ms for dt in (np.complex128, np.complex64)
          for how in ("created", "bits", "symbols", "resampled", "pilots") if not (c == "psk" and how in ("resampled", "pilots"))]
CLS = {"qam": signals.SignalQAMGrayCoded, "psk": signals.SignalPSKGrayCoded}


def ref_points(c, M):
    if c == "qam":
        return gen.ref_qam(M)
    return np.exp(2j * np.pi * np.arange(M) / M + (1j * np.pi / 4 if M == 4 else 0))


def check_alphabet(ctx, a, c, M, tol, what):
    a = np.asarray(a).astype(np.complex128)
    ctx.ok(a.ndim == 1 and a.size == M, "%s has %s points instead of %d" % (what, a.shape, M))
    d = gen.dmin(a)
    ref = ref_points(c, M)
    ctx.ok(d > 0.5 * gen.dmin(ref), what + ": points coincide (minimum distance %g)" % d)
    ctx.ok(abs(np.mean(abs(a)**2) - 1) < tol, what + ": mean power %r" % np.mean(abs(a)**2))
    ctx.ok(abs(a.mean()) < tol or M == 2 and abs(a.mean()) < tol, what + ": not centred")
    if c == "qam":
        ctx.ok(gen.same_set(a, ref, 4 * tol), what + ": not the %d-QAM grid" % M)
    else:   # any rotation of the regular M-gon is a PSK constellation, the offset of the format is not part of the property
        z = a / a[0]
        ctx.ok(gen.same_set(z, np.exp(2j * np.pi * np.arange(M) / M), 8 * tol), what + ": not a regular %d-gon" % M)
        ctx.ok(np.all(abs(abs(a) - 1) < 4 * tol), what + ": not on the unit circle")
    ctx.count("points inspected", M)


def check_labels(ctx, s, c, M, tol, what):
    k = int(round(np.log2(M)))
    a = np.asarray(s.coded_symbols).astype(np.complex128)
    # label of each point, through demodulation and through modulation
    lab1 = gen.labels(np.asarray(s.demodulate(np.asarray(s.coded_symbols).reshape(1, -1).copy())).reshape(M, k), k).ravel()
    ctx.eq(np.sort(lab1), np.arange(M), what + ": labels obtained by demodulating all points")
    mod = np.asarray(s.modulate(gen.all_label_bits(M).reshape(1, -1))).ravel().astype(np.complex128)
    ctx.ok(mod.size == M, what + ": modulating all labels")
    ctx.close(mod[lab1], a, tol, what + ": modulation and demodulation use different labels")
    lab2 = gen.labels(np.asarray(s.demodulate(np.arange(M))).reshape(M, k), k).ravel()
    ctx.eq(lab2, lab1, what + ": labels by index")
    ctx.ok(s.Nbits == k and s.M == M, what + ": M=%s Nbits=%s" % (s.M, s.Nbits))
    bm = np.asarray(s._bitmap_mtx).astype(np.complex128)
    ctx.ok(bm.shape == (k, M // 2, 2), what + ": bit map has shape %s" % (bm.shape,))
    bits = gen.all_label_bits(M)
    for b in range(k):
        for v in range(2):
            want = mod[bits[:, b] == v]
            ctx.ok(gen.same_set(bm[b, :, v], want, 4 * tol) and gen.dmin(np.append(bm[b, :, v], 99)) > 1e-3, what + ": bit map of bit %d value %d" % (b, v))
    ctx.count("labels inspected", M)
    if c == "psk" or M in gen.SQUARE:
        d = abs(a[:, None] - a[None, :])
        dm = gen.dmin(a)
        i, j = np.nonzero((d > 0) & (d < dm * 1.01))
        h = np.array([bin(x).count("1") for x in (lab1[i] ^ lab1[j])])
        ctx.ok(i.size >= M, what + ": too few neighbours")
        ctx.ok(np.all(h == 1), what + ": neighbours differ in more than one bit", pairs=[(a[i[q]], a[j[q]], lab1[i[q]], lab1[j[q]]) for q in np.nonzero(h != 1)[0][:3]])
        ctx.count("neighbour pairs inspected", i.size // 2)


def classes(ctx, rng, i):
    c, M, dt, how = COMBOS[i % len(COMBOS)]
    cls = CLS[c]
    tol = 1e-12 if dt == np.complex128 else 2e-6
    ctx.case(format=c, M=M, dtype=np.dtype(dt).name, how=how)
    k = int(round(np.log2(M)))
    nm = gen.more(rng, int(rng.integers(1, 4)))
    if how == "created":
        s = cls(M, int(rng.integers(1, 50)), nmodes=nm, dtype=dt, fb=gen.pick(rng, [1, 25e9]))
    elif how == "bits":
        s = cls.from_bit_array(rng.integers(0, 2, (nm, k * int(rng.integers(1, 40)))).astype(bool), M, dtype=dt)
    elif how == "symbols":
        x = np.tile(ref_points(c, M), (nm, 3)).astype(dt)
        s = cls.from_symbol_array(rng.permuted(x, axis=1), M=M, dtype=dt)
    elif how == "resampled":
        s = signals.ResampledQAM(M, 400, fb=25e9, fs=50e9, nmodes=nm, dtype=dt, resamplekwargs=dict(beta=0.2))
    else:
        p = signals.SignalWithPilots(M, 512, 64, 16, nmodes=nm, dtype=dt, Mpilots=gen.pick(rng, [4, 16]))
        check_alphabet(ctx, p.pilots.coded_symbols if hasattr(p.pilots, "coded_symbols") else p._pilots.coded_symbols, "qam", p.Mpilots, tol, "pilot alphabet")
        check_alphabet(ctx, p.coded_symbols, "qam", M, tol, "payload alphabet")
        s = p.symbols
    check_alphabet(ctx, s.coded_symbols, c, M, tol, "alphabet")
    check_labels(ctx, s, c, M, tol * 4, "labels")
    ctx.ok(np.asarray(s.coded_symbols).dtype == dt, "alphabet dtype %s" % np.asarray(s.coded_symbols).dtype)
    ctx.nontrivial()


def tables(ctx, rng, i):
    M = (gen.QAM + [2])[i % (len(gen.QAM) + 1)]
    ctx.case(M=M)
    a = np.asarray(theory.cal_symbols_qam(M))
    sc = theory.cal_scaling_factor_qam(M)
    if M > 2:
        check_alphabet(ctx, a / np.sqrt(sc), "qam", M, 1e-12, "theory.cal_symbols_qam")
        ctx.ok(abs(a.real - np.round(a.real)).max() < 1e-9 and abs(a.imag - np.round(a.imag)).max() < 1e-9, "theory.cal_symbols_qam: not integer levels")
        fn = theory.cal_symbols_square_qam if M in gen.SQUARE else theory.cal_symbols_cross_qam
        ctx.ok(gen.same_set(fn(M), a, 1e-9), "square/cross table differs")
    ctx.ok(abs(np.mean(abs(a)**2) / sc - 1) < 1e-12, "theory.cal_scaling_factor_qam: %r" % sc)
    g = np.asarray(theory.gray_code_qam(M))
    ctx.eq(np.sort(g), np.arange(M), "theory.gray_code_qam is not a permutation")
    P = gen.PSK[i % len(gen.PSK)]
    check_alphabet(ctx, theory.cal_symbols_psk(P), "psk", P, 1e-12, "theory.cal_symbols_psk")
    # QPSK lies on the diagonals, every other PSK starts on the real axis
    ctx.ok(abs(np.asarray(theory.cal_symbols_psk(P))**P - (-1 if P == 4 else 1)).max() < 1e-9, "theory.cal_symbols_psk: orientation")
    # labels follow the position: Gray neighbours in the table itself
    if M in gen.SQUARE:
        x = a / 2
        d = abs(x[:, None] - x[None, :])
        p, q = np.nonzero(abs(d - 1) < 1e-6)
        ctx.ok(all(bin(v).count("1") == 1 for v in (g[p] ^ g[q])), "theory.gray_code_qam: neighbours differ in more than one bit")
    ctx.count("theory tables inspected"); ctx.nontrivial()


SCENARIOS = [("classes", classes, len(COMBOS), 4 * len(COMBOS)), ("tables", tables, 10, 40)]

"""C05 synchronisation: constructed delay/rotation/length ground truth for every synchronisation function and the unsynchronised metrics."""
import numpy as np
import gen
from qampy import signals
from qampy.core import ber_functions as bf, utils

RULE = ("random sequence (QAM, PSK, gaussian, real, bits) x every class of delay (0, 1, N-1, N/2, random) x rotation 0..3 x noise 6..60 dB x received "
        "length equal/section/periodic extension x adjustment direction x precision; the oracle constructs the received data from known ground truth, so "
        "the aligned arrays are known exactly; non-trivial: non-zero delay, rotation or length difference")
REQUIRED = ["scn equal", "scn tx longer", "scn rx longer", "wrapped sections", "extend at offset", "bit sequences", "exact sync", "exact sync failures",
            "metrics shifted", "modes permuted", "streams received twice"]


def sequence(ctx, rng, n, dt=np.complex128):
    k = gen.pick(rng, ["qam", "qam", "psk", "gauss", "real", "bits"])
    if k == "qam": x = gen.pick(rng, [gen.ref_qam(m) for m in (4, 16, 32, 64, 256)]); x = x[rng.integers(0, x.size, n)].astype(dt)
    elif k == "psk": x = np.exp(2j * np.pi * rng.integers(0, 8, n) / 8).astype(dt)
    elif k == "gauss": x = gen.cnoise(rng, n).astype(dt)
    elif k == "real": x = rng.choice([-1., 1.], n)
    else: x = rng.integers(0, 2, n).astype(bool); ctx.count("bit sequences")
    return k, x


def corrupt(rng, k, y):
    if k == "bits":
        e = rng.random(y.shape) < rng.uniform(0, 0.1)
        return y ^ e
    s = 10 ** (-rng.uniform(6, 60) / 20)
    return (y + (gen.cnoise(rng, y.shape, s) if np.iscomplexobj(y) else rng.standard_normal(y.shape) * s)).astype(y.dtype)


def delay(rng, n):
    return int(gen.pick(rng, [0, 1, n - 1, n // 2, int(rng.integers(n)), int(rng.integers(n))]))


def rot(k, y, r):
    return y * np.array(1j ** r, y.dtype) if np.iscomplexobj(y) else y


def same(ctx, a, b, msg):
    if a.dtype == bool:
        ctx.eq(np.asarray(b).astype(bool), a, msg)
    else:
        ctx.close(b, a, 1e-6 * max(1, abs(a).max()), msg)


def offsets(ctx, rng, i):
    n = gen.loguniform(rng, 200, 4000)
    if i % 50 == 7: n = gen.loguniform(rng, 30000, 300000); ctx.count("long sequences")
    dt = gen.pick(rng, gen.DT)
    k, x = sequence(ctx, rng, n, dt)
    kind = gen.pick(rng, ["cyclic", "inside", "outside"])
    if kind == "cyclic":        # y aligns with x after a roll
        d = delay(rng, n); y = np.roll(x, -d); L = n
    elif kind == "inside":      # y is a section of x
        m = int(rng.integers(100, n + 1)); d = int(gen.pick(rng, [0, n - m, int(rng.integers(n - m + 1))])); y = x[d:d + m]; L = None
    else:
        m = int(rng.integers(100, n + 1)); d0 = int(rng.integers(n - m + 1)); y = x; x = x[d0:d0 + m]; d = -d0; L = None
    r = int(rng.integers(4)) if np.iscomplexobj(y) else 0
    yr = corrupt(rng, k, rot(k, y, r))
    ctx.case(kind=kind, seq=k, n=n, delay=d, rot=r, dtype=y.dtype.name)
    b = gen.digest(x), gen.digest(yr)
    eq = (lambda a: (a - d) % L == 0) if L else (lambda a: a == d)
    g = bf.find_sequence_offset(x, yr)
    ctx.ok(eq(g), "find_sequence_offset reports %d instead of %d" % (g, d))
    g, ac = bf.find_sequence_offset(x, yr, show_cc=True)
    ctx.ok(eq(g) and ac.shape == (x.size + yr.size - 1,), "find_sequence_offset with show_cc reports %d instead of %d" % (g, d))
    g, yy, ii, acm = bf.find_sequence_offset_complex(x, yr)
    ctx.ok(eq(g), "find_sequence_offset_complex reports %d instead of %d" % (g, d))
    ctx.ok((ii + r) % 4 == 0, "rotation %d reported for a rotation of %d" % (ii, r))
    same(ctx, rot(k, yr, -r), yy, "data returned by find_sequence_offset_complex")
    c = np.asarray(acm)
    ctx.ok(c.ndim == 0 and np.isfinite(c) and c > 0, "peak value")
    ctx.ok((gen.digest(x), gen.digest(yr)) == b, "synchronisation altered its arguments")
    if d or r: ctx.nontrivial()


def sync(ctx, rng, i):
    """sync_and_adjust in every length relation and direction"""
    dt = gen.pick(rng, gen.DT)
    rel = ["equal", "tx longer", "rx longer"][i % 3]
    adjust = gen.pick(rng, ["tx", "rx"])
    n = gen.loguniform(rng, 256, 2000)
    k, p = sequence(ctx, rng, n, dt)          # one period of the pattern
    d = delay(rng, n); r = int(rng.integers(4)) if np.iscomplexobj(p) else 0
    per = lambda length, start: p[(np.arange(length) + start) % n]
    full = True
    if rel == "equal":
        tx, rx = p, per(n, d)
    elif rel == "tx longer" and adjust == "tx":    # a section of the pattern was received
        m = int(rng.integers(200, n)); tx, rx = p, per(m, d)
        if d + m > n: ctx.count("wrapped sections")
    elif rel == "tx longer":                       # the transmitter pattern repeats the received period
        m = int(rng.integers(n + 1, 4 * n)); tx, rx = per(m, d), p
        ctx.count("extend at offset")
    elif adjust == "tx":
        m = int(rng.integers(n + 1, 4 * n)); tx, rx = p, per(m, d)
        ctx.count("extend at offset")
    else:                                          # received data holds at least one whole aligned period
        # (a copy cut short at the edge by a few symbols cannot be told from the whole one under noise, so only whole
        # multiples of the period or clearly partial copies at the edges)
        m = int(rng.integers(2, 5)) * n if rng.random() < 0.5 else int(rng.integers(2 * n - 1, 4 * n))
        if m % n and min(d, (-d - m) % n) < 0.25 * n: m = m // n * n
        tx, rx = p, per(m, d)
    clean = rot(k, rx, r)
    rx = corrupt(rng, k, clean)
    noise = None if k == "bits" else rx.astype(complex) - clean.astype(complex)
    ctx.case(rel=rel, adjust=adjust, seq=k, n=n, delay=d, rot=r, ntx=tx.size, nrx=rx.size, dtype=rx.dtype.name)
    b = gen.digest(tx), gen.digest(rx)
    (t, q), acm = bf.sync_and_adjust(tx, rx, adjust=adjust)
    ctx.ok((gen.digest(tx), gen.digest(rx)) == b, "synchronisation altered its arguments")
    ctx.ok(t.shape == q.shape, "lengths differ: %s %s" % (t.shape, q.shape))
    ctx.ok(np.ndim(acm) == 0, "peak value is not a number")
    if adjust == "tx":                             # rx untouched, tx must equal the noiseless rx
        same(ctx, rx, q, "received data"); same(ctx, clean, t, "transmitted data aligned with the received data")
    else:                                          # tx untouched, rx is the derotated copy of tx plus its own noise
        same(ctx, tx, t, "transmitted data")
        if k == "bits":
            ctx.ok(np.mean(q != tx) <= 0.15, "received bits do not correspond: %.3f differ" % np.mean(q != tx))
        else:
            e = np.sqrt(np.mean(abs(q - tx) ** 2)); lim = np.sqrt(np.mean(abs(noise) ** 2))
            ctx.ok(abs(q - tx).max() <= abs(noise).max() * 1.0001 + 1e-5, "received data do not correspond: rms error %g, noise %g" % (e, lim))
    ctx.count("scn " + rel)
    if d or r or rel != "equal": ctx.nontrivial()


def lengths(ctx, rng, i):
    """adjust_data_length against the definition, both directions"""
    L = gen.loguniform(rng, 1, 300); N = gen.loguniform(rng, 1, 1000)
    tx, rx = np.arange(L) + 1000., np.arange(N) + 5000.
    method = gen.pick(rng, ["extend", "truncate", None])
    off = int(gen.pick(rng, [0, 0, L, 2 * L, int(rng.integers(0, 3 * max(L, N)))]))
    off = min(off, max(L, N))
    ctx.case(L=L, N=N, method=method, offset=off)
    t, r = bf.adjust_data_length(tx, rx, method=method, offset=off)
    ext = lambda a, n: a[(np.arange(n) - off) % a.size]
    if L == N: et, er = tx, rx
    elif method == "truncate": n = min(L, N); et, er = tx[:n], rx[:n]
    elif method == "extend": et, er = (ext(tx, N), rx) if L < N else (tx, ext(rx, L))
    else: et, er = (ext(tx, N), rx) if L < N else (tx[:N], rx)
    ctx.eq(t, et, "transmitted data"); ctx.eq(r, er, "received data")
    if off and L != N: ctx.nontrivial()


def exact(ctx, rng, i):
    """sync_tx2rx / sync_rx2tx / find_offset look for exact matches of a piece"""
    n = gen.loguniform(rng, 300, 3000); Ls = int(rng.integers(48, 90))
    k = gen.pick(rng, ["bits", "int", "float", "complex64", "sparse"])
    if k == "bits": tx = rng.integers(0, 2, n).astype(bool)
    elif k == "int": tx = rng.integers(0, 2, n)
    elif k == "float": tx = rng.standard_normal(n)
    elif k == "complex64": tx = gen.ref_qam(16)[rng.integers(0, 16, n)].astype(np.complex64)
    else: tx = np.zeros(n, int); tx[rng.permutation(n)[:12]] = rng.integers(1, 2**40, 12)
    # find_offset: first occurrence
    a = int(rng.integers(0, n - 20)); m = int(rng.integers(1, 20))
    seq = tx[a:a + m].copy()
    w = np.lib.stride_tricks.sliding_window_view(tx, m)
    first = int(np.nonzero((w == seq).all(1))[0][0])
    ctx.case(kind=k, n=n, Lsync=Ls, at=a, m=m)
    g = utils.find_offset(seq, tx)
    ctx.ok(g == first, "find_offset reports %d, first occurrence at %d" % (g, first))
    if k == "sparse":
        ctx.nontrivial(); return
    d = delay(rng, n); m = int(gen.pick(rng, [n, n, int(rng.integers(max(200, n // 3), n + 1)), int(rng.integers(n, 2 * n))])); rx = tx[(np.arange(m) + d) % n]
    bad = rng.permutation(m)[:int(gen.pick(rng, [0, 1, 3, n // 500]))]
    if rng.random() < .4: bad = np.append(bad, int(rng.integers(0, Ls)))      # the first piece cannot be found
    rx = rx.copy(); rx[bad] = ~rx[bad] if k == "bits" else 1 - rx[bad] if k == "int" else rx[bad] + 1
    found = False
    for j in range(0, m - Ls + 1, Ls):                     # the documented search: piece by piece
        w = rx[j:j + Ls]
        if np.array_equal(w, tx[(j + d) % n:(j + d) % n + Ls]): found = True
    ctx.case(delay=d, errors=bad.size, received=m)
    for f in (bf.sync_rx2tx, bf.sync_tx2rx):
        if not found:
            ctx.raises(lambda: f(tx, rx, Ls), f.__name__ + " without an error-free piece", exc=bf.DataSyncError); ctx.count("exact sync failures")
            continue
        o, out = f(tx, rx, Ls)
        ctx.ok((o - d) % n == 0, "%s reports %d instead of %d" % (f.__name__, o, d))
        if f is bf.sync_rx2tx and m != n: continue         # a rotation of a piece has no defined place
        ctx.eq(out, np.roll(rx, d) if f is bf.sync_rx2tx else np.roll(tx, -d), f.__name__ + ": synchronised data")
        ctx.count("exact sync")
    if i % 4 == 0:
        other = rng.standard_normal(m).astype(tx.dtype) if tx.dtype.kind in "fc" else rng.integers(0, 2, m).astype(tx.dtype)
        for f in (bf.sync_rx2tx, bf.sync_tx2rx):
            ctx.raises(lambda: f(tx, other, Ls), f.__name__ + " of unrelated data", exc=bf.DataSyncError); ctx.count("exact sync failures")
    if d: ctx.nontrivial()


def nosync_ber(ctx, rng, i):
    n = gen.loguniform(rng, 300, 3000); d = delay(rng, n)
    tx = rng.integers(0, 2, n).astype(bool)
    m = int(gen.pick(rng, [n, n, int(rng.integers(200, n + 1)), int(rng.integers(n, 3 * n))]))
    clean = tx[(np.arange(m) + d) % n]
    e = np.zeros(m, bool); e[rng.permutation(m)[:int(rng.integers(0, m // 20))]] = True
    rx = clean ^ e; inv = bool(rng.integers(2))
    if inv: rx = ~rx
    if rng.random() < 0.3: tx, rx = tx.astype(int), rx.astype(int)
    ctx.case(n=n, m=m, delay=d, inverted=inv, errors=int(e.sum()), dtype=rx.dtype.name)
    ber, errs, N = bf.cal_ber_nosyncd(rx, tx)
    ctx.ok(errs == e.sum() and N == m and abs(ber - e.mean()) < 1e-12, "cal_ber_nosyncd reports %r" % ((ber, errs, N),))
    ctx.nontrivial()


def metrics(ctx, rng, i):
    """unsynchronised metrics of shifted, rotated, permuted, shortened or extended signals equal the aligned count"""
    nm = gen.more(rng, int(rng.integers(1, 4))); N = gen.loguniform(rng, 600, 2500); dt = gen.pick(rng, gen.DT)
    c = gen.pick(rng, ["qam", "qam", "qam", "psk"])
    if c == "qam": s = signals.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 32, 64, 128]), N, nmodes=nm, dtype=dt)
    else: s = signals.SignalPSKGrayCoded(gen.pick(rng, [4, 8]), N, nmodes=nm, dtype=dt)
    a = gen.raw(s.coded_symbols).astype(complex); tx = gen.raw(s.symbols)
    modes = rng.permutation(nm)[:int(rng.integers(1, nm + 1))]
    if not np.array_equal(modes, np.arange(nm)): ctx.count("modes permuted")
    n = int(gen.pick(rng, [N, N, int(rng.integers(400, N)), int(rng.integers(N, 3 * N))]))
    snr = 10 ** (-rng.uniform(8, 30) / 20)
    ref, ds, rs = [], [], []
    for j in modes:
        d, r = delay(rng, N), int(rng.integers(4))
        ref.append(tx[j][(np.arange(n) + d) % N] * np.array(1j ** r, dt)); ds.append(d); rs.append(r)
    ref = np.array(ref)
    rx = (ref + gen.cnoise(rng, ref.shape, snr)).astype(dt)
    ctx.case(cls=c, M=s.M, N=N, nmodes=nm, n=n, modes=modes.tolist(), delays=ds, rots=rs, dtype=np.dtype(dt).name)
    ir, mg = gen.nearest(rx, a); it, _ = gen.nearest(ref, a)
    if mg.min() < 1e-5:
        from vp import Skip
        raise Skip
    ser = (ir != it).reshape(ref.shape).mean(1)
    b = gen.digest(s)
    ctx.close(np.asarray(s.cal_ser(signal_rx=rx)), ser, 1e-12, "unsynchronised SER")
    g, e, t = s.cal_ser(signal_rx=rx, verbose=True)
    ctx.close(gen.raw(t), ref, 1e-6, "synchronised transmitted symbols")
    lab, _ = gen.nearest(a, gen.raw(s.modulate(gen.all_label_bits(s.M).reshape(1, -1))).ravel())
    bits = gen.all_label_bits(s.M)[lab]
    ber = (bits[ir] != bits[it]).reshape(len(modes), -1).mean(1)
    ctx.close(np.asarray(s.cal_ber(signal_rx=rx)), ber, 1e-12, "unsynchronised BER")
    evm = np.sqrt(np.mean(abs(rx.astype(complex) - ref) ** 2, 1))
    ctx.close(np.asarray(s.cal_evm(signal_rx=rx)), evm, 1e-5, "unsynchronised EVM")
    # soft metrics against those of an aligned signal that transmits what was received here
    if len(modes) == nm or n == N:
        T = type(s).from_bit_array(np.asarray(s.demodulate(ref)).astype(bool), s.M, dtype=dt); ctx.close(gen.raw(T), ref, 1e-6, "aligned signal"); kw = dict(synced=False) if rng.random() < .3 else {}
        ctx.close(np.asarray(s.est_snr(signal_rx=rx, **kw)) / np.asarray(T.est_snr(signal_rx=rx, synced=True)), np.ones(len(modes)), 1e-9 if dt is np.complex128 else 1e-3, "unsynchronised SNR")
        ctx.close(np.asarray(s.cal_gmi(signal_rx=rx, **kw)[0]), np.asarray(T.cal_gmi(signal_rx=rx, synced=True)[0]), 1e-9 if dt is np.complex128 else 1e-3, "unsynchronised GMI")
        ctx.close(np.asarray(s.cal_mi(signal_rx=rx, **kw)), np.asarray(T.cal_mi(signal_rx=rx, synced=True)), 1e-9 if dt is np.complex128 else 1e-3, "unsynchronised mutual information"); ctx.count("soft metrics", len(modes))
    m = s.recreate_from_np_array(rx.copy())
    ctx.close(np.asarray(m.cal_ser()), ser, 1e-12, "unsynchronised SER of the signal itself")
    ctx.ok(gen.digest(s) == b, "computing a metric altered the signal")
    ctx.count("metrics shifted", len(modes))
    ctx.nontrivial()


def one_stream(ctx, rng, i):
    """a receiver that locked on one stream twice: the streams are assigned one to one, the copy must not count as received"""
    nm = gen.more(rng, int(rng.integers(2, 4))); N = gen.loguniform(rng, 600, 2500); dt = gen.pick(rng, gen.DT)
    s = signals.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 64]), N, nmodes=nm, dtype=dt); tx = gen.raw(s.symbols)
    src = rng.permutation(nm); p, q = rng.permutation(nm)[:2]; src[q] = src[p]; p, q = min(p, q), max(p, q)
    rx = np.array([np.roll(tx[j], delay(rng, N)) * np.array(1j ** int(rng.integers(4)), dt) for j in src])
    rx = (rx + gen.cnoise(rng, rx.shape, 10 ** (-rng.uniform(20, 40) / 20))).astype(dt)
    ctx.case(M=s.M, nmodes=nm, N=N, source=src.tolist(), dtype=np.dtype(dt).name)
    ser, e, t = s.cal_ser(signal_rx=rx, verbose=True); t = gen.raw(t)
    who = []
    for row in t:
        c = [abs(np.fft.ifft(np.fft.fft(row) * np.fft.fft(x).conj())).max() / np.sum(abs(x) ** 2) for x in tx]
        who.append(int(np.argmax(c))); ctx.ok(max(c) > .99, "the returned reference is no shifted transmitted mode")
    ctx.ok(len(set(who)) == nm, "received modes %s were compared with the transmitted modes %s" % (src.tolist(), who))
    ctx.ok(who[p] == src[p], "the first mode with stream %d was compared with stream %d" % (src[p], who[p]))
    ctx.ok(ser[q] > .3, "SER %g of a mode that carries a copy of another mode" % ser[q])
    ctx.count("streams received twice"); ctx.nontrivial()


SCENARIOS = [("offsets", offsets, 300, 6000), ("sync", sync, 360, 6000), ("lengths", lengths, 500, 8000), ("exact", exact, 300, 4000),
             ("nosync_ber", nosync_ber, 120, 2000), ("metrics", metrics, 160, 2400), ("one_stream", one_stream, 60, 800)]

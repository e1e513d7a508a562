"""C04 error metrics: direct count against what was sent, on signals with constructed error patterns."""
import numpy as np
import gen
from vp import Skip
from qampy import signals
from qampy.core import ber_functions, signal_quality

RULE = ("signal class x order x modes 1..8 x length 1..4000 x error pattern (none, one error anywhere incl. first/last symbol, some, all, "
        "gaussian noise) x received length equal/shorter/longer than the transmitted x mode subset x argument/self x precision; the oracle counts "
        "symbol and bit errors itself from the transmitted symbols by brute-force nearest neighbour; non-trivial: at least one symbol error")
REQUIRED = ["error-free modes", "modes with one error", "modes with many errors", "bits counted", "unsynced", "longer", "shorter", "fewer modes", "strided", "moment-based metrics", "EVM against the true error", "blind QPSK SNR"]


def make(rng, nmin=1, nmax=4000, Ms=gen.QAM):
    c = gen.pick(rng, ["qam"] * 5 + ["psk"] * 2 + ["bert", "only", "resampled"])
    dt = gen.pick(rng, gen.DT); nm = gen.more(rng, int(rng.integers(1, 5))); N = gen.loguniform(rng, nmin, nmax)
    if c == "qam": s = signals.SignalQAMGrayCoded(gen.pick(rng, Ms), N, nmodes=nm, dtype=dt)
    elif c == "psk": s = signals.SignalPSKGrayCoded(gen.pick(rng, [m for m in gen.PSK if m <= max(Ms)]), N, nmodes=nm, dtype=dt)
    elif c == "bert": s = signals.QPSKfromBERT(N, nmodes=1, dtype=dt)
    elif c == "resampled": s = signals.ResampledQAM(gen.pick(rng, [4, 16]), N, nmodes=nm, dtype=dt)
    else:
        a = gen.pick(rng, [gen.ref_qam(16), gen.cnoise(rng, 7), np.exp(2j * np.pi * np.arange(5) / 5)])
        s = signals.SymbolOnlySignal(a.size, N, a.astype(dt), nmodes=nm, dtype=dt)
    return c, s


def received(ctx, rng, ref, a, dt):
    """received samples for the reference: errors at chosen places, noise that stays inside the decision regions (or gaussian)"""
    nm, n = ref.shape
    idx, _ = gen.nearest(ref, a); idx = idx.reshape(ref.shape)
    new = idx.copy()
    for j in range(nm):
        p = gen.pick(rng, ["none", "one", "last", "first", "some", "all", "half"])
        k = {"none": 0, "one": 1, "last": 1, "first": 1, "some": gen.loguniform(rng, 1, n), "all": n, "half": n // 2}[p]
        pos = rng.permutation(n)[:k]
        if p == "last": pos = np.array([n - 1])
        if p == "first": pos = np.array([0])
        new[j, pos] = (new[j, pos] + rng.integers(1, a.size, pos.size)) % a.size
    z = np.sqrt(rng.uniform(0, 1, ref.shape)) * np.exp(2j * np.pi * rng.uniform(size=ref.shape)) * 0.45 * gen.dmin(a)
    if rng.random() < 0.3:
        z = gen.cnoise(rng, ref.shape, 10 ** (-rng.uniform(0, 25) / 20))
    return (a[new] + z).astype(dt)


def count(rx, ref, a):
    i, m = gen.nearest(rx, a); t, _ = gen.nearest(ref, a)
    return i.reshape(rx.shape), t.reshape(ref.shape), m.min() > 1e-5


def metrics(ctx, rng, i):
    c, s = make(rng)
    a = gen.raw(s.coded_symbols).astype(np.complex128)
    tx = gen.raw(s.symbols)
    nm, N = tx.shape
    how = ["equal", "equal", "shorter", "longer", "fewer modes"][i % 5]
    mode = nm
    n = N
    if how == "shorter": n = int(rng.integers(1, N + 1))
    if how == "longer": n = int(rng.integers(N, 3 * N + 2))
    if how == "fewer modes": mode = int(rng.integers(1, nm + 1))
    ref = np.tile(tx[:mode], (1, -(-n // N)))[:, :n]
    rx = received(ctx, rng, ref, a, s.dtype)
    ctx.case(cls=c, M=s.M, N=N, nmodes=nm, rx=(mode, n), how=how, dtype=s.dtype.name)
    ir, it, clear = count(rx, ref, a)
    if not clear:
        from vp import Skip
        raise Skip
    ser = (ir != it).mean(1)
    own = how == "equal" and rng.random() < 0.5       # metrics of the signal's own samples
    if own:
        m = s.copy(); m[:] = rx; args = {}
    else:
        m = s; args = dict(signal_rx=rx if rng.random() < 0.7 else s.recreate_from_np_array(rx.copy()))
    if mode == 1 and not own and rng.random() < 0.3:
        args["signal_rx"] = rx[0]                     # 1-D input
    elif not own and rng.random() < 0.15:             # every second sample of an oversampled array, column-major arrays
        args["signal_rx"] = np.repeat(rx, 2, axis=1)[:, ::2] if rng.random() < 0.5 else np.asfortranarray(rx); ctx.count("strided")
    before = gen.digest(m), gen.digest(args.get("signal_rx"))
    got = np.asarray(m.cal_ser(synced=True, **args))
    ctx.close(got, ser, 1e-12, "SER")
    g2, errs, txs = m.cal_ser(synced=True, verbose=True, **args)
    ctx.close(np.asarray(g2), ser, 1e-12, "SER (verbose)")
    ctx.eq(np.asarray(errs) != 0, ir != it, "positions of the symbol errors")
    ctx.eq(gen.raw(txs), ref, "transmitted symbols returned")
    evm = np.sqrt(np.mean(abs(rx.astype(complex) - ref) ** 2, 1))
    tol = 1e-10 if s.dtype == np.complex128 else 1e-5
    ctx.close(np.asarray(m.cal_evm(synced=True, **args)), evm, tol * (1 + evm.max()), "EVM")
    bl = np.sqrt(np.mean(abs(rx.astype(complex) - a[ir]) ** 2, 1))
    ctx.close(np.asarray(m.cal_evm(blind=True, **args)), bl, tol * (1 + evm.max()), "blind EVM")
    if c != "only":
        k = s.Nbits
        lab, _ = gen.nearest(a, gen.raw(s.modulate(gen.all_label_bits(s.M).reshape(1, -1))).ravel())   # label of every alphabet point
        bits = gen.all_label_bits(s.M)[lab]
        bt, br = bits[it].reshape(mode, -1), bits[ir].reshape(mode, -1)
        ctx.ok(how not in ("equal",) or np.array_equal(bt, np.asarray(s.bits)[:, :N * k].astype(bool)), "labels disagree with the stored bits")
        ber = (bt != br).mean(1)
        ctx.close(np.asarray(m.cal_ber(synced=True, **args)), ber, 1e-12, "BER")
        g2, be, tb = m.cal_ber(synced=True, verbose=True, **args)
        ctx.close(np.asarray(g2), ber, 1e-12, "BER (verbose)")
        ctx.eq(np.asarray(be).astype(bool), bt != br, "positions of the bit errors")
        ctx.eq(np.asarray(tb).astype(bool), bt, "transmitted bits returned")
        ctx.count("bits counted", bt.size)
        if ber.max() < 0.2:
            b, ne, nn = ber_functions.cal_ber_syncd(br[0], bt[0])
            ctx.ok(ne == (bt[0] != br[0]).sum() and nn == bt[0].size and abs(b - ber[0]) < 1e-12, "cal_ber_syncd", got=(b, ne, nn))
        w = (bt[0] != br[0]).sum(); b, ne, nn = ber_functions.cal_ber_syncd(br[0], bt[0], threshold=w / bt[0].size); ctx.ok(ne == w and nn == bt[0].size, "cal_ber_syncd at the threshold", got=(b, ne, nn))        # not over it
        th = float(rng.uniform(0, 0.6))
        if ber[0] > th + 1e-9:
            ctx.raises(lambda: ber_functions.cal_ber_syncd(br[0], bt[0], threshold=th), "cal_ber_syncd above the threshold", exc=ValueError)
    if c == "qam":
        al = (rx[0] if rng.random() < 0.5 else rx[0].copy())
        ctx.close(signal_quality.cal_ser_qam(al, ref[0], s.M), ser[0], 1e-12, "cal_ser_qam")
    ctx.ok((gen.digest(m), gen.digest(args.get("signal_rx"))) == before, "computing a metric altered the signal")
    for e in ser * n:
        ctx.count("error-free modes" if e == 0 else "modes with one error" if abs(e - 1) < 1e-6 else "modes with many errors")
    ctx.count(how)
    if ser.max() > 0:
        ctx.nontrivial()


def unsynced(ctx, rng, i):
    """aligned signals through the synchronising path: low error rate, modes in any order"""
    c, s = make(rng, 600, 2500, Ms=[4, 8, 16, 32, 64])
    if c in ("bert",):
        s = signals.SignalQAMGrayCoded(4, 900, nmodes=2, dtype=s.dtype); c = "qam"
    a = gen.raw(s.coded_symbols).astype(np.complex128)
    tx = gen.raw(s.symbols); nm, N = tx.shape
    idx, _ = gen.nearest(tx, a); new = idx.reshape(tx.shape).copy()
    for j in range(nm):
        pos = rng.permutation(N)[:int(rng.integers(0, N // 50))]
        new[j, pos] = (new[j, pos] + rng.integers(1, a.size, pos.size)) % a.size
    perm = rng.permutation(nm)
    z = np.sqrt(rng.uniform(0, 1, tx.shape)) * np.exp(2j * np.pi * rng.uniform(size=tx.shape)) * 0.4 * gen.dmin(a)
    rx = (a[new] + z).astype(s.dtype)[perm]
    ser = (new != idx.reshape(tx.shape)).mean(1)[perm]
    ctx.case(cls=c, M=s.M, N=N, nmodes=nm, perm=perm.tolist(), dtype=s.dtype.name)
    m = s.copy(); m[:] = rx
    before = gen.digest(m)
    ctx.close(np.asarray(m.cal_ser()), ser, 1e-12, "unsynchronised SER of an aligned signal")
    g, e, t = m.cal_ser(verbose=True)
    ctx.close((np.asarray(e) != 0).mean(1), ser, 1e-12, "unsynchronised SER, error vector")
    evm = np.sqrt(np.mean(abs(rx.astype(complex) - tx[perm]) ** 2, 1))
    ctx.close(np.asarray(m.cal_evm()), evm, 1e-10 if s.dtype == np.complex128 else 1e-5, "unsynchronised EVM of an aligned signal")
    if c != "only":
        lab, _ = gen.nearest(a, gen.raw(s.modulate(gen.all_label_bits(s.M).reshape(1, -1))).ravel())
        bits = gen.all_label_bits(s.M)[lab]
        ber = (bits[new] != bits[idx.reshape(tx.shape)]).mean((1, 2))[perm]
        ctx.close(np.asarray(m.cal_ber()), ber, 1e-12, "unsynchronised BER of an aligned signal")
    ctx.ok(gen.digest(m) == before, "computing a metric altered the signal")
    ctx.count("unsynced", nm)
    if ser.max() > 0:
        ctx.nontrivial()


def core_evm(ctx, rng, i):
    """the moment-based functions: signal power, SNR and EVM of one mode with unknown gain"""
    M = gen.pick(rng, [4, 16, 32, 64, 128, 256]); N = gen.loguniform(rng, 200, 6000); dt = gen.pick(rng, gen.DT); snr = float(rng.uniform(16, 40)); gain = float(10 ** rng.uniform(-2, 2))
    a = gen.ref_qam(M).astype(complex); a = a / np.sqrt(np.mean(abs(a) ** 2)); k = rng.integers(0, M, N)
    if N > 4 * M and rng.random() < .5: k = rng.permutation(np.arange(N // M * M) % M); N = k.size      # equiprobable
    z = gen.cnoise(rng, N, 10 ** (-snr / 20)); ref = a[k].astype(dt); x = (gain * (a[k] + z)).astype(dt); ctx.case(M=M, N=N, snr=snr, gain=gain, dtype=np.dtype(dt).name)
    g = np.mean(abs(a) ** 4)

    def power(y):
        r2, r4 = np.mean(abs(y) ** 2), np.mean(abs(y) ** 4)
        q = 2 * r2 ** 4 / r4 ** 2 - r2 ** 2 / r4
        if (2 - g) * q < 1e-6: raise Skip
        s1 = 1 - 2 * r2 ** 2 / r4 - np.sqrt((2 - g) * q); s2 = g * r2 ** 2 / r4 - 1
        return r2 / (1 + s2 / s1), s1 / s2 if s2 else np.inf
    y = x.astype(complex); tol = 2e-4 if dt is np.complex64 else 1e-9; S, R = power(y); b = gen.digest(x), gen.digest(ref)
    ctx.close(np.asarray(signal_quality.cal_s0(x, M)), S, tol * S, "cal_s0"); ctx.close(gen.raw(signal_quality.norm_to_s0(x, M)), y / np.sqrt(S), tol * abs(y / np.sqrt(S)).max(), "norm_to_s0")
    if abs(R) < 1e3: ctx.close(np.asarray(signal_quality.cal_snr_qam(x, M)), R, (1e-9 + (abs(R) + 1) * (1e-6 if dt is np.complex64 else 1e-13)) * abs(R) * 10, "cal_snr_qam")
    if M == 4 and N > 1000:
        t = -10 * np.log10(np.mean(abs(z) ** 2)); d = float(signal_quality.cal_snr_blind_qpsk(x)); ctx.ok(abs(d - t) < .7, "blind SNR of QPSK %g dB instead of %g" % (d, t)); ctx.count("blind QPSK SNR")
    P = ref.astype(complex) / np.sqrt(power(ref.astype(complex))[0]); Q = y / np.sqrt(S); e = np.sqrt(np.mean(abs(P - Q) ** 2) / np.mean(abs(P) ** 2))
    ctx.close(np.asarray(signal_quality.cal_evm(x, M, known=ref)), e, 3 * tol, "cal_evm with known symbols")
    A = a / np.sqrt(power(a)[0]); e = np.sqrt(np.mean(abs(Q - A[gen.nearest(Q, A)[0]]) ** 2) / np.mean(abs(A) ** 2))
    ctx.close(np.asarray(signal_quality.cal_evm(x, M)), e, 3 * tol, "blind cal_evm")
    if k.size % M == 0 and k.size > 4 * M and np.array_equal(np.bincount(k), np.full(M, k.size // M)):   # no statistical error of the moments of the symbols
        t = np.sqrt(np.mean(abs(z) ** 2)); d = signal_quality.cal_evm(x, M, known=ref)
        ctx.ok(abs(d / t - 1) < 12 / np.sqrt(k.size) + .12, "EVM %g of a signal with rms error %g" % (d, t)); ctx.count("EVM against the true error")
        ctx.ok(abs(S / gain ** 2 - 1) < 3 * t ** 2 + 8 * t / np.sqrt(k.size) + 1e-3, "signal power %g instead of %g" % (S, gain ** 2))
    ctx.ok((gen.digest(x), gen.digest(ref)) == b, "a metric altered its arguments"); ctx.count("moment-based metrics"); ctx.nontrivial()


SCENARIOS = [("metrics", metrics, 700, 12000), ("unsynced", unsynced, 200, 3000), ("core_evm", core_evm, 200, 3000)]

"""C01 bits <-> symbols: every constructor and both directions against an independently built label table."""
import warnings
import numpy as np
import gen
from qampy import signals

RULE = ("random format (QAM 2..1024, PSK 2..32, QPSK-from-BERT), constructor, mode count 1..8, length 1..3000, bit class, dtype; "
        "the oracle rebuilds every mode's symbols from its bits with a label table obtained by modulating all M labels once; "
        "non-trivial: at least two different labels occur")
REQUIRED = ["scn created", "scn from bits", "scn from symbols", "scn modulate", "scn bert", "symbols rebuilt", "symbol only"]
SHARDS = 8
TABLES = {}


def table(cls, M):
    """label -> point, obtained once per class and order from modulate() on all labels"""
    if (cls, M) not in TABLES:
        b = gen.all_label_bits(M)
        t = gen.raw(cls.from_bit_array(b.reshape(1, -1), M)).ravel()
        TABLES[cls, M] = t
    return TABLES[cls, M]


def tol(dtype):
    return 1e-12 if np.dtype(dtype) == np.complex128 else 5e-7


def verify(ctx, s, cls, M, bits, what):
    """bits: the bits the signal must represent (nmodes, n*k)"""
    k = int(round(np.log2(M)))
    t = table(cls, M)
    ctx.ok(len(set(np.round(t, 9))) == M, "the mapping is not injective", M=M)
    n = bits.shape[1] // k
    bits = np.asarray(bits)[:, :n * k].astype(bool)
    ctx.ok(np.asarray(s).shape == (bits.shape[0], n), what + ": wrong signal shape %s" % (s.shape,))
    lab = gen.labels(bits, k)
    ref = t[lab]
    ctx.close(gen.raw(s), ref, tol(s.dtype), what + ": samples are not the mapping of the bits")
    ctx.eq(gen.raw(s.symbols), gen.raw(s), what + ": reference symbols differ from the samples")
    ctx.ok(np.asarray(s.bits).shape == bits.shape, what + ": stored bits have shape %s instead of %s" % (np.asarray(s.bits).shape, bits.shape))
    ctx.eq(np.asarray(s.bits).astype(bool), bits, what + ": stored bits")
    d = s.demodulate(s.symbols)
    ctx.eq(np.asarray(d).astype(bool), bits, what + ": demodulate(symbols)")
    for j in range(bits.shape[0]):       # a single mode passed as 1-D array
        r1 = np.asarray(s.demodulate(gen.raw(s)[j])).ravel()
        ctx.eq(r1.astype(bool), bits[j], what + ": demodulate of a 1-D mode")
    ctx.eq(gen.raw(s.make_decision(s)), gen.raw(s), what + ": decision of noiseless symbols")
    syms, dist, idx = s.make_decision(s, verbose=True)
    ctx.eq(gen.raw(s.coded_symbols)[np.asarray(idx, int)], gen.raw(s), what + ": decided indices")
    ctx.eq(np.asarray(s.demodulate(np.asarray(idx))).astype(bool), bits, what + ": demodulate(indices)")
    # small perturbation inside the decision region
    dm = gen.dmin(t)
    z = np.exp(2j * np.pi * np.random.rand(*ref.shape)) * 0.45 * dm
    zz = (gen.raw(s) + z).astype(s.dtype)
    ctx.eq(np.asarray(s.demodulate(zz)).astype(bool), bits, what + ": demodulate inside the decision region")
    ctx.eq(gen.raw(s.modulate(bits)), gen.raw(s), what + ": modulate(bits)")
    ctx.count("symbols rebuilt", ref.size)
    if len(np.unique(lab)) > 1:
        ctx.nontrivial()


def fmt(rng):
    if rng.random() < 0.3:
        return signals.SignalPSKGrayCoded, gen.pick(rng, gen.PSK)
    return signals.SignalQAMGrayCoded, gen.pick(rng, [2] + gen.QAM)


def created(ctx, rng, i):
    cls, M = fmt(rng)
    N = gen.loguniform(rng, 1, 3000); nm = gen.more(rng, int(rng.integers(1, 5))); dt = gen.pick(rng, gen.DT); fb = gen.pick(rng, [1, 25e9])
    bc = gen.pick(rng, ["random", "prbs", "resampled"])
    ctx.case(cls=cls.__name__, M=M, N=N, nmodes=nm, dtype=np.dtype(dt).name, bits=bc)
    if bc == "random":
        seed = int(rng.integers(2**31))
        s = cls(M, N, nmodes=nm, fb=fb, dtype=dt, seed=seed)
    elif bc == "prbs":
        s = cls(M, N, nmodes=nm, fb=fb, dtype=dt, bitclass=signals.PRBSBits, order=[int(gen.pick(rng, [7, 15, 23, 31])) for _ in range(nm)],
                seed=[int(rng.integers(1, 127)) for _ in range(nm)])
    else:
        cls = signals.SignalQAMGrayCoded
        M = gen.pick(rng, gen.QAM)
        ctx.case(M=M)
        s = signals.ResampledQAM(M, N, fb=fb, fs=fb, nmodes=nm, dtype=dt)
    ctx.ok(s.dtype == dt and s.symbols.dtype == dt, "dtype not honoured: %s" % s.dtype)
    bits = np.array(np.asarray(s.bits))
    k = int(round(np.log2(M)))
    ctx.ok(bits.shape == (nm, N * k), "bits have shape %s" % (bits.shape,))
    verify(ctx, s, cls, M, bits, "created")
    ctx.close(gen.raw(s.coded_symbols), table(cls, M), 1e-6, "alphabet order is the label order")
    ctx.count("scn created")


def from_bits(ctx, rng, i):
    cls, M = fmt(rng)
    k = int(round(np.log2(M)))
    nb = gen.loguniform(rng, k, 4000); nm = gen.more(rng, int(rng.integers(1, 5))); dt = gen.pick(rng, gen.DT)
    kind = gen.pick(rng, ["bool", "uint8", "int", "RandomBits", "PRBSBits", "1d", "noncontig"])
    ctx.case(cls=cls.__name__, M=M, nbits=nb, nmodes=nm, dtype=np.dtype(dt).name, kind=kind)
    b = rng.integers(0, 2, (nm, nb))
    if kind == "bool": x = b.astype(bool)
    elif kind == "uint8": x = b.astype(np.uint8)
    elif kind == "int": x = b
    elif kind == "RandomBits": x = signals.RandomBits(nb, nmodes=nm, seed=int(rng.integers(2**31)))
    elif kind == "PRBSBits": x = signals.PRBSBits(nb, nmodes=nm, order=[15] * nm, seed=[int(v) for v in rng.integers(1, 2**15, nm)])
    elif kind == "1d": x = b[0].astype(bool)
    else: x = np.repeat(b.astype(bool), 2, axis=1)[:, ::2]
    want = np.atleast_2d(np.array(np.asarray(x))).astype(bool)
    s = cls.from_bit_array(x, M, dtype=dt)
    verify(ctx, s, cls, M, want, "from bits")
    ctx.eq(np.atleast_2d(np.asarray(x)).astype(bool), want, "given bits altered")
    if nb % k:
        ctx.count("ragged bit lengths")
    ctx.count("scn from bits")


def from_symbols(ctx, rng, i):
    cls, M = fmt(rng)
    k = int(round(np.log2(M)))
    nm = gen.more(rng, int(rng.integers(1, 5))); dt_in = gen.pick(rng, gen.DT); dt = gen.pick(rng, [None] + gen.DT)
    t = table(cls, M)
    n = max(M, gen.loguniform(rng, M, 3000))
    lab = rng.integers(0, M, (nm, n))
    for j in range(nm):
        lab[j, rng.permutation(n)[:M]] = np.arange(M)     # every point occurs in every mode
    sc = 1.0
    x = (t[lab] * sc).astype(dt_in)
    form = gen.pick(rng, ["exact", "exact", "noisy", "signal", "1d", "deduce", "strided"])
    ctx.case(cls=cls.__name__, M=M, N=n, nmodes=nm, dt_in=np.dtype(dt_in).name, dt=str(dt), form=form)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if form == "noisy":
            x = (x + gen.cnoise(rng, x.shape, 0.02 * gen.dmin(t))).astype(dt_in)
            s = cls.from_symbol_array(x, M=M, dtype=dt)
        elif form == "signal":
            s0 = cls.from_bit_array(gen.all_label_bits(M)[lab].reshape(nm, -1), M, dtype=dt_in)
            s = cls.from_symbol_array(s0, M=M, dtype=dt)
        elif form == "1d":
            x = x[0]; lab = lab[:1]
            s = cls.from_symbol_array(x, M=M, dtype=dt)
        elif form == "deduce":
            s = cls.from_symbol_array(x, dtype=dt)
        elif form == "strided":
            s = cls.from_symbol_array(np.repeat(x, 2, axis=1)[:, ::2], M=M, dtype=dt)
        else:
            s = cls.from_symbol_array(x, M=M, dtype=dt)
    ctx.ok(s.dtype == (dt or dt_in), "dtype %s" % s.dtype)
    al = gen.raw(s.coded_symbols)
    a2 = np.atleast_2d(gen.raw(x if form != "signal" else s0))
    ix = np.array([gen.nearest(m, al)[0] for m in a2])
    ctx.eq(gen.raw(s), al[ix], "from symbols: samples are not the nearest alphabet points")
    if form == "noisy":      # the alphabet is scaled to the empirical power of the data, by design
        lab = ix
        ctx.close(al / np.sqrt(np.mean(abs(al)**2)), t, 1e-5, "from symbols: alphabet")
    else:
        ctx.close(al, t, 1e-5 if form == "signal" else 0.35, "from symbols: alphabet")
    bits = gen.all_label_bits(M)[lab].reshape(lab.shape[0], -1)
    ctx.ok(np.asarray(s.bits).shape == bits.shape, "from symbols: stored bits have shape %s instead of %s" % (np.asarray(s.bits).shape, bits.shape))
    ctx.eq(np.asarray(s.bits).astype(bool), bits, "from symbols: bits of each mode")
    ctx.eq(np.asarray(s.demodulate(s.symbols)).astype(bool), bits, "from symbols: demodulate")
    ctx.eq(gen.raw(s.make_decision(s)), gen.raw(s), "from symbols: decision")
    ctx.eq(gen.raw(s.modulate(s.bits)), gen.raw(s), "from symbols: modulate(bits)")
    ctx.count("symbols rebuilt", lab.size)
    ctx.count("scn from symbols")
    ctx.nontrivial()


def modulate(ctx, rng, i):
    cls, M = fmt(rng)
    k = int(round(np.log2(M)))
    s = cls(M, 16, nmodes=int(rng.integers(1, 3)), dtype=gen.pick(rng, gen.DT))
    nm = gen.more(rng, int(rng.integers(1, 5))); nb = gen.loguniform(rng, k, 4000)
    ctx.case(cls=cls.__name__, M=M, nbits=nb, nmodes=nm)
    b = rng.integers(0, 2, (nm, nb)).astype(gen.pick(rng, [bool, np.int64, np.uint8]))
    x = b[0] if (one := rng.random() < 0.3) else b
    want = b[:1] if one else b
    y = s.modulate(x)
    lab = gen.labels(want, k)
    ctx.close(np.atleast_2d(gen.raw(y)), table(cls, M)[lab], tol(s.dtype), "modulate")
    back = np.atleast_2d(np.asarray(s.demodulate(gen.raw(y))))
    ctx.eq(back.astype(bool), want[:, :nb // k * k].astype(bool), "demodulate(modulate(bits))")
    ctx.count("symbols rebuilt", lab.size); ctx.count("scn modulate")
    if lab.size and len(np.unique(lab)) > 1:
        ctx.nontrivial()


def bert(ctx, rng, i):
    nm = gen.more(rng, int(rng.integers(1, 4))); N = gen.loguniform(rng, 40, 3000)
    oi = tuple(int(gen.pick(rng, [7, 15, 23])) for _ in range(nm)); oq = tuple(int(gen.pick(rng, [7, 15, 23])) for _ in range(nm))
    sh = (int(rng.integers(-50, 50)), int(rng.integers(-50, 50))); inv = (bool(rng.integers(2)), bool(rng.integers(2)))
    dt = gen.pick(rng, gen.DT)
    kw = dict(prbsorders=(oi, oq), prbsshifts=sh, prbsinvert=inv)
    ctx.case(N=N, nmodes=nm, dtype=np.dtype(dt).name, **kw)
    if nm > 2:
        kw["prbsorders"] = (oi, oq)
    s = signals.QPSKfromBERT(N, nmodes=min(nm, 2), fb=10e9, dtype=dt, **kw)
    nm = min(nm, 2)
    verify(ctx, s, signals.QPSKfromBERT, 4, np.array(np.asarray(s.bits)), "QPSK from BERT")
    base = signals.QPSKfromBERT(N, nmodes=nm, fb=10e9, dtype=dt, prbsorders=(oi, oq))
    for q in range(2):
        b0 = np.asarray(base.bits)[:, q::2]; b = np.asarray(s.bits)[:, q::2]
        ctx.eq(b, np.roll(b0, sh[q], axis=1) ^ inv[q], "QPSK from BERT: %s bits are not the shifted/inverted pattern" % "IQ"[q])
    # I depends on the even bits only, Q on the odd bits only
    r = np.asarray(s.bits).reshape(nm, -1, 2)
    z = gen.raw(s)
    for c, part in ((0, z.real), (1, z.imag)):
        g1, g0 = part[r[..., c]], part[~r[..., c]]
        if g1.size and g0.size:
            ctx.ok(np.ptp(g1) < 1e-6 and np.ptp(g0) < 1e-6 and abs(g1[0] - g0[0]) > 1, "QPSK from BERT: quadrature %d is not an ASK of its own pattern" % c)
    ctx.count("scn bert")


def symbol_only(ctx, rng, i):
    """signals that know their alphabet and no bits: each mode holds the alphabet points nearest to what that mode was given"""
    nm = gen.more(rng, int(rng.integers(1, 5))); dt = gen.pick(rng, gen.DT); fb = gen.pick(rng, [1, 25e9]); K = int(rng.integers(2, 40)); n = gen.loguniform(rng, K, 2000)
    al = (gen.ref_qam(gen.pick(rng, [4, 16, 32, 64])) if rng.random() < .5 else gen.cnoise(rng, K) * 2).astype(dt); K = al.size; n = max(n, K); d = gen.dmin(al)
    if d < 1e-3: return
    if rng.random() < .3:       # drawn from an alphabet given in another precision; without a symbol rate
        other = [x for x in gen.DT if x is not dt][0]; s = signals.SymbolOnlySignal(K, n, al.astype(other), nmodes=nm, dtype=dt); ctx.ok(s.dtype == dt and s.symbols.dtype == dt and np.asarray(s.coded_symbols).dtype == dt and s.fb == s.fs == 1, "alphabet of another precision: %s %s %s" % (s.dtype, s.symbols.dtype, np.asarray(s.coded_symbols).dtype))
        ctx.eq(gen.raw(s.coded_symbols), al.astype(other).astype(dt), "alphabet of another precision"); s = signals.SymbolOnlySignal(K, n, al, nmodes=nm); ctx.ok(s.dtype == dt and s.shape == (nm, n), "precision of the alphabet")
        for f in (lambda: s.cal_ber(), lambda: s.cal_gmi(), lambda: s.est_snr(), lambda: s.modulate(np.zeros((nm, 8), bool)), lambda: s.demodulate(s), lambda: signals.SymbolOnlySignal.from_bit_array(np.zeros(8, bool), 4)): ctx.raises(f, "bits of a signal without bits", NotImplementedError)
        ctx.count("no bits")
    lab = rng.integers(0, K, (nm, n)); lab[:, :K] = np.arange(K); x = al[lab]; form = gen.pick(rng, ["exact", "noisy", "deduce", "1d", "strided", "drawn"]); ctx.case(K=K, N=n, nmodes=nm, dtype=np.dtype(dt).name, form=form)
    if form == "noisy": x = (x + np.exp(2j * np.pi * rng.random(x.shape)) * .3 * d).astype(dt)
    if form == "1d": x, lab = x[0], lab[:1]
    if form == "strided": x = np.repeat(x, 2, axis=1)[:, ::2]
    if form == "drawn":
        s = signals.SymbolOnlySignal(K, n, al, nmodes=nm, fb=fb, dtype=dt); v = gen.raw(s); ctx.ok(v.shape == (nm, n), "drawn: shape %s" % (v.shape,)); ctx.ok(abs(v[..., None] - al).min(-1).max() < 1e-12, "drawn: symbols outside the alphabet"); lab = abs(v[..., None] - al).argmin(-1)
        if n >= 60 and nm > 1: ctx.ok(not np.array_equal(lab[0], lab[1]), "drawn: the modes carry the same symbols")
    else: s = signals.SymbolOnlySignal.from_symbol_array(x, None if form == "deduce" else al, fb=fb)
    ctx.eq(gen.raw(s), al[lab], "symbol-only signal: samples are not the nearest alphabet points of their mode"); ctx.eq(gen.raw(s.symbols), al[lab], "symbol-only signal: reference"); ctx.ok(s.fb == fb and s.fs == fb and s.M == K, "symbol-only signal: fb %r, fs %r, M %r" % (s.fb, s.fs, s.M))
    ctx.eq(np.sort_complex(np.asarray(s.coded_symbols).ravel()), np.sort_complex(al), "symbol-only signal: alphabet")
    z = (gen.raw(s) + np.exp(2j * np.pi * rng.random(lab.shape)) * .4 * d).astype(dt); ctx.eq(gen.raw(s.make_decision(s.recreate_from_np_array(z))), al[lab], "symbol-only signal: decisions inside the decision region")
    ctx.count("symbol only", lab.size)
    if K > 1: ctx.nontrivial()


SCENARIOS = [("created", created, 160, 2400), ("from_bits", from_bits, 140, 2000), ("from_symbols", from_symbols, 140, 2000),
             ("modulate", modulate, 100, 1200), ("bert", bert, 40, 500), ("symbol_only", symbol_only, 100, 1500)]

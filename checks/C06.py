"""C06 signal objects keep their description through processing"""
import warnings
import numpy as np
import gen, ops
from vp import Skip

RULE = ("every signal class (Gray coded QAM and PSK, BERT QPSK, symbol only, resampled, time-domain hybrid, pilot signals), 1-8 modes, both precisions, 1-4 samples per symbol; random chains of up to 7 of about 60 operations (numpy arithmetic, slices, copies, astype, in-place arithmetic, recreate_from_np_array, resample and every signal-in signal-out function of impairments, phaserec, filtering, analog_frontend, helpers, equalisation); "
        "after every step the class and the full description of the result are compared with those of its input, and at the end the first and every intermediate object is compared with its own earlier state; non-trivial: a step whose result has other samples than its input")
REQUIRED = ["steps", "chain of 3+", "descriptions compared", "inplace", "constructions", "references", "pilot chains", "astype"]
ASSUMPTIONS = ["Operations that return base arrays in numpy (hstack, tile, fft) are no signal-preserving operations"]


def step(ctx, rng, s, name):
    """one operation on s: returns the resulting signal (or None when it does not apply)"""
    op = ops.SIG[name](rng, s)
    if op is None: return None
    before = ops.describe(s); h = gen.digest(np.asarray(s))
    np.random.seed(int(rng.integers(2**31)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); r = op.run()
    ctx.count("steps"); ctx.count("op " + name)
    ctx.ok(ops.describe(s) == before and gen.digest(np.asarray(s)) == h, "%s changed the description or the samples of the signal it was given: %s" % (name, ops.diff(before, ops.describe(s))))
    outs = op.sig(r)
    for o in outs:
        ctx.ok(type(o) is type(s), "%s returns %s for a %s" % (name, type(o).__name__, type(s).__name__))
        d = ops.diff(before, ops.describe(o), op.change)
        ctx.ok(not d, "%s of a %s (%s, %s samples per symbol) changed the description: %s" % (name, type(s).__name__, s.shape, s.fs / s.fb, [(k, str(x)[:150], str(y)[:150]) for k, x, y in d]))
        ctx.count("descriptions compared")
        if o.shape != s.shape or not np.array_equal(np.asarray(o), np.asarray(s)): ctx.nontrivial()
    return outs[0] if outs and np.iscomplexobj(outs[0]) else None


def chain(ctx, rng, i):
    s = ops.signal(rng, nmax=900); first = s; start = gen.digest(s); d0 = ops.describe(s)
    L = int(rng.integers(1, 8)); n = 0; hist = [(s, ops.describe(s), gen.digest(np.asarray(s)), "start")]; names = list(ops.SIG)
    ctx.case(what="%s %s, os %s, chain" % (type(s).__name__, s.shape, s.fs / s.fb))
    if s.size > 40000: raise Skip("long")
    tries = 0; hidden = []
    while n < L and tries < 60:
        tries += 1; name = gen.pick(rng, names)
        if s.shape[-1] > 15000 or not np.all(np.isfinite(np.asarray(s))) or np.mean(abs(np.asarray(s))**2) < 1e-6: break
        o = step(ctx, rng, s, name); hidden.append(name)
        if o is None: continue
        s = o; n += 1; hist.append((s, ops.describe(s), gen.digest(np.asarray(s)), name))
    if n >= 3: ctx.count("chain of 3+")
    for o, d, h, name in hist:
        ctx.ok(ops.describe(o) == d and gen.digest(np.asarray(o)) == h, "a signal (after %s) was changed by later steps %s: %s" % (name, hidden, ops.diff(d, ops.describe(o))))
    ctx.ok(gen.digest(first) == start, "the first signal was changed by the chain %s" % hidden)


def each(ctx, rng, i):
    """every operation on every class"""
    names = list(ops.SIG); kinds = list(ops.ATTRS); name = names[i % len(names)]; kind = kinds[(i // len(names) + i) % len(kinds)]
    for t in range(4):
        s = ops.signal(rng, kinds=[kind], os_=1 if t == 0 else None, nmax=700)
        if ops.is_pil(s) and name.startswith("method pilot_equal"):
            s = s.resample(2 * s.fb, beta=.2, taps=201); s = np.tile(np.asarray(s), (1, 3)).view(type(s)) if False else s
        ctx.case(what="%s on %s" % (name, kind)); step(ctx, rng, s, name)


def inplace(ctx, rng, i):
    """writing into the received samples, however the signal was made, leaves its reference alone"""
    from qampy import signals as S
    s = ops.signal(rng, nmax=600); k = i % 6; ctx.count("inplace"); how = "made directly"
    if k == 1: s = s.copy(); how = "copied"
    if k == 2 and not ops.is_pil(s) and not ops.is_td(s):
        os_ = gen.pick(rng, [1, 2]); s = s.resample(os_ * s.fb if s.fs != os_ * s.fb else s.fs, beta=.2, taps=201); how = "resampled"
    if k == 3: s = s * 1.; how = "computed"
    if k == 4: s = s.recreate_from_np_array(gen.raw(s)); how = "recreated"
    src = None
    if k == 5 and type(s) is S.SignalQAMGrayCoded:
        j = int(rng.integers(4)); src = s.symbols.copy()
        if j == 0: s = S.SignalQAMGrayCoded.from_symbol_array(src, M=s.M, fb=s.fb)
        elif j == 1: s = S.SymbolOnlySignal.from_symbol_array(src, s.coded_symbols, fb=s.fb)
        elif j == 2: s = S.ResampledQAM.from_symbol_array(src, gen.pick(rng, [1, 2]) * s.fb, beta=.2, taps=201)
        else: s = S.SignalQAMGrayCoded.from_bit_array(s.bits.copy(), s.M, fb=s.fb, dtype=s.dtype)
        how = "derived %d" % j
    ctx.case(what="%s %s, written in place" % (type(s).__name__, how)); d = ops.describe(s); hs = gen.raw(src) if src is not None else None
    n = gen.cnoise(rng, s.shape).astype(s.dtype)
    s += n; s *= 2; s[:, 5:9] = 7; s[0] -= 1; np.multiply(s, 1j, out=s)
    if hasattr(s, "normalize_and_center") and s.fs == s.fb and rng.random() < .5: s.normalize_and_center()
    ctx.nontrivial(); x = ops.diff(d, ops.describe(s))
    ctx.ok(not x, "writing into the samples of a %s that was %s changed %s" % (type(s).__name__, how, [q[0] for q in x]))
    if src is not None: ctx.ok(np.array_equal(hs, np.asarray(src)), "writing into a derived signal (%s) changed the array it was made from" % how)


def references(ctx, rng, i):
    """every way to make a signal gives it a reference of its own: writing into the samples (all of them, a mode, a section) shows in the metrics"""
    from qampy import signals as S
    c = gen.pick(rng, gen.DT); fb = gen.pick(rng, [1, 25e9]); nm = gen.more(rng, int(rng.integers(1, 4))); N = int(rng.integers(150, 500)); seed = int(rng.integers(2**31)); M = gen.pick(rng, [4, 16, 64]); np.random.seed(seed)
    al = gen.ref_qam(M).astype(c); q = lambda **k: S.SignalQAMGrayCoded(M, N, nmodes=nm, fb=fb, dtype=c, seed=seed, **k); arr = rng.choice(al, (nm, N)).astype(c); bits = rng.integers(0, 2, (nm, N * int(np.log2(M)))).astype(bool)
    ways = {"SignalQAMGrayCoded": q, "SignalQAMGrayCoded.from_symbol_array": lambda: S.SignalQAMGrayCoded.from_symbol_array(arr, M=M, fb=fb, dtype=c), "SignalQAMGrayCoded.from_bit_array": lambda: S.SignalQAMGrayCoded.from_bit_array(bits, M, fb=fb, dtype=c),
            "SignalQAMGrayCoded.from_symbol_array of a signal": lambda: S.SignalQAMGrayCoded.from_symbol_array(q(), M=M, fb=fb, dtype=c), "SymbolOnlySignal": lambda: S.SymbolOnlySignal(M, N, al, nmodes=nm, fb=fb, dtype=c),
            "SymbolOnlySignal.from_symbol_array": lambda: S.SymbolOnlySignal.from_symbol_array(arr, al, fb=fb), "SymbolOnlySignal without alphabet": lambda: S.SymbolOnlySignal.from_symbol_array(arr, fb=fb), "SymbolOnlySignal of a signal": lambda: S.SymbolOnlySignal.from_symbol_array(q(), al, fb=fb),
            "SignalPSKGrayCoded": lambda: S.SignalPSKGrayCoded(gen.pick(rng, [4, 8]), N, nmodes=nm, fb=fb, dtype=c, seed=seed), "SignalPSKGrayCoded.from_bit_array": lambda: S.SignalPSKGrayCoded.from_bit_array(bits, 4, fb=fb, dtype=c), "QPSKfromBERT": lambda: S.QPSKfromBERT(N, nmodes=min(nm, 2), fb=fb, dtype=c),
            "ResampledQAM": lambda: S.ResampledQAM(M, N, fb=fb, fs=fb, nmodes=nm, dtype=c, seed=seed, resamplekwargs=dict(beta=.2)), "ResampledQAM.from_symbol_array": lambda: S.ResampledQAM.from_symbol_array(q(), fb, beta=.2), "resample to the same rate": lambda: q().resample(fb, beta=.2),
            "SignalWithPilots": lambda: S.SignalWithPilots(M, 64 + 16 * 10, 64, 16, nframes=2, nmodes=nm, dtype=c, fb=fb, seed=seed), "SignalWithPilots.from_symbol_array": lambda: S.SignalWithPilots.from_symbol_array(q() if rng.random() < .5 else arr, 64 + 16 * 5, 64, 16, nframes=2, M=M) if rng.random() < .5 else S.SignalWithPilots.from_symbol_array(q(), 64 + 16 * 5, 64, 16),
            "slice": lambda: q()[:, 3:-3], "mode": lambda: q()[:1], "copy": lambda: q().copy(), "view": lambda: q()[:], "astype": lambda: q().astype(c), "astype without a copy": lambda: q().astype(c, copy=False), "symbols": lambda: q().symbols, "symbols.copy": lambda: q().symbols.copy()}
    names = list(ways); name = names[i % len(names)]; ctx.case(what=name, M=M, N=N, nmodes=nm, dtype=np.dtype(c).name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); s = ways[name]()
    if name in ("symbols",): raise Skip("the reference itself")
    k = int(rng.integers(4)); ref = gen.raw(s.symbols).copy(); b = np.array(s.bits) if hasattr(s, "bits") else None; al0 = np.array(s.coded_symbols) if hasattr(s, "coded_symbols") else None; pil = gen.raw(s.pilots).copy() if hasattr(s, "pilots") else None; d = ops.describe(s)
    if k == 0: s[:] = 0
    elif k == 1: s[-1] *= -1
    elif k == 2: s[:, 20:90] *= 1j
    else: np.add(s, 3, out=s)
    ctx.count("references"); ctx.nontrivial()
    ctx.ok(np.array_equal(gen.raw(s.symbols), ref), "writing into the samples of a signal (%s) changed its transmitted symbols" % name)
    for x, y, w in ((b, getattr(s, "bits", None), "bits"), (al0, getattr(s, "coded_symbols", None), "alphabet"), (pil, getattr(s, "pilots", None), "pilots")):
        if x is not None: ctx.ok(np.array_equal(x, np.asarray(y)), "writing into the samples of a signal (%s) changed its %s" % (name, w))
    ctx.ok(not ops.diff(d, ops.describe(s)), "writing into the samples of a signal (%s) changed %s" % (name, [z[0] for z in ops.diff(d, ops.describe(s))]))
    if pil is None and M > 4 and "PSK" not in name and "BERT" not in name and k in (1, 2):
        if s.shape == s.symbols.shape: ctx.ok(np.max(s.cal_ser(synced=True)) > .02, "the error rate of a spoilt signal (%s) is %s" % (name, s.cal_ser(synced=True)))


def construction(ctx, rng, i):
    """rates and references of freshly made signals; references survive use of the signal in other objects"""
    from qampy import signals as S
    c = gen.pick(rng, gen.DT); fb = gen.pick(rng, [1, 10e9, 28e9]); nm = gen.more(rng, gen.pick(rng, [1, 2, 3])); M = gen.pick(rng, [4, 16, 64, 32]); seed = int(rng.integers(2**31)); N = int(rng.integers(300, 800)); ctx.count("constructions"); k = i % 5
    ctx.case(what="construction %d" % k); ctx.nontrivial()
    s = S.SignalQAMGrayCoded(M, N, nmodes=nm, fb=fb, dtype=c, seed=seed); d = ops.describe(s); h = gen.digest(np.asarray(s))
    ctx.ok((s.M, s.fb, s.fs, s.os, s.shape) == (M, fb, fb, 1, (nm, N)), "description of a new signal"); ctx.ok(np.array_equal(np.asarray(s), np.asarray(s.symbols)), "symbols of a new signal")
    if k == 0:
        o = S.SignalQAMGrayCoded(4 if M != 4 else 16, N, nmodes=nm, fb=fb, dtype=c, seed=seed + 1); fr = gen.pick(rng, [.5, .25, 1 / 3])
        t = S.TDHQAMSymbols.from_symbol_arrays(s, o, fr); ctx.ok((t.fb, t.fs, t.M) == (fb, fb, (s.M, o.M)), "description of a hybrid signal")
        t += 1; t[:] = 0
    elif k == 1:
        ps, r = 64, 8; fl = ps + r * int(rng.integers(4, 20)); nf = int(rng.integers(1, 4)); p = S.SignalQAMGrayCoded(4, ps + (fl - ps) // r, nmodes=nm, fb=fb, dtype=c, seed=3); dp = ops.describe(p); hp = gen.digest(np.asarray(p))
        t = S.SignalWithPilots.from_symbol_array(s, fl, ps, r, pilots=p, nframes=nf)
        ctx.ok((t.fb, t.fs, t.M, t.Mpilots, t.frame_len, t.nframes) == (fb, fb, M, 4, fl, nf), "description of a pilot signal")
        ctx.ok(np.array_equal(np.asarray(t.pilots), np.asarray(p)) and np.array_equal(np.asarray(t.symbols), np.asarray(s)[:, :t.symbols.shape[-1]]), "pilots and payload of a pilot signal")
        q = ops.describe(t); t += 1; t[:, ::3] = 0; t *= 1j
        ctx.ok(not ops.diff(q, ops.describe(t)), "writing into the samples of a pilot signal changed %s" % [z[0] for z in ops.diff(q, ops.describe(t))])
        ctx.ok(ops.describe(p) == dp and gen.digest(np.asarray(p)) == hp, "writing into a pilot signal changed the pilots it was made from")
    elif k == 2:
        os_ = gen.pick(rng, [1, 2, 3]); t = S.ResampledQAM.from_symbol_array(s, os_ * fb, beta=.2, taps=201); x = ops.diff(d, ops.describe(t), dict(fs=os_ * fb, **{"class": "ResampledQAM"}))
        ctx.ok(not [z for z in x if z[0] != "class"] and t.fs == os_ * fb, "a resampled signal differs in %s" % [z[0] for z in x]); t += 1
    elif k == 3:
        t = S.ResampledQAM(M, N, fb=fb, fs=2 * fb, resamplekwargs=dict(beta=.2, taps=201), nmodes=nm, dtype=c, seed=seed)
        x = [z for z in ops.diff(d, ops.describe(t), dict(fs=2 * fb)) if z[0] not in ("class", "symbols")]
        ctx.ok(not x and np.array_equal(np.asarray(t.symbols), np.asarray(s.symbols)) and t.os == 2, "a resampled signal of the same seed differs in %s" % [z[0] for z in x])
    else:
        o = s.resample(2 * fb, beta=.2, taps=201); x = ops.diff(d, ops.describe(o), dict(fs=2 * fb)); ctx.ok(not x and o.os == 2 and o.shape == (nm, 2 * N), "resample changed %s" % [z[0] for z in x])
        b = o.resample(fb, beta=.2, taps=201); x = ops.diff(d, ops.describe(b)); ctx.ok(not x and b.shape == s.shape, "resampling there and back changed %s" % [z[0] for z in x])
        b += 1; o *= 3
    ctx.ok(ops.describe(s) == d and gen.digest(np.asarray(s)) == h, "the original was changed by using an object made from it: %s" % [z[0] for z in ops.diff(d, ops.describe(s))])


def precision(ctx, rng, i):
    """astype to another precision keeps everything but the dtype"""
    s = ops.signal(rng, nmax=600); c = np.complex64 if s.dtype == np.complex128 else np.complex128; d = ops.describe(s); t = s.astype(c); ctx.count("astype"); ctx.nontrivial(); ctx.case(what="astype %s" % type(s).__name__)
    x = ops.diff(d, ops.describe(t)); ctx.ok(not x and type(t) is type(s) and t.dtype == c, "astype changed %s" % [z[0] for z in x]); step(ctx, rng, t, gen.pick(rng, ["numpy times_scalar", "numpy copy", "numpy roll", "impairments change_snr", "impairments add_modal_delay"]))


def pilots(ctx, rng, i):
    """oversampled pilot signal through the channel, synchronisation, equaliser and phase recovery"""
    from qampy import signals as S, impairments as I, equalisation as Q, phaserec as P
    c = gen.pick(rng, gen.DT); nm = gen.pick(rng, [1, 2]); ps = 256; r = gen.pick(rng, [8, 16, 32]); fl = ps + r * int(rng.integers(1024 // r, 2048 // r)); fb = gen.pick(rng, [1, 20e9]); ctx.count("pilot chains")
    s = S.SignalWithPilots(gen.pick(rng, [16, 64]), fl, ps, r, nframes=3, nmodes=nm, dtype=c, fb=fb, seed=int(rng.integers(2**31)), repeat_data=bool(rng.integers(2)))
    ctx.case(what="pilot signal of %d modes, frame %d" % (nm, fl)); np.random.seed(int(rng.integers(2**31))); d = ops.describe(s)
    s2 = s.resample(2 * fb, beta=.1, renormalise=True); ctx.ok(not ops.diff(d, ops.describe(s2), dict(fs=2 * fb)), "resample changed %s" % [z[0] for z in ops.diff(d, ops.describe(s2), dict(fs=2 * fb))])
    d2 = ops.describe(s2); x = s2
    for f in [lambda x: I.change_snr(x, 28), lambda x: I.add_carrier_offset(x, 1e-5 * fb), lambda x: I.simulate_transmission(x, snr=30, lwdth=1e-7 * fb, dgd=.1 / fb if nm == 2 else None, modal_delay=[11] * nm), lambda x: np.roll(x, int(rng.integers(fl)), axis=-1)]:
        y = f(x); ctx.ok(type(y) is type(s) and not ops.diff(d2, ops.describe(y)), "the channel changed %s" % [z[0] for z in ops.diff(d2, ops.describe(y))]); x = y
    y = x.copy(); Nt = 17
    if not y.sync2frame(Ntaps=Nt, Niter=10, adaptive_stepsize=True, method="cma", mu=1e-3): raise Skip("no synchronisation")
    free = dict(shiftfctrs=None, synctaps=None, foe=None); ctx.ok(not ops.diff(d2, ops.describe(y), free), "sync2frame changed %s" % [z[0] for z in ops.diff(d2, ops.describe(y), free)])
    dy = ops.describe(y); hy = gen.digest(np.asarray(y)); w, e = Q.pilot_equaliser(y, (1e-3, 1e-3), Nt + 2 * int(rng.integers(0, 9)), methods=("cma", "cma"), foe_comp=bool(rng.integers(2)), Niter=5); ctx.nontrivial()
    ctx.ok(type(e) is type(s) and not ops.diff(dy, ops.describe(e), dict(fs=fb)), "pilot_equaliser changed %s" % [z[0] for z in ops.diff(dy, ops.describe(e), dict(fs=fb))])
    ctx.ok(ops.describe(y) == dy and gen.digest(np.asarray(y)) == hy, "pilot_equaliser changed its argument")
    de = ops.describe(e); z, ph = P.pilot_cpe(e, N=3, use_seq=bool(rng.integers(2)))
    ctx.ok(type(z) is type(s) and not ops.diff(de, ops.describe(z)), "pilot_cpe changed %s" % [q[0] for q in ops.diff(de, ops.describe(z))])
    g = z.get_data(); ctx.ok(type(g) is type(s.symbols) and g.M == s.M and g.fb == fb and g.fs == fb and np.array_equal(np.asarray(g.symbols)[:, :np.count_nonzero(s._idx_dat)], np.asarray(s.symbols)[:, :np.count_nonzero(s._idx_dat)]), "extracted payload lost its description")


SCENARIOS = [("chain", chain, 1200, 20000), ("each", each, 950, 9000), ("inplace", inplace, 300, 4000), ("references", references, 96, 1600), ("construction", construction, 60, 1200), ("precision", precision, 80, 800), ("pilots", pilots, 24, 400)]

"""C15 pilots and payload partition the frame; frame selections and their metrics against independent masks and counts."""
import numpy as np
import gen
from vp import Skip
from qampy import signals

RULE = ("payload order x pilot order x 1-8 modes x frame length, pilot sequence and insertion interval (none, 2..60) x 1-5 frames with repeated and fresh data and pilots x pilot scale x payload class (QAM, PSK) x precision; signals made "
        "from given payload, from complete frames, with given pilots (one or all modes, array or object) and with explicit pilot positions; frame selections None, int, list, array, out of order, repeated; every frame is given its own errors "
        "and noise; masks, payload, pilots, SER, BER, EVM, SNR and information rates are recomputed from the positions; non-trivial: more than one frame or a frame selection")
REQUIRED = ["frames compared", "no phase pilots", "fresh data", "fresh pilots", "repeated data", "scaled pilots", "given payload", "complete frames", "given pilots", "single mode pilots", "pilot positions", "selections", "repeated selections",
            "ser", "ber", "evm", "snr", "gmi", "mi", "pilot snr", "unsynced", "verbose", "given signal", "truncated signals", "rejected", "sliced to frames", "independent calls", "psk payload", "single precision"]


def layout(rng, nmax=600):
    ins = gen.pick(rng, [0, None, 2, 3, 4, 8, 32, int(rng.integers(2, 60))]); seq = gen.pick(rng, [int(rng.integers(1, 9)), int(rng.integers(1, 129))])
    k = gen.loguniform(rng, 1, max(1, nmax // (ins or 10)))
    return seq + k * (ins or int(rng.integers(1, 12))), seq, ins


def masks(fl, seq, ins):
    """pilot mask by construction"""
    p = [True] * seq
    while len(p) < fl:
        p += [True] + [False] * (ins - 1) if ins else [False]
    assert len(p) == fl
    p = np.array(p); return p, ~p


def make(ctx, rng, nmax=600, Ms=gen.QAM, nfr=(1, 2, 3, 4, 5), psk=True, modes=(1, 2, 3, 4)):
    fl, seq, ins = layout(rng, nmax); nf = gen.pick(rng, nfr); nm = gen.more(rng, gen.pick(rng, modes)); dt = gen.pick(rng, gen.DT); Mp = gen.pick(rng, [4, 4, 16, 8, 64]); sc = gen.pick(rng, [1, 1, 1, float(rng.uniform(.5, 2))])
    cl = signals.SignalPSKGrayCoded if psk and rng.random() < .25 else signals.SignalQAMGrayCoded; M = gen.pick(rng, [m for m in (gen.PSK if cl is signals.SignalPSKGrayCoded else Ms) if m <= max(Ms)])
    rd, rp = bool(rng.integers(2)), bool(rng.integers(2)); fb = float(gen.pick(rng, [1, 25e9])); kw = {}
    if fb != 1 or rng.random() < .5: kw["fb"] = fb
    if not rd or rng.random() < .5: kw["repeat_data"] = rd
    if not rp or rng.random() < .5: kw["repeat_pilots"] = rp
    if Mp != 4 or rng.random() < .5: kw["Mpilots"] = Mp
    if sc != 1: kw["pilot_scale"] = sc
    if cl is not signals.SignalQAMGrayCoded: kw["dataclass"] = cl; ctx.count("psk payload")
    s = signals.SignalWithPilots(M, fl, seq, ins, nmodes=nm, dtype=dt, **({} if nf == 1 and rng.random() < .5 else dict(nframes=nf)), **kw)
    ctx.case(fl=fl, seq=seq, ins=ins, nframes=nf, nmodes=nm, M=M, Mp=Mp, scale=sc, rd=rd, rp=rp, cls=cl.__name__, dtype=np.dtype(dt).name)
    if dt is np.complex64: ctx.count("single precision")
    if not ins: ctx.count("no phase pilots")
    if sc != 1: ctx.count("scaled pilots")
    pm, dm = masks(fl, seq, ins)
    return s, dict(fl=fl, seq=seq, ins=ins, nf=nf, nm=nm, M=M, Mp=Mp, sc=sc, rd=rd, rp=rp, cls=cl, dt=dt, pm=pm, dm=dm, fb=fb, eps=1e-12 if dt is np.complex128 else 2e-6)


def structure(ctx, rng, i):
    s, p = make(ctx, rng); fl, nf, pm, dm = p["fl"], p["nf"], p["pm"], p["dm"]; np_, nd = int(pm.sum()), int(dm.sum()); x = gen.raw(s)
    ctx.ok(x.shape == (p["nm"], fl * nf) and x.dtype == p["dt"], "shape %s %s" % (x.shape, x.dtype)); ctx.ok((s.nframes, s.frame_len, s.M, s.Mpilots, s.pilot_scale, s.fb, s.fs) == (nf, fl, p["M"], p["Mp"], p["sc"], p["fb"], p["fb"]), "description")
    ctx.eq(s.idx_pilots, np.tile(pm, nf), "pilot mask"); ctx.eq(s.idx_payload, np.tile(dm, nf), "payload mask")
    sy, pl = gen.raw(s.symbols), gen.raw(s.pilots); ctx.ok(sy.shape == (p["nm"], nd * nf), "payload reference of shape %s" % (sy.shape,)); ctx.ok(pl.shape[1] in (np_, np_ * nf) and (p["rp"] or pl.shape[1] == np_ * nf), "pilots of shape %s" % (pl.shape,))
    X = x.reshape(p["nm"], nf, fl); PL = np.tile(pl, (1, nf))[:, :np_ * nf].reshape(p["nm"], nf, np_) if pl.shape[1] == np_ else pl.reshape(p["nm"], nf, np_)
    for f in range(nf):
        ctx.eq(X[:, f][:, dm], sy[:, f * nd:(f + 1) * nd], "payload of frame %d" % f); ctx.eq(X[:, f][:, pm], PL[:, f], "pilots of frame %d" % f); ctx.count("frames compared")
    a = gen.ref_qam(p["M"]) if p["cls"] is signals.SignalQAMGrayCoded else np.exp(2j * np.pi * np.arange(p["M"]) / p["M"])
    if p["cls"] is signals.SignalQAMGrayCoded: ctx.ok(abs(sy[:, :, None] - a).min(-1).max(initial=0) < 1e-5, "payload outside its alphabet")
    else: ctx.ok(abs(abs(sy) - 1).max(initial=0) < 1e-5, "payload outside its alphabet")
    b = gen.ref_qam(p["Mp"]) * p["sc"]; ctx.ok(abs(pl[:, :, None] - b).min(-1).max() < 1e-5, "pilots outside their alphabet")
    ctx.eq(np.array(s.pilot_seq), pl[:, :p["seq"]], "pilot sequence"); ph = gen.raw(s.ph_pilots); k = pl.shape[1] // np_
    ctx.eq(ph, pl.reshape(p["nm"], k, np_)[:, :, p["seq"]:].reshape(p["nm"], -1), "phase pilots")
    D = sy.reshape(p["nm"], nf, nd)
    if nf > 1:
        same = np.array_equal(D[:, 0], D[:, 1]); 
        if p["rd"]: ctx.ok(all(np.array_equal(D[:, 0], D[:, f]) for f in range(nf)), "repeated data differ"); ctx.count("repeated data")
        elif nd * p["nm"] * np.log2(p["M"]) > 60: ctx.ok(not same, "fresh data are repeated"); ctx.count("fresh data")
        same = np.array_equal(PL[:, 0], PL[:, 1])
        if p["rp"]: ctx.ok(all(np.array_equal(PL[:, 0], PL[:, f]) for f in range(nf)), "repeated pilots differ")
        elif np_ * p["nm"] * np.log2(p["Mp"]) > 60: ctx.ok(not same, "fresh pilots are repeated"); ctx.count("fresh pilots")
        ctx.nontrivial()
    if p["nm"] > 1 and nd * np.log2(p["M"]) > 60: ctx.ok(not np.array_equal(sy[0], sy[1]), "modes carry the same data")
    if p["nm"] > 1 and np_ * np.log2(p["Mp"]) > 60: ctx.ok(not np.array_equal(pl[0], pl[1]), "modes carry the same pilots")
    if p["ins"] and p["ins"] > 2: ctx.raises(lambda: signals.SignalWithPilots(4, fl + 1, p["seq"], p["ins"]), "a frame that the interval does not divide", ValueError); ctx.count("rejected")


def from_array(ctx, rng, i):
    fl, seq, ins = layout(rng); nm = gen.more(rng, gen.pick(rng, [1, 2, 3])); M = gen.pick(rng, gen.QAM); nf = int(rng.integers(1, 5)); dt = gen.pick(rng, gen.DT); fb = float(gen.pick(rng, [1, 10e9])); how = ["payload", "array", "frame", "positions", "pilots", "one pilot", "pilot object"][i % 7]
    pm, dm = masks(fl, seq, ins); kw = {}; ctx.case(how=how, fl=fl, seq=seq, ins=ins, nmodes=nm, M=M, nframes=nf, dtype=np.dtype(dt).name)
    if how == "positions":
        fl = int(rng.integers(4, 400)); pos = np.sort(rng.permutation(fl)[:int(rng.integers(1, fl - 1))]); pm = np.isin(np.arange(fl), pos); dm = ~pm; kw["pilot_idx"] = gen.pick(rng, [pos, list(pos), pm]); seq = 0
    nd, np_ = int(dm.sum()), int(pm.sum()); extra = int(gen.pick(rng, [0, 0, 5, 100])); pay = signals.SignalQAMGrayCoded(M, nd + extra, nmodes=nm, fb=fb, dtype=dt); px = gen.raw(pay); Mp = 4; P = None
    pk = rng.random() < .3; pcl = signals.SignalPSKGrayCoded if pk else signals.SignalQAMGrayCoded; sc = 1
    small = how in ("array", "frame")
    if small:      # alphabets are found from the symbols: give every point
        if nd + extra < 1: raise Skip()
        kw["payload_kwargs"] = dict(M=M) if rng.random() < .5 else {}
        if not kw["payload_kwargs"]: kw["M"] = M
        del_fb = dict(fb=fb); kw.update(del_fb)
        # scale is taken from the points present: use signals that hold the complete alphabet
        if nd < M: raise Skip()
        for m in range(nm):
            px[m, rng.permutation(nd)[:M]] = np.asarray(pay.coded_symbols)
    if how == "payload":
        arg = pay; ctx.count("given payload"); ctx.case(pilots=pcl.__name__)
        if pk: kw["pilot_class"] = pcl
        if rng.random() < .6: Mp = gen.pick(rng, gen.PSK if pk else gen.QAM); kw["pilot_kwargs"] = dict(M=Mp)
    elif how == "array": arg = px; ctx.count("given payload")
    elif how == "frame":
        if np_ < 4: raise Skip()
        P = gen.ref_qam(4)[rng.integers(4, size=(nm, np_))].astype(dt); P[:, rng.permutation(np_)[:4]] = gen.ref_qam(4); arg = np.empty((nm, fl), dt); arg[:, pm] = P; arg[:, dm] = px[:, :nd]; kw["payload_is_frame"] = True; kw.pop("M", 0); kw["payload_kwargs"] = dict(M=M); ctx.count("complete frames")
        if nd < M: raise Skip()
    elif how == "positions": arg = pay; ctx.count("pilot positions")
    else:
        arg = pay; Mp = gen.pick(rng, [4, 16]); k = 1 if how == "one pilot" else nm
        if how == "pilot object": P = signals.SignalQAMGrayCoded(Mp, np_, nmodes=nm, fb=fb, dtype=dt)
        else:
            if np_ < Mp: raise Skip()
            P = gen.ref_qam(Mp)[rng.integers(Mp, size=(k, np_))].astype(dt); P[:, rng.permutation(np_)[:Mp]] = gen.ref_qam(Mp); kw["pilot_kwargs"] = dict(M=Mp)
        kw["pilots"] = P; ctx.count("given pilots"); ctx.count("single mode pilots", how == "one pilot")
    if how in ("payload", "positions"):
        sc = float(gen.pick(rng, [1, 1, .5, 2, rng.uniform(.3, 3)])); PA = (np.asarray(pcl(Mp, 4).coded_symbols, complex) if how == "payload" else gen.ref_qam(4)) * sc; ctx.case(scale=sc)
        if sc != 1: kw["pilot_scale"] = sc; ctx.count("scaled generated pilots")
    h = gen.digest([arg, kw.get("pilots"), kw.get("pilot_idx"), kw.get("payload_kwargs")]); s = signals.SignalWithPilots.from_symbol_array(arg, fl, seq, ins, nframes=nf, **kw)
    ctx.ok(gen.digest([arg, kw.get("pilots"), kw.get("pilot_idx"), kw.get("payload_kwargs")]) == h, "arguments were altered")
    ctx.ok(s.shape == (nm, fl * nf) and s.nframes == nf and s.frame_len == fl and s.fb == fb and s.M == M and s.Mpilots == Mp and s.dtype == dt, "description: %s" % ((s.shape, s.nframes, s.frame_len, s.fb, s.M, s.Mpilots, s.dtype),))
    X = gen.raw(s).reshape(nm, nf, fl); e = 1e-9 if dt is np.complex128 else 1e-5
    for f in range(nf):
        (ctx.close if small else ctx.eq)(X[:, f][:, dm], px[:, :nd], *([e] if small else []), "payload of frame %d" % f); ctx.eq(X[:, f][:, pm], gen.raw(s.pilots), "pilots of frame %d" % f); ctx.count("frames compared")
        if P is not None: ctx.close(X[:, f][:, pm], np.tile(gen.raw(P), (nm // P.shape[0], 1)), e, "given pilots")
    ctx.close(np.array(s.symbols), px[:, :nd], e, "payload reference"); ctx.eq(s.idx_pilots, np.tile(pm, nf), "pilot mask"); ctx.ok(type(s.symbols) is signals.SignalQAMGrayCoded, "payload type")
    g = s.get_data(); ctx.close(np.array(g), np.tile(px[:, :nd], (1, nf)), e, "payload extracted"); ctx.close(np.array(g.symbols), np.array(g), e, "its reference"); q = s.extract_pilots(); ctx.close(np.array(q), np.tile(gen.raw(s.pilots), (1, nf)), e, "pilots extracted")
    if nd: ctx.ok(np.all(s.cal_ser() == 0) and np.all(s.cal_ber() == 0), "noiseless errors")
    if how in ("payload", "positions"):
        pl = gen.raw(s.pilots); ctx.ok(pl.shape == (nm, np_) and (how != "payload" or type(s.pilots) is pcl), "generated pilots: %s %s" % (type(s.pilots).__name__, pl.shape)); ctx.ok(abs(pl[:, :, None] - PA).min(-1).max(initial=0) < 1e-5, "generated pilots outside their scaled alphabet"); ctx.ok(s.pilot_scale == sc, "scale"); ctx.close(np.array(s.extract_pilots().symbols, complex) * sc, np.tile(pl, (1, nf)), e, "reference of the generated pilots"); ctx.count("generated pilots")
        if np_ * np.log2(Mp) > 60 and nm > 1: ctx.ok(not np.array_equal(pl[0], pl[1]), "modes carry the same generated pilots")
        if np_ * np.log2(Mp) > 60: ctx.ok(len(np.unique(np.round(pl, 4))) > 1, "generated pilots are constant")
    # a second signal made the same way does not depend on the first
    if how == "payload" and ins:
        z = signals.SignalWithPilots.from_symbol_array(signals.SignalQAMGrayCoded(4, nd, nmodes=nm), fl, seq, ins); ctx.ok(z.M == 4 and z.Mpilots == 4, "a second signal keeps the order of the first"); ctx.count("independent calls")
    ctx.nontrivial()


def select(rng, nf):
    k = gen.pick(rng, ["none", "int", "list", "array", "perm", "repeat", "np"])
    if k == "none": return None, list(range(nf))
    if k == "int": f = int(rng.integers(nf)); return f, [f]
    if k == "np": f = int(rng.integers(nf)); return np.int64(f), [f]
    l = sorted(map(int, rng.permutation(nf)[:int(rng.integers(1, nf + 1))]))
    if k == "perm": l = l[::-1]
    if k == "repeat": l = l + l[:1]
    return (np.array(l) if k in ("array", "perm") else l), l


def metrics(ctx, rng, i):
    s, p = make(ctx, rng, nmax=900, Ms=[4, 16, 64, 8, 32], nfr=(1, 2, 3, 4)); nf, nm, fl, pm, dm, sc = p["nf"], p["nm"], p["fl"], p["pm"], p["dm"], p["sc"]; nd, np_ = int(dm.sum()), int(pm.sum())
    if nd < 1: raise Skip()
    tx = gen.raw(s).astype(complex); a = gen.raw(s.coded_symbols).astype(complex); k = int(round(np.log2(p["M"]))); lab = gen.all_label_bits(p["M"])
    sig = 10 ** rng.uniform(-2, -.6, (nm, nf)); rx = (tx.reshape(nm, nf, fl) + gen.cnoise(rng, (nm, nf, fl)) * sig[:, :, None]).reshape(nm, -1); n = nf * fl
    rot = None
    if rng.random() < .35 and nd >= 60 and sig.max() < .08 and p["cls"] is signals.SignalQAMGrayCoded and p["M"] in (4, 16, 64):
        rot = rng.integers(0, 4, nm); rx = rx * (1j ** rot)[:, None]
    r = s.recreate_from_np_array(rx.astype(p["dt"])); rx = gen.raw(r).astype(complex); cut = 0
    fr, l = select(rng, nf); ctx.case(frames=fr); h = gen.digest(r); d = r.get_data(frames=fr) if fr is not None or rng.random() < .5 else r.get_data(); q = r.extract_pilots(frames=fr); ctx.ok(gen.digest(r) == h, "the signal was altered")
    R = rx.reshape(nm, nf, fl); T = tx.reshape(nm, nf, fl); cat = lambda A, m: np.concatenate([A[:, f][:, m] for f in l], axis=1)
    ctx.close(np.array(d), cat(R, dm), 0, "received payload of frames %s" % (l,)); ctx.close(np.array(q), cat(R, pm), 0, "received pilots of frames %s" % (l,)); ctx.count("selections"); ctx.count("repeated selections", len(set(l)) < len(l))
    ctx.ok(type(d) is p["cls"] and d.M == p["M"] and d.fb == p["fb"] and type(q) is signals.SignalQAMGrayCoded and q.M == p["Mp"], "description of the parts")
    t = cat(T, dm); ctx.eq(np.array(d.symbols, complex), t, "reference of the selected frames"); ctx.close(np.array(q.symbols, complex) * sc, cat(T, pm), p["eps"] * 4, "pilot reference of the selected frames")
    it = gen.nearest(t, a)[0].reshape(t.shape); ctx.eq(np.array(d.bits).reshape(nm, -1, k), lab[it], "bits of the selected frames")
    x = cat(R, dm); kw = {} if fr is None and rng.random() < .5 else dict(frames=fr)
    if rot is not None:
        x = x * (1j ** -rot)[:, None]; kw["synced"] = False; ctx.count("unsynced")
    ir, mg = gen.nearest(x, a); ir = ir.reshape(x.shape)
    if mg.min() < 1e-5: raise Skip()
    e, b = (ir != it), (lab[ir] != lab[it]).reshape(nm, -1)
    ctx.close(r.cal_ser(**kw), e.mean(1), 1e-12, "SER of frames %s" % (l,)); ctx.count("ser"); ctx.close(r.cal_ber(**kw), b.mean(1), 1e-12, "BER of frames %s" % (l,)); ctx.count("ber")
    evm = np.sqrt(np.mean(abs(x - t) ** 2, axis=1)); P = np.sqrt(np.mean(abs(t) ** 2, axis=1)); ctx.close(r.cal_evm(**kw), evm, 2e-5, "EVM of frames %s" % (l,)); ctx.count("evm")
    if rot is None:
        v = r.cal_ser(verbose=True, **kw); ctx.close(v[0], e.mean(1), 1e-12, "SER"); ctx.eq(np.asarray(v[1]) != 0, e, "error positions"); v = r.cal_ber(verbose=True, **kw); ctx.close(v[0], b.mean(1), 1e-12, "BER"); ctx.count("verbose")
    # power of the cluster means over the spread around them, per mode
    def snr(x, t, alpha):
        o = []
        for m in range(nm):
            N0 = S = 0
            for c in alpha:
                w = x[m][abs(t[m] - c) < 1e-4]
                if w.size: N0 += np.sum(abs(w - w.mean()) ** 2); S += w.size * abs(w.mean()) ** 2
            o.append(S / N0 if N0 > 0 else np.inf)
        return np.array(o)
    S = snr(x, t, a)
    if rot is None and np.all(np.isfinite(S)) and nd * len(l) > 3 * p["M"]:
        g = r.est_snr(**kw); ctx.ok(np.all(abs(g / S - 1) < (1e-6 if p["dt"] is np.complex128 else 2e-3)), "SNR of frames %s: %s instead of %s" % (l, g, S)); ctx.count("snr")
        if p["cls"] is signals.SignalQAMGrayCoded:
            ctx.close(r.cal_gmi(**kw)[0], d.cal_gmi(synced=True, snr=10 * np.log10(g))[0], 1e-6, "GMI of frames %s" % (l,)); L = d.cal_gmi(synced=True)[0]; ctx.close(r.cal_gmi(**kw)[0], L, 1e-9, "GMI of the extracted signal"); ctx.count("gmi")
        ctx.close(r.get_data(frames=fr).cal_mi(synced=True), [_mi(x[m], t[m], a, 1 / S[m]) for m in range(nm)], 1e-3, "MI of frames %s" % (l,)); ctx.count("mi")
    SP = snr(cat(R, pm), cat(T, pm), gen.ref_qam(p["Mp"]) * sc)
    if np.all(np.isfinite(SP)) and np_ * len(l) > 3 * p["Mp"] and p["cls"] is signals.SignalQAMGrayCoded and rot is None:
        g = r.est_snr(use_pilots=True, frames=fr); ctx.ok(np.all(abs(g / SP - 1) < (1e-6 if p["dt"] is np.complex128 else 2e-3)), "pilot SNR of frames %s: %s instead of %s" % (l, g, SP)); ctx.count("pilot snr")
        ctx.close(r.cal_gmi(use_pilot_snr=True, frames=fr)[0], d.cal_gmi(synced=True, snr=10 * np.log10(g))[0], 1e-6, "GMI with the SNR of the pilots")
    if rot is not None and np.all(np.isfinite(S)) and nd * len(l) > 3 * p["M"]:       # the soft metrics find the rotation too
        g = r.est_snr(**kw); ctx.ok(np.all(abs(g / S - 1) < (1e-6 if p["dt"] is np.complex128 else 2e-3)), "SNR of the turned frames %s: %s instead of %s" % (l, g, S))
        w = gen.raw(d) * (1j ** -rot)[:, None].astype(p["dt"]); ctx.close(r.cal_gmi(**kw)[0], d.recreate_from_np_array(w).cal_gmi(synced=True)[0], 1e-4, "GMI of the turned frames %s" % (l,)); ctx.count("turned soft metrics")
    if rng.random() < .4:       # metrics of another signal object
        if rot is None and nd * len(l) > 3 * p["M"] and np.all(np.isfinite(S)) and p["cls"] is signals.SignalQAMGrayCoded:
            ctx.close(r.cal_gmi(signal_rx=d)[0], d.cal_gmi(synced=True)[0], 1e-9, "GMI of the given signal"); g = r.est_snr(signal_rx=d, symbols_tx=d.symbols); ctx.ok(np.all(abs(g / S - 1) < (1e-6 if p["dt"] is np.complex128 else 2e-3)), "SNR of the given signal: %s instead of %s" % (g, S))
            bl = r.cal_evm(blind=True, **kw); ctx.close(bl, np.sqrt(np.mean(abs(x - a[ir]) ** 2, axis=1)), 2e-5, "blind EVM of frames %s" % (l,)); ctx.count("blind evm")
        y = d.recreate_from_np_array(d.symbols); ctx.ok(np.all(r.cal_ser(signal_rx=y) == 0) and np.all(r.cal_ber(signal_rx=y) == 0) and np.all(r.cal_evm(signal_rx=y) < 1e-5), "metrics of the given signal"); ctx.count("given signal")
    if nf > 1:
        j = int(rng.integers(1, nf)); w = r[:, :j * fl]; ctx.ok(type(w) is type(r) and w.nframes == j, "first %d frames" % j); ctx.close(np.array(w.get_data()), R[:, :j][:, :, dm].reshape(nm, -1), 0, "payload of the first frames"); ctx.eq(np.array(w.get_data().symbols, complex), T[:, :j][:, :, dm].reshape(nm, -1), "its reference"); ctx.count("sliced to frames")
        ctx.raises(lambda: w.get_data(frames=[j]), "a frame that does not exist"); ctx.raises(lambda: w.extract_pilots(frames=j), "a frame that does not exist"); ctx.nontrivial()
    if fl > 1: ctx.raises(lambda: r.recreate_from_np_array(rx[:, :int(rng.integers(1, fl))].astype(p["dt"])), "a pilot signal from less than a frame")
    if nf == 1 and rng.random() < .5 and fl > 3:
        c = int(rng.integers(max(2, fl // 2), fl)); w = r[:, :c]; ctx.close(np.array(w.get_data()), rx[:, :c][:, dm[:c]], 0, "payload of a truncated frame"); ctx.count("truncated signals")


def _mi(x, t, a, N0):
    d = abs(x[:, None] - a[None, :]) ** 2; e = abs(x - t) ** 2
    return np.log2(a.size) - np.mean(np.log2(np.exp(-(d - d.min(1, keepdims=True)) / N0).sum(1)) + (e - d.min(1)) / N0 / np.log(2))


SCENARIOS = [("structure", structure, 400, 8000), ("from_array", from_array, 350, 7000), ("metrics", metrics, 500, 9000)]

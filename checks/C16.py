"""C16 pilot receiver: frame synchronisation, pilot equalisation and application of its taps against transmitted payload and independent filtering."""
import numpy as np
import gen
from vp import Skip, Violation
from qampy import signals, impairments, equalisation, phaserec
from qampy.core import pilotbased_receiver

RULE = ("QAM pilot signals (QPSK and 16-QAM pilots, pilot sequence >= 1024, 1-3 modes, 1 or 2 samples per symbol, 3 frames), any integer sample delay, every mode permutation, rotation mixing, frequency offsets up to 100 MHz, 30-37 dB SNR: synchronisation must align each mode with "
        "its pilots at the true start and the equaliser and carrier phase estimation must give back the transmitted payload (a statistical failure is only reported if three more noise realisations of the same configuration fail); returned taps are "
        "applied again by an independent FIR filter and by apply_filter for equal and different tap numbers, per-mode shifts, several frames in any order, complex and real-valued taps; non-trivial: delay, permutation, offset or mixing present, or more than one frame/shift")
REQUIRED = ["offset corrections", "synchronised", "permuted modes", "cyclic permutations", "fractional symbol delays", "different delays per mode", "mixed modes", "frequency offsets", "payload symbols compared", "later frames", "initial taps", "different tap numbers", "taps reproduce signal", "frames applied",
            "frames out of order", "real-valued taps", "shifts moved by a frame", "several frames", "all frames", "rejected", "oversampled by one", "arguments unchanged", "first pilots across windows", "pilot seq realigned", "fractional number of frames", "offsets left to the equaliser", "shifts corrected", "pilot orders"]
BUDGET = (330, 2600)


def build(rng, os, nm, M, seq, fl, ins, nf, snr, d, dmode, perm, fo, theta, seed, repeat=True):
    np.random.seed(seed)
    s = signals.SignalWithPilots(M, fl, seq, ins, nmodes=nm, nframes=nf, fb=24e9, repeat_data=repeat)
    x = s.resample(os * 24e9, beta=.1, renormalise=True) if os > 1 else s.copy()
    x = np.roll(x, d, axis=-1)
    if dmode:
        x[1] = np.roll(x[1], dmode)
    if fo: x = impairments.add_carrier_offset(x, fo)
    x = impairments.change_snr(x, snr)
    if theta: x = impairments.rotate_field(x, theta)
    return s, x.recreate_from_np_array(gen.raw(x)[perm])


def config(ctx, rng, quick=True, frames=1, plain=False, repeat=True):
    nm = gen.pick(rng, [1, 2, 2, 2, 3]); os = gen.pick(rng, [1, 2, 2, 2]); seq = 1024 * (2 if nm > 2 else 1); ins = gen.pick(rng, [16, 32]); fl = seq + ins * int(rng.integers(2 * seq // ins, 5000 // ins))
    M = gen.pick(rng, [16, 64]); snr = float(rng.uniform(30, 37)); P = rng.permutation(nm)
    d = int(rng.integers(2 * seq * os, fl * os)) if not repeat or rng.random() < .6 else int(rng.integers(0, fl * os))
    dm = int(rng.integers(0, 500)) if nm > 1 and rng.random() < .3 and d > 600 else 0
    fo = float(gen.pick(rng, [0, 1e5, 1e6, 1e7, 1e8])); theta = float(rng.uniform(.1, 3)) if nm == 2 and not dm and rng.random() < .4 else None
    if theta and abs(theta % (np.pi / 2) - np.pi / 4) < .15: theta += .3       # at equal mixing a blind equaliser may return the modes in either order
    c = dict(nm=nm, os=os, seq=seq, ins=ins, fl=fl, M=M, snr=snr, d=d, dmode=dm, perm=P, fo=fo, theta=theta, nf=3 + frames - 1, repeat=repeat); ctx.case(**{k: v for k, v in c.items()})
    return c


def note(ctx, c):
    P = list(c["perm"])
    if P != sorted(P): ctx.count("permuted modes")
    if len(P) == 3 and P in ([1, 2, 0], [2, 0, 1]): ctx.count("cyclic permutations")
    if c["d"] % c["os"] or c["dmode"] % c["os"]: ctx.count("fractional symbol delays")
    if c["dmode"]: ctx.count("different delays per mode")
    if c["theta"]: ctx.count("mixed modes")
    if c["fo"]: ctx.count("frequency offsets")
    if c["os"] == 1: ctx.count("oversampled by one")
    if c["d"] % (c["seq"] * c["os"] // 2) > 8: ctx.count("first pilots across windows")


def retry(ctx, rng, fn):
    """A violation only if the same configuration fails for four noise realisations; exceptions and structural failures count at once."""
    msgs = []
    for k in range(4):
        try:
            fn(int(rng.integers(2**31))); return
        except Violation as e:
            if not e.mech == "stat": raise
            e.mech = None; last = e; ctx.count("noise realisations repeated")
    raise last


def aligned(c, s, x, tol):
    """shift of every mode against the true start of its pilots; None if fine"""
    per = c["fl"] * c["os"]; sh = np.asarray(x.shiftfctrs)
    true = np.array([c["d"] + (c["dmode"] if m == 1 else 0) for m in range(c["nm"])]) - x.synctaps // 2
    dev = (sh - true + per // 2) % per - per // 2
    if sh.shape != (c["nm"],) or sh.min() < 0: return "shifts %s" % sh
    if np.any(abs(dev) > tol): return "shifts %s, expected %s modulo %d" % (sh, true % per, per)
    if c["theta"]: return None
    ps = gen.raw(s.pilot_seq); y = gen.raw(x); n = np.arange(c["seq"]) * c["os"]
    for m in range(c["nm"]):          # which mode carries which pilots (sample with the strongest correlation of differential symbols)
        t0 = (c["d"] + (c["dmode"] if m == 1 else 0)) % per; seg = y[m, t0 + n]; g = seg[1:] * seg[:-1].conj()
        co = [abs(np.vdot(p[1:] * p[:-1].conj(), g)) for p in ps]
        if int(np.argmax(co)) != m: return "mode %d carries the pilots of mode %d" % (m, int(np.argmax(co)))
    return None


def sync(ctx, rng, i):
    c = config(ctx, rng); kw = {}; nt = gen.pick(rng, [17, 17, 17, 15, 21, 25])
    if nt != 17: kw["Ntaps"] = nt
    rt = bool(rng.integers(2)); ctx.case(Ntaps=nt, returntaps=rt)

    def once(seed):
        s, x = build(rng, seed=seed, **c); x0 = gen.raw(x); a0 = digest_ref(x)
        r = x.sync2frame(returntaps=rt, **kw); ok = r[1] if rt else r
        ctx.ok(digest_ref(x) == a0, "synchronisation altered the reference"); ctx.ok(x.synctaps == nt, "synctaps %s" % x.synctaps)
        y = gen.raw(x); ctx.ok(sorted(map(bytes, map(np.ascontiguousarray, y))) == sorted(map(bytes, map(np.ascontiguousarray, x0))), "synchronisation did not just reorder the modes")
        if not ok: ctx.ok(False, "synchronisation reported as failed", mech="stat")
        if rt: ctx.ok(r[0].shape == (c["nm"], c["nm"], nt), "taps of shape %s" % (r[0].shape,))
        w = aligned(c, s, x, 2 * c["os"]); ctx.ok(w is None, "synchronisation: %s" % w, mech="stat")
        foe = np.asarray(x._foe) * 24e9                  # kept relative to the symbol rate
        if c["fo"] > 3e6: ctx.ok(np.all(abs(foe - c["fo"]) < 4e6), "coarse offset %s for %g" % (foe.ravel(), c["fo"]), mech="stat")
        # correction by the mean of the modes, and nothing more when it is asked for again
        a = float(gen.pick(rng, [0, 0, 1e-4, -3e-3])); v = gen.raw(x).copy(); f = foe.mean() / 24e9 + a
        if a: x.corr_foe(a)
        else: x.corr_foe()
        w = v * np.exp(-2j * np.pi * f * np.arange(v.shape[1]) / c["os"]); u = gen.raw(x); w = w * np.exp(1j * np.angle(np.sum(u * w.conj(), axis=1, keepdims=True)))
        ctx.close(u, w, 1e-6 * abs(v).max(), "correction of the coarse offset %g and %g more" % (foe.mean(), a)); x.corr_foe(); ctx.close(gen.raw(x), u, 1e-9 * abs(v).max(), "second correction of the coarse offset")
        ctx.ok(digest_ref(x) == a0, "the correction altered the reference"); ctx.count("offset corrections")
    retry(ctx, rng, once); note(ctx, c); ctx.count("synchronised"); ctx.nontrivial()


def digest_ref(x):
    return gen.digest([gen.raw(x.symbols), gen.raw(x.pilots), gen.raw(x.pilot_seq), gen.raw(x.ph_pilots), x.symbols.bits if hasattr(x.symbols, "bits") else None, x.fb, x.fs, x.M, x.frame_len, x.nframes])


def payload_errors(c, s, y, frame):
    """symbol errors of the payload of a frame against what was transmitted, decided here"""
    sy = gen.raw(s.symbols); nd = int(np.asarray(s.idx_payload)[:c["fl"]].sum()); nref = sy.shape[1] // nd; t = np.array([r[(f % nref) * nd:(f % nref + 1) * nd] for r, f in zip(sy, np.broadcast_to(frame, c["nm"]))])
    d = gen.raw(y)[:, np.nonzero(np.asarray(s.idx_payload)[:c["fl"]])[0]]
    if d.shape != t.shape: raise Violation("payload of shape %s, transmitted %s" % (d.shape, t.shape))
    a = gen.ref_qam(c["M"]); e = []
    for m in range(c["nm"]):
        k, _ = gen.nearest(d[m], a); kt, _ = gen.nearest(t[m], a); e.append(np.mean(k != kt))
    return np.array(e), d.shape[1]


def receiver(ctx, rng, i):
    fresh = rng.random() < .3
    c = config(ctx, rng, repeat=not fresh); os = c["os"]
    frame = gen.pick(rng, [0, 0, 1]); meth = gen.pick(rng, [None, ("cma", "cma"), ("cma", "sbd_data"), ("mcma", "dd"), ("cma", "mcma"), ("cma_real", "dd_data_real")])
    foe = True if c["fo"] else gen.pick(rng, [True, False])
    if rng.random() < .15 and (meth is None or "real" not in meth[0]): c["fo"] = float(gen.pick(rng, [5e7, 1e8])); foe = left = True; meth = gen.pick(rng, [("cma", "sbd_data"), ("mcma", "sbd_data"), ("cma", "dd")]); ctx.case(fo=c["fo"])
    else: left = c["fo"] >= 1e7 and rng.random() < .5              # the equaliser itself has to remove the offset
    nt = 17 + 2 * int(gen.pick(rng, [0, 0, 1, 2, 6, 12])); mu = gen.pick(rng, [1e-3, [1e-3, 1e-3]]); wi = meth in (("cma", "cma"), ("cma", "sbd_data")) and rng.random() < .3
    if meth == ("cma_real", "dd_data_real"):                 # real-valued equalisers cannot turn the field
        c["fo"] = 0.; c["theta"] = None; foe = False; c["os"] = os = 2; ctx.case(fo=0., theta=None, os=2)
    ctx.case(frame=frame, methods=meth, foe_comp=foe, offset_left=left, Ntaps=nt, wxinit=wi, mu=mu)

    def once(seed):
        s, x = build(rng, seed=seed, **c)
        if not x.sync2frame(): ctx.ok(False, "synchronisation failed", mech="stat")
        if c["fo"] > 2e6 and not left: x.corr_foe()
        sh = np.array(x.shiftfctrs)
        before = digest_ref(x), gen.raw(x), sh
        # position of the frame that will be equalised: the reported shift may lie in any frame
        st = sh.copy() - (nt - x.synctaps) // 2
        if st.min() < 0: st = st + os * c["fl"]
        f_tx = np.round((st + frame * os * c["fl"] - c["d"] - np.where(np.arange(c["nm"]) == 1, c["dmode"], 0) + nt // 2) / (os * c["fl"])).astype(int)
        if st.max() + (frame + 1) * os * c["fl"] + nt >= x.shape[-1]:
            raise Skip("frame not complete")
        if fresh and (f_tx.min() < 0 or f_tx.max() >= c["nf"]): raise Skip("frame wraps around")
        kw = {} if meth is None else dict(methods=meth)
        if rng.random() < .5: kw["adaptive_stepsize"] = True
        if wi:
            w0 = equalisation.pilot_equaliser(x, mu, nt, False, foe_comp=foe); w0b = w0.copy(); kw["wxinit"] = w0
        taps, y, f, ntt = equalisation.pilot_equaliser(x, mu, nt, True, foe_comp=foe, frame=frame, verbose=True, **kw)
        ctx.ok(before[0] == digest_ref(x) and np.array_equal(before[2], x.shiftfctrs), "the equaliser altered its argument's description"); ctx.eq(gen.raw(x), before[1], "the equaliser altered the received signal")
        if wi: ctx.eq(w0, w0b, "initial taps altered"); ctx.count("initial taps")
        ctx.count("arguments unchanged")
        ctx.ok(tuple(ntt) == (nt, 17) and y.shape == (c["nm"], c["fl"]) and y.fs == y.fb == 24e9, "returned signal %s at %g, taps %s" % (y.shape, y.fs, ntt))
        real = not np.iscomplexobj(taps); ctx.ok(taps.shape == ((2 if real else 1) * c["nm"],) * 2 + (nt,), "taps of shape %s" % (taps.shape,))
        xc = phaserec.comp_freq_offset(x, f) if foe else x
        ctx.close(gen.raw(y), fir(gen.raw(xc), taps, os, st, [frame], c["fl"]), 1e-8 * max(1, abs(gen.raw(y)).max()), "the taps do not reproduce the signal (independent filter)")
        ctx.close(gen.raw(equalisation.apply_filter(xc, taps, frames=[frame])), gen.raw(y), 1e-10 * max(1, abs(gen.raw(y)).max()), "apply_filter does not reproduce the signal"); ctx.count("taps reproduce signal")
        if real:
            z = y; e, n = payload_errors(c, s, z, f_tx)
            if e.max() > 5e-3: z, _ = phaserec.pilot_cpe(y, nframes=1); e, n = payload_errors(c, s, z, f_tx)
        else:
            z, _ = phaserec.pilot_cpe(y, nframes=1); e, n = payload_errors(c, s, z, f_tx)
        lim = 5e-3 if c["theta"] is None else 3e-2; ctx.ok(e.max() <= lim, "payload of frame %d (transmitted frame %s): symbol error rates %s" % (frame, f_tx, e), mech="stat"); ctx.count("payload symbols compared", n * c["nm"]); ctx.peak("symbol error rate", e.max())
        if not fresh:
            ctx.ok(np.max(z.cal_ser()) <= lim and np.max(z.cal_ber()) <= lim, "reported SER %s BER %s" % (z.cal_ser(), z.cal_ber()), mech="stat")
        if foe and c["fo"] and c["fo"] < 2e6: ctx.ok(np.all(abs(np.asarray(f).ravel() * 24e9 - c["fo"]) < 3e5), "offset %s for %g" % (np.ravel(f), c["fo"]), mech="stat")
        if np.any(st != sh - (nt - 17) // 2): ctx.count("shifts moved by a frame")
    retry(ctx, rng, once); note(ctx, c)
    if c["d"] % os or c["dmode"] % os: ctx.count("pilot seq realigned")
    if frame: ctx.count("later frames")
    if left and c["fo"]: ctx.count("offsets left to the equaliser")
    if nt != 17: ctx.count("different tap numbers")
    if meth and "real" in meth[0]: ctx.count("real-valued taps")
    ctx.nontrivial()


def fir(x, w, os, start, frames, fl):
    """out_m[k] = sum_j sum_t w[m, j, t] x_j[start_m + f os fl + k os + t] for every frame f in order; real taps act on real and imaginary parts"""
    nm = x.shape[0]; Nt = w.shape[-1]; out = np.zeros((nm, fl * len(frames)), complex); xx = x if np.iscomplexobj(w) else np.vstack([x.real, x.imag])
    for m in range(nm):
        for q, f in enumerate(frames):
            k = start[m] + f * os * fl + np.arange(fl) * os
            def row(r): return sum(w[r, j, t] * xx[j, k + t] for j in range(xx.shape[0]) for t in range(Nt))
            out[m, q * fl:(q + 1) * fl] = row(m) if np.iscomplexobj(w) else row(m) + 1j * row(m + nm)
    return out


def small(rng, os=None, nf=5, nm=None):
    nm = nm or gen.more(rng, gen.pick(rng, [1, 2, 3])); os = os or gen.pick(rng, [1, 2, 4]); seq, ins = int(rng.integers(4, 40)), int(rng.integers(2, 9)); fl = seq + ins * int(rng.integers(3, 20)); dt = gen.pick(rng, [np.complex128, np.complex128, np.complex64])
    s = signals.SignalWithPilots(4, fl, seq, ins, nmodes=nm, nframes=nf, fb=1., dtype=dt); y = gen.cnoise(rng, (nm, fl * nf * os)).astype(dt)
    return s.recreate_from_np_array(y, fs=float(os)), y, nm, os, fl, dt


def apply(ctx, rng, i):
    x, y, nm, os, fl, dt = small(rng); st = 2 * int(rng.integers(0, 12)) + 1; Nt = st + 2 * int(rng.integers(-(st - 1) // 2, 9)); real = rng.random() < .35
    sh = rng.integers(0, 2 * fl * os // 2, nm) if rng.random() < .6 else np.repeat(rng.integers(0, fl * os), nm)
    if rng.random() < .2: sh = np.minimum(sh, 4)
    x.shiftfctrs = sh.copy(); x.synctaps = st; start = sh - (Nt - st) // 2
    if start.min() < 0: start = start + os * fl; ctx.count("shifts moved by a frame")
    room = (y.shape[1] - Nt + 1 - start.max() - 1) // (os * fl)         # complete frames
    if room < 1: raise Skip("no complete frame")
    fr = gen.pick(rng, [[0], None, list(range(room)), list(rng.integers(0, room, int(rng.integers(1, 4)))), [room - 1], list(range(room))[::-1], [0, room - 1]])
    w = (gen.cnoise(rng, (nm, nm, Nt)).astype(dt) if not real else rng.standard_normal((2 * nm, 2 * nm, Nt)).astype(y.real.dtype))
    fr_ = [int(f) for f in fr] if fr else [0]; ctx.case(nm=nm, os=os, fl=fl, Nt=Nt, synctaps=st, shifts=sh, frames=fr_, real=real, dtype=np.dtype(dt).name, default=fr is None)
    before = gen.digest([x, w]); out = equalisation.apply_filter(x, w) if fr is None else equalisation.apply_filter(x, w, frames=fr_)
    ctx.ok(gen.digest([x, w]) == before, "arguments altered"); ctx.eq(np.asarray(x.shiftfctrs), sh, "shifts altered")
    o = gen.raw(out); ref = fir(y, w, os, start, fr_, fl)
    if o.ndim == 1 and nm == 1: o = o[None]
    ctx.ok(type(out) is type(x) and out.fs == out.fb == 1., "returned %s at %s" % (type(out), out.fs))
    ctx.close(o, ref, (1e-10 if dt is np.complex128 else 3e-5) * max(1, abs(ref).max()), "frames %s" % fr_); ctx.count("frames applied", len(fr_))
    if real: ctx.count("real-valued taps")
    if fr_ != sorted(fr_): ctx.count("frames out of order")
    if len(fr_) > 1 or np.unique(sh).size > 1 or Nt != st: ctx.nontrivial()
    if Nt != st: ctx.count("different tap numbers")
    # a frame that is not there
    bad = gen.pick(rng, [room, room, max(fr_) + room + 1])
    ctx.raises(lambda: equalisation.apply_filter(x, w, frames=[bad]), "frame %d of %d complete ones" % (bad, room)); ctx.count("rejected")
    if rng.random() < .3:                                   # the whole signal without regard to frames
        o = gen.raw(equalisation.apply_filter(x, w, frames=gen.pick(rng, [None, [], False]))); n = (y.shape[1] - Nt) // os + 1
        ctx.close(o, fir(y, w, os, np.zeros(nm, int), [0], n), (1e-10 if dt is np.complex128 else 3e-5) * max(1, abs(o).max()), "whole signal")


def nframes(ctx, rng, i):
    c = config(ctx, rng, frames=2); c["dmode"] = 0; c["nf"] = 4; os = c["os"]; c["d"] = max(c["d"], 2 * c["seq"] * os); nt = gen.pick(rng, [17, 17, 19, 21, 25])
    nt = 17 + (nt - 17) // 2 * 2; kind = gen.pick(rng, ["none", "list", "single", "default", "later"]); verbose = bool(rng.integers(2)); app = rng.random() < .7; d = c["d"] % (os * c["fl"]) / os / c["fl"]; tail = 0 if rng.random() < .4 else float(rng.uniform(.1, .9)) if rng.random() < .5 or d > .8 else float(rng.uniform(d + .1, .95))
    if tail: c["fo"] = 0.; kind = gen.pick(rng, ["none", kind]); ctx.case(fo=0.)
    given = int(gen.pick(rng, [0, 0, 0, 1, 2, 4])); foe = True if c["fo"] else bool(rng.integers(2)); ctx.case(given_taps=bool(given), tail=tail, Ntaps=nt, kind=kind, verbose=verbose, apply=app, foe_comp=foe, d=c["d"], nf=4, dmode=0)

    def once(seed):
        s, x = build(rng, seed=seed, **c)
        if tail: x = x.recreate_from_np_array(np.hstack([gen.raw(x), gen.raw(x)[:, :int(tail * c["fl"]) * os]]))          # the frames repeat without a seam
        if not x.sync2frame(): ctx.ok(False, "synchronisation failed", mech="stat")
        if c["fo"] > 2e6: x.corr_foe()
        sh = np.array(x.shiftfctrs); navail = (x.shape[-1] - sh.max()) // (os * c["fl"]); st = sh - (nt - 17) // 2
        if st.min() < 0: raise Skip("moved by a frame")
        if x.shape[-1] - sh.max() - navail * os * c["fl"] <= nt: raise Skip("no room for the filter")
        fr = dict(none=None, list=list(range(navail)), single=[int(rng.integers(navail))], default=[0], later=list(range(1, navail)) or [0])[kind]; frl = list(range(navail)) if fr is None else fr
        kw = {} if kind == "default" else dict(frames=fr)
        if given:       # initial taps determine the number of taps
            w0 = np.zeros((c["nm"], c["nm"], nt), complex); w0[np.arange(c["nm"]), np.arange(c["nm"]), nt // 2] = 1; kw["wxinit"] = w0
        before = gen.digest([x, kw]); r = equalisation.pilot_equaliser_nframes(x, 1e-3, nt + given, apply=app, foe_comp=foe, verbose=verbose, **kw); ctx.ok(gen.digest([x, kw]) == before, "arguments altered"); ctx.count("arguments unchanged"); ctx.count("initial taps given", bool(given))
        if given and 0 in frl[:1]:
            r0 = equalisation.pilot_equaliser_nframes(x, 1e-3, nt, apply=False, foe_comp=foe, verbose=False, frames=[0]); ctx.close(r[0][0], r0[0][0], 1e-9, "taps of frame 0 from given initial taps and from the default ones")
        taps = r[0]; ctx.ok(len(taps) == len(frl), "%d tap arrays for frames %s" % (len(taps), frl))
        ex = (r[2] if app else r[1:])
        ctx.ok(len(ex) == (2 if verbose else 0), "%d further results" % len(ex))
        if verbose: ctx.ok(len(ex[0]) == len(frl) and all(tuple(t) == (nt, 17) for t in ex[1]), "verbose results")
        if app:
            y = r[1]; ctx.ok(y.shape == (c["nm"], c["fl"] * len(frl)) and y.fs == y.fb and type(y) is type(x), "signal of shape %s" % (y.shape,))
            for q, f in enumerate(frl):
                part = gen.raw(y)[:, q * c["fl"]:(q + 1) * c["fl"]]
                if verbose or not foe:
                    xc = phaserec.comp_freq_offset(x, ex[0][q]) if foe else x
                    ctx.close(part, fir(gen.raw(xc), taps[q], os, st, [f], c["fl"]), 1e-8 * max(1, abs(part).max()), "taps of frame %d" % f); ctx.count("taps reproduce signal")
                z, _ = phaserec.pilot_cpe(y.recreate_from_np_array(part), nframes=1); e, n = payload_errors(c, s, z, f); ctx.ok(e.max() <= (5e-3 if c["theta"] is None else 3e-2), "frame %d: SER %s" % (f, e), mech="stat"); ctx.count("payload symbols compared", n * c["nm"])
        if kind == "none": ctx.count("all frames")
        if tail: ctx.count("fractional number of frames")
        if len(frl) > 1: ctx.count("several frames")
    retry(ctx, rng, once); note(ctx, c); ctx.nontrivial()


def three_modes(ctx, rng, i):
    """a configuration whose third mode needs its own step size"""
    c = dict(nm=3, os=1, seq=2048, ins=16, fl=6928, M=64, snr=33., d=4407, dmode=0, perm=np.array([0, 2, 1]), fo=1e6, theta=None, nf=3, repeat=True); ctx.case(**c)

    def once(seed):
        s, x = build(rng, seed=seed, **c)
        if not x.sync2frame(): ctx.ok(False, "synchronisation failed", mech="stat")
        taps, y = equalisation.pilot_equaliser(x, 1e-3, 19, True, foe_comp=True, frame=1, methods=("cma", "sbd_data"))
        z, _ = phaserec.pilot_cpe(y, nframes=1); e, n = payload_errors(c, s, z, 1); ctx.ok(e.max() <= 5e-3, "three modes with data-aided training: symbol error rates %s" % e, mech="stat")
    retry(ctx, rng, once); ctx.nontrivial(i)


def pilot_orders(ctx, rng, i):
    """pilots of the order the signal describes, whatever it is"""
    Mp = gen.pick(rng, [16, 16, 4]); nm = int(rng.integers(1, 3)); fl = 1024 + 32 * int(rng.integers(64, 140)); d = int(rng.integers(1024, 2 * fl)); nt = 17 + 2 * int(rng.integers(0, 3)); foe = bool(rng.integers(2)); ctx.case(Mpilots=Mp, nm=nm, fl=fl, d=d, Ntaps=nt, foe=foe)

    def once(seed):
        np.random.seed(seed); s = signals.SignalWithPilots(64, fl, 1024, 32, nmodes=nm, nframes=3, Mpilots=Mp, fb=24e9); x = impairments.change_snr(np.roll(s.resample(48e9, beta=.1, renormalise=True), d, axis=-1), 34); c = dict(nm=nm, os=2, seq=1024, fl=fl, M=64, d=d, dmode=0, theta=None)
        if not x.sync2frame(): ctx.ok(False, "synchronisation failed", mech="stat")
        w = aligned(c, s, x, 4); ctx.ok(w is None, "synchronisation on %d-QAM pilots: %s" % (Mp, w), mech="stat")
        taps, y = equalisation.pilot_equaliser(x, 1e-3, nt, True, foe_comp=foe, methods=gen.pick(rng, [("cma", "sbd"), ("mcma", "sbd"), ("mcma", "sbd_data")])); z, _ = phaserec.pilot_cpe(y, nframes=1)
        st = np.asarray(x.shiftfctrs) - (nt - 17) // 2; f = np.round(((st if st.min() >= 0 else st + 2 * fl) - d + nt // 2) / (2 * fl)).astype(int); e, n = payload_errors(c, s, z, f); ctx.ok(e.max() <= 5e-3, "%d-QAM pilots: symbol error rates %s" % (Mp, e), mech="stat"); ctx.count("payload symbols compared", n * nm)
        m = gen.pick(rng, [("mcma", "mcma"), ("cma", "cma"), ("mcma", "cma")])
        a, b = (equalisation.pilot_equaliser(x, 1e-3, nt, False, foe_comp=foe, methods=m, **k) for k in (dict(), dict(M_pilot=Mp))); ctx.close(a, b, 1e-9, "taps of %d-QAM pilots with and without naming their order" % Mp)
    retry(ctx, rng, once); ctx.count("pilot orders"); ctx.nontrivial()


def errors(ctx, rng, i):
    x, y, nm, os, fl, dt = small(rng, nf=3); kind = i % 6; ctx.case(kind=kind); ctx.count("rejected")
    if kind == 0:
        ctx.raises(lambda: equalisation.pilot_equaliser(x, 1e-3, 11), "not synchronised", ValueError); ctx.raises(lambda: equalisation.pilot_equaliser_nframes(x, 1e-3, 11), "not synchronised", ValueError)
    elif kind == 1:
        x.shiftfctrs = np.zeros(nm, int); x.synctaps = 17
        ctx.raises(lambda: equalisation.pilot_equaliser(x, 1e-3, 17 + 2 * int(rng.integers(-4, 5)) + 1), "odd difference of taps", ValueError)
    elif kind == 2:
        x.shiftfctrs = np.full(nm, 5); x.synctaps = 5
        ctx.raises(lambda: equalisation.pilot_equaliser(x, 1e-3, 5, frame=int(rng.integers(3, 6))), "incomplete frame", AssertionError); ctx.raises(lambda: equalisation.pilot_equaliser_nframes(x, 1e-3, 5, frames=[0, 3]), "incomplete frame", AssertionError)
    elif kind == 3:
        ctx.raises(lambda: x.sync2frame(method=gen.pick(rng, ["sbd_data", "cma_real", "dd_real", "dd_data_real", "sgncma_real"])), "method that cannot synchronise", ValueError)
    elif kind == 4:
        x.shiftfctrs = np.zeros(nm, int); x.synctaps = 5
        ctx.raises(lambda: equalisation.pilot_equaliser(x, 1e-3, 5, methods=gen.pick(rng, [("cma", "dd_real"), ("cma_real", "cma"), ("cma_real", "sbd_data"), ("mcma", "dd_data_real")])), "mixing real and complex equalisers", ValueError)
    else:
        z = x[:, :fl * os]; ctx.raises(lambda: z.sync2frame(), "signal shorter than a frame and two pilot sequences", AssertionError)


def shifts(ctx, rng, i):
    """the frame start moves by half the difference of the filter lengths"""
    nm = int(rng.integers(1, 6)); os = gen.pick(rng, [1, 2, 4]); k = rng.integers(-5000, 50000, nm); n0 = 2 * int(rng.integers(1, 40)) + 1; n1 = n0 + 2 * int(rng.integers(-(n0 // 2), 60)); a = k if rng.random() < .5 else k.tolist(); h = gen.digest(k); ctx.case(nm=nm, os=os, taps=(n0, n1), shifts=k.tolist()); f = lambda: pilotbased_receiver.correct_shifts(a, gen.pick(rng, [(n0, n1), [n0, n1]]), os)
    if (n1 - n0) % os: ctx.raises(f, "difference of taps that is no multiple of the oversampling", ValueError)
    else: ctx.eq(np.asarray(f()), k - (n1 - n0) // 2, "shifts"); ctx.count("shifts corrected"); ctx.nontrivial()
    ctx.ok(gen.digest(k) == h and (a is k or a == k.tolist()), "the shifts were altered")


SCENARIOS = [("sync", sync, 120, 1500), ("receiver", receiver, 200, 3000), ("apply", apply, 300, 4000), ("nframes", nframes, 50, 700), ("three_modes", three_modes, 4, 20), ("pilot_orders", pilot_orders, 16, 200), ("errors", errors, 30, 120), ("shifts", shifts, 60, 600)]

"""C12 AddressSanitizer and UndefinedBehaviorSanitizer builds of the kernels under boundary and hostile arguments."""
import json, os, subprocess, sys
import numpy as np
import gen
from vp import Skip, load_check
from qampy import signals, equalisation, phaserec
from qampy.core import equalisation as ceq, phaserecovery as pr, signal_quality as sq, prbs, digital_pre_compensation as dpc, pilotbased_receiver as pbr
from qampy.core import pythran_dsp as pd
from qampy.core.equalisation import pythran_equalisation as pe

RULE = ("kernels compiled with AddressSanitizer and UndefinedBehaviorSanitizer (allocations of numpy intercepted too), called through the library's functions with boundary sizes (filters as long as the signal, one sample too long, windows longer than the signal, one sample, no sample, the last possible training symbol, one too many), "
        "every mode list, method, format and precision, non-contiguous memory, NaN and infinite samples, and random invalid arguments, which may be rejected with an exception but not accepted with data that is not there; the oracle is the sanitizer and, for invalid arguments, the outcome; non-trivial: a call that reached a compiled kernel")
REQUIRED = ["calls into kernels", "filters", "trainings", "real-valued trainings", "longest trainings", "rejected", "phase searches", "window longer than signal", "decisions", "demappers", "snr estimates", "mutual information", "look-up tables", "prbs", "empty input", "not finite", "hostile calls", "hostile calls accepted", "hostile calls refused", "pilot chains",
            "sanitizer canary caught"]
BUDGET = (300, 3000); SHARDS = 8
ASSUMPTIONS = ["Reads inside a larger numpy allocation than the view in use are not seen by AddressSanitizer; inputs are therefore exact copies"]


def F(rng, nm, L, dt, special=True):
    x = (gen.cnoise(rng, (nm, L)) * 10 ** rng.uniform(-1, 1)).astype(dt)
    if special and x.size and rng.random() < .12:
        x[tuple(int(rng.integers(k)) for k in x.shape)] = gen.pick(rng, [np.nan, np.inf, -np.inf, 1e300 if dt is np.complex128 else 1e38, complex(np.nan, np.inf)])
    return x


def K(ctx, n=1): ctx.count("calls into kernels", n)


def common(ctx, rng):
    dt = gen.pick(rng, gen.DT); nm = gen.more(rng, gen.pick(rng, [1, 2, 2, 3, 4])); os_ = gen.pick(rng, [1, 2, 2, 3, 4, 7]); Nt = gen.pick(rng, [1, 2, 3, int(rng.integers(1, 30))]); ctx.case(dtype=np.dtype(dt).name, nmodes=nm, os=os_, Ntaps=Nt); return dt, nm, os_, Nt


def finite(ctx, x):
    if not np.all(np.isfinite(x)): ctx.count("not finite")


def filt(ctx, rng, i):
    dt, nm, os_, Nt = common(ctx, rng); L = Nt + int(gen.pick(rng, [0, 0, 1, os_ - 1, os_, os_ + 1, int(rng.integers(0, 60))])); E = F(rng, nm, L, dt); finite(ctx, E); real = rng.random() < .4; n = 2 * nm if real else nm
    w = rng.standard_normal((n, n, Nt)).astype(np.empty(0, dt).real.dtype) if real else gen.cnoise(rng, (n, n, Nt)).astype(dt); h = rng.integers(0, nm, int(rng.integers(1, 6))); modes = gen.pick(rng, [None, np.hstack([h, h + nm]) if real else h, np.hstack([np.full(3, nm - 1)] * (2 if real else 1))]); ctx.case(L=L, real=real, modes=None if modes is None else modes.tolist())
    y = ceq.apply_filter(E, os_, w, modes=modes); ctx.ok(y.shape[1] == (L - Nt) // os_ + 1, "%d output samples" % y.shape[1]); K(ctx); ctx.count("filters")
    pe.apply_filter_to_signal(E if not real else np.vstack([E.real, E.imag]), os_, w, None); pe.apply_filter_to_signal(E if not real else np.vstack([E.real, E.imag]), os_, w, np.array([n - 1])); K(ctx, 2)
    E2 = F(rng, nm, max(Nt - 1 - int(rng.integers(0, 3)), 0), dt); ctx.raises(lambda: ceq.apply_filter(E2, os_, w), "filter longer than the signal"); ctx.raises(lambda: ceq.apply_filter(E, os_, w, modes=[n]), "mode that does not exist"); ctx.raises(lambda: ceq.apply_filter(E, os_, w, modes=[-1]), "negative mode"); ctx.raises(lambda: ceq.apply_filter(np.vstack([E, E]), os_, w), "taps of fewer inputs")
    ctx.count("rejected", 4); ctx.nontrivial()


def train(ctx, rng, i):
    me = ceq.TRAINING_FCTS[i % len(ceq.TRAINING_FCTS)]; real = me in ceq.REAL_VALUED; dt, nm, os_, Nt = common(ctx, rng); T = int(gen.pick(rng, [1, 2, 0, int(rng.integers(1, 40))])); L = max((T - 1) * os_ + Nt, Nt) + int(gen.pick(rng, [0, 0, 1, os_])); M = gen.pick(rng, gen.QAM); E = F(rng, nm, L, dt); finite(ctx, E)
    data = me in ceq.DATA_AIDED; sy = None; k = rng.integers(4); a = gen.ref_qam(M)
    if data: sy = a[rng.integers(0, M, T if k == 0 else (1 if k == 1 else nm, T))]
    elif me in ceq.DECISION_BASED: sy = [None, a[:1].copy(), a, np.tile(a, (nm, 1))][k]
    modes = gen.pick(rng, [None, [nm - 1], np.arange(nm)[::-1]]); it = gen.pick(rng, [1, 1, 2, 3, 0]); n = 2 * nm if real else nm; ad = bool(rng.integers(2)); kw = {}; ctx.case(method=me, T=T, L=L, M=M, Niter=it, symbols=None if sy is None else sy.shape)
    if rng.integers(2): kw["Ntaps"] = Nt
    else: kw["wxy"] = (rng.standard_normal((n, n, Nt)) if real else gen.cnoise(rng, (n, n, Nt))).astype(dt if not real else np.empty(0, dt).real.dtype)
    if data and T == 0: raise Skip
    mu = gen.pick(rng, [1e-3, 1e-3, .3, 0.]); r = ceq.equalise_signal(E, os_, mu, M, TrSyms=T, Niter=it, method=me, adaptive_stepsize=ad, symbols=sy, modes=modes, apply=bool(rng.integers(2)), **kw); ctx.ok(r[-1].shape == (n, T * it), "errors of shape %s" % (r[-1].shape,)); K(ctx); ctx.count("real-valued trainings" if real else "trainings"); ctx.nontrivial()
    if L == (T - 1) * os_ + Nt and T: ctx.count("longest trainings")
    base = dict(TrSyms=T, Niter=it, method=me, symbols=sy, **kw); g = lambda o=os_, **k: ceq.equalise_signal(E, o, 1e-3, M, **dict(base, **k))
    bad = [(dict(TrSyms=(L - Nt) // os_ + 2), "one training symbol too many"), (dict(modes=[nm if not real else 2 * nm]), "mode that does not exist"), (dict(modes=[-1]), "negative mode"), (dict(TrSyms=-1), "negative training length"), (dict(Niter=-1), "negative iterations")]
    if data and T > 1: bad.append((dict(symbols=sy[..., :T - 1]), "one known symbol too few"))
    if not data and me in ceq.DECISION_BASED and nm > 1: bad.append((dict(symbols=np.tile(a, (nm + 1, 1))), "symbols of too many modes"))
    for b, what in bad:
        if "Ntaps" not in kw and "TrSyms" not in b and rng.random() < .3: b = dict(b, wxy=kw["wxy"])
        ctx.raises(lambda: g(**b), what); ctx.count("rejected")
    ctx.raises(lambda: g(o=0), "oversampling of zero"); ctx.raises(lambda: ceq.equalise_signal(E, os_, 1e-3, M, Ntaps=L + 1, method=me, symbols=sy), "filter longer than the signal"); ctx.count("rejected", 2)


def phase(ctx, rng, i):
    dt, nm, _, _ = common(ctx, rng); L = int(gen.pick(rng, [0, 1, 2, 3, int(rng.integers(1, 80))])); M = gen.pick(rng, gen.QAM); a = gen.ref_qam(M).astype(dt); Na = int(gen.pick(rng, [1, 2, 3, int(rng.integers(1, 30))])); N = int(gen.pick(rng, [1, 2, 3, L // 2, L // 2 + 1, L, L + 1, 2 * L + 1, 0])); E = F(rng, nm, L, dt); finite(ctx, E); k = i % 5; ctx.case(L=L, Nangles=Na, N=N, M=M, kind=k)
    if 2 * N > L: ctx.count("window longer than signal")
    if L == 0: ctx.count("empty input")
    rt = np.empty(0, dt).real.dtype
    try:
        if k == 0: y, ph = pr.bps(E, Na, a, N); ctx.ok(y.shape == E.shape == ph.shape, "shapes %s %s" % (y.shape, ph.shape))
        elif k == 1: y, ph = pr.bps_twostage(E, max(Na, 2), a, N, B=int(rng.integers(2, 6))); ctx.ok(y.shape == E.shape == ph.shape, "shapes %s %s" % (y.shape, ph.shape))
        elif k == 2 and L:
            for p in (1, L): ix = pd.bps(E[0].copy(), rng.standard_normal((p, Na)).astype(rt), a, N); ctx.ok(ix.shape == (L,) and ix.min() >= 0 and ix.max() < Na, "indices %s" % ix); K(ctx)
        elif k == 3 and L:
            g = rng.standard_normal((L, Na)).astype(rt); ix = rng.integers(0, Na, L)
            for j in (ix, ix.astype(np.int32)): ctx.eq(pd.select_angles(g, j), g[np.arange(L), ix], "selected angles"); ctx.eq(pd.select_angles(g[:1].copy(), j), g[0, ix], "selected angles"); K(ctx, 2)
        else: phaserec.bps(signals.SignalQAMGrayCoded(M, max(L, 1), nmodes=nm, dtype=dt), Na, N)
    except Exception as e:
        if L and 2 * N <= L and N: raise
        ctx.count("rejected"); return                          # an empty signal or a window that does not fit may be refused
    K(ctx); ctx.count("phase searches"); ctx.nontrivial()


def soft(ctx, rng, i):
    dt, nm, _, _ = common(ctx, rng); M = gen.pick(rng, gen.QAM[:-2] + [2, 1024][i % 40 == 0:] if i % 40 == 0 else [4, 8, 16, 32, 64]); M = M if M in gen.QAM else 4; N = int(gen.pick(rng, [1, 2, M, int(rng.integers(1, 120))])); s = signals.SignalQAMGrayCoded(M, N, nmodes=nm, dtype=dt); x = gen.raw(s) + F(rng, nm, N, dt); x = x.astype(dt); finite(ctx, x); z = s.recreate_from_np_array(x); ctx.case(M=M, N=N); snr = rng.uniform(-10, 40, nm)
    for f in (lambda: z.cal_gmi(snr=snr), lambda: z.cal_gmi(snr=snr, llr_minmax=True), lambda: z.est_snr(), lambda: z.cal_mi(snr=snr)):
        try: f()
        except Exception:
            if np.all(abs(x.astype(complex)) < 1e15): raise
            ctx.count("rejected")                              # synchronisation of samples that are not finite
        K(ctx, nm)
    z.cal_gmi(synced=True, snr=snr); z.cal_gmi(synced=True, snr=snr, llr_minmax=True)
    ctx.count("demappers", 2); z.est_snr(synced=True); K(ctx, nm); ctx.count("snr estimates"); z.cal_mi(synced=True, snr=snr); z.cal_mi(synced=True); K(ctx, 3 * nm); ctx.count("mutual information")
    d = z.make_decision(); ctx.ok(d.shape == x.shape, "decisions %s" % (d.shape,)); K(ctx, nm); ctx.count("decisions")
    e = np.zeros(0, dt); a = gen.raw(s.coded_symbols)
    for f in (lambda: pe.make_decision(e, a), lambda: pd.soft_l_value_demapper(e, s.Nbits, 10., s._bitmap_mtx), lambda: pd.soft_l_value_demapper_minmax(e, s.Nbits, 10., s._bitmap_mtx), lambda: pd.cal_mi_mc_fast(e, e, a, .1), lambda: pd.cal_mi_mc(e, a, .1), lambda: pd.estimate_snr(e, e, a), lambda: pe.make_decision(x[0].copy(), a[:1].copy()), lambda: pe.det_symbol(complex(x[0, 0]), np.ones(1, complex)), lambda: pe.det_symbol_parallel(complex(x[0, 0]), a.astype(complex))):
        f(); K(ctx)
    ctx.count("empty input"); ctx.nontrivial()


def lut(ctx, rng, i):
    dt = gen.pick(rng, gen.DT); M = gen.pick(rng, [4, 8, 16, 32]); a = gen.ref_qam(M); real = bool(rng.integers(2)); mem = int(gen.pick(rng, [1, 3, 3, 5] if M == 4 or real else [1, 3])); N = int(gen.pick(rng, [mem, mem + 1, int(rng.integers(mem, 300))])); s = a[rng.integers(0, M, N)].astype(dt); r = s + .1 * F(rng, 1, N, dt)[0]; idx = None if rng.random() < .5 else rng.random(N) < .7; ctx.case(M=M, mem=mem, N=N, real=real)
    if idx is not None and not idx.any(): raise Skip
    o = dpc.cal_lut(s, r.astype(dt), a, mem_len=mem, idx_data=idx, real_ptrns=real); K(ctx); ctx.count("look-up tables"); ctx.nontrivial()
    n = int(gen.pick(rng, [1, 2, 50])); T = int(rng.integers(1, 40)); pd.cal_lut_avg(gen.cnoise(rng, n).astype(dt), np.full(n, T - 1), np.zeros(n, int), T); K(ctx)


def bits(ctx, rng, i):
    o = gen.pick(rng, [7, 15, 23, 31]); n = int(gen.pick(rng, [0, 1, 2, o, o + 1, int(rng.integers(1, 300))])); seed = gen.pick(rng, [None, 1, 2 ** o - 1, int(rng.integers(1, 2 ** o))]); ctx.case(order=o, n=n, seed=seed)
    for f in (prbs.make_prbs_extXOR, prbs.make_prbs_intXOR):
        sd = seed if seed is None else (seed if f is prbs.make_prbs_intXOR else seed)
        b = f(o, n, sd) if sd is not None else f(o, n); ctx.ok(len(b) == n, "%d bits" % len(b)); K(ctx)
    ctx.count("prbs"); ctx.nontrivial()
    if n == 0: ctx.count("empty input")


def hostile(ctx, rng, i):
    """arguments drawn without regard to sense; anything but a sanitizer report is accepted here"""
    dt, nm, os_, Nt = common(ctx, rng); L = int(rng.integers(0, 60)); E = F(rng, nm, L, dt); M = gen.pick(rng, gen.QAM + [2, 3, 0]); iv = lambda: int(gen.pick(rng, [-2, -1, 0, 1, 2, 3, L, L + 1, L - Nt, 10 ** 6, int(rng.integers(0, 40))])); ar = lambda: gen.pick(rng, [None, iv(), [iv(), iv()], np.array([iv()]), [], np.arange(nm)[::-1]])
    sy = lambda: gen.pick(rng, [None, np.zeros(0, dt), gen.cnoise(rng, (nm, max(L // 2, 1))), gen.cnoise(rng, (1, 3)).astype(dt), gen.cnoise(rng, 5), gen.cnoise(rng, (2 * nm, 4)).real, gen.cnoise(rng, (nm, 0))])
    wx = lambda: gen.pick(rng, [None, gen.cnoise(rng, (nm, nm, Nt)).astype(dt), rng.standard_normal((2 * nm, 2 * nm, Nt)), gen.cnoise(rng, (nm, nm)), gen.cnoise(rng, (nm, nm, 0)), gen.cnoise(rng, (nm + 1, nm, Nt)), gen.cnoise(rng, (nm, nm, L + 3)).astype(dt), gen.cnoise(rng, (nm, nm, 2 * Nt))[:, :, ::2]])
    me = gen.pick(rng, list(ceq.TRAINING_FCTS)); k = i % 8; ctx.case(kind=k, method=me, L=L)
    a = gen.pick(rng, [gen.ref_qam(16).astype(dt), gen.cnoise(rng, 1).astype(dt), gen.cnoise(rng, 7), np.zeros(0, dt)])
    big = lambda v: v if not isinstance(v, (int, np.integer)) or abs(v) < 10 ** 5 else 77
    fs = [lambda: ceq.equalise_signal(E, big(iv()), gen.pick(rng, [1e-3, 1., -1., np.nan]), M, wxy=wx(), Ntaps=big(iv()), TrSyms=gen.pick(rng, [None, iv()]), Niter=big(min(iv(), 5)), method=me, adaptive_stepsize=bool(rng.integers(2)), symbols=sy(), modes=ar(), apply=bool(rng.integers(2))),
          lambda: ceq.dual_mode_equalisation(E, big(iv()), (1e-3, 1e-3), M, Ntaps=big(iv()), TrSyms=(gen.pick(rng, [None, iv()]), gen.pick(rng, [None, iv()])), methods=(me, gen.pick(rng, list(ceq.TRAINING_FCTS))), symbols=sy(), modes=ar()),
          lambda: ceq.apply_filter(E, big(iv()), wx(), modes=ar()), lambda: pr.bps(E, big(iv()), a, big(iv())), lambda: pr.bps_twostage(E, big(iv()), a, big(iv()), B=big(iv())),
          lambda: sq.make_decision(E, a), lambda: sq.cal_mi(E[0], sy(), a, rng.uniform(-1, 1), fast=bool(rng.integers(2))), lambda: dpc.cal_lut(E[0], E[0][::-1].copy(), a, mem_len=gen.pick(rng, [0, 1, 2, 3, -1]), idx_data=gen.pick(rng, [None, np.zeros(L, bool), rng.random(L) < .5]), real_ptrns=bool(rng.integers(2)))]
    try: fs[k](); ctx.count("hostile calls accepted")
    except (Exception, MemoryError): ctx.count("hostile calls refused")
    ctx.count("hostile calls"); K(ctx); ctx.nontrivial()


def pilots(ctx, rng, i):
    nm = gen.pick(rng, [1, 2]); os_ = 2; seq = gen.pick(rng, [32, 64, 101]); pr_ = gen.pick(rng, [10, 16]); fl = seq + pr_ * int(rng.integers(12, 30)); nf = 3; dt = gen.pick(rng, gen.DT); s = signals.SignalWithPilots(gen.pick(rng, [16, 64]), fl, seq, pr_, nmodes=nm, nframes=nf, fb=1., dtype=dt); y = np.repeat(gen.raw(s), 2, axis=1); d = int(rng.integers(0, 2 * fl)); ctx.case(frame_len=fl, seq=seq, delay=d)
    x = s.recreate_from_np_array((np.roll(y, d, -1) + .03 * gen.cnoise(rng, y.shape)).astype(dt), fs=2.); kw = {}
    try:
        x.sync2frame(); K(ctx); nt = 17 + 2 * int(rng.integers(-3, 10)); f = int(rng.integers(0, 4)); equalisation.pilot_equaliser(x, 1e-3, nt, frame=f, methods=gen.pick(rng, [("cma", "cma"), ("cma", "sbd_data"), ("cma_real", "dd_data_real")])); K(ctx); equalisation.pilot_equaliser_nframes(x, 1e-3, nt, frames=gen.pick(rng, [[0], [0, 1], [1, 3]])); K(ctx); ctx.count("pilot chains")
    except Exception: ctx.count("pilot chains"); ctx.count("hostile calls refused")
    ctx.nontrivial()


def canary(ctx, rng, i):
    """the monitors are really attached"""
    import ctypes
    ctx.ok("asan" in os.environ.get("LD_PRELOAD", "") and "asan-" in os.environ["VERIF_NATIVE"] and hasattr(ctypes.CDLL(None), "__asan_address_is_poisoned"), "AddressSanitizer is not loaded")
    f = ctypes.CDLL(None).__asan_address_is_poisoned; f.argtypes = [ctypes.c_void_p]; a = np.zeros(2000, np.uint8); ctx.ok(not f(a.ctypes.data) and not f(a.ctypes.data + 1999) and f(a.ctypes.data + 2000) and f(a.ctypes.data - 1), "the surroundings of a numpy array are not guarded"); ctx.count("sanitizer canary caught")


SCENARIOS = [("filter", filt, 300, 6000), ("training", train, 560, 12000), ("phase", phase, 300, 6000), ("soft", soft, 120, 2000), ("lut", lut, 120, 2000), ("prbs", bits, 80, 1000), ("hostile", hostile, 1200, 40000), ("pilots", pilots, 12, 200), ("canary", canary, 8, 8)]


def env():
    g = lambda n: subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
    return dict(LD_PRELOAD=g("libasan.so") + ":" + g("libubsan.so") + ":" + g("libstdc++.so.6"), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:handle_segv=1",
                UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1:halt_on_error=1", OPENBLAS_NUM_THREADS="1", PYTHONMALLOC="malloc")


def main(run):
    import native
    m = sys.modules["check_C12"]; m.ENV = env(); run.sharded(m, native.ensure("asan"))


def replay(v):
    import native
    so = native.ensure("asan"); out = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c12.replay.%d" % os.getpid()); vp = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "vp.py")
    r = subprocess.run([sys.executable, "-W", "ignore", vp, "--worker", "C12", "0", "1", v["tier"], str(v["seed"]), "600", out], env=dict(os.environ, VERIF_NATIVE=json.dumps(so), VERIF_SCENARIO=v["scenario"], VERIF_CASE=str(v["index"]), OMP_NUM_THREADS="1", **env()))
    bad = r.returncode != 0 or json.load(open(out))["viols"]; print(bad or "held")
    for f in (out, out + ".progress"):
        if os.path.exists(f): os.remove(f)
    return 1 if bad else 0

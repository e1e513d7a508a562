"""C23 single and double precision give the same answer"""
import warnings
import numpy as np
import gen, ops
from vp import Skip

RULE = ("the same problem (same draws of the generator, same noise) in single and in double precision: about 85 functions on arrays and about 70 operations on signals of every class, and the adaptive equalisers, phase searches, decisions and metrics with their own tie-aware comparisons; compared are the types, the shapes, the floating point values to single precision accuracy and the integer results; non-trivial: both precisions returned values that were compared")
REQUIRED = ["array pairs", "signal pairs", "values compared", "integers compared", "types compared", "decisions compared", "phases compared", "taps compared", "metrics compared", "long signals"]
ASSUMPTIONS = ["Frequencies, phases and metrics that are not samples may be reported in double precision whatever the input",
               "Decisions closer to a decision boundary than the rounding of the samples may differ"]


def run(op, seed):
    np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); return op.run()


def flat(r, d=0):
    if isinstance(r, (list, tuple)) and d < 4: return [x for v in r for x in flat(v, d + 1)]
    if isinstance(r, dict) and d < 4: return [x for k, v in sorted(r.items(), key=str) for x in flat(v, d + 1)]
    return [r]


def same(ctx, name, op, a, b, c64=True):
    """a in double, b in single precision"""
    A, B = flat(a), flat(b); ctx.ok(len(A) == len(B), "%s returns %d values in double and %d in single precision" % (name, len(A), len(B)))
    for k, (x, y) in enumerate(zip(A, B)):
        if not isinstance(x, (np.ndarray, np.generic, int, float, complex, bool)):
            ctx.ok(type(x) is type(y), "%s: result %d is %s in double and %s in single precision" % (name, k, type(x).__name__, type(y).__name__)); continue
        ctx.ok(type(x) is type(y) or not isinstance(x, np.ndarray), "%s: result %d is a %s in double and a %s in single precision" % (name, k, type(x).__name__, type(y).__name__))
        x0, y0 = x, y; x, y = np.asarray(x), np.asarray(y)
        ctx.ok(x.shape == y.shape, "%s: result %d has the shape %s in double and %s in single precision" % (name, k, x.shape, y.shape))
        kd = x.dtype.kind; ctx.ok(kd == y.dtype.kind, "%s: result %d is %s in double and %s in single precision" % (name, k, x.dtype, y.dtype))
        if kd in "biu":
            if op.tol is not None: ctx.count("integers compared", max(1, x.size)); ctx.ok(np.array_equal(x, y), "%s: integer result %d differs at %d of %d places between the precisions: %s %s" % (name, k, np.count_nonzero(x != y), x.size, x.ravel()[(x != y).ravel()][:3], y.ravel()[(x != y).ravel()][:3]))
            continue
        if kd not in "fc": continue
        if op.dtype and isinstance(x0, np.ndarray) and (kd == "c" or op.dtype == "all"):
            ctx.count("types compared"); ctx.ok(x.dtype.itemsize == 2 * y.dtype.itemsize, "%s: result %d of single precision input is %s (of double precision input %s)" % (name, k, y.dtype, x.dtype))
        if op.tol is None: continue
        ctx.count("values compared", max(1, x.size)); f = np.isfinite(x); ctx.ok(np.array_equal(f, np.isfinite(y)), "%s: result %d is finite at other places in single precision" % (name, k))
        sc = max(np.max(np.abs(x[f]), initial=0), 1e-3) if x.size else 1
        d = np.max(np.abs(x[f] - y[f]), initial=0); ctx.peak("difference/tolerance of " + name, d / (op.tol * sc) if op.tol else 0)
        ctx.ok(d <= op.tol * sc + (0 if op.tol else 1e-6 * sc), "%s: result %d differs by %.3g of %.3g between the precisions" % (name, k, d, sc))


def arrays(ctx, rng, i):
    A = ops.arrays(); names = list(A); name = names[i % len(names)]; ctx.case(what=name)
    for t in range(3):
        k = int(rng.integers(2**31)); a, b = [A[name](np.random.default_rng(k), c) for c in (np.complex128, np.complex64)]
        if a.rnd == "own": raise Skip("own generator")
        ctx.case(args=[getattr(x, "shape", None) for x in a.args], key=k)
        same(ctx, name, a, run(a, k), run(b, k)); ctx.count("array pairs"); ctx.nontrivial()


def signals(ctx, rng, i):
    kinds = list(ops.ATTRS); kind = kinds[i % len(kinds)]; names = list(ops.SIG); k = int(rng.integers(2**31))
    s, z = [ops.signal(np.random.default_rng(k), c, kinds=[kind], nmax=700) for c in (np.complex128, np.complex64)]
    if s.size > 20000: raise Skip("long")
    ctx.case(what="%s %s, %s samples per symbol" % (kind, s.shape, s.fs / s.fb)); o = ops.Op(None); same(ctx, "creating a %s" % kind, o, [s, s.symbols] if hasattr(s, "symbols") else [s], [z, z.symbols] if hasattr(z, "symbols") else [z])
    n = [ops.cn(np.random.default_rng(k), s.shape, c, .02) for c in gen.DT]
    s, z = s * s.dtype.type(1.2) + n[0].astype(s.dtype), z * z.dtype.type(1.2) + n[0].astype(z.dtype)
    for j in range(12):
        name = names[(i // len(kinds) * 12 + j + i) % len(names)]; q = int(rng.integers(2**31))
        a, b = [ops.SIG[name](np.random.default_rng(q), v) for v in (s, z)]
        if a is None or b is None: continue
        ctx.case(op=name, key=q); same(ctx, "%s of a %s" % (name, kind), a, run(a, q), run(b, q)); ctx.count("signal pairs"); ctx.count("op " + name); ctx.nontrivial()


def ties(ctx, rng, i):
    """decisions, angle searches and synchronisation agree away from ties"""
    from qampy.core import signal_quality as SQ, phaserecovery as P, ber_functions as B, pythran_dsp as PD
    M = gen.pick(rng, [4, 16, 64, 32, 128, 256]); al = gen.ref_qam(M); n = int(rng.integers(100, 1500)); tx = rng.choice(al, n); x = tx + gen.cnoise(rng, n, 10**(-rng.uniform(5, 30) / 20)); x32, al32 = x.astype(np.complex64), al.astype(np.complex64)
    ctx.case(what="decisions and phases, M=%d" % M, n=n)
    d = np.abs(x[:, None] - al); o = np.sort(d, axis=1); clear = o[:, 1] - o[:, 0] > 1e-5
    for f in (lambda v, s: SQ.make_decision(v, s),):
        a, b = f(x, al)[0], f(x32, al32)[0]; ctx.count("decisions compared", clear.sum())
        
        ctx.ok(b.dtype == np.complex64 and a.dtype == np.complex128, "decisions of single precision symbols are %s" % b.dtype)
        ctx.ok(np.allclose(a[clear], b[clear], rtol=0, atol=1e-6), "decisions of clear symbols differ at %d of %d places" % (np.count_nonzero(np.abs(a[clear] - b[clear]) > 1e-6), clear.sum()))
    # phase search: the angles chosen may differ where two angles are equally good, so the recovered phase is compared with the true one
    N, na = int(rng.integers(8, 25)), int(gen.pick(rng, [16, 32, 64])); y = tx + gen.cnoise(rng, n, 10**(-28 / 20)); ph = np.cumsum(rng.standard_normal(n)) * 3e-3 + rng.uniform(-.5, .5); y = y * np.exp(1j * ph)
    for f in (lambda v, s: P.bps(v, na, s, N), lambda v, s: P.bps_twostage(v, na // 4, s, N, B=4)):
        (ea, pa), (eb, pb) = f(y, al), f(y.astype(np.complex64), al32)
        ctx.ok(eb.dtype == np.complex64 and pb.dtype == np.float32 and ea.dtype == np.complex128 and pa.dtype == np.float64, "phase recovery of single precision symbols gives %s and %s" % (eb.dtype, pb.dtype))
        dd = np.abs((pa - pb + np.pi / 4) % (np.pi / 2) - np.pi / 4); ctx.count("phases compared", n)
        ctx.ok(np.mean(dd < 1e-4) > .97, "recovered phases differ between the precisions at %d of %d symbols" % (np.count_nonzero(dd >= 1e-4), n)); k = dd < 1e-4
        ctx.ok(np.allclose(np.abs(ea), np.abs(eb), atol=1e-4), "recovered symbols have another amplitude in single precision")
    k = int(rng.integers(0, n)); r = np.roll(y * 0 + tx, k) * gen.pick(rng, [1, 1j, -1, -1j]); r = r[:max(60, int(rng.integers(1, n)))] + gen.cnoise(rng, max(60, 1), .01)[0]
    a, b = B.find_sequence_offset_complex(r, tx), B.find_sequence_offset_complex(r.astype(np.complex64), tx.astype(np.complex64))
    ctx.ok(a[0] == b[0] and a[2] == b[2], "the offset found is %s in double and %s in single precision" % ((a[0], a[2]), (b[0], b[2]))); ctx.nontrivial()


def equalisers(ctx, rng, i):
    """taps, errors and outputs of every training method"""
    from qampy.core.equalisation import equalisation as E
    from qampy.core import resample as R
    ms = list(E.TRAINING_FCTS); me = ms[i % len(ms)]; M = gen.pick(rng, [4, 16, 64]); nm = int(rng.integers(1, 4)); Nt = int(rng.integers(3, 14)); L = int(rng.integers(80, 260)); os_ = gen.pick(rng, [1, 2, 2, 3])
    al = gen.ref_qam(M); tx = rng.choice(al, (nm, L)); x = np.array([R.rrcos_resample(r, 1., float(os_), Ts=1., beta=.2, taps=101) for r in tx]) if os_ > 1 else tx
    x = x / np.sqrt(np.mean(np.abs(x)**2)) + gen.cnoise(rng, x.shape, .03); real = me in E.REAL_VALUED; n = nm * (2 if real else 1)
    w = np.zeros((n, n, Nt), float if real else complex); w[np.arange(n), np.arange(n), Nt // 2] = 1; w = w + .02 * (rng.standard_normal(w.shape) if real else gen.cnoise(rng, w.shape))
    mu = 10**rng.uniform(-4, -2.7) * (.05 if me == "cma2" else 1); T = int(rng.integers(30, L - Nt)); ni = int(rng.integers(1, 4)); ad = bool(rng.integers(2)); ctx.case(what="equaliser %s, M=%d, %d modes, %d taps, os %d, mu %.1e, adaptive %s" % (me, M, nm, Nt, os_, mu, ad))
    out = []
    for c in gen.DT:
        sy = tx.astype(c) if me in E.DATA_AIDED else None
        out.append(E.equalise_signal(x.astype(c), os_, mu, M, wxy=w.astype(ops.rt(c) if real else c), TrSyms=T, Niter=ni, method=me, adaptive_stepsize=ad, symbols=sy, apply=True))
    (ya, wa, ea), (yb, wb, eb) = sorted(out, key=lambda o: -np.asarray(o[0]).dtype.itemsize)
    ctx.ok(np.asarray(yb).dtype == np.complex64 and np.asarray(ya).dtype == np.complex128 and wb.dtype.itemsize * 2 == wa.dtype.itemsize and eb.dtype.itemsize * 2 == ea.dtype.itemsize and wa.dtype.kind == wb.dtype.kind, "single precision equalisation returns %s, %s, %s" % (yb.dtype, wb.dtype, eb.dtype))
    ctx.ok(wa.shape == wb.shape and ea.shape == eb.shape and ya.shape == yb.shape, "shapes of the results differ between the precisions")
    # up to the first decision that differs the errors agree; without decisions everything does
    d = np.abs(ea - eb); s = np.max(np.abs(ea)) + 1; dec = me in ops.DECIDING or ad; bad = np.argwhere(d > 2e-3 * s); ctx.count("taps compared", wa.size); ctx.peak("taps: largest difference", np.max(np.abs(wa - wb)) if not dec else 0)
    if not dec: ctx.ok(not len(bad) and np.max(np.abs(wa - wb)) < 2e-3 and np.max(np.abs(np.asarray(ya) - np.asarray(yb))) < 1e-2, "taps or errors of %s differ by %.2g, %.2g between the precisions" % (me, np.max(np.abs(wa - wb)), d.max()))
    else:
        # the first errors that differ must be a decision close to a tie: a jump, not a drift
        k = int(bad[0][-1]) if len(bad) else ea.shape[-1]; ctx.ok(len(bad) == 0 or np.max(d[..., :1]) < 2e-3 * s, "the very first error of %s differs by %.2g between the precisions" % (me, d[..., 0].max()))
        ctx.ok(np.mean(d > 2e-3 * s) < .2 or ad, "errors of %s differ at %d of %d places between the precisions" % (me, len(bad), d.size))
    ctx.nontrivial()


def metrics(ctx, rng, i):
    from qampy import signals as S
    M = gen.pick(rng, [4, 16, 64, 32]); N = int(rng.integers(400, 2000)); nm = int(rng.integers(1, 3)); k = int(rng.integers(2**31)); snr = float(rng.uniform(3, 25))
    s = S.SignalQAMGrayCoded(M, N, nmodes=nm, seed=k); z = S.SignalQAMGrayCoded(M, N, nmodes=nm, seed=k, dtype=np.complex64); n = gen.cnoise(rng, (nm, N), 10**(-snr / 20)); ctx.case(what="metrics M=%d N=%d snr %.1f" % (M, N, snr))
    a, b = s + n, z + n.astype(np.complex64); ctx.ok(b.dtype == np.complex64, "the sum has the type %s" % b.dtype); al = np.asarray(s.coded_symbols)
    d = np.sort(np.abs(np.asarray(a)[..., None] - al), axis=-1); unclear = np.count_nonzero(d[..., 1] - d[..., 0] < 1e-5, axis=1)
    ctx.ok(np.array_equal(np.asarray(s.bits), np.asarray(z.bits)) and np.allclose(np.asarray(s.symbols), np.asarray(z.symbols), rtol=0, atol=1e-6), "the same seed gives other bits or symbols in single precision")
    for sy in (True, False):
        ctx.ok(np.all(np.abs(a.cal_ser(synced=sy) - b.cal_ser(synced=sy)) * N <= unclear + 1e-6), "symbol error rates %s and %s" % (a.cal_ser(synced=sy), b.cal_ser(synced=sy)))
        ctx.ok(np.all(np.abs(a.cal_ber(synced=sy) - b.cal_ber(synced=sy)) * N * np.log2(M) <= unclear * np.log2(M) + 1e-6), "bit error rates %s and %s" % (a.cal_ber(synced=sy), b.cal_ber(synced=sy)))
    for f, t in (("cal_evm", 1e-4), ("est_snr", 1e-3)):
        u, v = getattr(a, f)(synced=True), getattr(b, f)(synced=True); ctx.ok(np.allclose(u, v, rtol=t) or (unclear.any() and np.allclose(u, v, rtol=.02)), "%s is %s in double and %s in single precision" % (f, u, v))
    q = 10**(snr / 10)
    for f in (lambda x: x.cal_gmi(snr=snr)[0], lambda x: x.cal_gmi(snr=snr, llr_minmax=True)[0], lambda x: x.cal_mi(snr=snr, synced=True)):
        u, v = f(a), f(b); ctx.ok(np.allclose(u, v, rtol=2e-3, atol=1e-3), "information %s in double and %s in single precision" % (u, v))
    ctx.count("metrics compared"); ctx.nontrivial()


def long(ctx, rng, i):
    """rounding must not build up over long signals: time axes, carriers, running sums"""
    from qampy import signals as S, impairments as I
    from qampy.core import phaserecovery as P, impairments as CI, filter as F, signal_quality as SQ
    n = int(rng.integers(2**17, 2**19)); x = rng.choice(gen.ref_qam(16), (1, n)); f = float(rng.uniform(-.45, .45)); what = ["foe", "add", "signal", "mavg", "smooth", "metrics", "filter"][i % 7]; ctx.case(what=what, n=n, f=f)
    if what == "foe": r = [P.comp_freq_offset(x.astype(c), np.array([f])) for c in gen.DT]
    elif what == "add": r = [CI.add_carrier_offset(x.astype(c), f, 1.) for c in gen.DT]
    elif what == "signal":
        r = []
        for c in gen.DT:
            s = S.SignalQAMGrayCoded(16, n, fb=20e9, seed=5, dtype=c); r.append(np.array(I.add_carrier_offset(s, f * 1e9)))
    elif what == "mavg":
        N = int(rng.integers(2, 1000)); r = [F.moving_average((x[0].real + 1).astype(ops.rt(c)), N) for c in gen.DT]
    elif what == "smooth":
        N = int(rng.integers(5, 40)); r = [np.asarray(P.bps(x[:, :60000].astype(c), 16, gen.ref_qam(16).astype(c), N)[0]) for c in gen.DT]
    elif what == "filter":
        t = gen.pick(rng, ["exp", "gauss", "bessel", "butter"]); r = [F.filter_signal(x[0].astype(c), 1., .15, ftype=t, analog=t in ("bessel", "butter")) for c in gen.DT]
    else:
        z = x + gen.cnoise(rng, x.shape, .1); r = [np.array([np.mean(SQ.cal_evm(z.astype(c), 16, known=x.astype(c))), SQ.cal_evm(z[0].astype(c)[:20000], 16), np.mean(SQ.cal_snr_qam(z.astype(c), 16)) / 100, np.mean(SQ.cal_s0(z.astype(c), 16))]).astype(ops.rt(c)) for c in gen.DT]
    a, b = sorted(r, key=lambda v: -v.dtype.itemsize); ctx.ok(a.shape == b.shape, "shapes %s, %s" % (a.shape, b.shape))
    d = np.abs(a - b) / max(1e-3, np.max(np.abs(a))); ctx.peak("long %s: difference" % what, np.quantile(d, .999))
    if what == "smooth": ctx.ok(np.mean(d > 2e-3) < .03, "bps of %d symbols differs at %d of them between the precisions" % (d.size, np.count_nonzero(d > 2e-3)))
    else: ctx.ok(d.max() < (1e-5 if what == "mavg" else 2e-3), "%s of %d samples differs by up to %.3g between the precisions" % (what, n, d.max()))
    ctx.count("long signals"); ctx.count("values compared", a.size); ctx.nontrivial()


SCENARIOS = [("long", long, 21, 280), ("arrays", arrays, 172, 3000), ("signals", signals, 168, 2500), ("ties", ties, 24, 600), ("equalisers", equalisers, 56, 1400), ("metrics", metrics, 16, 400)]

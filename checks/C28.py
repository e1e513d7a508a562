"""C28 time-domain hybrid QAM: positions, fractions, component signals, power convention, extraction."""
from fractions import Fraction
import numpy as np
import gen
from vp import Skip
from qampy import signals

RULE = ("all pairs of QAM (and PSK) formats, ratios r2/(r1+r2) with r1, r2 mostly in 0..12 and up to 299, lengths that do and do not fill whole frames, 1-4 modes, both precisions, seeded, unseeded and "
        "assembled from two given signals of matching or unequal length; every position is compared with its component symbol; non-trivial: both formats occur")
REQUIRED = ["positions compared", "truncations", "from arrays", "unequal arrays", "extractions", "shifted extractions", "distances", "independent modes"]
CL = {"qam": signals.SignalQAMGrayCoded, "psk": signals.SignalPSKGrayCoded}


def geometry(fr, N):
    f = Fraction(fr).limit_denominator(1000); F, F2 = f.denominator, f.numerator
    pos = np.arange(N) % F
    return F, F - F2, F2, pos < F - F2


def ratio(rng, extreme=.05):
    while True:
        r1, r2 = (int(v) for v in rng.integers(0, 13 if rng.random() < .8 else int(gen.pick(rng, [40, 100, 300])), 2))
        if r1 + r2 == 0: continue
        if (r1 == 0 or r2 == 0) and rng.random() > extreme: continue
        return r1, r2, r2 / (r1 + r2)


def power(ctx, o, p1, p2, tol):
    """equal minimum distances: the second format is scaled by d1/d2"""
    d1, d2 = gen.dmin(p1), gen.dmin(p2)
    ctx.close(o.powratio, (d2 / d1) ** 2, tol * (d2 / d1) ** 2, "powratio"); ctx.count("distances")
    return d1 / d2


def common(ctx, o, M, N, nm, fb, dt, fr):
    F, F1, F2, one = geometry(fr, N)
    ctx.ok(type(o) is signals.TDHQAMSymbols and o.dtype == dt and o.shape == (nm, N), "%s %s for %s" % (o.shape, o.dtype, (nm, N)))
    ctx.ok((o.f_M, o.f_M1, o.f_M2) == (F, F1, F2), "frame %s instead of %s" % ((o.f_M, o.f_M1, o.f_M2), (F, F1, F2)))
    ctx.ok(tuple(o.M) == tuple(M) and o.fb == fb and o.fs == fb and o.fr == fr, "description: M %s fb %s fs %s fr %s" % (o.M, o.fb, o.fs, o.fr))
    return F, F1, F2, one


def pair(rng):
    k = [gen.pick(rng, ["qam", "qam", "psk"]) for _ in range(2)]
    return k, [gen.pick(rng, gen.QAM[:-2] if c == "qam" else [2, 4, 8, 16]) for c in k]


def points(c, M): return gen.ref_qam(M) if c == "qam" else np.exp(2j * np.pi * (np.arange(M)) / M)


def make(ctx, rng, i):
    k, M = pair(rng); r1, r2, fr = ratio(rng, 0); nm, dt = gen.pick(rng, [1, 2, 3, 4]), gen.pick(rng, gen.DT); fb = float(gen.pick(rng, [1, 25e9]))
    N = gen.loguniform(rng, 2 * (r1 + r2), max(3000, 4 * (r1 + r2)))
    kw = dict(nmodes=nm, dtype=dt, fb=fb)
    if rng.random() < .7: kw["seed"] = int(rng.integers(2**31))
    if rng.random() < .3: kw["power_method"] = "dist"
    if k[0] != "qam" or rng.random() < .3: kw["M1class"] = CL[k[0]]
    if k[1] != "qam" or rng.random() < .3: kw["M2class"] = CL[k[1]]
    ctx.case(M=M, kind=k, ratio=(r1, r2), N=N, **{a: getattr(v, "__name__", v) for a, v in kw.items()})
    dfl = abs(fr - .5) < 1e-12 and rng.random() < .5
    o = signals.TDHQAMSymbols(tuple(M), N, **kw) if dfl else signals.TDHQAMSymbols(tuple(M), N, fr=fr, **kw)
    F = Fraction(fr).limit_denominator(1000).denominator; n = N // F * F
    if n < N: ctx.count("truncations")
    F, F1, F2, one = common(ctx, o, M, n, nm, fb, dt, fr)
    a, b, x = gen.raw(o.symbols_M1).astype(complex), gen.raw(o.symbols_M2).astype(complex), gen.raw(o).astype(complex)
    tol = 1e-12 if dt is np.complex128 else 2e-6
    ctx.eq(x[:, one], a, "positions of the first format"); ctx.eq(x[:, ~one], b, "positions of the second format"); ctx.count("positions compared", x.size)
    p1, p2 = points(k[0], M[0]), points(k[1], M[1]); sc = power(ctx, o, p1, p2, 1e-9 if dt is np.complex128 else 1e-4)
    # components: independent description through their bits
    c = [CL[q].from_bit_array(np.array(s.bits), m, dtype=dt) for q, s, m in zip(k, (o.symbols_M1, o.symbols_M2), M)]
    ctx.close(a, np.array(c[0]), tol, "first format against its bits"); ctx.close(b / sc, np.array(c[1]), tol * 4 * max(1, 1 / sc), "second format against its bits")
    for s, q, m in zip((o.symbols_M1, o.symbols_M2), k, M): ctx.ok(type(s) is CL[q] and s.M == m and s.shape[0] == nm and s.fb == fb, "component %s" % type(s).__name__)
    if "seed" in kw:
        w = CL[k[0]](M[0], n // F * F1, nmodes=nm, dtype=dt, seed=kw["seed"]); ctx.eq(np.array(w), a, "first component with the same seed")
        w = CL[k[1]](M[1], n // F * F2, nmodes=nm, dtype=dt, seed=kw["seed"]); ctx.close(np.array(w) * sc, b, tol * max(1, sc) * 4, "second component with the same seed")
    if nm > 1 and a.shape[1] > 60: ctx.ok(np.any(a[0] != a[1]), "modes are equal"); ctx.count("independent modes")
    if M[0] in gen.SQUARE + gen.CROSS and min(a.shape[1], b.shape[1]) > 40 * max(M):
        u = np.unique(np.round(a, 9 if dt is np.complex128 else 4)), np.unique(np.round(b, 9 if dt is np.complex128 else 4))
        if u[0].size == M[0] and u[1].size == M[1]: ctx.close(gen.dmin(u[0]), gen.dmin(u[1]), 1e-3, "minimum distances of the formats")
    ctx.nontrivial()
    extract(ctx, rng, o, a, b, one, tol)


def extract(ctx, rng, o, a, b, one, tol):
    h = gen.digest(o); y = o._divide_signal_frame(o)
    for q, (z, w) in enumerate(zip(y, (a, b))):
        ctx.ok(gen.raw(z).shape == w.shape and z.dtype == o.dtype, "extracted format %d: %s %s" % (q, gen.raw(z).shape, z.dtype)); ctx.ok(z.fb == o.fb and z.fs == o.fb and z.M == o.M[q] and type(z) is type((o._symbols_M1, o._symbols_M2)[q]), "extracted format %d: fb %r fs %r M %r" % (q, z.fb, z.fs, z.M))
    ctx.ok(gen.digest(o) == h, "extraction altered the signal")
    pa, pb = np.mean(abs(a), axis=1), np.mean(abs(b), axis=1); F = o.f_M
    # the frame start is found from the amplitudes, which need to differ and to be averaged over enough frames
    if a.size == 0 or b.size == 0 or a.shape[1] < 100 or b.shape[1] < 100: return
    # the components are rebuilt from their symbols, which needs every alphabet point to occur
    if any(np.unique(np.round(v, 5)).size < M for v, M in zip((a / abs(a).max(), b / abs(b).max()), o.M)): return
    hi, lo, L = (pa, pb, a.shape[1]) if o.M[0] > o.M[1] else (pb, pa, b.shape[1])
    if not np.all((hi - lo) / min(o.f_M1, o.f_M2, 12) > 8 * np.max([a.std(), b.std()]) / np.sqrt(L)): return
    # the components may come back on their own amplitude scale
    def same(y, w, what):
        y = gen.raw(y).astype(complex); ctx.ok(y.shape == w.shape, what + " shape"); g = np.vdot(w, y) / np.vdot(w, w)
        ctx.ok(abs(np.imag(g)) < 1e-3 * abs(g) and g.real > 0, what + " rotated"); ctx.close(y / g, w, 1e-6 if tol < 1e-9 else 1e-3, what)
    same(y[0], a, "extracted first format"); same(y[1], b, "extracted second format"); ctx.count("extractions", a.shape[0])
    j = int(rng.integers(1, F + 1)) if F > 1 else 0
    if o.shape[1] % F == 0 and j:
        z = np.roll(o, j, axis=-1); y = o._divide_signal_frame(z); q = j % F
        s = (np.arange(o.shape[1]) + q) % o.shape[1]; w = gen.raw(z).astype(complex)[:, s]
        same(y[0], w[:, one], "first format of the shifted signal"); same(y[1], w[:, ~one], "second format of the shifted signal"); ctx.count("shifted extractions", a.shape[0])


def assemble(ctx, rng, i):
    k, M = pair(rng); r1, r2, fr = ratio(rng); nm, dt = gen.pick(rng, [1, 2, 3, 4]), gen.pick(rng, gen.DT); fb = float(gen.pick(rng, [1, 25e9]))
    f = Fraction(r2, r1 + r2); F1, F2 = f.denominator - f.numerator, f.numerator; n = gen.loguniform(rng, 1, max(2, min(200, 6000 // (F1 + F2))))
    ex = [0, 0] if rng.random() < .5 else [int(v) for v in rng.integers(0, 30, 2)]
    n1, n2 = n * F1 + ex[0], n * F2 + ex[1]
    if n1 == 0 or n2 == 0: n1, n2 = max(n1, 5), max(n2, 5)
    s1 = CL[k[0]](M[0], n1, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31))); s2 = CL[k[1]](M[1], n2, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31)))
    ctx.case(M=M, kind=k, ratio=(r1, r2), n=(n1, n2), nmodes=nm, fb=fb, dtype=np.dtype(dt).name)
    h = gen.digest([s1, s2]); o = signals.TDHQAMSymbols.from_symbol_arrays(s1, s2, fr); ctx.ok(gen.digest([s1, s2]) == h, "from_symbol_arrays altered its arguments")
    fmax = min(q // p for q, p in ((n1, F1), (n2, F2)) if p)
    if n1 != fmax * F1 or n2 != fmax * F2: ctx.count("unequal arrays")
    F, F1, F2, one = common(ctx, o, M, fmax * (F1 + F2), nm, fb, dt, fr)
    p1, p2 = points(k[0], M[0]), points(k[1], M[1]); sc = power(ctx, o, p1, p2, 1e-9 if dt is np.complex128 else 1e-4); tol = 1e-12 if dt is np.complex128 else 2e-6
    x = gen.raw(o).astype(complex); a, b = np.array(s1)[:, :fmax * F1], np.array(s2)[:, :fmax * F2] * sc
    ctx.close(x[:, one], a, tol, "positions of the first format"); ctx.close(x[:, ~one], b, tol * max(1, sc) * 4, "positions of the second format"); ctx.count("positions compared", x.size)
    ctx.close(gen.raw(o.symbols_M1), a, tol, "symbols_M1"); ctx.close(gen.raw(o.symbols_M2), b, tol * max(1, sc) * 4, "symbols_M2")
    ctx.count("from arrays")
    if F1 and F2: ctx.nontrivial(); extract(ctx, rng, o, x[:, one], x[:, ~one], one, tol)


def reject(ctx, rng, i):
    a = signals.SignalQAMGrayCoded(16, 100, nmodes=2); b = signals.SignalQAMGrayCoded(4, 100, nmodes=int(gen.pick(rng, [1, 3])))
    ctx.raises(lambda: signals.TDHQAMSymbols.from_symbol_arrays(a, b, .5), "different numbers of modes")
    c = signals.SignalQAMGrayCoded(4, 100, nmodes=2, dtype=np.complex64)
    ctx.raises(lambda: signals.TDHQAMSymbols.from_symbol_arrays(a, c, .5), "different precision")
    ctx.raises(lambda: signals.TDHQAMSymbols((16, 4), 100, power_method=gen.pick(rng, ["avg", "", "Dist"])), "unknown power method", NotImplementedError); ctx.nontrivial(i)


SCENARIOS = [("create", make, 600, 12000), ("from_arrays", assemble, 500, 10000), ("reject", reject, 6, 20)]

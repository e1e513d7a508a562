"""C03 decisions: brute-force nearest neighbour on every sample and every decision routine."""
import numpy as np
import gen
from qampy import signals
from qampy.core import signal_quality
from qampy.core.equalisation import pythran_equalisation as pe

RULE = ("random alphabet (QAM, PSK, scaled/shifted, random clouds, one point, clustered) x sample class (noise, exact points, midpoints, boundary "
        "+-eps, far away up to 1e6, tiny) x length 1..70000 (thorough 3e5) x precision; oracle: brute-force distances in float64; "
        "non-trivial: at least two different points were decided")
REQUIRED = ["kernel samples", "operator samples", "signal samples", "far samples", "boundary samples", "long inputs"]
CL = [signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded, signals.QPSKfromBERT, signals.SymbolOnlySignal, signals.ResampledQAM]


def alphabet(rng):
    k = gen.pick(rng, ["qam", "qam", "psk", "scaled", "cloud", "one", "cluster", "real"])
    if k == "qam": a = gen.ref_qam(gen.pick(rng, gen.QAM))
    elif k == "psk": a = np.exp(2j * np.pi * np.arange(M := gen.pick(rng, gen.PSK)) / M)
    elif k == "scaled": a = gen.ref_qam(gen.pick(rng, [4, 16, 64])) * 10.0 ** rng.uniform(-2, 2) + complex(*rng.normal(size=2) * 3)
    elif k == "cloud": a = gen.cnoise(rng, int(rng.integers(2, 40)))
    elif k == "one": a = gen.cnoise(rng, 1) * 3
    elif k == "cluster": a = np.concatenate([gen.cnoise(rng, 5, 0.01), 5 + gen.cnoise(rng, 5, 0.01)])
    else: a = rng.normal(size=int(rng.integers(2, 9))) + 0j
    return k, a[rng.permutation(a.size)]


def samples(ctx, rng, a, n, far):
    kinds = ["noise", "exact", "mid", "edge", "far", "tiny"]
    kind = rng.integers(0, len(kinds), n)
    p, q = a[rng.integers(0, a.size, n)], a[rng.integers(0, a.size, n)]
    sc = max(abs(a).max(), 1e-3)
    z = gen.cnoise(rng, n)
    x = np.select([kind == j for j in range(len(kinds))],
                  [z * sc, p, (p + q) / 2, (p + q) / 2 + z * sc * 1e-3, z * 10.0 ** rng.uniform(1, far, n) * sc, z * 1e-9])
    ctx.count("far samples", np.sum(kind == 4)); ctx.count("boundary samples", np.sum((kind == 2) | (kind == 3)))
    return x


def judge(ctx, x, a, out, dist, idx, what, squared=False):
    """x, a as given to the library"""
    eps = 1.2e-7 if a.dtype == np.complex64 or x.dtype == np.complex64 else 2.3e-16
    X, A = x.astype(np.complex128).ravel(), a.astype(np.complex128)
    out = np.asarray(out).ravel()
    ctx.ok(out.shape == X.shape, what + ": output shape %s" % (out.shape,))
    member = np.zeros(out.size, bool)
    best = np.empty(X.size); got = abs(X - out.astype(np.complex128))
    for s in range(0, X.size, 4096):
        sl = slice(s, s + 4096)
        best[sl] = abs(X[sl, None] - A[None]).min(1)
        member[sl] = (out[sl, None] == a[None]).any(1)
    tol = 16 * eps * (abs(X) + abs(A).max())
    bad = np.nonzero(~member)[0]
    ctx.ok(bad.size == 0, what + ": decision is not an alphabet point", n=bad.size, x=X[bad[:3]], out=out[bad[:3]])
    bad = np.nonzero(got > best + tol)[0]
    ctx.ok(bad.size == 0, what + ": decision is not the nearest point (%d of %d)" % (bad.size, X.size), x=X[bad[:3]], out=out[bad[:3]], best=best[bad[:3]], got=got[bad[:3]])
    if idx is not None:
        idx = np.asarray(idx).ravel().astype(int)
        ctx.ok(idx.min() >= 0 and idx.max() < a.size and np.all(a[idx] == out), what + ": index does not belong to the decided point")
    if dist is not None:
        d = np.asarray(dist, np.float64).ravel()
        ref = got**2 if squared else got
        t = tol * (2 * got + tol) * 2 if squared else tol
        bad = np.nonzero(~(abs(d - ref) <= t + 16 * eps * ref))[0]
        ctx.ok(bad.size == 0, what + ": distance does not belong to the decided point", x=X[bad[:3]], dist=d[bad[:3]], ref=ref[bad[:3]])
    ctx.count("values compared", X.size)
    return np.unique(out).size > 1


def kernel(ctx, rng, i):
    k, a = alphabet(rng)
    dt = gen.pick(rng, gen.DT)
    n = gen.loguniform(rng, 1, 5000)
    if i % 8 == 0:
        n = int(rng.integers(60000, 300000 if ctx.thorough else 70000)); ctx.count("long inputs")
    a = a.astype(dt); x = samples(ctx, rng, a, n, 6 if dt == np.complex128 else 4).astype(dt)
    ctx.case(alphabet=k, M=a.size, N=n, dtype=np.dtype(dt).name)
    f = gen.pick(rng, [pe.make_decision, signal_quality.make_decision])
    xs, a0 = x.copy(), a.copy()
    out, dist, idx = f(x, a)
    ctx.ok(out.dtype == dt, "output dtype %s" % out.dtype)
    if judge(ctx, xs, a0, out, dist, idx, f.__module__.split(".")[-1] + ".make_decision"):
        ctx.nontrivial()
    # the same samples decided in pieces
    cut = sorted(rng.integers(0, n + 1, 3))
    parts = [f(np.ascontiguousarray(p), a) for p in np.split(xs, cut) if p.size]
    ctx.eq(np.concatenate([p[0] for p in parts]), out, "decisions depend on how many samples are decided at once")
    ctx.eq(np.concatenate([p[2] for p in parts]), idx, "indices depend on how many samples are decided at once")
    ctx.count("kernel samples", n)


def operators(ctx, rng, i):
    k, a = alphabet(rng)
    dt = gen.pick(rng, gen.DT)
    a = a.astype(dt); x = samples(ctx, rng, a, 60, 6 if dt == np.complex128 else 4).astype(dt)
    ctx.case(alphabet=k, M=a.size, dtype=np.dtype(dt).name)
    for f in (pe.det_symbol, pe.det_symbol_parallel):
        r = [f(v, a) for v in x]
        s = np.array([q[0] for q in r]); d = np.array([q[1] for q in r])
        if judge(ctx, x, a, s, d, None, f.__name__, squared=True):
            ctx.nontrivial()
    ctx.count("operator samples", 2 * x.size)


def objects(ctx, rng, i):
    cls = CL[i % len(CL)]
    dt = gen.pick(rng, gen.DT); nm = gen.more(rng, int(rng.integers(1, 4))); N = gen.loguniform(rng, 1, 3000)
    ctx.case(cls=cls.__name__, N=N, nmodes=nm, dtype=np.dtype(dt).name)
    if cls is signals.QPSKfromBERT: nm = 1
    if cls is signals.SignalQAMGrayCoded: s = cls(gen.pick(rng, gen.QAM), N, nmodes=nm, dtype=dt)
    elif cls is signals.SignalPSKGrayCoded: s = cls(gen.pick(rng, gen.PSK), N, nmodes=nm, dtype=dt)
    elif cls is signals.QPSKfromBERT: s = cls(N, nmodes=1, dtype=dt)
    elif cls is signals.ResampledQAM: s = cls(gen.pick(rng, [4, 16]), 300, nmodes=nm, fb=1, fs=2, dtype=dt, resamplekwargs=dict(beta=0.2))
    else:
        k, a = alphabet(rng)
        s = cls(a.size, N, a.astype(dt), nmodes=nm)
    a = gen.raw(s.coded_symbols)
    ctx.case(M=a.size)
    z = samples(ctx, rng, a, np.asarray(s).size, 6 if dt == np.complex128 else 4).astype(dt).reshape(s.shape)
    rx = s.copy(); rx[:] = z
    verbose = cls is not signals.SymbolOnlySignal
    for arg, what in ((rx, "signal"), (z, "array"), (None, "own samples")):
        m = s if arg is not None else rx
        before = gen.digest(m), gen.digest(arg)
        out = m.make_decision(arg) if arg is not None else m.make_decision()
        nt = judge(ctx, z, a, out, None, None, "%s.make_decision(%s)" % (cls.__name__, what))
        ctx.ok(out.shape == z.shape, "decision shape %s" % (out.shape,))
        if verbose:
            o2, d, ix = m.make_decision(arg, verbose=True) if arg is not None else m.make_decision(verbose=True)
            ctx.eq(gen.raw(o2), gen.raw(out), "verbose decision differs")
            judge(ctx, z, a, o2, d, ix, "%s.make_decision(%s, verbose)" % (cls.__name__, what))
        ctx.ok((gen.digest(m), gen.digest(arg)) == before, "make_decision altered its arguments")
        ctx.count("signal samples", z.size)
    if nm > 1:   # each mode decided on its own
        for j in range(nm):
            ctx.eq(gen.raw(s.make_decision(z[j]))[0], gen.raw(out)[j] if z[j].size else z[j], "a mode is decided differently when decided alone")
    if nt:
        ctx.nontrivial()


SCENARIOS = [("kernel", kernel, 320, 4000), ("operators", operators, 160, 3000), ("objects", objects, 200, 3000)]

"""C13 blind phase search: every decision of the search is watched against a brute-force search."""
import numpy as np
import gen
from vp import Skip
from qampy import signals, phaserec, impairments
from qampy.core import phaserecovery as pr

RULE = ("QAM and PSK alphabets and arbitrary point sets; signals with phase noise, drift, additive noise, wrong amplitude or nothing but noise; 1-64 test angles, half windows 1-60, lengths 1-3000 "
        "including shorter than the window, 1-3 modes or 1-d, both precisions, compiled and Python search, one and two stages; at every sample with a complete window the chosen angle must reach the minimum "
        "of the summed squared distances recomputed in double precision; non-trivial: more than one angle is chosen")
REQUIRED = ["decisions", "second stage decisions", "compiled", "python", "one dimensional", "single precision", "short signals", "recovered modes", "signal objects", "unwraps", "mode comparisons", "variant comparisons", "two-stage gains"]


def wrap(x, p=np.pi / 2): return (x + p / 2) % p - p / 2


def alphabet(rng):
    k = gen.pick(rng, ["qam", "qam", "psk", "free"])
    if k == "qam": return gen.ref_qam(gen.pick(rng, [4, 16, 64, 8, 32, 128, 256]))
    if k == "psk": return np.exp(2j * np.pi * (np.arange(gen.pick(rng, [1, 2, 4, 8])) + .5 * rng.integers(2)) / 8)
    return gen.cnoise(rng, int(rng.integers(1, 20)))


def field(rng, a, shp, dt):
    nm, L = shp; x = a[rng.integers(a.size, size=shp)]; k = gen.pick(rng, ["phase", "phase", "noise", "clean phase", "gain"])
    ph = np.cumsum(rng.standard_normal(shp), axis=1) * 10 ** rng.uniform(-4, -1.3) + rng.uniform(-4, 4, (nm, 1)) + np.arange(L) * gen.pick(rng, [0, 1e-3, -2e-2])
    if k == "noise": x = gen.cnoise(rng, shp)
    else: x = x * np.exp(1j * ph) * (1 if k != "gain" else rng.uniform(.3, 2)) + gen.cnoise(rng, shp) * (10 ** rng.uniform(-2, -.3) if k != "clean phase" else 1e-5)
    return x.astype(dt), k


def dists(E, ang, a):
    """(L, K) squared distance of E*exp(j ang) to the nearest point; ang (1, K) or (L, K)"""
    z = E.astype(complex)[:, None] * np.exp(1j * ang.astype(float)); d = np.full(z.shape, np.inf)
    for p in a: d = np.minimum(d, abs(z - p) ** 2)
    return d


def windows(d, N):
    """sums over samples p-N+1..p+N for p = N..L-N-1"""
    L = d.shape[0]
    return np.array([d[p - N + 1:p + N + 1].sum(0) for p in range(N, L - N)]).reshape(-1, d.shape[1])


def tol(d, N, dt):
    """rounding of running sums"""
    e = np.finfo(dt).eps; t = d.sum(0).max(initial=0)
    return 4 * e * t * np.sqrt(d.shape[0] + 1) + 60 * e * N * (1 + d.max(initial=0))


def decide(ctx, S, j, t, what):
    """row-wise: column j[p] reaches the minimum"""
    if not len(j): return 0
    c = S[np.arange(len(j)), j]; m = S.min(1); ctx.ok(np.all(c <= m + t), what + ": the chosen angle has sum %g, the best %g (sample %d)" % (c[np.argmax(c - m)], m[np.argmax(c - m)], np.argmax(c - m)))
    ctx.count("tie-free decisions", int(np.sum(np.partition(S, 1, axis=1)[:, 1] - m > 2 * t)) if S.shape[1] > 1 else 0); return np.unique(j).size


def rounding(p, e): return 40 * e * (1 + abs(p).max(initial=0)) * (1 + np.sqrt(p.size) / 4)     # unwrapping adds up corrections


def grid_index(ctx, ph, ang, t, what):
    """index of the test angle each phase equals modulo 90 degrees"""
    r = abs(wrap(ph[:, None] - ang[None, :])); j = r.argmin(1); ctx.ok(np.all(r[np.arange(j.size), j] <= t), what + ": not a test angle, off by %g" % (r.min(1).max(initial=0))); return j


def one(ctx, E, y, ph, K, a, N, dt, what):
    """single-stage result against the brute force, per mode; returns chosen indices"""
    L = E.shape[1]; rt = np.float32 if dt == np.complex64 else np.float64; ang = np.linspace(-np.pi / 4, np.pi / 4, K, endpoint=False, dtype=rt).astype(float); e = np.finfo(dt).eps; out = []
    for m in range(E.shape[0]):
        j = np.zeros(L, int)
        if L > 2 * N:
            p = ph[m, N:L - N].astype(float); te = rounding(p, e); j[N:L - N] = grid_index(ctx, p, ang, te, what)
            ctx.ok(np.all(abs(np.diff(p)) <= np.pi / 4 + te), what + ": jump of %g left by the unwrapping" % abs(np.diff(p)).max(initial=0)); ctx.count("unwraps", int(np.sum(np.diff(np.round((p - ang[j[N:L - N]]) * 2 / np.pi)) != 0)))
            d = dists(E[m], ang[None, :], a); n = decide(ctx, windows(d, N), j[N:L - N], tol(d, N, dt), what); ctx.count("decisions", L - 2 * N)
            if n > 1: ctx.nontrivial()
        out.append(j)
        edge = np.concatenate([ph[m, :N], ph[m, max(L - N, N):]]); ctx.ok(np.all(abs(edge) <= np.pi / 4 + 1e-6), what + ": phase at the edge is no test angle")
    z = E.astype(complex) * np.exp(1j * ph.astype(float)); ctx.close(y, z, 1e-12 * (1 + abs(E).max(initial=0)) if dt == np.complex128 else 4e-6 * (1 + abs(E).max(initial=0)) * (1 + abs(ph).max(initial=0)), what + ": returned signal against the returned phase")
    return out


def draw(ctx, rng):
    a = alphabet(rng); dt = gen.pick(rng, gen.DT); nm, L, N, K = gen.pick(rng, [1, 2, 3]), gen.loguniform(rng, 1, 1500), gen.loguniform(rng, 1, 60), gen.loguniform(rng, 1, 64)
    E, k = field(rng, a, (nm, L), dt); a = a.astype(dt); ctx.case(M=a.size, kind=k, nmodes=nm, L=L, N=N, K=K, dtype=np.dtype(dt).name)
    if dt is np.complex64: ctx.count("single precision")
    if L <= 2 * N: ctx.count("short signals")
    return a, E, N, K, dt


def check_types(ctx, y, ph, E, dt, what): ctx.ok(y.shape == E.shape == ph.shape and ph.dtype == np.zeros(1, dt).real.dtype and y.dtype == dt, "%s: signal %s %s phase %s %s" % (what, y.shape, y.dtype, ph.shape, ph.dtype))


def single(ctx, rng, i):
    a, E, N, K, dt = draw(ctx, rng); meth = gen.pick(rng, ["pyt", "pyt", "py", None]); flat = E.shape[0] == 1 and rng.random() < .5; h = gen.digest([E, a]); kw = {} if meth is None else dict(method=meth); ctx.case(method=meth, flat=flat)
    ctx.count("python" if meth == "py" else "compiled")
    y, ph = pr.bps(E[0] if flat else E, K, a, N, **kw); ctx.ok(gen.digest([E, a]) == h, "arguments were altered"); check_types(ctx, y, ph, E[0] if flat else E, dt, "bps")
    if flat: ctx.count("one dimensional")
    j = one(ctx, E, np.atleast_2d(y), np.atleast_2d(ph), K, a, N, dt, "bps")
    # modes on their own, and the other implementation
    for m in range(E.shape[0] if E.shape[0] > 1 else 0):
        y1, p1 = pr.bps(E[m], K, a, N, **kw); ctx.close(p1, ph[m], 1e-5 if dt is np.complex64 else 1e-10, "mode %d alone" % m); ctx.count("mode comparisons")
    y2, p2 = pr.bps(E, K, a, N, method="pyt" if meth == "py" else "py"); j2 = one(ctx, E, y2, p2, K, a, N, dt, "other implementation")
    if dt is np.complex128:
        # away from ties both reach the same minimum, which the two calls above decided; ties may be broken differently
        ctx.count("variant comparisons", E.size); ctx.count("variants equal", np.sum(np.array(j) == np.array(j2)))


def double(ctx, rng, i):
    a, E, N, K, dt = draw(ctx, rng); B = gen.pick(rng, [4, 4, 1, 2, 3, 5, 8, 16]); meth = gen.pick(rng, ["pyt", "pyt", "py", None]); flat = E.shape[0] == 1 and rng.random() < .5; h = gen.digest([E, a]); kw = {} if meth is None else dict(method=meth); ctx.case(B=B, method=meth, flat=flat)
    if not (B == 4 and rng.random() < .5): kw["B"] = B
    y, ph = pr.bps_twostage(E[0] if flat else E, K, a, N, **kw); ctx.ok(gen.digest([E, a]) == h, "arguments were altered"); check_types(ctx, y, ph, E[0] if flat else E, dt, "bps_twostage"); kw.pop("B", None)
    y1, p1 = pr.bps(E, K, a, N, **kw); j1 = one(ctx, E, y1, p1, K, a, N, dt, "first stage"); y, ph = np.atleast_2d(y), np.atleast_2d(ph); rt = np.float32 if dt == np.complex64 else np.float64; e = np.finfo(dt).eps
    ang = np.linspace(-np.pi / 4, np.pi / 4, K, endpoint=False, dtype=rt).astype(float); L = E.shape[1]; b = np.linspace(-B / 2, B / 2, B) / (B * K) * np.pi / 2
    for m in range(E.shape[0]):
        c = ang[j1[m]][:, None] + b[None, :]; te = rounding(ph[m], e)
        ctx.ok(np.all(abs(wrap(ph[m] - ang[j1[m]])) <= np.pi / 4 / K + te), "second stage leaves the cell of the first by %g" % (abs(wrap(ph[m] - ang[j1[m]])).max() - np.pi / 4 / K))
        ctx.ok(np.all(abs(np.diff(ph[m].astype(float))) <= np.pi / 4 + te), "jump left by the unwrapping")
        if L > 2 * N:
            s = slice(N, L - N); r = abs(wrap(ph[m, s, None] - c[s])); ctx.ok(np.all(r.min(1) <= te), "second stage: not a test angle")
            d = dists(E[m], c, a); S = windows(d, N); j = np.where(r <= te, S, np.inf).argmin(1); decide(ctx, S, j, tol(d, N, dt), "second stage"); ctx.count("second stage decisions", L - 2 * N)
            if B > 1 and K > 1: ctx.nontrivial()
    z = E.astype(complex) * np.exp(1j * ph.astype(float)); ctx.close(y, z, (1e-12 if dt is np.complex128 else 4e-6 * (1 + abs(ph).max())) * (1 + abs(E).max()), "returned signal against the returned phase")
    for m in range(E.shape[0] if E.shape[0] > 1 else 0): ctx.close(pr.bps_twostage(E[m], K, a, N, B=B, **kw)[1], ph[m], 1e-5 if dt is np.complex64 else 1e-10, "mode %d alone" % m); ctx.count("mode comparisons")


def recover(ctx, rng, i):
    """known phase: found to the resolution of the search, symbols come back"""
    M = gen.pick(rng, [4, 16, 64, 32, 128]); nm, dt = gen.pick(rng, [1, 2, 3]), gen.pick(rng, gen.DT); L = gen.loguniform(rng, 300, 3000); N = int(rng.integers(10, 40)); K = int(rng.integers(16, 65)) if M > 4 else int(rng.integers(8, 33)); fb = float(gen.pick(rng, [1, 20e9]))
    s = signals.SignalQAMGrayCoded(M, L, nmodes=nm, fb=fb, dtype=dt, seed=int(rng.integers(2**31))); sg = gen.dmin(gen.ref_qam(M)) * .06
    t = np.cumsum(rng.standard_normal((nm, L)), axis=1) * 10 ** rng.uniform(-5, -3.2) + rng.uniform(-3, 3, (nm, 1)) + np.arange(L) * rng.uniform(-1e-4, 1e-4, (nm, 1)); two = rng.random() < .4
    x = (s * np.exp(1j * t) + gen.cnoise(rng, (nm, L)) * sg).astype(dt); ctx.case(M=M, nmodes=nm, L=L, N=N, K=K, two=two, dtype=np.dtype(dt).name); x = s.recreate_from_np_array(np.asarray(x)); h = gen.digest(x)
    y, ph = phaserec.bps_twostage(x, K, N) if two else phaserec.bps(x, K, N); ctx.ok(gen.digest(x) == h, "the signal was altered")
    ctx.ok(type(y) is type(x) and y.shape == x.shape and y.fb == fb and y.fs == fb and y.M == M, "description of the recovered signal"); ctx.eq(np.array(y.symbols), np.array(s.symbols), "transmitted symbols"); ctx.count("signal objects")
    cy, cp = (pr.bps_twostage if two else pr.bps)(gen.raw(x), K, np.array(s.coded_symbols), N); ctx.close(cp, ph, 1e-6, "core function"); ctx.close(cy, np.asarray(y), 1e-6, "core function")
    res = np.pi / 2 / K * (1 / 2 if not two else 1 / 2 / 3) ; drift = 0
    for m in range(nm):
        q = (ph[m] + t[m])[N:L - N]; k = np.round(np.median(q) / (np.pi / 2)); q = q - k * np.pi / 2; drift = np.max(abs(t[m, N:L - N] - np.array([t[m, p - N + 1:p + N + 1].mean() for p in range(N, L - N)])))
        nz = sg / np.sqrt(2 * N) * 6 / np.sqrt(.3) ; ctx.ok(np.all(abs(q) <= np.pi / 4 / K * (2 if two else 1) + nz + 1.5 * drift + .02 * (M > 16)), "phase off by %g (resolution %g, noise %g, drift %g)" % (abs(q).max(), res, nz, drift))
        if abs(q).max() * 1.35 + 5.5 * sg > gen.dmin(gen.ref_qam(M)) / 2: continue     # few test angles: decisions cannot be free of errors
        z = gen.raw(y)[m, N:L - N].astype(complex) * (-1j) ** k; ctx.eq(gen.nearest(z, gen.ref_qam(M))[0], gen.nearest(gen.raw(s)[m, N:L - N], gen.ref_qam(M))[0], "decisions after recovery"); ctx.count("recovered modes")
    if two:                                              # never coarser than the first stage
        y1, p1 = phaserec.bps(x, K, N); r2, r1 = (np.sqrt(np.mean(wrap(v[:, N:L - N] + t[:, N:L - N]) ** 2)) for v in (ph, p1)); ctx.ok(r2 <= max(r1 * 1.05, np.pi / 2 / K / 2) + .3 * sg / np.sqrt(N), "two stages leave a phase error of %g, one stage %g" % (r2, r1)); ctx.count("two-stage gains", int(r2 < r1))
    ctx.nontrivial()


def reject(ctx, rng, i):
    x = gen.cnoise(rng, (1, 50)); a = gen.ref_qam(4)
    for f in (pr.bps, pr.bps_twostage): ctx.raises(lambda: f(x, 8, a, 4, method=gen.pick(rng, ["nothere", "", "cu"])), "unknown method", ValueError)
    ctx.nontrivial(i)


SCENARIOS = [("single", single, 500, 9000), ("double", double, 350, 6000), ("recover", recover, 200, 4000), ("reject", reject, 4, 10)]

"""C09 every step of the training is replayed from the returned errors: each error must be the error function of the filter
output of the taps built from the errors before it, the returned taps must be the end of that recursion."""
import numpy as np
import gen
from vp import Skip, Violation
from qampy import signals, equalisation
from qampy.core import equalisation as ceq

CM = ["cma", "cma2", "sgncma", "mcma", "rde", "mrde"]; DEC = ["sbd", "mddma", "dd", "sbd_data"]; REAL = ["cma_real", "sgncma_real", "dd_real", "dd_data_real"]; DATA = ["sbd_data", "dd_data_real"]
RULE = ("random QAM/PSK fields with noise, rotation and filtering, 1-8 modes, 1-21 taps, oversampling 1-4, all 14 methods (any case), given or default taps, symbols default/1D/one row/row per mode, any mode list, 0-4 iterations, any training length incl. the longest possible, fixed and adaptive step, both precisions, core and signal level, "
        "two-stage training; the monitor rebuilds the taps before every step from the returned errors in double precision and evaluates the documented error there (decisions within rounding of a boundary may go either way); non-trivial: more than one tap, more than 20 steps, errors not all equal")
REQUIRED = ["steps replayed", "stages with their own symbols", "single precision", "adaptive steps", "step size reduced", "step size kept", "mode selections", "untouched modes", "explicit symbols", "symbols per mode", "given taps", "default taps", "several iterations", "no iteration", "longest training", "signal level", "two stages", "default training length",
            "single mode adaptive", "PSK", "rejected", "same mode alone"] + ["method " + m for m in CM + DEC + REAL]


def consts(M):
    a = gen.ref_qam(M); re, im = a.real, a.imag; r2 = abs(a) ** 2
    u = lambda x: np.unique(np.round(x, 10))
    return dict(a=a, R=np.mean(r2 ** 2) / np.mean(r2), Rr=np.mean(re ** 4) / np.mean(re ** 2), Ri=np.mean(im ** 4) / np.mean(im ** 2), rad=u(r2), rr=u(re ** 2), ri=u(im ** 2))


def nearest_all(x, syms, dx):
    """every symbol that is nearest up to rounding"""
    d = abs(x - syms); return np.unique(syms[d <= d.min() + 4 * dx])


def radius_all(sq, codes, dx):
    """codes are ordered; the boundaries are half-way between them"""
    d = abs(sq - codes); return codes[d <= d.min() + 2 * dx]


def sgn_all(v, dv): return [np.sign(v)] if abs(v) > dv else [-1, 0, 1]


def errors(method, x, c, sy, i, dx, eps):
    """possible error values and their uncertainty; c: constants of the format, sy: symbols of this mode"""
    ax = abs(x); dq = 2 * ax * dx + 8 * eps * ax ** 2
    if method in ("cma", "cma_real"):
        R = c["R"] if method == "cma" else c["Rr"]; return [(R - ax ** 2) * x], (R + 3 * ax ** 2) * dx + 16 * eps * (R + ax ** 2) * ax
    if method == "cma2": return [(c["R"] - x ** 2) * x], (c["R"] + 3 * ax ** 2) * dx + 16 * eps * (c["R"] + ax ** 2) * ax
    if method in ("sgncma", "sgncma_real"):
        R = c["R"] if method == "sgncma" else c["Rr"]; S = sgn_all(R - ax ** 2, dq + 8 * eps * R)
        if method == "sgncma_real": return [s * b for s in S for b in sgn_all(x, dx)], 1e-6
        return [s * (b + 1j * d) for s in S for b in sgn_all(x.real, dx) for d in sgn_all(x.imag, dx)], 1e-6
    if method == "mcma": return [(c["Rr"] - x.real ** 2) * x.real + 1j * (c["Ri"] - x.imag ** 2) * x.imag], (max(c["Rr"], c["Ri"]) + 3 * ax ** 2) * 2 * dx + 32 * eps * (1 + ax ** 2) * ax
    if method == "rde": return [(r - ax ** 2) * x for r in radius_all(ax ** 2, c["rad"], dq + 8 * eps)], (c["rad"].max() + 3 * ax ** 2) * dx + 1e-9 * ax + 32 * eps * (2 + ax ** 2) * ax
    if method == "mrde": return [(r - x.real ** 2) * x.real + 1j * (q - x.imag ** 2) * x.imag for r in radius_all(x.real ** 2, c["rr"], dq + 8 * eps) for q in radius_all(x.imag ** 2, c["ri"], dq + 8 * eps)], (2 + 3 * ax ** 2) * 2 * dx + 1e-9 * ax + 32 * eps * (2 + ax ** 2) * ax
    S = [sy[i]] if method in DATA else nearest_all(x, sy, dx + 8 * eps * (ax + abs(sy).max()))
    if method in ("sbd", "sbd_data"): r = [(s.real - x.real) * abs(s.real) + 1j * (s.imag - x.imag) * abs(s.imag) for s in S]
    elif method == "mddma": r = [(s.real ** 2 - x.real ** 2) * x.real + 1j * (s.imag ** 2 - x.imag ** 2) * x.imag for s in S]
    elif method == "dd": r = [s - x for s in S]
    else: r = [(s - x) * abs(s) for s in S]
    m = max(abs(s) for s in S); return r, (1 + m + m ** 2 + 3 * ax ** 2) * 2 * dx + 32 * eps * (1 + m ** 2 + ax ** 2) * (m + ax)


def replay(ctx, method, X, os, mu, w0, err, T, adaptive, c, sy, eps, n0=0):
    """one mode. Returns (message or None, taps, step size, tolerance of taps)"""
    w = w0.astype(complex if np.iscomplexobj(X) else float).copy(); n = err.size; prev = 0.; XX = [X[:, i * os:i * os + w.shape[1]] for i in range(T)]; wm = abs(w).max(); cx = [np.conj(a) for a in XX]; sx = [abs(a).sum() for a in XX]
    for k in range(n):
        i = k % T; x = (XX[i] * w).sum(); wm = max(wm, abs(w).max())
        if not np.isfinite(wm) or wm > 100: ctx.count("diverged trainings"); return None, None, mu, 0
        dx = eps * 8 * (4 + np.sqrt(n0 + k)) * wm * sx[i]; cand, tol = errors(method, x, c, sy, i, dx, eps); e = complex(err[k]) if np.iscomplexobj(X) else float(err[k])
        d = min(abs(e - np.asarray(cand)))
        if not d <= tol: return "%s: error of step %d is %r instead of %r (filter output %r)" % (method, k, e, cand[0], x), None, mu, 0
        w += mu * e * cx[i]
        if adaptive and i > 0:
            same = (e * prev > 0) if not np.iscomplexobj(X) else (e.real * prev.real > 0 and e.imag * prev.imag > 0)
            ctx.count("step size kept" if same else "step size reduced"); ctx.count("adaptive steps")
            if not same: mu = mu / (1 + mu * abs(e) ** 2)
        prev = e
    ctx.count("steps replayed", n)
    wm = max(wm, abs(w).max())          # the last step can be the largest
    return None, w, mu, eps * 16 * (4 + np.sqrt(n0 + n)) * max(wm, 1e-30)


def modes_ref(ctx, method, X, os, mu, W0, errs, T, adaptive, c, SY, eps, modes, n0=0, W=None):
    """all modes, each by itself; returns the taps predicted for the end"""
    out = W0.copy().astype(complex if np.iscomplexobj(X) else float)
    for m in range(X.shape[0]):
        if m not in modes:
            ctx.ok(not np.any(errs[m]), "errors of the mode %d that is not trained" % m)
            if W is not None: ctx.ok(np.array_equal(W[m], W0[m].astype(W.dtype)), "taps of the mode %d that is not trained changed" % m)
            ctx.count("untouched modes")
    for m in modes:
        r, w, _, tol = replay(ctx, method, X, os, mu, W0[m], errs[m], T, adaptive, c, SY[m], eps, n0); ctx.count("oracle decisions")
        if r is None and w is not None and W is not None and not np.abs(W[m] - w).max() <= tol: r = "%s: taps of mode %d are %g off the end of the recursion" % (method, m, np.abs(W[m] - w).max())
        if r is not None: raise Violation("mode %d of %s: %s" % (m, modes, r))
        if w is None: raise Skip
        out[m] = w
    return out


def chan(rng, nm, M, N, os, psk=False):
    a = np.exp(2j * np.pi * np.arange(M) / M) if psk else gen.ref_qam(M); s = a[rng.integers(0, M, (nm, N))]; u = np.repeat(s, os, axis=1)
    h = np.zeros((nm, nm, 3), complex); h[np.arange(nm), np.arange(nm), 1] = 1; h += .15 * gen.cnoise(rng, h.shape)
    L = u.shape[1]; up = np.pad(u, ((0, 0), (1, 1))); f = sum(np.einsum("ij,jl->il", h[:, :, t], up[:, t:t + L]) for t in range(3))
    return s, f + 10 ** rng.uniform(-2, -.5) * gen.cnoise(rng, f.shape)


def realise(E): return np.vstack([E.real, E.imag]) if np.iscomplexobj(E) else E


def setup(ctx, rng, i):
    me = (CM + DEC + REAL)[i % 14]; real = me in REAL; dt = gen.pick(rng, gen.DT); nm = gen.more(rng, gen.pick(rng, [1, 2, 2, 3, 4])); os = gen.pick(rng, [1, 2, 2, 3, 4]); Nt = gen.pick(rng, [1, int(rng.integers(1, 22)), 2 * int(rng.integers(0, 8)) + 1]); M = gen.pick(rng, gen.QAM[:7])
    if me.startswith("cma_r") or me.startswith("sgncma_r"): M = gen.pick(rng, [4, 16, 32, 64, 128])
    N = int(rng.integers(3 * Nt + 4, 3 * Nt + 150)) if i % 45 != 13 else gen.loguniform(rng, 3 * Nt + 150, 4000); mu = 10 ** rng.uniform(-4, -1.3) / Nt; ad = bool(rng.random() < .4); it = gen.pick(rng, [1, 1, 1, 2, 3, 0, 4])
    ctx.case(method=me, nmodes=nm, os=os, Ntaps=Nt, M=M, N=N, mu=mu, adaptive=ad, Niter=it, dtype=np.dtype(dt).name)
    if dt is np.complex64: ctx.count("single precision")
    return me, real, dt, nm, os, Nt, M, N, mu, ad, it


def expect_syms(c, me, given, nm):
    """symbols per (real) mode that the error functions use"""
    if me in CM or me in ("cma_real", "sgncma_real"): return [None] * (2 * nm)
    g = c["a"] if given is None else given; g = np.atleast_2d(g); g = np.repeat(g, nm, axis=0) if g.shape[0] == 1 else g
    return np.vstack([g.real, g.imag]) if me in REAL else g


def core(ctx, rng, i):
    me, real, dt, nm, os, Nt, M, N, mu, ad, it = setup(ctx, rng, i); eps = np.finfo(dt).eps; s, E = chan(rng, nm, M, N, os); E = E.astype(dt); c = consts(M); n = 2 * nm if real else nm; L = E.shape[1]
    given = None; k = rng.integers(4)
    if me in DATA: given = gen.pick(rng, [lambda: s, lambda: s[:1] if rng.random() < .5 else s[0]])(); ctx.count("explicit symbols")
    elif me not in CM + ["cma_real", "sgncma_real"] and k:
        a = c["a"]
        if k == 1: given = a * np.exp(.3j) if rng.random() < .5 else a[None] * 1.2
        else: given = a[None] * np.linspace(.8, 1.3, nm)[:, None]; ctx.count("symbols per mode")
        ctx.count("explicit symbols")
    elif me in CM and k == 1: given = np.ones((nm, 7)) * 99.            # documented to be ignored by these methods
    longest = (L - Nt) // os + 1
    T = gen.pick(rng, [longest, int(rng.integers(1, longest + 1)), None, min(longest, 2)])
    if me in DATA and T is not None: T = min(T, N)
    if T == longest: ctx.count("longest training")
    if T is None: ctx.count("default training length")
    modes = None; kw = {}
    if rng.random() < .5: modes = gen.pick(rng, [rng.permutation(nm)[:int(rng.integers(1, nm + 1))], np.arange(nm)[::-1], int(rng.integers(nm)), [int(rng.integers(nm))]]); ctx.count("mode selections")
    W0 = np.zeros((n, n, Nt), dt if not real else np.empty(0, dt).real.dtype); W0[np.arange(n), np.arange(n), Nt // 2] = 1; wx = None
    if rng.random() < .5:
        W0 = (W0 + .1 * (rng.standard_normal(W0.shape) if real else gen.cnoise(rng, W0.shape))).astype(gen.pick(rng, [W0.dtype, np.float64 if real else np.complex128])); wx = np.asfortranarray(W0) if rng.random() < .3 else W0.copy(); ctx.count("given taps"); W0 = W0.astype(np.empty(0, dt).real.dtype if real else dt)
    else: kw["Ntaps"] = Nt; ctx.count("default taps")
    mname = me.upper() if rng.random() < .1 else me; apply = rng.random() < .2
    g = None if given is None else np.asarray(given).astype(gen.pick(rng, gen.DT) if dt is np.complex64 else dt); ctx.case(modes=None if modes is None else np.atleast_1d(modes).tolist(), TrSyms=T, symbols=None if g is None else g.shape, given=wx is not None)
    r = ceq.equalise_signal(E, os, mu, M, wxy=wx, TrSyms=T, Niter=it, method=mname, adaptive_stepsize=ad, symbols=g, modes=modes, apply=apply, **kw); w, err = r[-2:]
    if it == 0: ctx.count("no iteration")
    if it > 1: ctx.count("several iterations")
    if T is None:
        T = err.shape[1] // it if it else 0; ctx.ok(it == 0 or (T * it == err.shape[1] and E.shape[1] // os - 2 * Nt <= T <= longest), "default training length %d of %d" % (T, longest))
    ctx.ok(w.shape == (n, n, Nt) and w.dtype == W0.dtype, "taps %s %s" % (w.shape, w.dtype)); ctx.ok(err.shape == (n, T * it) and err.dtype == W0.dtype, "errors %s %s" % (err.shape, err.dtype))
    X = (realise(E) if real else E).astype(float if real else complex); sy = expect_syms(c, me, None if g is None or me in CM else g.astype(complex), nm); mo = list(range(nm)) if modes is None else np.atleast_1d(modes).tolist()
    if real: mo = mo + [m + nm for m in mo] if modes is not None else list(range(n))
    m_ = float(np.empty(0, dt).real.dtype.type(mu)); ctx.count("method " + me)
    if ad and len(mo) == 1: ctx.count("single mode adaptive")
    if not err.size: ctx.eq(w, W0, "taps without training"); return
    modes_ref(ctx, me, X, os, m_, W0, err, T, ad, c, sy, eps, mo, W=w)
    if Nt > 1 and T * it > 20: ctx.nontrivial()
    if rng.random() < .3:                                 # each mode trained by itself gives the same taps and errors
        m = gen.pick(rng, mo[:len(mo) // 2] if real else mo); r1 = ceq.equalise_signal(E, os, mu, M, wxy=wx, TrSyms=T, Niter=it, method=me, adaptive_stepsize=ad, symbols=g, modes=[m], **kw)
        ctx.close(r1[0][m], w[m], 64 * eps * max(1, abs(w).max()) * (4 + np.sqrt(T * it)), "taps of mode %d trained alone" % m); ctx.close(r1[1][m], err[m], 1e4 * eps * max(1, abs(err[m]).max()) * np.sqrt(T * it), "errors of mode %d trained alone" % m) if dt is np.complex128 and me not in ("sgncma", "sgncma_real") else None; ctx.count("same mode alone")


def signal(ctx, rng, i):
    me, real, dt, nm, os, Nt, M, N, mu, ad, it = setup(ctx, rng, i); it = max(it, 1); eps = np.finfo(dt).eps; psk = rng.random() < .3 and (me in DEC or me in ("dd_real", "dd_data_real")); fb = gen.pick(rng, [1., 25e9])
    if psk: M = gen.pick(rng, [4, 8]); ctx.count("PSK")
    sg = (signals.SignalPSKGrayCoded if psk else signals.SignalQAMGrayCoded)(M, N, nmodes=nm, fb=fb, dtype=dt); u = np.repeat(gen.raw(sg), os, axis=1); E = (u + 10 ** rng.uniform(-2, -.5) * gen.cnoise(rng, u.shape)).astype(dt); x = sg.recreate_from_np_array(E, fs=fb * os); ctx.case(psk=psk)
    c = consts(M) if not psk else dict(a=np.exp(2j * np.pi * np.arange(M) / M), **{k: v for k, v in consts(M).items() if k != "a"}); T = int(rng.integers(2, min(N, (N * os - Nt) // os + 1) + 1)); modes = None if rng.random() < .6 else rng.permutation(nm)[:int(rng.integers(1, nm + 1))]; n = 2 * nm if real else nm
    W0 = np.zeros((n, n, Nt)); W0[np.arange(n), np.arange(n), Nt // 2] = 1; X = (realise(E) if real else E).astype(float if real else complex); mo = list(range(nm)) if modes is None else modes.tolist(); mo = mo + [m + nm for m in mo] if real else mo; m_ = float(np.empty(0, dt).real.dtype.type(mu))
    al = np.asarray(sg.coded_symbols, complex); ctx.ok(al.size == M and (np.allclose(abs(al), 1, atol=1e-5) if psk else gen.same_set(al, c["a"], 1e-5)), "alphabet of the signal"); c["a"] = al
    if rng.random() < .6:
        kw = dict(Niter=it, method=me, adaptive_stepsize=ad, modes=modes); kw = {k: v for k, v in kw.items() if (k, v) not in (("Niter", 1), ("method", "mcma"), ("adaptive_stepsize", False)) or rng.random() < .5}; ctx.case(given=",".join(sorted(kw)))
        w, err = equalisation.equalise_signal(x, mu, Ntaps=Nt, TrSyms=T, **kw); sy = expect_syms(c, me, np.asarray(sg.symbols, complex) if me in DATA else None, nm)
        modes_ref(ctx, me, X, os, m_, W0, err, T, ad, c, sy, eps, mo, W=w)
    else:
        first = gen.pick(rng, ["cma_real", "sgncma_real", "dd_real"] if real else CM + ["sbd", "mddma", "dd"])
        if me in DATA and first in ("sbd", "mddma", "dd", "dd_real"): first = "cma_real" if real else "mcma"
        T2 = int(rng.integers(2, T + 1)); ad2 = bool(rng.random() < .4); mu2 = mu * rng.uniform(.2, 1); it2 = gen.pick(rng, [1, 2]); ctx.case(first=first, T2=T2, ad2=ad2)
        kw = dict(Niter=(it, it2), adaptive_stepsize=(ad, ad2), methods=(first, me)); kw = {k: v for k, v in kw.items() if (k, v) not in (("Niter", (1, 1)), ("adaptive_stepsize", (False, False)), ("methods", ("mcma", "sbd"))) or rng.random() < .4}
        w, (e1, e2) = equalisation.dual_mode_equalisation(x, (mu, mu2), Nt, TrSyms=(T, T2), modes=modes, apply=False, **kw)
        ctx.ok(e1.shape[1] == T * it and e2.shape[1] == T2 * it2, "%d and %d training steps instead of %d and %d" % (e1.shape[1], e2.shape[1], T * it, T2 * it2))
        s1 = expect_syms(c, first, None, nm); s2 = expect_syms(c, me, np.asarray(sg.symbols, complex) if me in DATA else None, nm)
        W1 = modes_ref(ctx, first, X, os, m_, W0, e1, T, ad, c, s1, eps, mo); W2 = modes_ref(ctx, me, X, os, float(np.empty(0, dt).real.dtype.type(mu2)), W1, e2, T2, ad2, c, s2, eps, mo, n0=T * it)
        for m in range(n): ctx.close(w[m], W2[m], eps * 32 * (8 + np.sqrt(T * it + T2 * it2)) * max(1, abs(W2).max()), "taps of the second stage")
        ctx.count("two stages")
    ctx.count("signal level"); ctx.nontrivial()


def stages(ctx, rng, i):
    """both stages of a two-stage training get the symbols that are given for them"""
    me, real, dt, nm, os, Nt, M, N, mu, ad, it = setup(ctx, rng, i); ms = ["dd_real", "dd_data_real"] if real else [m for m in DEC if m not in DATA] + [m for m in DATA if m != "dd_data_real"]; eps = np.finfo(dt).eps
    me, first = gen.pick(rng, ms), gen.pick(rng, ms); it, it2 = int(rng.integers(1, 3)), int(rng.integers(1, 3)); c = consts(M); s, E = chan(rng, nm, M, N, os); E = E.astype(dt); n = 2 * nm if real else nm; L = min(N, (N * os - Nt) // os + 1)
    if L < 4: raise Skip("too short")
    T, T2 = [int(rng.integers(2, L + 1)) for _ in range(2)]; mu2 = mu * rng.uniform(.2, 1); ad2 = bool(rng.integers(2)); modes = None if rng.random() < .6 else rng.permutation(nm)[:int(rng.integers(1, nm + 1))]
    g = np.array([s * np.exp(1j * a) * b for a, b in ((0, 1), (rng.uniform(.1, 1), rng.uniform(.7, .95)))]).astype(dt)          # a sequence of symbols per stage, which serves as the alphabet of the deciding methods as well
    if rng.random() < .3: g = g[::-1].copy()
    ctx.case(first=first, second=me, T=(T, T2), it=(it, it2), modes=None if modes is None else modes.tolist())
    w, (e1, e2) = ceq.dual_mode_equalisation(E, os, (mu, mu2), M, Ntaps=Nt, TrSyms=(T, T2), Niter=(it, it2), methods=(first, me), adaptive_stepsize=(ad, ad2), symbols=g, modes=modes, apply=False)
    W0 = np.zeros((n, n, Nt)); W0[np.arange(n), np.arange(n), Nt // 2] = 1; X = (realise(E) if real else E).astype(float if real else complex); mo = list(range(nm)) if modes is None else modes.tolist(); mo = mo + [m + nm for m in mo] if real else mo; r = np.empty(0, dt).real.dtype.type
    ctx.ok(e1.shape[1] == T * it and e2.shape[1] == T2 * it2, "%d and %d training steps instead of %d and %d" % (e1.shape[1], e2.shape[1], T * it, T2 * it2))
    s1, s2 = expect_syms(c, first, g[0].astype(complex), nm), expect_syms(c, me, g[1].astype(complex), nm)
    W1 = modes_ref(ctx, first, X, os, float(r(mu)), W0, e1, T, ad, c, s1, eps, mo); W2 = modes_ref(ctx, me, X, os, float(r(mu2)), W1, e2, T2, ad2, c, s2, eps, mo, n0=T * it)
    for m in range(n): ctx.close(w[m], W2[m], eps * 32 * (8 + np.sqrt(T * it + T2 * it2)) * max(1, abs(W2).max()), "taps of the second stage")
    ctx.count("stages with their own symbols"); ctx.nontrivial()


def errors_(ctx, rng, i):
    me, real, dt, nm, os, Nt, M, N, mu, ad, it = setup(ctx, rng, i); s, E = chan(rng, nm, M, N, os); E = E.astype(dt); k = i % 5; sy = dict(symbols=s) if me in DATA else {}
    f = lambda **kw: ceq.equalise_signal(E, os, mu, M, **dict(dict(Ntaps=Nt, method=me, TrSyms=2, **sy), **kw)); ctx.case(kind=k)
    if k == 0: ctx.raises(lambda: f(method=gen.pick(rng, ["sca", "lms", "", "dd_adaptive", "mcma_real"])), "unknown method")
    elif k == 1 and me in DATA: ctx.raises(lambda: f(symbols=None), "data-aided training without symbols")
    elif k == 2 and me in DEC + ["dd_real", "dd_data_real"] and nm > 1: ctx.raises(lambda: f(symbols=np.tile(gen.ref_qam(M), (nm + 1, 1))), "symbols of more modes than the signal has")
    elif k == 3: n = 2 * nm if real else nm; ctx.raises(lambda: f(wxy=np.zeros((n + 1, n, Nt), dt).real if real else np.zeros((n + 1, n, Nt), dt)), "taps of more modes than the signal has")
    elif k == 4: ctx.raises(lambda: f(TrSyms=E.shape[1] // os + 1), "more training symbols than the signal has")
    ctx.count("rejected")


SCENARIOS = [("core", core, 700, 14000), ("signal", signal, 300, 6000), ("stages", stages, 120, 2400), ("errors", errors_, 70, 700)]

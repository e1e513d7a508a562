"""C11 applying an equaliser is FIR filtering and decimation: independent sum over windows."""
import numpy as np
import gen
from vp import Skip
from qampy import signals, equalisation
from qampy.core import equalisation as ceq
from qampy.core.equalisation import pythran_equalisation as pe

RULE = ("random taps (complex, real, delta, single non-zero) on random fields: 1-8 input modes, 1-41 taps (also even, one, as long as the signal, shorter than the oversampling), oversampling 1-9, lengths with every remainder, both precisions, C/Fortran/strided/read-only "
        "memory, any list of modes (subset, repeated, reversed, scalar), compiled and python implementation, core and signal level and inside equalise_signal/dual_mode_equalisation(apply=True); the oracle is a direct sum over windows in double precision; "
        "non-trivial: more than one tap and more than two output samples")
REQUIRED = ["complex taps", "real taps", "single precision", "mode selections", "even taps", "one tap", "filter as long as the signal", "oversampling above taps", "signal level", "impulse probes", "linear probes", "python method", "rejected", "strided memory", "trained and applied", "single output",
            "real-valued with modes", "pilot signal unsynchronised", "dual mode", "arguments unchanged"]


def ref(E, os, w, modes=None):
    """out[q, k] = sum_j sum_t w[modes[q], j, t] E[j, k os + t]; real taps: real and imaginary parts are separate inputs and outputs"""
    E = np.asarray(E, complex if np.iscomplexobj(E) else float); w = np.asarray(w)
    real = not np.iscomplexobj(w); modes = list(range(w.shape[0])) if modes is None else list(np.atleast_1d(modes))
    X = np.vstack([E.real, E.imag]) if real and np.iscomplexobj(E) else E
    L, Nt = X.shape[1], w.shape[2]; n = len([k for k in range(L) if k * os + Nt <= L]) if L < 4000 else (L - Nt) // os + 1
    out = np.zeros((len(modes), n), complex)
    for q, m in enumerate(modes):
        for j in range(X.shape[0]):
            for t in range(Nt):
                out[q] += w[m, j, t] * X[j, t:t + (n - 1) * os + 1:os] if n else 0
    if real:
        h = len(modes) // 2; return out[:h].real + 1j * out[h:].real
    return out


def field(rng, nm, L, dt): return (gen.cnoise(rng, (nm, L)) * 10 ** (rng.uniform(-2, 2) if rng.random() < .7 else rng.uniform(-9, 7))).astype(dt)


def mem(ctx, rng, x):
    k = rng.integers(7)
    if k == 0: return np.asfortranarray(x)
    if k == 1: b = np.zeros((x.shape[0], 2 * x.shape[1]) + x.shape[2:], x.dtype); b[:, ::2] = x; ctx.count("strided memory"); return b[:, ::2]
    if k == 2: y = x[::-1].copy()[::-1]; ctx.count("strided memory"); return y
    if k == 3: y = x.copy(); y.flags.writeable = False; return y
    return x


def taps(ctx, rng, no, ni, Nt, dt, real):
    kind = rng.integers(4); w = rng.standard_normal((no, ni, Nt)) if real else gen.cnoise(rng, (no, ni, Nt))
    if kind == 0:
        a = np.zeros_like(w); a[int(rng.integers(no)), int(rng.integers(ni)), int(rng.integers(Nt))] = 1; w = a; ctx.count("impulse probes")
    elif kind == 1: w[:, :, rng.random(Nt) < .5] = 0
    if rng.random() < .3: w = w * 10 ** rng.uniform(-12, 5)
    if rng.random() < .1: w = w * 10 ** rng.uniform(-4, 0, w.shape)
    return w.astype(np.empty(0, dt).real.dtype if real else dt)


def setup(ctx, rng):
    dt = gen.pick(rng, gen.DT); nm = gen.more(rng, gen.pick(rng, [1, 2, 2, 3, 4])); os = gen.pick(rng, [1, 2, 2, 3, 4, int(rng.integers(1, 10))]); Nt = gen.pick(rng, [1, 2, int(rng.integers(1, 42)), 2 * int(rng.integers(0, 12)) + 1])
    L = Nt if rng.random() < .08 else Nt + gen.loguniform(rng, 1, 3000) - (rng.random() < .3); ctx.case(dtype=np.dtype(dt).name, nmodes=nm, os=os, Ntaps=Nt, L=int(L))
    if dt is np.complex64: ctx.count("single precision")
    if Nt % 2 == 0: ctx.count("even taps")
    if Nt == 1: ctx.count("one tap")
    if L == Nt: ctx.count("filter as long as the signal")
    if os > Nt: ctx.count("oversampling above taps")
    return dt, nm, os, Nt, int(L)


def tol(dt, r, E, w, Nt): return (4e-14 if dt is np.complex128 else 4e-6) * (1 + np.sqrt(Nt * w.shape[1])) * max(1e-30, np.abs(E).max(initial=0) * max(np.abs(w).max(initial=0), 1e-30) * np.sqrt(Nt * w.shape[1]) * 3)


def core(ctx, rng, i):
    dt, nm, os, Nt, L = setup(ctx, rng); real = rng.random() < .35; E = field(rng, nm, L, dt)
    w = taps(ctx, rng, 2 * nm if real else nm, 2 * nm if real else nm, Nt, dt, real); modes = None
    if rng.random() < .6:
        if real:
            m = rng.integers(0, nm, int(rng.integers(1, nm + 1))); modes = np.hstack([m, m + nm]); ctx.count("real-valued with modes")
        else:
            modes = gen.pick(rng, [rng.integers(0, nm, int(rng.integers(1, 2 * nm + 1))), np.arange(nm)[::-1], int(rng.integers(nm)), [int(rng.integers(nm))]])
        ctx.count("mode selections")
    me = gen.pick(rng, ["pyt", "pyt", "pyt", "py", None]); kw = {} if me is None else dict(method=me)
    if me == "py": ctx.count("python method")
    E_, w_ = mem(ctx, rng, E), mem(ctx, rng, w); ctx.case(real=real, modes=None if modes is None else np.atleast_1d(modes).tolist(), method=me); b = gen.digest([E_, w_, modes])
    out = ceq.apply_filter(E_, os, w_, modes=modes, **kw); ctx.ok(gen.digest([E_, w_, modes]) == b, "arguments altered"); ctx.count("arguments unchanged")
    r = ref(E, os, w, modes); ctx.ok(out.dtype == dt, "dtype %s" % out.dtype); ctx.close(out, r, tol(dt, r, E, w, Nt), "filter output"); ctx.count("real taps" if real else "complex taps")
    if out.shape[1] == 1: ctx.count("single output")
    if Nt > 1 and out.shape[1] > 2: ctx.nontrivial()
    # linearity in the field
    if rng.random() < .3:
        a = complex(gen.cnoise(rng, 1)[0]) if not real else float(rng.standard_normal()); E2 = field(rng, nm, L, dt); s = ceq.apply_filter((a * E + E2).astype(dt), os, w, modes=modes, **kw)
        ctx.close(s, ref((a * E + E2).astype(dt), os, w, modes), tol(dt, s, abs(a * E) + abs(E2), w, Nt), "filter of a sum"); ctx.count("linear probes")


def signal(ctx, rng, i):
    dt, nm, os, Nt, L = setup(ctx, rng); os = min(os, 8); real = rng.random() < .3; N = max(Nt // os + 1, gen.loguniform(rng, 2, 600)); M = gen.pick(rng, [4, 16, 64]); fb = gen.pick(rng, [1, 1., 25e9])
    pil = rng.random() < .25
    if pil:
        s = signals.SignalWithPilots(M, 8 * int(max(N, 2)), 8, 8, nframes=2 + Nt // (8 * int(max(N, 2)) * os), nmodes=nm, fb=fb, dtype=dt)
        ctx.count("pilot signal unsynchronised")
    else: s = signals.SignalQAMGrayCoded(M, N, nmodes=nm, fb=fb, dtype=dt)
    E = field(rng, nm, s.shape[1] * os, dt); x = s.recreate_from_np_array(E, fs=fb * os); w = taps(ctx, rng, (1 + real) * nm, (1 + real) * nm, Nt, dt, real); ctx.case(real=real, N=N, pilots=pil, os=os); b = gen.digest([x, w])
    y = equalisation.apply_filter(x, w, frames=gen.pick(rng, [None, [], False])) if pil else gen.pick(rng, [lambda: equalisation.apply_filter(x, w), lambda: equalisation.apply_filter(x, w, method="pyt"), lambda: equalisation.apply_filter(x, w, method="py"), lambda: equalisation.apply_filter(x, w, frames=[1])])()
    ctx.ok(gen.digest([x, w]) == b, "arguments altered"); r = ref(E, os, w); ctx.ok(type(y) is type(s) and y.fs == y.fb == fb and y.M == M and y.dtype == dt, "returned %s fs %s fb %s %s" % (type(y).__name__, y.fs, y.fb, y.dtype))
    ctx.close(gen.raw(y), r, tol(dt, r, E, w, Nt), "filter output"); ctx.eq(gen.raw(y.symbols), gen.raw(s.symbols), "reference"); ctx.count("signal level"); ctx.count("real taps" if real else "complex taps")
    if Nt > 1 and r.shape[1] > 2: ctx.nontrivial()


def trained(ctx, rng, i):
    dt = gen.pick(rng, gen.DT); nm = gen.pick(rng, [1, 2, 3]); os = gen.pick(rng, [1, 2, 3]); Nt = int(rng.integers(1, 22)); N = int(rng.integers(6 * Nt, 6 * Nt + 200)); M = gen.pick(rng, [4, 16])
    s = signals.SignalQAMGrayCoded(M, N, nmodes=nm, fb=1., dtype=dt); E = (np.repeat(gen.raw(s), os, axis=1) + .1 * gen.cnoise(rng, (nm, N * os))).astype(dt); x = s.recreate_from_np_array(E, fs=float(os))
    me = gen.pick(rng, ["cma", "mcma", "sbd", "mddma", "dd", "rde", "mrde", "sbd_data", "cma_real", "dd_real", "dd_data_real", "sgncma_real"]); real = "real" in me; modes = gen.pick(rng, [None, None, [int(rng.integers(nm))], np.arange(nm)[::-1], int(rng.integers(nm))]); mu = 1e-3; lvl = gen.pick(rng, ["core", "signal", "dual"])
    ts = int(rng.integers(1, 3 * Nt + 1)); ts = min(ts, (N * os - Nt) // os - 2); kw = {} if modes is None else dict(modes=modes); ctx.case(method=me, nmodes=nm, os=os, Ntaps=Nt, N=N, modes=None if modes is None else np.atleast_1d(modes).tolist(), level=lvl, TrSyms=ts, dtype=np.dtype(dt).name)
    b = gen.digest(x)
    if lvl == "core": y, w, e = ceq.equalise_signal(E, os, mu, M, Ntaps=Nt, TrSyms=ts, method=me, apply=True, symbols=gen.raw(s.symbols) if "data" in me else None, **kw)
    elif lvl == "signal": y, w, e = equalisation.equalise_signal(x, mu, Ntaps=Nt, TrSyms=ts, method=me, apply=True, **kw)
    else:
        me1 = me if "data" not in me else ("cma_real" if real else "cma"); y, w, e = equalisation.dual_mode_equalisation(x, (mu, mu), Nt, TrSyms=(ts, ts), methods=(me1, me), **kw); ctx.count("dual mode")
    ctx.ok(gen.digest(x) == b, "arguments altered"); m = np.arange(nm) if modes is None else np.atleast_1d(modes); rows = np.hstack([m, m + nm]) if real else m; r = ref(E, os, w, rows)
    ctx.ok(y.dtype == dt and (lvl == "core" or y.fs == 1.), "dtype %s" % y.dtype); ctx.close(gen.raw(y), r, tol(dt, r, E, w, Nt), "returned signal against returned taps"); ctx.count("trained and applied"); ctx.count("real taps" if real else "complex taps"); ctx.nontrivial()


def errors(ctx, rng, i):
    dt, nm, os, Nt, L = setup(ctx, rng); E = field(rng, nm, L, dt); w = taps(ctx, rng, nm, nm, Nt, dt, False); k = i % 7; ctx.case(kind=k); me = gen.pick(rng, ["pyt", "py"]); f = lambda *a, **kw: ceq.apply_filter(*a, method=me, **kw)
    if k == 0: ctx.raises(lambda: f(E, os, w, modes=[nm + int(rng.integers(0, 4))]), "mode that does not exist")
    elif k == 1: ctx.raises(lambda: f(E, os, w, modes=[-int(rng.integers(1, nm + 3))]), "negative mode")
    elif k == 2: ctx.raises(lambda: f(E, gen.pick(rng, [0, -1, -3]), w), "oversampling below one")
    elif k == 3: ctx.raises(lambda: f(E[:, :Nt - 1], os, w), "filter longer than the signal")
    elif k == 4: ctx.raises(lambda: f(np.vstack([E, E]), os, w), "more modes than the taps are for")
    elif k == 5: ctx.raises(lambda: f(E, os, w.real.copy()), "real taps of the size for complex ones")
    else: ctx.raises(lambda: ceq.apply_filter(E, os, w, method=gen.pick(rng, ["pyx", "af", "", "numpy"])), "unknown method")
    ctx.count("rejected")


SCENARIOS = [("core", core, 1500, 20000), ("signal", signal, 500, 6000), ("trained", trained, 400, 5000), ("errors", errors, 140, 1400)]

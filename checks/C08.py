"""C08 processing functions do not modify their arguments"""
import inspect, os, sys, tempfile, warnings
import numpy as np
import gen, ops
from vp import Skip

RULE = ("about 70 operations on signal objects of every class (1-3 modes, both precisions, 1-4 samples per symbol, with noise and another power) and about 85 functions on arrays (one and two dimensions, both precisions, C, Fortran, strided and reversed memory layouts) over random argument combinations; every array, signal object with all its attributes, tap array, list and dict handed over is fingerprinted bit by bit before and after, with the buffers behind views, "
        "the default arguments and module level tables of the whole library, and the results of earlier calls (which later calls must not change); non-trivial: the call returned and its arguments were compared")
REQUIRED = ["signal calls", "array calls", "views compared", "defaults compared", "earlier results compared", "same call twice", "classes: SignalWithPilots", "classes: TDHQAMSymbols"]
ASSUMPTIONS = ["Methods documented to act in place on their object (sync2frame, corr_foe, normalize_and_center, setters) may change that object",
               "Arrays in a memory layout a compiled function does not accept are refused with a TypeError"]


def base(o):
    """the buffer behind a view"""
    while isinstance(o, np.ndarray) and isinstance(o.base, np.ndarray): o = o.base
    return o


def prints(args):
    return [gen.digest(a) for a in args], [gen.digest(np.asarray(base(a))) if isinstance(a, np.ndarray) and a.base is not None else None for a in args]


_state = {}
def modules():
    """default arguments and module level arrays, lists and dicts of the library"""
    out = {}
    for m in sorted(k for k in sys.modules if k.startswith("qampy")):
        mod = sys.modules[m]
        if mod is None: continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__"): continue
            if isinstance(v, (np.ndarray, list, dict)): out[m, k] = gen.digest(v)
            fs = [(k, v)] if inspect.isfunction(v) else [(k + "." + a, b.__func__ if isinstance(b, (classmethod, staticmethod)) else b) for a, b in vars(v).items()] if inspect.isclass(v) and v.__module__.startswith("qampy") else []
            for a, b in fs:
                if inspect.isfunction(b): out[m, a] = gen.digest([list(b.__defaults__ or ()), dict(b.__kwdefaults__ or {})])
                elif isinstance(b, (list, dict, np.ndarray)): out[m, a] = gen.digest(b)
    return out


def globals_same(ctx, what):
    now = modules(); ctx.count("defaults compared", len(now))
    if _state:
        bad = [k for k in now if k in _state and now[k] != _state[k]]; ctx.ok(not bad, "%s changed the default argument or table %s" % (what, bad))
    _state.update(now)


def flat(r, d=0):
    if isinstance(r, np.ndarray): return [r]
    if isinstance(r, (list, tuple)) and d < 3: return [x for v in r for x in flat(v, d + 1)]
    if isinstance(r, dict) and d < 3: return [x for v in r.values() for x in flat(v, d + 1)]
    return []


def equal(a, b):
    """equal up to the rounding that may depend on the alignment of temporary arrays"""
    def one(x, y):
        if x.shape != y.shape or x.dtype != y.dtype: return False
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype.kind not in "fc" or not x.size: return np.array_equal(x, y)
        f = np.isfinite(x); return np.array_equal(f, np.isfinite(y)) and np.max(np.abs(x[f] - y[f]), initial=0) <= 20 * np.finfo(x.dtype).eps * np.max(np.abs(x[f]), initial=0)
    return len(a) == len(b) and all(one(x, y) for x, y in zip(a, b))


def call(ctx, rng, op, what, twice=True):
    """run an operation and compare its arguments; the second call must give the same result from the same arguments"""
    a, b = prints(op.args); seed = int(rng.integers(2**31)); np.random.seed(seed)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); r = op.run()
    except TypeError as e:
        if "pythranized" not in str(e): raise
        ctx.count("refused layouts"); r = None
    a2, b2 = prints(op.args)
    bad = [i for i in range(len(a)) if a[i] != a2[i] or b[i] != b2[i]]
    def show(i):
        x = op.args[i]; return "%s %s%s" % (type(x).__name__, getattr(x, "shape", ""), getattr(x, "dtype", "") if hasattr(x, "dtype") else repr(x)[:60])
    ctx.ok(not bad, "%s changed its argument(s) %s" % (what, [show(i) for i in bad] + [[k for k, (u, v) in zip(sorted(vars(op.args[i])), zip(a[i][4], a2[i][4])) if u != v] for i in bad if isinstance(op.args[i], np.ndarray) and type(op.args[i]) is not np.ndarray and len(a[i][4]) == len(a2[i][4])]))
    ctx.count("views compared", sum(x is not None for x in b)); ctx.count("arguments compared", len(a))
    if r is None: return
    res = flat(r); h = [gen.digest(x) for x in res]
    if twice:
        np.random.seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); r2 = op.run()
        ctx.ok([gen.digest(x) for x in res] == h, "a second call of %s changed the result of the first" % what); ctx.count("earlier results compared", len(res))
        ctx.ok(prints(op.args) == (a, b), "the second call of %s changed its arguments" % what)
        if op.rnd != "own": ctx.ok(equal(flat(r2), res), "%s gives another result when called again with the same arguments" % what); ctx.count("same call twice")
    ctx.nontrivial()


def signals(ctx, rng, i):
    names = list(ops.SIG); kinds = list(ops.ATTRS); kind = kinds[i % len(kinds)]
    s = ops.signal(rng, kinds=[kind], nmax=800); ctx.count("classes: " + kind)
    if s.size > 30000: raise Skip("long")
    if rng.random() < .6: s = s * s.dtype.type(rng.uniform(.5, 2)) + ops.cn(rng, s.shape, s.dtype, .03)
    ctx.case(what="%s %s %s, %s samples per symbol" % (kind, s.shape, s.dtype, s.fs / s.fb)); h = gen.digest(s)
    for k in range(12):
        name = names[(i // len(kinds) * 12 + k + i) % len(names)]; op = ops.SIG[name](rng, s)
        if op is None: continue
        ctx.case(op=name); call(ctx, rng, op, "%s on a %s" % (name, kind)); ctx.count("signal calls"); ctx.count("op " + name)
    ctx.ok(gen.digest(s) == h, "the signal changed over the calls"); globals_same(ctx, "a call on a %s" % kind)


def arrays(ctx, rng, i):
    A = ops.arrays(); names = list(A); name = names[i % len(names)]; ops.LAYOUTS = rng.random() < .8
    try:
        for c in gen.DT:
            for t in range(3):
                op = A[name](rng, c); ctx.case(what=name, args=[getattr(a, "shape", None) for a in op.args], c=np.dtype(c).name); call(ctx, rng, op, name); ctx.count("array calls")
    finally: ops.LAYOUTS = False
    globals_same(ctx, name)


def pilots(ctx, rng, i):
    """the methods of pilot signals that act in place change nothing but their object"""
    from qampy import signals as S, impairments as I, equalisation as Q
    fl = 256 + 16 * int(rng.integers(16, 40)); nm = int(rng.integers(1, 3))
    s = S.SignalWithPilots(gen.pick(rng, [16, 64]), fl, 256, 16, nframes=3, nmodes=nm, seed=int(rng.integers(2**31)), dtype=gen.pick(rng, gen.DT), fb=20e9)
    y = s.resample(2 * s.fb, beta=.2, renormalise=True, taps=201); y = I.change_snr(y, 30)
    if nm == 2: y = I.rotate_field(y, .4)
    y = y.copy() if False else y; ctx.case(what="pilot signal in place", fl=fl, nm=nm); a = [gen.digest(s), gen.digest(y)]
    z = y.copy(); z.sync2frame(Ntaps=17, Niter=5, adaptive_stepsize=True, method="cma", mu=1e-3)
    ctx.ok([gen.digest(s), gen.digest(y)] == a, "sync2frame of a copy changed the signal it was copied from"); b = gen.digest(z)
    if z.shape[-1] - z.shiftfctrs.max() >= z.frame_len * 2 + 17:
        fr = [0]; w, o = Q.pilot_equaliser(z, (1e-3, 1e-3), 17, foe_comp=bool(rng.integers(2)), methods=("cma", "cma"), Niter=3)[:2]
        hw, ho = gen.digest(w), gen.digest(o)
        ctx.ok(gen.digest(z) == b, "pilot_equaliser changed its signal")
        w2, o2 = Q.pilot_equaliser(z, (1e-3, 1e-3), 17, wxinit=w, foe_comp=False, methods=("cma", "cma"), Niter=3)[:2]
        ctx.ok(gen.digest(z) == b and gen.digest(w) == hw and gen.digest(o) == ho, "pilot_equaliser changed its signal or the initial taps")
        Q.pilot_equaliser_nframes(z, (1e-3, 1e-3), 17, frames=fr, methods=("cma", "cma"), Niter=3, verbose=False)
        ctx.ok(gen.digest(z) == b and fr == [0], "pilot_equaliser_nframes changed its signal")
        Q.apply_filter(z, w, frames=fr); ctx.ok(gen.digest(z) == b and gen.digest(w) == hw and fr == [0], "apply_filter changed the pilot signal, the taps or the list of frames")
        ctx.nontrivial()
    z2 = z.copy(); c = gen.digest(z)
    if z2.fs == 2 * z2.fb:
        z2.corr_foe(); ctx.ok(gen.digest(z) == c, "corr_foe of a copy changed the signal it was copied from")
    ctx.ok([gen.digest(s), gen.digest(y)] == a, "the original signals changed"); globals_same(ctx, "pilot processing")


def storing(ctx, rng, i):
    """saving, and reading arrays, leaves the objects alone"""
    from qampy.core import io
    import pickle, copy
    s = ops.signal(rng, nmax=500); o = [s, {"taps": ops.cn(rng, (2, 2, 7), s.dtype), "x": [1, 2]}]; ctx.case(what="%s stored" % type(s).__name__); h = gen.digest(o)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "a"); io.save_signal(f, s, lvl=int(rng.integers(0, 10))); r = io.load_signal(f)
        s.save_to_file(f) if hasattr(s, "save_to_file") else None
        io.save_signal(f, o)
        if not ops.is_pil(s):
            from scipy.io import savemat
            a = gen.raw(s); savemat(f + ".mat", {"X": a, "Y": a.real}); pm = [[0, 1]] if False else None
            io.ndarray_from_matlab(f + ".mat", ["X"], transpose=bool(rng.integers(2)))
    copy.deepcopy(s); copy.copy(s); pickle.dumps(s); repr(s); str(s)
    ctx.ok(gen.digest(o) == h, "storing or copying changed the object"); ctx.nontrivial()


SCENARIOS = [("signals", signals, 168, 2500), ("arrays", arrays, 172, 3000), ("pilots", pilots, 8, 120), ("storing", storing, 21, 300)]

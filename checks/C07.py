"""C07 saving, pickling and copying restore the same signal"""
import copy, os, pickle, shutil, subprocess, sys, tempfile
import numpy as np
import gen, ops
from vp import Skip

RULE = ("signals of every class (1-3 modes, both precisions, oversampled, sliced, impaired, equalised, synchronised pilot signals, one-dimensional rows, non-contiguous views) and lists, tuples and dicts of signals, taps and other objects; save_signal/load_signal and save_to_file at every zlib level, pickle protocols 0-5, copy, copy.copy, deepcopy, copies of copies, loading in another process; "
        "files cut at every kind of position; non-trivial: the object was written, read back and compared")
REQUIRED = ["files", "pickles", "copies", "metrics compared", "loaded elsewhere", "damaged files", "containers", "levels", "operations on restored"]
ASSUMPTIONS = ["Pickle files are only loaded from trusted sources"]


def some(ctx, rng):
    """a signal of some class with some history"""
    s = ops.signal(rng, nmax=500)
    for _ in range(int(rng.integers(0, 3))):
        op = ops.SIG[gen.pick(rng, ["numpy times_scalar", "numpy add_array", "numpy slice", "numpy modes", "numpy astype", "impairments change_snr", "impairments apply_phase_noise", "filtering rrcos_pulseshaping", "resample", "helpers normalise_and_center", "recreate", "recreate_new_rates", "equalisation apply_filter", "method pilot_sync", "phaserec bps"])](rng, s)
        if op is not None and s.shape[-1] < 6000:
            o = op.sig(op.run())
            if o and np.iscomplexobj(o[0]): s = o[0]
    k = int(rng.integers(8))
    if k == 0 and not ops.is_pil(s): s = s[:, ::3]
    if k == 1: s = s[::-1]
    if k == 2: s = s.astype(np.complex64)
    if k == 3 and not ops.is_pil(s): s = s[0]
    return s


def same(ctx, a, b, what, loose=0):
    ctx.ok(type(a) is type(b), "%s: %s instead of %s" % (what, type(b).__name__, type(a).__name__))
    if isinstance(a, np.ndarray):
        ctx.ok(a.dtype == b.dtype and a.shape == b.shape and (np.asarray(a).tobytes() == np.asarray(b).tobytes() or loose and np.allclose(a, b, rtol=0, atol=loose * max(1e-30, abs(np.asarray(a)).max()))), "%s: other samples, dtype %s %s, shape %s %s" % (what, a.dtype, b.dtype, a.shape, b.shape))
        if type(a).__name__ in ops.ATTRS:
            d = ops.diff(ops.describe(a), ops.describe(b)); ctx.ok(not d, "%s lost %s of a %s" % (what, [(k, str(x)[:120], str(y)[:120]) for k, x, y in d], type(a).__name__))
            d = [k for k in getattr(a, "_inheritattr_", []) + getattr(a, "_inheritbase_", []) if ops.plain(vars(a).get(k)) != ops.plain(vars(b).get(k))]; ctx.ok(not d, "%s changed the attributes %s" % (what, d))
    elif isinstance(a, (list, tuple)):
        ctx.ok(len(a) == len(b), what)
        for x, y in zip(a, b): same(ctx, x, y, what)
    elif isinstance(a, dict):
        ctx.ok(list(a) == list(b), what)
        for k in a: same(ctx, a[k], b[k], what)
    else: ctx.ok(a == b or a != a, "%s: %r instead of %r" % (what, b, a))


def metrics(s):
    """everything a signal reports about itself"""
    out = []
    if s.ndim != 2 or ops.is_td(s) or s.fs != s.fb or s.shape[-1] < 60: return out
    so = type(s).__name__ == "SymbolOnlySignal"
    fs = ["cal_ser", "cal_evm"] + ([] if so else ["cal_ber", "est_snr"])
    for f in fs:
        try: out.append(gen.raw(getattr(s, f)()))
        except Exception as e: out.append(np.array([len(str(type(e)))]))
    if not so:
        try: out += [gen.raw(v) for v in s.cal_gmi(snr=15.)]
        except Exception as e: out.append(np.array([len(str(type(e)))]))
    if ops.is_pil(s): out += [gen.raw(s.get_data()), gen.raw(s.extract_pilots())]
    else:
        try: out.append(gen.raw(s.make_decision()))
        except TypeError: out.append(np.array([1]))         # the alphabet has another precision than the samples
    return out


def alike(x, y, r):
    """the same metric; the SNR and the EVM of a signal without noise are rounding errors and only have to be just as far out"""
    if x.shape != y.shape: return False
    if x.dtype.kind not in "fc": return np.array_equal(x, y)
    return np.all(np.isclose(x, y, rtol=r, atol=1e-6 if r > 1e-5 else 1e-9, equal_nan=True) | (abs(x) > 1e9) & (abs(y) > 1e9))


def use(ctx, rng, a, b, what):
    """the restored object works like the original"""
    for x, y in zip(metrics(a), metrics(b)): ctx.ok(alike(x, y, 1e-4 if a.dtype == np.complex64 else 1e-9), "%s: the restored signal reports other metrics, %s instead of %s" % (what, y.ravel()[:4], x.ravel()[:4])); ctx.count("metrics compared")
    if a.ndim == 2:
        st = rng.bit_generator.state
        for name in ("numpy times_scalar", "numpy slice", "resample", "recreate", "numpy astype"):
            r = []
            for s in (a, b):
                rng.bit_generator.state = st; op = ops.SIG[name](rng, s); r.append(op.run() if op is not None else None)
            if r[0] is not None: same(ctx, r[0], r[1], "%s after %s" % (name, what), 1e-5 if a.dtype == np.complex64 else 1e-12); ctx.count("operations on restored")


def independent(ctx, s, o, what, deep):
    h = gen.digest(s); d = ops.describe(s)
    o[...] = 3
    if deep:
        for k, v in list(vars(o).items()):
            if isinstance(v, np.ndarray) and v.size and v.flags.writeable: v[...] = 0
    ctx.ok(gen.digest(s) == h and ops.describe(s) == d, "%s: changing the restored signal changed the original" % what)


def files(ctx, rng, i):
    from qampy.core.io import save_signal, load_signal
    s = some(ctx, rng); lvl = [None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1][i % 12]; h = gen.digest(s); d = tempfile.mkdtemp(prefix="c07"); fn = os.path.join(d, "x.sig"); ctx.case(cls=type(s).__name__, shape=s.shape, level=lvl); ctx.count("levels")
    try:
        if rng.random() < .3: open(fn, "wb").write(rng.bytes(200000))       # overwrites a longer file
        if rng.random() < .5 and hasattr(s, "save_to_file"): s.save_to_file(fn) if lvl is None else s.save_to_file(fn, lvl)
        else: save_signal(fn, s) if lvl is None else save_signal(fn, s, lvl)
        ctx.ok(gen.digest(s) == h, "saving changed the signal"); sz = os.path.getsize(fn); o = load_signal(fn); ctx.ok(os.path.getsize(fn) == sz, "loading changed the file"); ctx.count("files"); ctx.nontrivial(i)
        same(ctx, s, o, "loading a saved signal"); use(ctx, rng, s, o, "loading"); p = load_signal(fn); independent(ctx, s, o, "loading", True); same(ctx, s, p, "loading twice")
        save_signal(fn, p, 1); same(ctx, s, load_signal(fn), "saving a loaded signal again")
    finally: shutil.rmtree(d)


def pickles(ctx, rng, i):
    s = some(ctx, rng); pr = i % (pickle.HIGHEST_PROTOCOL + 1); h = gen.digest(s); ctx.case(cls=type(s).__name__, shape=s.shape, protocol=pr); ctx.count("pickles"); ctx.nontrivial(i)
    o = pickle.loads(pickle.dumps(s, protocol=pr)); ctx.ok(gen.digest(s) == h, "pickling changed the signal"); same(ctx, s, o, "unpickling"); use(ctx, rng, s, o, "unpickling")
    o2 = pickle.loads(pickle.dumps(o, protocol=5)); same(ctx, s, o2, "pickling twice"); independent(ctx, s, o, "unpickling", True); same(ctx, s, o2, "unpickling")


def copies(ctx, rng, i):
    s = some(ctx, rng); k = i % 5; ctx.case(cls=type(s).__name__, shape=s.shape, kind=k); ctx.count("copies"); ctx.nontrivial(i)
    o = [lambda: s.copy(), lambda: copy.copy(s), lambda: copy.deepcopy(s), lambda: np.copy(s, subok=True), lambda: pickle.loads(pickle.dumps(s.copy()))][k]()
    same(ctx, s, o, "copying"); use(ctx, rng, s, o, "copying"); same(ctx, s, o.copy(), "copying twice"); ctx.ok(not np.shares_memory(s, o), "a copy shares the samples"); independent(ctx, s, o, "copying", k == 4)


def containers(ctx, rng, i):
    from qampy.core.io import save_signal, load_signal
    from qampy import signals as S
    def thing(depth=0):
        k = int(rng.integers(10 if depth < 3 else 7))
        if k == 0: return some(ctx, rng)
        if k == 1: return gen.cnoise(rng, (2, 2, 5)).astype(gen.pick(rng, gen.DT))
        if k == 2: return gen.pick(rng, [None, True, 3, 2.5, 1j, "text \u00e4", b"\0\xff", float("inf")])
        if k == 3: return np.arange(int(rng.integers(0, 9))) > 3
        if k == 4: return S.RandomBits(int(rng.integers(1, 90)), nmodes=2, seed=3) if rng.random() < .5 else S.PRBSBits(50, nmodes=2, seed=[1, 3])
        if k == 5: return np.float32(2.5)
        if k == 6: return {}
        if k == 7: return [thing(depth + 1) for _ in range(int(rng.integers(0, 4)))]
        if k == 8: return {("k%d" % j): thing(depth + 1) for j in range(int(rng.integers(0, 4)))}
        return tuple(thing(depth + 1) for _ in range(2))
    o = [thing() for _ in range(int(rng.integers(1, 4)))] if i % 2 else {"a": thing(), 3: thing(), "sig": some(ctx, rng)}; ctx.case(kind=type(o).__name__, n=len(o)); ctx.count("containers"); ctx.nontrivial(i)
    with tempfile.TemporaryDirectory(prefix="c07") as d:
        fn = os.path.join(d, "x"); save_signal(fn, o, int(rng.integers(-1, 10))); same(ctx, o, load_signal(fn), "loading a %s" % type(o).__name__)
        s = some(ctx, rng); save_signal(fn, [s, s.symbols if not ops.is_td(s) else s.symbols_M1, s]); l = load_signal(fn); same(ctx, s, l[0], "a signal in a list"); ctx.ok(l[0] is l[2], "the same object twice in a list")


CHILD = """
import sys, pickle; sys.path.insert(0, %r); sys.path.insert(0, %r); import qload
qload.install({}) if False else None
import warnings; warnings.simplefilter('ignore')
from qampy.core.io import load_signal
import numpy as np, gen, ops, importlib.util
spec = importlib.util.spec_from_file_location('c07', %r); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
out = []
for fn in sys.argv[2:]:
    s = load_signal(fn); out.append((type(s).__name__, s.dtype.str, gen.raw(s), gen.digest(s), m.metrics(s)))
pickle.dump(out, open(sys.argv[1], 'wb'))
"""


def elsewhere(ctx, rng, i):
    """another process, which has not made the signal, loads the file"""
    import json
    from qampy.core.io import save_signal
    ss = [some(ctx, rng) for _ in range(8)]; ctx.nontrivial(i); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory(prefix="c07") as d:
        fn = [os.path.join(d, str(k)) for k in range(len(ss))]
        for f, s in zip(fn, ss): save_signal(f, s)
        code = CHILD % (os.path.join(V, "lib"), os.environ.get("VERIF_REPO", "/repo"), os.path.abspath(__file__)); code = code.replace("qload.install({}) if False else None", "import json, os; qload.install(json.loads(os.environ['VERIF_NATIVE']))")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, os.path.join(d, "o")] + fn, capture_output=True, text=True, env=dict(os.environ, VERIF_NATIVE=os.environ.get("VERIF_NATIVE", "{}")))
        ctx.ok(p.returncode == 0, "another process cannot load the files: %s" % p.stderr[-600:])
        for s, (t, dt, r, dg, me) in zip(ss, pickle.load(open(os.path.join(d, "o"), "rb"))):
            ctx.ok(t == type(s).__name__ and dt == s.dtype.str and np.array_equal(r, gen.raw(s)), "another process loads another signal"); ctx.count("loaded elsewhere")
            for x, y in zip(metrics(s), me): ctx.ok(alike(x, y, 1e-4 if s.dtype == np.complex64 else 1e-6), "metrics in another process %s instead of %s" % (y.ravel()[:3], x.ravel()[:3])); ctx.count("metrics compared")


def damaged(ctx, rng, i):
    """a file that is incomplete is refused, never loaded as something else"""
    from qampy.core.io import save_signal, load_signal
    s = some(ctx, rng); ctx.case(cls=type(s).__name__); lvl = int(rng.integers(0, 10)); ctx.nontrivial(i)
    with tempfile.TemporaryDirectory(prefix="c07") as d:
        fn = os.path.join(d, "x"); save_signal(fn, s, lvl); b = open(fn, "rb").read()
        for _ in range(12):
            n = int(gen.pick(rng, [0, 1, 2, len(b) - 1, len(b) - 2, len(b) - 4, int(rng.integers(len(b)))])); open(fn, "wb").write(b[:n]); ctx.raises(lambda: load_signal(fn), "a file of %d of %d bytes is loaded" % (n, len(b))); ctx.count("damaged files")


SCENARIOS = [("files", files, 360, 8000), ("pickles", pickles, 360, 8000), ("copies", copies, 240, 5000), ("containers", containers, 120, 2000), ("elsewhere", elsewhere, 12, 80), ("damaged", damaged, 24, 400)]

"""C30 import of MATLAB files: layouts, order, values, normalisation."""
import os, tempfile
import numpy as np
from scipy.io import savemat
import gen
from qampy import io, signals
from qampy.core import io as cio

RULE = ("random measurement and symbol files in every documented layout (complex or real/imaginary arrays, one array or one variable per mode, row and column vectors, scope channels "
        "with a port map), 1-6 modes, integer and floating point storage, distractor variables, every normalisation, transposition and polarisation-multiplex option; "
        "the import is compared with what was written; non-trivial: more than one mode or part to place")
REQUIRED = ["files", "single complex", "single pair", "modes complex", "modes pair", "port maps", "transposed", "normalised", "fake polmux", "measurements", "rejections", "integer files"]


def names(rng, n):
    w = ["X", "Y", "I", "Q", "rx", "tx", "data", "ch1", "ch2", "sig_re", "sig_im", "A", "pol", "b2", "Zeta", "alpha", "beta", "chX", "chY", "q1", "_s".strip("_")]
    return [w[j] + "_%d" % q for q, j in enumerate(rng.permutation(len(w))[:n])] if rng.random() < .5 else ["v%d" % j for j in rng.permutation(n)]


def write(ctx, rng, d, x):
    """write modes x in a random layout: file name, keys, keyword arguments, values that a reader should find"""
    nm, N = x.shape; lay = gen.pick(rng, ["single complex", "single pair", "modes complex", "modes pair", "port maps"]); kw = {}; c = {}
    if lay.startswith("modes") and nm == 1: lay = lay.replace("modes", "single")
    for k in ("zz", "aa", "time"): c[k] = rng.standard_normal(int(rng.integers(1, 9)))
    vec = (lambda v: v.reshape(-1, 1)) if rng.random() < .5 else (lambda v: v.reshape(1, -1))
    T = False
    if lay.startswith("single") or lay == "port maps":
        T = bool(rng.integers(2))
        if T: kw["transpose"] = True; ctx.count("transposed")
        elif rng.random() < .3: kw["transpose"] = False
    st = (lambda v: v.T) if T else (lambda v: v)
    if lay == "single complex": k = names(rng, 1); c[k[0]] = st(x); keys = [k]
    elif lay == "single pair": k = names(rng, 2); c[k[0]], c[k[1]] = st(x.real), st(x.imag); keys = [k]
    elif lay == "modes complex": k = names(rng, nm); keys = [[a] for a in k]; c.update({a: vec(x[m]) for m, a in enumerate(k)})
    elif lay == "modes pair":
        k = names(rng, 2 * nm); keys = [[k[2 * m], k[2 * m + 1]] for m in range(nm)]
        for m in range(nm): c[keys[m][0]], c[keys[m][1]] = vec(x[m].real), vec(x[m].imag)
    else:
        ports = rng.permutation(2 * nm + int(rng.integers(0, 3))); pm = [[int(ports[2 * m]), int(ports[2 * m + 1])] for m in range(nm)]
        if nm == 2 and rng.random() < .3: pm = [[0, 1], [2, 3]]; ports = np.arange(4)
        else: kw["portmap"] = pm
        R = rng.standard_normal((ports.size, N)).astype(x.real.dtype)
        for m in range(nm): R[pm[m][0]], R[pm[m][1]] = x[m].real, x[m].imag
        kw["dim2cmplx"] = True
        if rng.random() < .5 and not T:
            k = names(rng, ports.size); keys = [[a] for a in k]; c.update({a: vec(R[m]) for m, a in enumerate(k)})
        else: k = names(rng, 1); keys = [k]; c[k[0]] = st(R)
        if len(keys) > 1: kw.pop("transpose", None)
    if rng.random() < .3: keys = tuple(tuple(a) for a in keys)
    ctx.count(lay); ctx.count("files"); ctx.case(layout=lay, shape=x.shape, **{a: str(b) for a, b in kw.items()})
    fn = os.path.join(d, gen.pick(rng, ["m.mat", "measurement.mat"])); savemat(fn, c)
    return fn, keys, kw


def raw(ctx, rng, i):
    nm, N = int(rng.integers(1, 7)), gen.loguniform(rng, 1, 2000); q = gen.pick(rng, ["float", "float", "single", "int"])
    if q == "int": x = (rng.integers(-128, 128, (nm, N)) + 1j * rng.integers(-128, 128, (nm, N))).astype(complex); ctx.count("integer files")
    else: x = gen.cnoise(rng, (nm, N), float(rng.uniform(.01, 50)))
    if q == "single": x = x.astype(np.complex64)
    ctx.case(kind=q)
    with tempfile.TemporaryDirectory() as d:
        fn, keys, kw = write(ctx, rng, d, x); h = gen.digest([keys, kw])
        y = cio.ndarray_from_matlab(fn, keys, **kw)
        ctx.ok(gen.digest([keys, kw]) == h, "arguments were altered")
        ctx.ok(np.shape(y) == x.shape, "imported %s for %s" % (np.shape(y), x.shape)); ctx.close(y, x, 1e-12 if q != "single" else 1e-6 * abs(x).max(), "imported values")
        # as a measurement of known symbols
        s = signals.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 64]), 64, nmodes=nm, fb=float(gen.pick(rng, [1, 20e9])), seed=int(rng.integers(2**31))); fs = float(rng.uniform(1, 4)) * s.fb; h = gen.digest(s)
        o = io.create_signal_from_matlab(s, fn, fs, keys, **kw)
        ctx.ok(gen.digest(s) == h, "the symbols were altered")
        ctx.ok(type(o) is type(s) and o.fs == fs and o.fb == s.fb and o.M == s.M and o.shape == x.shape, "measurement: fs %s fb %s M %s %s" % (o.fs, o.fb, o.M, o.shape))
        ctx.eq(np.array(o.symbols), np.array(s.symbols), "transmitted symbols of the measurement"); ctx.eq(np.array(o.bits), np.array(s.bits), "transmitted bits of the measurement")
        ctx.close(gen.raw(o), x, 1e-12 if q != "single" else 1e-6 * abs(x).max(), "values of the measurement"); ctx.count("measurements")
    ctx.nontrivial()


def symbols(ctx, rng, i):
    M = gen.pick(rng, [4, 16, 64, 32, 8, 128]); nm = gen.more(rng, int(rng.integers(1, 5))); reps = int(rng.integers(1, 6)); fb = float(gen.pick(rng, [1, 10e9, 28e9])); p = gen.ref_qam(M)
    x = np.array([rng.permutation(np.tile(p, reps)) for _ in range(nm)])            # every point equally often: zero mean and power one
    norm = gen.pick(rng, [None, True, False]); k = float(rng.uniform(.1, 8)) if norm is not False or rng.random() < .3 else 1.; ofs = gen.cnoise(rng, (nm, 1)) if norm is not False else 0
    g = k * (rng.uniform(.3, 3, (nm, 1)) if norm is not False else 1) ; y = x * g + ofs; kw = {}
    fake = nm == 1 and rng.random() < .6
    with tempfile.TemporaryDirectory() as d:
        fn, keys, kw2 = write(ctx, rng, d, y); kw.update(kw2)
        if norm is not None: kw["normalise"] = norm
        if fake:
            kw["fake_polmux"] = True; dl = int(gen.pick(rng, [0, 1, 5, -3, int(rng.integers(0, 200))]))
            if dl or rng.random() < .5: kw["fake_pm_delay"] = dl
        if fb != 10e9 or rng.random() < .5: kw["fb"] = fb
        ctx.case(M=M, normalise=norm, fake=kw.get("fake_pm_delay") if fake else None, fb=fb)
        s = io.load_symbols_from_matlab_file(fn, M, keys, **kw)
    w = x if norm is not False else y
    if fake: w = np.vstack([np.roll(w, kw.get("fake_pm_delay", 0), axis=1), w]); ctx.count("fake polmux")
    ctx.ok(type(s) is signals.SignalQAMGrayCoded and s.shape == w.shape and s.fb == fb and s.fs == fb and s.M == M, "%s %s fb %s" % (type(s).__name__, s.shape, s.fb))
    def scaled(y, what):
        g = np.vdot(w, y) / np.vdot(w, w); ctx.ok(abs(g - 1) < 1e-6, what + " scale %s" % g); ctx.peak("scale deviation", abs(g - 1))
        ctx.close(y / g, w, 1e-9 * max(1, abs(w).max()), what)
    scaled(gen.raw(s), "symbols"); scaled(gen.raw(s.symbols), "stored symbols")
    if norm is not False: ctx.count("normalised")
    # the bits are those of the nearest points of the library's labelling
    t = signals.SignalQAMGrayCoded.from_bit_array(np.array(s.bits), M); ctx.close(np.array(t), np.vstack([np.roll(x, kw.get("fake_pm_delay", 0), axis=1), x]) if fake else x, 1e-9, "bits of the imported symbols")
    ctx.nontrivial()


def reject(ctx, rng, i):
    with tempfile.TemporaryDirectory() as d:
        x = gen.cnoise(rng, (2, 10)); fn = os.path.join(d, "a.mat"); savemat(fn, dict(a=x, b=x, c=x))
        for keys in ([["a", "b", "c"]], [[]], [["a", "b", "c"], ["a", "b", "c"]]): ctx.raises(lambda: cio.ndarray_from_matlab(fn, keys), "keys %s" % keys, ValueError)
        ctx.raises(lambda: cio.ndarray_from_matlab(fn, [["nothere"]]), "missing variable", KeyError)
        ctx.raises(lambda: cio.ndarray_from_matlab(os.path.join(d, "nofile.mat"), [["a"]]), "missing file", OSError); ctx.count("rejections", 5)
    ctx.nontrivial(i)


SCENARIOS = [("measurements", raw, 500, 8000), ("symbols", symbols, 400, 6000), ("reject", reject, 6, 30)]

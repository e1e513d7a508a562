"""C21 DAC and modulator models: quantiser, clipper, ENOB noise, DAC filter, amplifier, modulator and their compositions against definitions."""
import os, tempfile
import numpy as np
from scipy import signal as ss
import gen
from qampy import impairments, signals
from qampy.core import impairments as ci, digital_pre_compensation as dpc

RULE = ("random signals (1-3 modes of different power, both precisions, real where accepted, signal objects and arrays) through every transmitter model with "
        "random parameters; each stage is compared with its definition, the composed models with the composition; non-trivial: the model changes the signal")
REQUIRED = ["quantised samples", "quantiser levels inspected", "monotonic pairs", "clipped samples", "enob noise", "modulator points", "measured responses",
            "compositions", "pre-compensation"]


def mk(ctx, rng, nmin=50, nmax=4000, real=False, obj=None, fs=50e9):
    nm, N = int(rng.integers(1, 4)), gen.loguniform(rng, nmin, nmax); dt = gen.pick(rng, gen.DT)
    obj = (rng.random() < 0.5 if obj is None else obj) and not real
    ctx.case(nmodes=nm, N=N, dtype=np.dtype(dt).name, signal=obj, real=real)
    if obj:
        s = signals.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 64]), N, nmodes=nm, dtype=dt, fb=fs, seed=int(rng.integers(2**31)))
        s = s + np.asarray(gen.cnoise(rng, s.shape, 0.2)).astype(dt)
    else:
        s = gen.cnoise(rng, (nm, N)).astype(dt)
        if real: s = s.real.copy()
    s = s * np.asarray(rng.uniform(0.3, 3, (nm, 1))).astype(s.real.dtype)
    return s, gen.raw(s).astype(np.complex128), (2e-5 if dt is np.complex64 else 1e-10)


def swing(x, axis=-1):
    return np.maximum(abs(x.real).max(axis=axis, keepdims=True), abs(x.imag).max(axis=axis, keepdims=True))


def grid_check(ctx, x, y, n, tol, lo, hi, what):
    """y (real) is x rounded to a uniform grid of at most 2**n levels between lo and hi, within half a step inside the range"""
    lv = np.unique(np.round(y / (hi - lo) * 2 ** 22) / 2 ** 22 * (hi - lo))
    ctx.ok(lv.size <= 2 ** n, "%s: %d levels for %d bits" % (what, lv.size, n))
    step = (hi - lo) / (2 ** n - 1)
    k = (y - lo) / step
    ctx.close(k, np.round(k), 2 ** n * tol * 10 + 1e-6, what + ": levels are not on the uniform grid")
    ctx.ok(y.min() >= lo - tol * 10 and y.max() <= hi + tol * 10, what + ": output outside of the range")
    ins = (x >= lo - step / 2) & (x <= hi + step / 2)
    ctx.ok(abs(y - x)[ins].max(initial=0) <= step / 2 + tol * 20, "%s: error %g of a step" % (what, abs(y - x)[ins].max(initial=0) / step))
    if (~ins).any():
        ctx.close(y[~ins], np.where(x[~ins] > 0, hi, lo), tol * 10, what + ": samples outside of the range")
    o = np.argsort(x, kind="stable")
    ctx.ok(np.all(np.diff(y[o]) >= -tol * 10), what + ": not monotonic")
    ctx.count("quantised samples", x.size); ctx.count("quantiser levels inspected", lv.size); ctx.count("monotonic pairs", x.size - 1)


def quant_new(ctx, rng, i):
    real = rng.random() < 0.25
    s, x, tol = mk(ctx, rng, real=real)
    n = int(rng.integers(1, 11)); rin, rout = bool(rng.integers(2)), bool(rng.integers(2))
    ctx.case(bits=n, rescale_in=rin, rescale_out=rout)
    b = gen.digest(s)
    f = lambda s: ci.quantize_signal_New(s, nbits=n, rescale_in=rin, rescale_out=rout)
    y = f(s)
    ctx.ok(gen.digest(s) == b, "the quantiser altered its argument")
    ctx.ok(y.shape == s.shape and y.dtype == s.dtype and type(y) is type(s), "quantised: %s %s" % (y.shape, y.dtype))
    y = gen.raw(y).astype(complex)
    w = swing(x)
    z = x / w if rin else x                  # what is quantised, range -1..1
    v = y / w if rout else y
    d = 2 / 2 ** n
    for m in range(x.shape[0]):
        for p in ((lambda a: a.real,) if real else (lambda a: a.real, lambda a: a.imag)):
            grid_check(ctx, p(z[m]), p(v[m]), n, tol, -1 + d / 2, 1 - d / 2, "mode %d" % m)
    # odd symmetry away from the thresholds
    t = np.minimum(abs(z.real / d - np.round(z.real / d)), abs(z.imag / d - np.round(z.imag / d)) if not real else 1)
    q = gen.raw(f(-s)).astype(complex)
    ok = t > 1e-3 if n < 9 else t > 0.05
    ctx.close(np.where(ok, q, 0), np.where(ok, -y, 0), tol * 20, "odd symmetry")
    one = ci.quantize_signal_New(gen.raw(s)[:1], nbits=n, rescale_in=rin, rescale_out=rout)
    ctx.close(one[0], y[0], tol * 20, "first mode quantised alone")
    ctx.nontrivial()


def quant_old(ctx, rng, i):
    real = rng.random() < .2; s, x, tol = mk(ctx, rng, real=real)
    n = int(rng.integers(1, 11)); rs, rn = bool(rng.integers(2)), bool(rng.integers(2)); one = rng.random() < 0.3
    if not rs: s = s * np.array(1 / abs(x).max(), s.real.dtype) * np.array(1.2, s.real.dtype); x = gen.raw(s).astype(complex)
    if one: s, x = gen.raw(s)[0], x[:1]
    ctx.case(bits=n, rescale=rs, re_normalize=rn, ndim=s.ndim)
    b = gen.digest(s)
    y = ci.quantize_signal(s, nbits=n, rescale=rs, re_normalize=False)
    ctx.ok(gen.digest(s) == b, "the quantiser altered its argument")
    ctx.ok(y.dtype == s.dtype and np.atleast_2d(y).shape == x.shape, "quantised: %s %s" % (y.shape, y.dtype))
    y = np.atleast_2d(gen.raw(y)).astype(complex)
    z = x / abs(x).max(axis=-1, keepdims=True) if rs else x
    for m in range(x.shape[0]):
        grid_check(ctx, z[m].real, y[m].real, n, tol, -1, 1, "in-phase")
        if not real: grid_check(ctx, z[m].imag, y[m].imag, n, tol, -1, 1, "quadrature")
    if rn and np.ptp(abs(y)) >= 0 and min(np.std(y[m]) for m in range(y.shape[0])) > 1e-3:
        q = np.atleast_2d(gen.raw(ci.quantize_signal(s, nbits=n, rescale=rs, re_normalize=True)))
        c = y - y.mean(axis=1, keepdims=True)
        ctx.close(q, c / np.sqrt(np.mean(abs(c) ** 2, axis=1, keepdims=True)), tol * 50, "renormalised quantised signal")
    ctx.nontrivial()


def clip(ctx, rng, i):
    s, x, tol = mk(ctx, rng, nmin=1, real=False); lv = float(rng.uniform(0.1, 3)); one = rng.random() < 0.3
    if one: s, x = gen.raw(s)[0], x[0]
    ctx.case(level=lv, ndim=x.ndim)
    b = gen.digest(s)
    y = dpc.clipper(s, lv)
    ctx.ok(gen.digest(s) == b, "clipper altered its argument")
    ctx.ok(y.shape == s.shape and y.dtype == s.dtype, "clipper: %s %s for %s %s" % (y.shape, y.dtype, s.shape, s.dtype))
    r = lambda v: np.sign(v) * np.minimum(abs(v), lv)
    ctx.close(gen.raw(y), r(x.real) + 1j * r(x.imag), tol, "clipper")
    ctx.count("clipped samples", np.count_nonzero((abs(x.real) > lv) | (abs(x.imag) > lv)))
    ctx.nontrivial()


def enob(ctx, rng, i):
    real = rng.random() < 0.3
    s, x, tol = mk(ctx, rng, nmin=2000, nmax=20000, real=real)
    e = float(gen.pick(rng, [4, 6, 8, 5.5, rng.uniform(1, 9)])); ctx.case(enob=e)
    b = gen.digest(s)
    y, snr = ci.apply_enob_as_awgn(s, e, verbose=True)
    ctx.ok(gen.digest(s) == b, "altered its argument")
    ctx.ok(y.dtype == s.dtype and y.shape == s.shape and type(y) is type(s), "enob noise: %s %s" % (y.shape, y.dtype))
    mx = swing(x, axis=None).item()
    pn = (mx / 2 ** (e - 1)) ** 2 / 12
    d = gen.raw(y).astype(complex) - x
    floor = (mx * 1e-6) ** 2 if s.dtype.itemsize <= 8 and s.dtype != np.float64 else 0
    for v in (d.real,) if real else (d.real, d.imag):
        for m in range(v.shape[0]):
            p = np.mean(v[m] ** 2)
            ctx.ok(abs(p - pn) < 7 * pn * np.sqrt(2 / v[m].size) + floor, "noise power %g instead of %g" % (p, pn))
            ctx.ok(abs(v[m].mean()) < 7 * np.sqrt(pn / v[m].size) + 1e-6 * mx, "noise mean")
    want = 10 * np.log10(np.mean(abs(x) ** 2) / 2 / pn)
    ctx.ok(abs(snr - want) < 1e-3, "reported SNR %r instead of %r" % (snr, want))
    z = ci.apply_enob_as_awgn(s, e)
    ctx.ok(np.any(gen.raw(z) != gen.raw(y)), "repeated calls use the same noise")
    ctx.count("enob noise"); ctx.nontrivial()


def mod_ref(x, db=1, g=1, c=0, dbo=.5, go=1):
    cx = lambda v: complex(v) if np.iscomplex(v) else v + 1j * v
    db, g, c = cx(db), cx(g), cx(c)
    arm = lambda v, b, g, c: -(np.exp(.5j * np.pi * (v + b) * (1 + c)) + g * np.exp(-.5j * np.pi * (v + b) * (1 - c))) / (1 + g)
    ei, eq = arm(x.real, db.real, g.real, c.real), arm(x.imag, db.imag, g.imag, c.imag)
    return np.exp(.25j * np.pi) * (ei * np.exp(-.5j * np.pi * dbo) + go * eq * np.exp(.5j * np.pi * dbo)) / (1 + go)


def modulator(ctx, rng, i):
    s, x, tol = mk(ctx, rng, nmin=2)
    kw = {}
    cval = lambda a, b: float(rng.uniform(a, b)) if rng.random() < 0.5 else complex(rng.uniform(a, b), rng.uniform(a, b))
    if rng.random() < 0.6: kw["dcbias"] = cval(-2, 2)
    if rng.random() < 0.6: kw["gfactr"] = cval(0.2, 1) if rng.random() < .7 else cval(1, 4)
    if rng.random() < 0.6: kw["cfactr"] = cval(-.5, .5)
    if rng.random() < 0.6: kw["dcbias_out"] = float(rng.uniform(-1, 1))
    if rng.random() < 0.6: kw["gfactr_out"] = float(rng.uniform(0.3, 1 if rng.random() < .7 else 4))
    ctx.case(**kw)
    nm = {"dcbias": "db", "gfactr": "g", "cfactr": "c", "dcbias_out": "dbo", "gfactr_out": "go"}
    ref = mod_ref(x, **{nm[k]: v for k, v in kw.items()})
    b = gen.digest(s)
    y = ci.modulator_response(s, **kw)
    ctx.close(gen.raw(y), ref, tol * 30, "modulator_response")
    ctx.ok(y.shape == s.shape and y.dtype == s.dtype, "modulator: %s %s" % (y.shape, y.dtype))
    ctx.ok(abs(gen.raw(y)).max() <= 1 + tol * 30, "modulator output %g exceeds the laser field" % abs(gen.raw(y)).max())
    if not kw:      # ideal bias: a sine in each quadrature
        ctx.close(gen.raw(y), (np.sin(np.pi / 2 * x.real) + 1j * np.sin(np.pi / 2 * x.imag)) / 2, tol * 30, "ideal modulator")
    if hasattr(s, "fb"):
        z = impairments.sim_mod_response(s, **kw)
        ctx.close(gen.raw(z), ref, tol * 30, "sim_mod_response"); ctx.ok(type(z) is type(s) and z.fs == s.fs, "description")
    ctx.ok(gen.digest(s) == b, "altered its argument")
    p = rng.permutation(x.shape[1])
    ctx.close(ci.modulator_response(gen.raw(s)[:, p], **kw), gen.raw(y)[:, p], tol * 10, "modulator has memory")
    # sin compensation linearises the ideal modulator; amplifier
    u = x / swing(x, axis=None) * 0.99
    vpi = float(rng.uniform(0.5, 4)) if rng.random() < .5 else complex(rng.uniform(.5, 4), rng.uniform(.5, 4))
    q = dpc.comp_mod_sin(u, vpi)
    vr, vi = (vpi.real, vpi.imag) if isinstance(vpi, complex) else (vpi, vpi)
    ctx.close(q.real / (2 * vr) + 1j * q.imag / (2 * vi), np.arcsin(u.real) + 1j * np.arcsin(u.imag), 1e-10, "comp_mod_sin")
    lin = ci.modulator_response((q.real / vr + 1j * q.imag / vi) / np.pi)
    ctx.close(2 * lin, u, 1e-9, "pre-compensated modulator is linear")
    v = float(rng.uniform(0.1, 3)); a = ci.ideal_amplifier_response(s, v)
    ctx.close(gen.raw(a), x / swing(x, axis=None) * v, tol * 20, "ideal_amplifier_response")
    er = float(rng.uniform(3, 50)); g = ci.er_to_g(er)
    t = np.linspace(-1, 1, 2001)
    pw = abs(-(np.exp(.5j * np.pi * t) + g * np.exp(-.5j * np.pi * t))) ** 2
    ctx.ok(abs(10 * np.log10(pw.max() / pw.min()) - er) < 1e-3, "er_to_g(%g): extinction ratio %g" % (er, 10 * np.log10(pw.max() / pw.min())))
    ctx.count("modulator points", x.size); ctx.nontrivial()


def bessel_ref(x, fs, fc):
    sos = ss.bessel(2, fc, "low", norm="mag", output="sos", fs=fs)
    return ss.sosfilt(sos, x, axis=-1)


def response(rng, d):
    """a measured response file"""
    n = int(rng.integers(330, 500)); f = np.linspace(0, 40.0371e9, n)
    amp = np.exp(-(f / 25e9) ** 2); ph = -f * 2 * np.pi * rng.uniform(-5e-12, 5e-12)
    fn = os.path.join(d, "dac.npz"); k = {}
    for ch in (1, 2): k["dac_res_ch%d" % ch] = np.array([f, amp * ch, ph]).T
    np.savez(fn, **k)
    def H(fr, ch):
        h = amp * ch * np.exp(1j * ph)
        v = np.interp(abs(fr), f, h.real) + 1j * np.interp(abs(fr), f, h.imag)
        v = np.where(fr < 0, np.conj(v), v)
        return np.where(abs(fr) > 40.0371e9, amp[320] * ch, v)
    return fn, H


def dac(ctx, rng, i):
    fs = float(gen.pick(rng, [50e9, 100e9]))
    s, x, tol = mk(ctx, rng, nmin=64, obj=True, fs=fs)
    cr = float(gen.pick(rng, [1, 0.8, 0.5])); qb = int(gen.pick(rng, [0, 3, 6])); fc = gen.pick(rng, [None, 15e9, "file"])
    kw = dict(clip_rat=cr, quant_bits=qb)
    ref = x.copy()
    if cr != 1:
        ref = ref / swing(ref) / cr; ref = np.clip(ref.real, -1, 1) + 1j * np.clip(ref.imag, -1, 1)
        ctx.count("clipped samples", np.count_nonzero(abs(ref.real) == 1))
    edge = np.zeros(ref.shape, bool)
    if qb:
        w = swing(ref); d = 2 / 2 ** qb; z = ref / w
        u = lambda v: np.clip(np.floor(v / d) * d + d / 2, -1 + d / 2, 1 - d / 2)
        edge = np.minimum(abs(z.real / d - np.round(z.real / d)), abs(z.imag / d - np.round(z.imag / d))) < 1e-4
        inner = (abs(z) < 1 - 1e-4)
        ref = (u(z.real) + 1j * u(z.imag)) * w
    with tempfile.TemporaryDirectory() as d_:
        prm = {}
        if fc == "file":
            fn, H = response(rng, d_); prm = dict(fn=fn, ch=int(rng.integers(1, 3)))
            fr = np.fft.fftfreq(x.shape[1], 1 / fs)
            ref2 = np.fft.ifft(np.fft.fft(ref, axis=1) * H(fr, prm["ch"]), axis=1); prm = {k: v for k, v in prm.items() if k != "ch" or v != 1 or rng.random() < .5}; ctx.count("measured responses")
        elif fc:
            prm = dict(cutoff=fc); ref2 = bessel_ref(ref, fs, fc)
        else:
            ref2 = ref
        ctx.case(fs=fs, clip_rat=cr, quant_bits=qb, filter=fc)
        b = gen.digest(s)
        y = impairments.sim_DAC_response(s, enob=0, **kw, **prm)
        ctx.ok(type(y) is type(s) and y.shape == s.shape and y.fs == s.fs and y.fb == s.fb and y.dtype == s.dtype, "sim_DAC_response: description %s %s" % (y.shape, y.dtype))
        ctx.eq(gen.raw(y.symbols), gen.raw(s.symbols), "transmitted symbols")
        near = edge.any()
        ctx.ok(near or s.dtype == np.complex128 or True, "")
        if not near:
            ctx.close(gen.raw(y), ref2, tol * 100 * max(1, abs(ref).max()), "sim_DAC_response")
        elif not prm:
            ctx.close(np.where(edge, 0, gen.raw(y)), np.where(edge, 0, ref2), tol * 100 * max(1, abs(ref).max()), "sim_DAC_response")
        plain = ci.sim_DAC_response(gen.raw(s), fs, enob=0, **kw, **prm)
        ctx.close(plain, gen.raw(y), tol * 10 * max(1, abs(ref).max()), "sim_DAC_response of a plain array")
        # transmitter: DAC, amplifier, modulator
        v = float(rng.uniform(.1, 1)); mp = dict(dcbias=float(rng.uniform(.8, 1.2))) if rng.random() < .5 else {}
        t = impairments.sim_tx_response(s, enob=0, tgt_v=v, clip_rat=cr, quant_bits=qb, dac_params=prm, **mp)
        yy = gen.raw(y).astype(complex)
        want = mod_ref(yy / swing(yy, axis=None) * v, **({"db": mp["dcbias"]} if mp else {}))
        ctx.close(gen.raw(t), want, tol * 100, "sim_tx_response")
        ctx.ok(type(t) is type(s) and t.shape == s.shape and t.fs == s.fs and t.dtype == s.dtype, "sim_tx_response: description")
        ctx.eq(gen.raw(t.symbols), gen.raw(s.symbols), "transmitted symbols"); ctx.eq(gen.raw(t.bits), gen.raw(s.bits), "transmitted bits")
        ctx.ok(gen.digest(s) == b, "altered its argument")
        if i % 3 == 0:      # the default transmitter
            ctx.close(gen.raw(impairments.sim_DAC_response(s, enob=0)), gen.raw(s), 1e-12, "DAC that neither clips nor quantises"); ctx.close(ci.sim_DAC_response(gen.raw(s), fs, enob=0), gen.raw(s), 1e-12, "DAC that neither clips nor quantises")
            t = impairments.sim_tx_response(s)
            ctx.ok(t.shape == s.shape and t.fs == s.fs and abs(gen.raw(t)).max() <= 1.0001, "default sim_tx_response")
            n = impairments.sim_DAC_response(s)
            pn = (swing(x, axis=None).item() / 2 ** 4) ** 2 / 12 * 2
            p = np.mean(abs(gen.raw(n) - x) ** 2)
            ctx.ok(abs(p - pn) < 8 * pn / np.sqrt(x.size), "default DAC noise power %g instead of %g" % (p, pn))
    ctx.count("compositions"); ctx.nontrivial()


def precomp(ctx, rng, i):
    fb = float(gen.pick(rng, [20e9, 30e9])); N = int(gen.pick(rng, [256, 500, 1001])); beta = float(rng.uniform(.05, .5)); papr = float(rng.uniform(5, 12))
    cut, order, en, os_ = float(rng.uniform(.3, .8)) * fb, int(rng.integers(1, 4)), float(rng.uniform(3, 9)), int(gen.pick(rng, [2, 4]))
    ctx.case(fb=fb, N=N, beta=beta, PAPR=papr, cutoff=cut, order=order, enob=en, os=os_)
    p = dpc.comp_dac_resp(fb, N, beta, PAPR=papr, prms_dac=(cut, order, "sos", en), os=os_)
    fs = fb * os_
    f = np.fft.fftfreq(N, 1 / fs); a = abs(f) / fb
    n = np.where(a <= (1 - beta) / 2, 1., np.where(a <= (1 + beta) / 2, .5 * (1 + np.cos(np.pi / beta * (a - (1 - beta) / 2))), 0.))
    sos = ss.bessel(order, cut, "low", norm="mag", output="sos", fs=fs)
    z = np.exp(-2j * np.pi * np.arange(N) / N)
    d = np.ones(N, complex)
    for r in sos: d *= (r[0] + r[1] * z + r[2] * z * z) / (r[3] + r[4] * z + r[5] * z * z)
    al = 10 ** (papr / 10) / (6 * fb * 2 ** (2 * en)) * np.sum(abs(d) ** 2 * n * fs / N)
    ref = n * np.conj(d) / (n * abs(d) ** 2 + al)
    edge = (abs(a - (1 + beta) / 2) < 1e-6)
    ctx.close(np.where(edge, 0, p), np.where(edge, 0, ref), 1e-6, "comp_dac_resp")
    q = dpc.comp_dac_resp(fb, N, beta, PAPR=papr, prms_dac=(cut, order, "sos", 30), os=os_)
    k = a < (1 - beta) / 2.01
    ctx.close((q * d)[k], np.ones(k.sum()), 1e-3, "compensated response of an ideal converter")
    ctx.count("pre-compensation"); ctx.nontrivial()


SCENARIOS = [("quant_new", quant_new, 250, 4000), ("quant_old", quant_old, 200, 3000), ("clip", clip, 150, 2000), ("enob", enob, 120, 1500),
             ("modulator", modulator, 200, 3000), ("dac", dac, 150, 2000), ("precomp", precomp, 60, 800)]

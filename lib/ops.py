"""Inventory of the library's operations, shared by the checks on signal descriptions (C06), argument purity (C08) and
precision (C23).

SIG: name -> f(rng, s) for a signal object s; returns Op or None (not applicable to this signal).
ARR: name -> f(rng, c) for a complex dtype c (everything derived from float64 draws of rng, so that the same rng state gives
the same problem in both precisions); returns Op.
Op.run() calls the library; Op.args are the objects handed to it; Op.sig selects the signal(s) of the result;
Op.change are the attributes documented to change; Op.prec is the comparison tolerance (single against double)."""
import numpy as np
import gen


class Op:
    def __init__(self, run, args=(), sig=lambda r: [r], change=None, tol=2e-4, dtype=True, ints=False, rnd=False, inplace=None, metric=None):
        self.run, self.args, self.sig, self.change, self.tol, self.dtype, self.ints, self.rnd, self.inplace, self.metric = run, list(args), sig, dict(change or {}), tol, dtype, ints, rnd, inplace, metric


def first(r): return [r[0]]
def nosig(r): return []


def rt(c): return np.empty(0, c).real.dtype
def cn(rng, shape, c, sigma=1.): return gen.cnoise(rng, shape, sigma).astype(c)
def rn(rng, shape, c, sigma=1.): return (sigma * rng.standard_normal(shape)).astype(rt(c))


def layout(rng, a, how=None):
    """the same values in another memory layout"""
    a = np.asarray(a); how = how if how is not None else int(rng.integers(4))
    if how == 1: return np.asfortranarray(a)
    if how == 2:
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2 + 1,), a.dtype); b[..., 1::2] = a; return b[..., 1::2]
    if how == 3: return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return np.ascontiguousarray(a)


# ------------------------------------------------------------------------------------------------ signals
SIG, ARR = {}, {}
def sig(f): SIG[f.__name__.strip("_").replace("__", " ")] = f; return f
def arr(f): ARR[f.__name__.strip("_").replace("__", " ")] = f; return f


def is_pil(s): return type(s).__name__ == "SignalWithPilots"
def is_td(s): return type(s).__name__ == "TDHQAMSymbols"
def coded(s): return not is_td(s) and not is_pil(s)


# numpy
@sig
def numpy__times_scalar(rng, s):
    k = complex(gen.cnoise(rng, ())) + .5; k = s.dtype.type(k); return Op(lambda: s * k, [s])
@sig
def numpy__scalar_times(rng, s):
    k = float(rng.uniform(.3, 3)); return Op(lambda: k * s, [s])
@sig
def numpy__divide(rng, s):
    k = float(rng.uniform(.3, 3)); return Op(lambda: s / k, [s])
@sig
def numpy__add_array(rng, s):
    n = cn(rng, s.shape, s.dtype, .02); return Op(lambda: s + n, [s, n])
@sig
def numpy__array_plus(rng, s):
    n = cn(rng, s.shape, s.dtype, .02); return Op(lambda: n + s, [s, n])
@sig
def numpy__subtract_row(rng, s):
    n = cn(rng, s.shape[-1], s.dtype, .02); return Op(lambda: s - n, [s, n])
@sig
def numpy__mode_phases(rng, s):
    p = np.exp(1j * rng.uniform(-.1, .1, (s.shape[0], 1))).astype(s.dtype); return Op(lambda: s * p, [s, p])
@sig
def numpy__negative(rng, s): return Op(lambda: -s, [s])
@sig
def numpy__conj_twice(rng, s): return Op(lambda: np.conj(np.conj(s)), [s])
@sig
def numpy__ufunc_multiply(rng, s):
    k = s.dtype.type(.5 + .5j); return Op(lambda: np.multiply(s, k), [s])
@sig
def numpy__copy(rng, s): return Op(lambda: s.copy(), [s])
@sig
def numpy__roll(rng, s):
    n = int(rng.integers(-50, 50)); return Op(lambda: np.roll(s, n, axis=-1), [s])
@sig
def numpy__astype(rng, s): return Op(lambda: s.astype(s.dtype), [s])
@sig
def numpy__slice(rng, s):
    if is_pil(s) or s.shape[-1] < 200: return None
    a = int(rng.integers(0, 20)); return Op(lambda: s[:, a:-a or None], [s])
@sig
def numpy__slice_ellipsis(rng, s):
    if is_pil(s) or s.shape[-1] < 200: return None
    a = int(rng.integers(0, 20)); return Op(lambda: s[..., :s.shape[-1] - a], [s])
@sig
def numpy__modes(rng, s):
    m = list(rng.permutation(s.shape[0])); return Op(lambda: s[m], [s, m])
@sig
def numpy__asanyarray(rng, s): return Op(lambda: np.asanyarray(s), [s])
@sig
def numpy__clip_parts(rng, s): return Op(lambda: np.round(s, 6), [s])
@sig
def numpy__inplace_on_copy(rng, s):
    n = cn(rng, s.shape, s.dtype, .02); k = s.dtype.type(.9 + .1j)
    def f():
        y = s.copy(); y += n; y *= k; y[:, 3:7] = 0.1; return y
    return Op(f, [s, n])
@sig
def recreate(rng, s):
    a = (1.1 * gen.raw(s)).astype(s.dtype); return Op(lambda: s.recreate_from_np_array(a), [s, a])
@sig
def recreate_new_rates(rng, s):
    a = gen.raw(s); k = int(rng.integers(2 if is_pil(s) else 3)); fb = float(s.fb) * 2
    if k == 0: return Op(lambda: s.recreate_from_np_array(a, fs=s.fs), [s, a])
    if k == 1: return Op(lambda: s.recreate_from_np_array(a, fb=fb), [s, a], change=dict(fb=fb, fs=s.fs / s.fb * fb))
    return Op(lambda: s.recreate_from_np_array(a, fb=fb, fs=2 * fb), [s, a], change=dict(fb=fb, fs=2 * fb))
@sig
def resample(rng, s):
    if is_pil(s) or is_td(s): return None
    beta = float(rng.uniform(.05, .9)); r = s.fs / s.fb
    k = gen.pick(rng, [2, 3, 1.5, 1, 4]) if r <= 2 else gen.pick(rng, [1, 2, 1.25])
    if s.shape[-1] * k / r > 20000: return None
    f = k * s.fb; rn_ = bool(rng.integers(2)); return Op(lambda: s.resample(f, beta=beta, renormalise=rn_, taps=201), [s], change=dict(fs=f))
@sig
def resample_pilots(rng, s):
    if not is_pil(s) or s.fs != s.fb: return None
    f = gen.pick(rng, [2, 3]) * s.fb; return Op(lambda: s.resample(f, beta=.1, taps=201), [s], change=dict(fs=f))


# qampy.impairments
@sig
def impairments__apply_PMD(rng, s):
    if s.shape[0] != 2: return None
    from qampy import impairments as I
    th = float(rng.uniform(-3, 3)); d = float(rng.uniform(0, .4)) / s.fb; return Op(lambda: I.apply_PMD(s, th, d), [s])
@sig
def impairments__apply_phase_noise(rng, s):
    from qampy import impairments as I
    df = 1e-5 * s.fb; return Op(lambda: I.apply_phase_noise(s, df), [s], rnd=True)
@sig
def impairments__change_snr(rng, s):
    from qampy import impairments as I
    v = float(rng.uniform(20, 40)); return Op(lambda: I.change_snr(s, v), [s], rnd=True)
@sig
def impairments__add_carrier_offset(rng, s):
    from qampy import impairments as I
    fo = float(rng.uniform(-1, 1)) * 1e-4 * s.fb; return Op(lambda: I.add_carrier_offset(s, fo), [s], tol=2e-3)
@sig
def impairments__add_dispersion(rng, s):
    from qampy import impairments as I
    return Op(lambda: I.add_dispersion(s, 1e-6 * (1e10 / s.fb)**2, float(s.fs / s.fb)), [s])
@sig
def impairments__add_modal_delay(rng, s):
    from qampy import impairments as I
    d = [int(v) for v in rng.integers(-9, 9, s.shape[0])]; return Op(lambda: I.add_modal_delay(s, d), [s, d])
@sig
def impairments__rotate_field(rng, s):
    if s.shape[0] != 2: return None
    from qampy import impairments as I
    th = float(rng.uniform(-3, 3)); return Op(lambda: I.rotate_field(s, th), [s])
@sig
def impairments__simulate_transmission(rng, s):
    from qampy import impairments as I
    if s.shape[0] != 2 and rng.random() < .5: return None
    kw = {}
    if rng.random() < .6: kw["snr"] = float(rng.uniform(20, 40))
    if rng.random() < .6: kw["freq_off"] = 1e-5 * s.fb
    if rng.random() < .6: kw["lwdth"] = 1e-6 * s.fb
    if rng.random() < .6 and s.shape[0] == 2: kw.update(dgd=.2 / s.fb, theta=float(rng.uniform(0, 3)))
    if rng.random() < .6: kw["modal_delay"] = [int(v) for v in rng.integers(0, 9, s.shape[0])]
    if rng.random() < .4: kw["dispersion"] = 1e-7 * (1e10 / s.fb)**2
    if is_pil(s) and rng.random() < .5: kw["roll_frame_sync"] = True
    return Op(lambda: I.simulate_transmission(s, **kw), [s, kw], rnd=True, tol=2e-3)
@sig
def impairments__sim_tx_response(rng, s):
    from qampy import impairments as I
    dp = {"cutoff": .4 * s.fs, "fn": None, "ch": 1} if rng.random() < .5 else {}
    v = float(rng.uniform(.2, 1)); q = int(gen.pick(rng, [0, 6])); cr = gen.pick(rng, [1, .8]); e = gen.pick(rng, [6, 0])
    if e == 0 and q == 0: q = 6
    return Op(lambda: I.sim_tx_response(s, enob=e, tgt_v=v, clip_rat=cr, quant_bits=q, dac_params=dp), [s, dp], rnd=True, tol=None if q else 2e-3)
@sig
def impairments__sim_DAC_response(rng, s):
    from qampy import impairments as I
    q = int(gen.pick(rng, [0, 6])); kw = gen.pick(rng, [{}, {"cutoff": .4 * s.fs}]); cr = gen.pick(rng, [1, .9]); return Op(lambda: I.sim_DAC_response(s, enob=5, clip_rat=cr, quant_bits=q, **kw), [s, kw], rnd=True, tol=None if q else 2e-3)
@sig
def impairments__sim_mod_response(rng, s):
    from qampy import impairments as I
    b = complex(*rng.uniform(.5, 1, 2)); return Op(lambda: I.sim_mod_response(s, dcbias=b, gfactr=b, cfactr=.1), [s])
@sig
def core__quantize_signal(rng, s):
    from qampy.core import impairments as I
    n = int(rng.integers(2, 8)); return Op(lambda: I.quantize_signal(s, nbits=n), [s], nosig, tol=None)
@sig
def core__quantize_signal_New(rng, s):
    from qampy.core import impairments as I
    n = int(rng.integers(2, 8)); a, b = bool(rng.integers(2)), bool(rng.integers(2)); return Op(lambda: I.quantize_signal_New(s, nbits=n, rescale_in=a, rescale_out=b), [s], nosig, tol=None)
@sig
def core__add_awgn(rng, s):
    from qampy.core import impairments as I
    return Op(lambda: I.add_awgn(s, .01), [s], rnd=True)


# qampy.phaserec
@sig
def phaserec__bps(rng, s):
    from qampy import phaserec as P
    if not coded(s) or s.M < 4: return None
    n = int(rng.integers(4, 24)); N = int(rng.integers(5, 30)); return Op(lambda: P.bps(s, n, N), [s], first, tol=None)
@sig
def phaserec__bps_twostage(rng, s):
    from qampy import phaserec as P
    if not coded(s) or s.M < 4: return None
    n = int(rng.integers(4, 24)); N = int(rng.integers(5, 30)); B = int(rng.integers(2, 6)); return Op(lambda: P.bps_twostage(s, n, N, B=B), [s], first, tol=None)
@sig
def phaserec__viterbiviterbi(rng, s):
    from qampy import phaserec as P
    if not coded(s) or s.M != 4: return None
    N = int(rng.integers(1, 9)) * 2 + 1; return Op(lambda: P.viterbiviterbi(s, N), [s], first, tol=1e-3)
@sig
def phaserec__comp_freq_offset(rng, s):
    from qampy import phaserec as P
    f = 1e-5 * rng.standard_normal(s.shape[0]); return Op(lambda: P.comp_freq_offset(s, f), [s, f], tol=2e-3)
@sig
def phaserec__find_freq_offset(rng, s):
    from qampy import phaserec as P
    a = bool(rng.integers(2)); return Op(lambda: P.find_freq_offset(s, average_over_modes=a), [s], nosig, dtype=False)
@sig
def phaserec__correct_pilot_const_phase(rng, s):
    from qampy import phaserec as P
    p = rn(rng, (s.shape[0], 1), s.dtype, .1); return Op(lambda: P.correct_pilot_const_phase(s, p), [s, p])


# qampy.filtering, analog_frontend, helpers
@sig
def filtering__filter_signal(rng, s):
    from qampy import filtering as F
    t = gen.pick(rng, ["bessel", "butter", "gauss", "exp"]); o = int(rng.integers(1, 4)); c = float(rng.uniform(.2, .45)) * s.fs; return Op(lambda: F.filter_signal(s, c, ftype=t, order=o), [s], tol=2e-3)
@sig
def filtering__filter_signal_analog(rng, s):
    from qampy import filtering as F
    if s.size > 3000 * s.shape[0]: return None
    c = .4 * s.fs; return Op(lambda: F.filter_signal_analog(s, c), [s], tol=2e-3)
@sig
def filtering__pre_filter(rng, s):
    from qampy import filtering as F
    b = float(rng.uniform(.05, .9)); return Op(lambda: F.pre_filter(s, b), [s])
@sig
def filtering__rrcos_pulseshaping(rng, s):
    from qampy import filtering as F
    b = float(rng.uniform(.05, 1)); T = None if rng.random() < .5 else 1 / s.fb; return Op(lambda: F.rrcos_pulseshaping(s, b, T=T), [s])
@sig
def filtering__moving_average(rng, s):
    from qampy import filtering as F
    n = int(rng.integers(1, 9)); x = np.array(np.asarray(s)); return Op(lambda: F.moving_average(x, N=n), [x], nosig)
@sig
def analog_frontend__comp_rf_delay(rng, s):
    from qampy import analog_frontend as A
    d = float(rng.uniform(-3, 3)) / s.fs; return Op(lambda: A.comp_rf_delay(s, d), [s], dtype=False, tol=None)
@sig
def analog_frontend__orthonormalize_signal(rng, s):
    from qampy import analog_frontend as A
    if is_pil(s): return None
    return Op(lambda: A.orthonormalize_signal(s), [s], change=dict(fs=None))
@sig
def analog_frontend__comp_IQ_inbalance(rng, s):
    from qampy import analog_frontend as A
    return Op(lambda: A.comp_IQ_inbalance(s), [s], tol=2e-3)
@sig
def helpers__normalise_and_center(rng, s):
    from qampy import helpers as H
    return Op(lambda: H.normalise_and_center(s), [s])
@sig
def helpers__normalise_and_center_pil(rng, s):
    from qampy import helpers as H
    i = rng.random(s.shape[-1]) < .5; return Op(lambda: H.normalise_and_center_pil(s, i), [s, i])
@sig
def helpers__rescale_signal(rng, s):
    from qampy import helpers as H
    w = float(rng.uniform(.5, 2)); return Op(lambda: H.rescale_signal(s, w), [s])
@sig
def helpers__set_mid_point(rng, s):
    from qampy import helpers as H
    return Op(lambda: H.set_mid_point(s, .1), [s])
@sig
def helpers__set_mid_and_resale(rng, s):
    from qampy import helpers as H
    return Op(lambda: H.set_mid_and_resale(s, .1, 2), [s])
@sig
def helpers__dump_edges(rng, s):
    from qampy import helpers as H
    if is_pil(s) or s.shape[-1] < 200: return None
    n = int(rng.integers(0, 9)); return Op(lambda: H.dump_edges(s, n), [s])


# qampy.equalisation
def eqfits(s, Nt): return s.fs % s.fb == 0 and s.shape[-1] // s.os > 120 + Nt and (not is_pil(s) or s.nframes > 1)
@sig
def equalisation__apply_filter(rng, s):
    from qampy import equalisation as Q
    Nt = int(rng.integers(1, 12))
    if not eqfits(s, Nt): return None
    w = np.zeros((s.shape[0], s.shape[0], Nt), s.dtype); w[np.arange(s.shape[0]), np.arange(s.shape[0]), Nt // 2] = 1; w += cn(rng, w.shape, s.dtype, .01)
    kw = dict(frames=None) if is_pil(s) else {}; me = gen.pick(rng, ["pyt", "py"]); return Op(lambda: Q.apply_filter(s, w, method=me, **kw), [s, w], change=dict(fs=s.fb))
@sig
def equalisation__apply_filter_real(rng, s):
    from qampy import equalisation as Q
    Nt = int(rng.integers(1, 12))
    if not eqfits(s, Nt): return None
    w = rn(rng, (2 * s.shape[0], 2 * s.shape[0], Nt), s.dtype, .01); w[np.arange(2 * s.shape[0]), np.arange(2 * s.shape[0]), Nt // 2] = 1
    kw = dict(frames=None) if is_pil(s) else {}; return Op(lambda: Q.apply_filter(s, w, **kw), [s, w], change=dict(fs=s.fb))
@sig
def equalisation__equalise_signal(rng, s):
    from qampy import equalisation as Q
    Nt = int(rng.integers(3, 9))
    if is_td(s) or not eqfits(s, Nt) or s.M < 4: return None
    ms = [m for m in Q.TRAINING_FCTS if m not in Q.DATA_AIDED]
    if s.M not in (4, 16, 64, 256): ms = ["cma", "mcma", "sbd", "mddma", "dd", "cma_real", "dd_real"]
    me = gen.pick(rng, [m for m in ms if m in Q.TRAINING_FCTS]); ad = bool(rng.integers(2)); ap = bool(rng.integers(2)) or True
    T = min(300, s.shape[-1] // s.os - Nt); modes = None if rng.random() < .7 or s.shape[0] == 1 else list(range(s.shape[0]))
    def f():
        o, w, e = Q.equalise_signal(s, 1e-4, Ntaps=Nt, TrSyms=T, method=me, adaptive_stepsize=ad, apply=True, modes=modes); return o, w, e
    return Op(f, [s, modes], first, change=dict(fs=s.fb), tol=None)
@sig
def equalisation__equalise_signal_taps(rng, s):
    from qampy import equalisation as Q
    Nt = int(rng.integers(3, 9))
    if is_td(s) or is_pil(s) or not eqfits(s, Nt) or s.M not in (4, 16, 64) or not coded(s): return None
    me = gen.pick(rng, ["data"] + [m for m in Q.TRAINING_FCTS]); me = me if me in Q.TRAINING_FCTS else "cma"
    real = me in Q.REAL_VALUED; n = s.shape[0] * (2 if real else 1); w = np.zeros((n, n, Nt), rt(s.dtype) if real else s.dtype); w[np.arange(n), np.arange(n), Nt // 2] = 1
    T = min(200, s.shape[-1] // s.os - Nt, s.symbols.shape[-1]); sy = s.symbols if me in Q.DATA_AIDED else None
    return Op(lambda: Q.equalise_signal(s, 1e-4, wxy=w, TrSyms=T, method=me, symbols=sy, apply=False), [s, w, sy], nosig, tol=None)
@sig
def equalisation__dual_mode(rng, s):
    from qampy import equalisation as Q
    Nt = int(rng.integers(3, 9))
    if is_td(s) or not eqfits(s, Nt) or s.M not in (4, 16, 64): return None
    T = min(200, s.shape[-1] // s.os - Nt); ms = gen.pick(rng, [("mcma", "sbd"), ("cma", "mddma"), ("rde", "dd"), ("cma_real", "dd_real")]); ad = (bool(rng.integers(2)), bool(rng.integers(2)))
    ms = ms if all(m in Q.TRAINING_FCTS for m in ms) else ("mcma", "sbd")
    return Op(lambda: Q.dual_mode_equalisation(s, (1e-4, 1e-4), Nt, TrSyms=(T, T), methods=ms, adaptive_stepsize=ad), [s], first, change=dict(fs=s.fb), tol=None)


# methods of the signals
def atsym(s): return s.fs == s.fb and s.shape[-1] >= 50
@sig
def method__metrics(rng, s):
    if not coded(s) or not atsym(s): return None
    sy = bool(rng.integers(2)); so = type(s).__name__ == "SymbolOnlySignal"
    if so: return Op(lambda: (s.cal_ser(synced=sy), s.cal_evm(synced=sy), s.cal_evm(synced=sy, blind=True)), [s], nosig, dtype=False)
    v = bool(rng.integers(2))
    def f(): return (s.cal_ser(synced=sy, verbose=v), s.cal_ber(synced=sy, verbose=v), s.cal_evm(synced=sy), s.cal_evm(blind=True), s.est_snr(synced=sy))
    return Op(f, [s], nosig, dtype=False, tol=None)
@sig
def method__information(rng, s):
    if not coded(s) or not atsym(s) or type(s).__name__ == "SymbolOnlySignal" or s.M < 4 or s.size * s.M > 4e6: return None
    snr = 15.; mm = bool(rng.integers(2)); fa = bool(rng.integers(2)) or s.size * s.M**2 > 2e6
    return Op(lambda: (s.cal_gmi(synced=True, snr=snr, llr_minmax=mm)[0], s.cal_mi(synced=True, snr=snr, fast=fa)), [s], nosig, dtype=False, tol=1e-3)
@sig
def method__with_received(rng, s):
    if not coded(s) or not atsym(s) or type(s).__name__ == "SymbolOnlySignal": return None
    r = (gen.raw(s) + cn(rng, s.shape, s.dtype, .02)).astype(s.dtype); r = layout(rng, r); sy = bool(rng.integers(2))
    return Op(lambda: (s.cal_ser(r, synced=sy), s.cal_ber(r, synced=sy), s.cal_evm(r, synced=sy), s.est_snr(r, synced=sy)), [s, r], nosig, dtype=False, tol=None)
@sig
def method__make_decision(rng, s):
    if not coded(s): return None
    x = s if rng.random() < .5 else s + cn(rng, s.shape, s.dtype, .05)
    return Op(lambda: (s.make_decision() if x is s else s.make_decision(x)), [s, x], nosig, tol=None)
@sig
def method__demodulate(rng, s):
    if not coded(s) or type(s).__name__ == "SymbolOnlySignal": return None
    y = s.symbols; b = s.bits
    return Op(lambda: (s.demodulate(y), s.modulate(b)), [s, y, b], nosig, dtype=False)
@sig
def method__derive(rng, s):
    if not coded(s) or type(s).__name__ != "SignalQAMGrayCoded": return None
    from qampy import signals as S
    y = gen.raw(s.symbols); b = s.bits
    def f(): return (S.SignalQAMGrayCoded.from_symbol_array(y, M=s.M, fb=s.fb), S.SignalQAMGrayCoded.from_bit_array(b, s.M, fb=s.fb, dtype=s.dtype), S.SymbolOnlySignal.from_symbol_array(s.symbols, s.coded_symbols))
    return Op(f, [s, y, b], nosig)
@sig
def method__pilot_signal(rng, s):
    if not coded(s) or s.fs != s.fb or s.shape[-1] < 200 or type(s).__name__ != "SignalQAMGrayCoded": return None
    from qampy import signals as S
    p = S.SignalQAMGrayCoded(4, 64 + 16, nmodes=s.shape[0], dtype=s.dtype, fb=s.fb, seed=int(rng.integers(1000)))
    pk, yk = dict(M=4), {}
    def f(): return S.SignalWithPilots.from_symbol_array(s, 64 + 160, 64, 10, pilots=p, nframes=2, pilot_kwargs=pk, payload_kwargs=yk)
    return Op(f, [s, p, pk, yk], nosig)
@sig
def method__tdhqam(rng, s):
    if not coded(s) or s.fs != s.fb or s.shape[-1] < 60 or type(s).__name__ != "SignalQAMGrayCoded" or s.M < 4: return None
    from qampy import signals as S
    o = S.SignalQAMGrayCoded(4 if s.M != 4 else 16, s.shape[-1], nmodes=s.shape[0], dtype=s.dtype, fb=s.fb, seed=3); fr = gen.pick(rng, [.5, .25, 1 / 3])
    return Op(lambda: S.TDHQAMSymbols.from_symbol_arrays(s, o, fr), [s, o], nosig)
@sig
def method__resampled_from(rng, s):
    if not coded(s) or type(s).__name__ != "SignalQAMGrayCoded": return None
    from qampy import signals as S
    return Op(lambda: S.ResampledQAM.from_symbol_array(s, 2 * s.fb, beta=.2, taps=201), [s], nosig)
@sig
def method__pilot_metrics(rng, s):
    if not is_pil(s) or s.fs != s.fb: return None
    fr = gen.pick(rng, [None, [0], [0, 1]])
    fr = fr if fr is None or max(fr) < s.nframes else [0]
    return Op(lambda: (s.cal_ser(frames=fr), s.cal_ber(frames=fr), s.cal_evm(frames=fr), s.est_snr(frames=fr), s.cal_gmi(frames=fr)[0], gen.raw(s.get_data(frames=fr)), gen.raw(s.extract_pilots(frames=fr))), [s, fr], nosig, dtype=False, tol=None)
@sig
def method__pilot_cpe(rng, s):
    if not is_pil(s) or s.fs != s.fb or not s._pilot_ins_rat: return None
    from qampy import phaserec as P
    if s.ph_pilots.shape[-1] < 12: return None
    u = bool(rng.integers(2)); return Op(lambda: P.pilot_cpe(s, N=3, use_seq=u), [s], first, tol=2e-3)
@sig
def method__pilot_equaliser(rng, s):
    if not is_pil(s) or s.os < 2 or s.shiftfctrs is None: return None
    from qampy import equalisation as Q
    Nt = int(s.synctaps); fc = bool(rng.integers(2)); ad = (True, True) if rng.random() < .5 else (False, False)
    if s.shape[-1] - s.shiftfctrs.max() < s.frame_len * s.os + Nt: return None
    return Op(lambda: Q.pilot_equaliser(s, 1e-3, Nt, foe_comp=fc, methods=("cma", "cma"), Niter=5), [s], lambda r: [r[1]], change=dict(fs=s.fb), tol=None)
@sig
def method__pilot_sync(rng, s):
    if not is_pil(s) or s.os < 2 or s.shiftfctrs is not None or s.shape[-1] < (2 * s.frame_len + 2 * s._pilot_seq_len) * s.os: return None
    def f():
        y = s.copy(); y.sync2frame(Ntaps=17, Niter=5, adaptive_stepsize=True, method="cma", mu=1e-3); return y
    return Op(f, [s], change=dict(shiftfctrs=None, synctaps=None, foe=None), tol=None)
@sig
def method__tdh_parts(rng, s):
    if not is_td(s): return None
    return Op(lambda: s._divide_signal_frame(s), [s], nosig)


# ------------------------------------------------------------------------------------------------ description of a signal
def plain(v):
    if isinstance(v, np.ndarray):
        a = np.ascontiguousarray(np.asarray(v)); d = (type(v).__name__, v.shape, str(v.dtype), hash(a.tobytes()))
        for k in ("_M", "_fb"):
            if k in getattr(v, "__dict__", {}): d += (k, repr(v.__dict__[k]))
        for k in ("_coded_symbols", "_bits", "_encoding"):
            if isinstance(getattr(v, "__dict__", {}).get(k), np.ndarray): d += (k, hash(np.ascontiguousarray(np.asarray(v.__dict__[k])).tobytes()))
        return d
    if isinstance(v, (list, tuple)): return tuple(plain(x) for x in v)
    if isinstance(v, np.generic): return repr(v.item())
    return repr(v)


COMMON = ["M", "fb", "fs"]
ATTRS = {
    "SignalQAMGrayCoded": ["symbols", "coded_symbols", "bits", "Nbits", "_encoding", "_bitmap_mtx", "_code"],
    "SymbolOnlySignal": ["symbols", "coded_symbols"],
    "TDHQAMSymbols": ["symbols_M1", "symbols_M2", "fr", "powratio", "f_M", "f_M1", "f_M2", "_power_method"],
    "SignalWithPilots": ["Mpilots", "symbols", "pilots", "pilot_seq", "ph_pilots", "frame_len", "pilot_scale", "shiftfctrs", "synctaps", "_idx_dat", "_idx_pil", "_pilot_seq_len", "_pilot_ins_rat", "coded_symbols", "bits", "foe"]}
for c in ("SignalPSKGrayCoded", "QPSKfromBERT", "ResampledQAM"): ATTRS[c] = ATTRS["SignalQAMGrayCoded"]


def value(s, a):
    try:
        if a == "foe": return s.__dict__.get("_foe")
        return getattr(s, a)
    except AttributeError as e:
        return "no attribute " + a


def describe(s):
    d = {"class": type(s).__name__}
    for a in COMMON + ATTRS.get(type(s).__name__, []):
        d[a] = plain(value(s, a))
    return d


def diff(a, b, change=()):
    """differing entries of two descriptions; change maps attributes to their new value (None: any)"""
    out = []
    for k in a:
        if k in change:
            if change[k] is None: continue
            if plain(change[k]) != b.get(k) and not _close(change[k], b.get(k)): out.append((k, plain(change[k]), b.get(k)))
        elif a[k] != b.get(k) and not _close(a[k], b.get(k)): out.append((k, a[k], b.get(k)))
    return out


def _close(x, y):
    try: return abs(float(x) - float(y)) <= 1e-9 * abs(float(x))
    except Exception: return False


# ------------------------------------------------------------------------------------------------ random signals of every class
def signal(rng, c=None, kinds=None, os_=None, nmax=1500):
    from qampy import signals as S
    c = c or gen.pick(rng, gen.DT); kind = gen.pick(rng, kinds or list(ATTRS)); nm = gen.pick(rng, [1, 2, 2, 3]); fb = gen.pick(rng, [1, 10e9, 25e9, 32e9]); seed = int(rng.integers(2**31)); N = int(rng.integers(260, nmax))
    if kind == "SignalQAMGrayCoded": s = S.SignalQAMGrayCoded(gen.pick(rng, [4, 16, 64, 8, 32, 128]), N, nmodes=nm, fb=fb, dtype=c, seed=seed)
    elif kind == "SignalPSKGrayCoded": s = S.SignalPSKGrayCoded(gen.pick(rng, [4, 8, 16]), N, nmodes=nm, fb=fb, dtype=c, seed=seed)
    elif kind == "QPSKfromBERT": np.random.seed(seed); s = S.QPSKfromBERT(N, nmodes=min(nm, 2), fb=fb, dtype=c)
    elif kind == "SymbolOnlySignal":
        np.random.seed(seed % 2**31); a = gen.ref_qam(gen.pick(rng, [4, 16, 32])).astype(c); s = S.SymbolOnlySignal(a.size, N, a, nmodes=nm, fb=fb)
    elif kind == "ResampledQAM":
        s = S.ResampledQAM(gen.pick(rng, [4, 16, 64]), N, fb=fb, fs=gen.pick(rng, [1, 2, 3]) * fb, resamplekwargs={"beta": .2, "taps": 201}, nmodes=nm, dtype=c, seed=seed)
    elif kind == "TDHQAMSymbols":
        s = S.TDHQAMSymbols(gen.pick(rng, [(4, 16), (16, 64), (8, 32)]), N // 12 * 12, fr=gen.pick(rng, [.5, .25, 1 / 3]), nmodes=nm, fb=fb, dtype=c, seed=seed)
    elif kind == "SignalWithPilots":
        ps, r = gen.pick(rng, [64, 128]), gen.pick(rng, [8, 16]); fl = ps + r * int(rng.integers(8, 24)); nf = int(rng.integers(1, 4)); rd = bool(rng.integers(2))
        s = S.SignalWithPilots(gen.pick(rng, [16, 64]), fl, ps, r, nframes=nf, nmodes=min(nm, 2), dtype=c, fb=fb, seed=seed, repeat_data=rd, pilot_scale=gen.pick(rng, [1, 1.2]))
    if os_ is None: os_ = gen.pick(rng, [1, 1, 2, 2, 3])
    if os_ > 1 and kind not in ("TDHQAMSymbols", "ResampledQAM"):
        s = s.resample(os_ * s.fb, beta=.2, taps=201, renormalise=bool(rng.integers(2)))
    return s


# ------------------------------------------------------------------------------------------------ functions on arrays
# Everything random is drawn in double precision and then converted, so that the same rng state is the same problem in both
# precisions.  The arrays are given in a random memory layout when LAYOUTS is set.
LAYOUTS = False
def lay(rng, *aa):
    out = []
    for a in aa:
        k = int(rng.integers(4)); out.append(layout(rng, a, k if LAYOUTS else 0))
    return out if len(out) > 1 else out[0]


def qam(rng, c, ms=(4, 16, 64, 32), modes=None, n=None, snr=25, two=False):
    """symbols of a square or cross QAM with noise: received, sent, alphabet, M"""
    M = gen.pick(rng, list(ms)); al = gen.ref_qam(M); nm = int(rng.integers(1, 4)) if modes is None else modes; L = n or int(rng.integers(60, 500))
    sh = (nm, L) if nm else (L,); tx = rng.choice(al, sh); rx = tx + gen.cnoise(rng, sh, 10**(-snr / 20))
    return rx.astype(c), tx.astype(c), al.astype(c), M


def both(rng, c):
    """a complex or real array, one or two dimensional"""
    sh = gen.pick(rng, [(int(rng.integers(30, 400)),), (int(rng.integers(1, 4)), int(rng.integers(30, 400)))])
    return lay(rng, cn(rng, sh, c))


def op(name, dims=None, tol=2e-4, **kw):
    """declares an operation f(rng, x) -> callable or (callable, further arguments) of one complex array"""
    def dec(f):
        def g(rng, c):
            d = gen.pick(rng, dims or [1, 2]); sh = (int(rng.integers(40, 400)),); sh = sh if d == 1 else (int(rng.integers(1, 4)),) + sh
            if d == "2x": sh = (2, sh[-1])
            x = lay(rng, cn(rng, sh, c)); r = f(rng, x); r, more = r if isinstance(r, tuple) else (r, [])
            return Op(r, [x] + list(more), tol=tol, **kw)
        ARR[name] = g
        return f
    return dec


def _declare():
    from qampy.core import impairments as I, filter as F, resample as R, phaserecovery as P, analog_frontend as A, digital_pre_compensation as D, signal_quality as SQ, ber_functions as B, utils as U, special_fcts as SF, pilotbased_receiver as PR, segmentaxis as SA
    from qampy.core.equalisation import equalisation as E, pythran_equalisation as PE
    from qampy.core import pythran_dsp as PD
    from qampy import theory as T, helpers as H, analog_frontend as HA, filtering as HF, impairments as HI
    from qampy.signals import SignalQAMGrayCoded
    def rs(x): return np.array([R.rrcos_resample(r, 1., 2., Ts=1., beta=.2, taps=101) for r in np.atleast_2d(x)])
    fs = 2.; u = lambda rng, a, b: float(rng.uniform(a, b))

    # impairments
    @op("impairments rotate_field", ["2x"])
    def _(rng, x): th = u(rng, -3, 3); return lambda: I.rotate_field(x, th)
    @op("impairments apply_PMD_to_field", ["2x"])
    def _(rng, x): th, d = u(rng, -3, 3), u(rng, 0, 3); return lambda: I.apply_PMD_to_field(x, th, d, fs)
    @op("impairments apply_phase_noise", rnd=True, tol=1e-3)
    def _(rng, x): return lambda: I.apply_phase_noise(x, 1e-4, fs)
    @op("impairments add_awgn", rnd=True)
    def _(rng, x): k = u(rng, 0, 1); return lambda: I.add_awgn(x, k)
    @op("impairments change_snr", [2], rnd=True)
    def _(rng, x): k = u(rng, 0, 30); return lambda: I.change_snr(x, k, 1., fs)
    @op("impairments add_carrier_offset", tol=1e-3)
    def _(rng, x): k = u(rng, -.3, .3); return lambda: I.add_carrier_offset(x, k, fs)
    @op("impairments add_modal_delay", [2])
    def _(rng, x): d = [int(v) for v in rng.integers(-20, 20, x.shape[0])]; d = gen.pick(rng, [d, np.array(d)]); return (lambda: I.add_modal_delay(x, d)), [d]
    @op("impairments simulate_transmission", ["2x"], rnd=True, tol=2e-3)
    def _(rng, x):
        kw = dict(snr=u(rng, 5, 30), freq_off=u(rng, -.1, .1), lwdth=1e-4, dgd=u(rng, 0, 2), theta=u(rng, 0, 3), modal_delay=[int(v) for v in rng.integers(0, 9, 2)])
        for k in list(kw):
            if rng.random() < .4 and k != "theta": kw.pop(k)
        return (lambda: I.simulate_transmission(x, 1., fs, **kw)), [kw]
    @op("impairments quantize_signal", tol=None)
    def _(rng, x): n, a, b = int(rng.integers(1, 9)), bool(rng.integers(2)), bool(rng.integers(2)); return lambda: I.quantize_signal(x, n, a, b)
    @op("impairments quantize_signal_New", tol=None)
    def _(rng, x): n, a, b = int(rng.integers(1, 9)), bool(rng.integers(2)), bool(rng.integers(2)); return lambda: I.quantize_signal_New(x, n, a, b)
    @op("impairments modulator_response")
    def _(rng, x): b, g = complex(u(rng, .5, 1), u(rng, .5, 1)), complex(u(rng, .5, 1), u(rng, .5, 1)); return lambda: I.modulator_response(x, b, g, .1)
    @op("impairments sim_DAC_response", tol=None, rnd=True)
    def _(rng, x):
        kw = gen.pick(rng, [{}, {"cutoff": .4}]); q = int(gen.pick(rng, [0, 5])); e = gen.pick(rng, [0, 6]); cr = gen.pick(rng, [1, .7])
        if q == 0 and e == 0: e = 6
        return (lambda: I.sim_DAC_response(x, fs, enob=e, clip_rat=cr, quant_bits=q, **kw)), [kw]
    @op("impairments apply_DAC_filter", tol=1e-3)
    def _(rng, x): c = u(rng, .1, .9); return lambda: I.apply_DAC_filter(x, fs, cutoff=c)
    @op("impairments apply_enob_as_awgn", rnd=True)
    def _(rng, x): e = u(rng, 3, 9); return lambda: I.apply_enob_as_awgn(x, e)
    @op("impairments sim_tx_response", tol=None, rnd=True)
    def _(rng, x):
        kw = gen.pick(rng, [{}, {"cutoff": .4, "fn": None, "ch": 1}]); v = u(rng, .2, 2); return (lambda: I.sim_tx_response(x, fs, enob=6, tgt_v=v, clip_rat=.8, dac_params=kw)), [kw]
    @op("impairments ideal_amplifier_response")
    def _(rng, x): v = u(rng, .2, 2); return lambda: I.ideal_amplifier_response(x, v)
    @op("impairments add_dispersion")
    def _(rng, x): d = u(rng, -1, 1) * 1e-6; return lambda: I.add_dispersion(x, 1e11, d * 10, 3e3)
    @op("impairments wrapper rotate_field", ["2x"])
    def _(rng, x): th = u(rng, -3, 3); return lambda: HI.rotate_field(x, th)

    # filters and sampling
    @op("filter pre_filter")
    def _(rng, x): b = u(rng, .05, 1); return lambda: F.pre_filter(x, b)
    @op("filter pre_filter_wdm", [1])
    def _(rng, x): b, f = u(rng, .05, 1), u(rng, -.5, .5); return lambda: F.pre_filter_wdm(x, b, 2, f)
    @op("filter filter_signal", tol=2e-3)
    def _(rng, x):
        t = gen.pick(rng, ["bessel", "butter", "gauss", "exp"]); o = int(rng.integers(1, 4)); c = u(rng, .2, .9); return lambda: F.filter_signal(x, fs, c, ftype=t, order=o)
    @op("filter filter_signal analog", tol=2e-3)
    def _(rng, x): t = gen.pick(rng, ["bessel", "butter"]); o = int(rng.integers(1, 4)); c = u(rng, .2, .9); return lambda: F.filter_signal(x, fs, c, ftype=t, order=o, analog=True)
    @op("filter rrcos_pulseshaping")
    def _(rng, x): b = u(rng, 0, 1); t = gen.pick(rng, [None, 31, 50, 1001]); return lambda: F.rrcos_pulseshaping(x, fs, 1., b, taps=t)
    @op("filter moving_average")
    def _(rng, x): n = int(rng.integers(1, 12)); return lambda: F.moving_average(x, n)
    @op("filter moving_average real")
    def _(rng, x): n = int(rng.integers(1, 12)); y = x.real; return (lambda: F.moving_average(y, n)), [y]
    @op("resample resample_poly", [1])
    def _(rng, x): f = gen.pick(rng, [1., 2., 3., 1.5, .5]); r = bool(rng.integers(2)); return lambda: R.resample_poly(x, fs, f * fs, renormalise=r)
    @op("resample rrcos_resample", [1])
    def _(rng, x):
        f = gen.pick(rng, [1., 2., 3., 1.5]); r = bool(rng.integers(2)); b = gen.pick(rng, [None, .1, .7]); fc = bool(rng.integers(2))
        kw = dict(beta=b, Ts=1.) if b is not None else {}; return lambda: R.rrcos_resample(x, 1., f, taps=101, renormalise=r, fftconv=fc, **kw)

    # phase recovery
    def sym(f, name, tol=1e-3, modes=None, ms=(4, 16, 64), n=None, **kw):
        def g(rng, c):
            rx, tx, al, M = qam(rng, c, ms, modes if modes is not None else int(rng.integers(0, 4)), n, snr=28); rx, tx = lay(rng, rx, tx)
            r = f(rng, rx, tx, al, M); r, more = r if isinstance(r, tuple) else (r, [])
            return Op(r, [rx, tx, al] + list(more), tol=tol, **kw)
        ARR[name] = g
    def f(rng, rx, tx, al, M):
        n, N = int(rng.integers(2, 40)), int(rng.integers(2, 15)); me = gen.pick(rng, ["pyt", "py"]); return lambda: P.bps(rx, n, al, N, method=me)
    sym(f, "phaserecovery bps", tol=None)
    def f(rng, rx, tx, al, M):
        n, N, b = int(rng.integers(2, 40)), int(rng.integers(2, 15)), int(rng.integers(1, 6)); return lambda: P.bps_twostage(rx, n, al, N, B=b)
    sym(f, "phaserecovery bps_twostage", tol=None)
    def f(rng, rx, tx, al, M): N = int(rng.integers(1, 8)) * 2 + 1; return lambda: P.viterbiviterbi(rx, N, M)
    sym(f, "phaserecovery viterbiviterbi", ms=(4,))
    def f(rng, rx, tx, al, M):
        # a block without symbols of the first class has no reference: both halves of the second class are equally far
        N = int(rng.integers(20, 40)); n = rx.shape[-1] // N * N or rx.shape[-1]; return lambda: P.phase_partition_16qam(rx[..., :n], N)
    sym(f, "phaserecovery phase_partition_16qam", ms=(16,), tol=2e-3)
    def f(rng, rx, tx, al, M): return lambda: P.partition_16qam(rx)
    sym(f, "phaserecovery partition_16qam", ms=(16,), modes=0, dtype=False)
    def f(rng, rx, tx, al, M): a, n = bool(rng.integers(2)), int(gen.pick(rng, [64, 256, 100, 1024])); return lambda: P.find_freq_offset(rx, 1, a, n)
    sym(f, "phaserecovery find_freq_offset", dtype=False, modes=2)
    @op("phaserecovery comp_freq_offset", [2], tol=1e-3)
    def _(rng, x): f = 1e-2 * rng.standard_normal(x.shape[0]); o = int(rng.integers(1, 3)); return (lambda: P.comp_freq_offset(x, f, o)), [f]

    # front end and pre-compensation
    @op("analog_frontend comp_IQ_inbalance", [1, 2], tol=2e-3)
    def _(rng, x): return lambda: A.comp_IQ_inbalance(x)
    @op("analog_frontend orthonormalize_signal", [1, 2], tol=1e-3)
    def _(rng, x): return lambda: A.orthonormalize_signal(x)
    @op("analog_frontend comp_rf_delay")
    def _(rng, x): d = u(rng, -3, 3); y = gen.pick(rng, [x, x.real]); return (lambda: A.comp_rf_delay(y, d, 1.)), [y]
    @op("digital_pre_compensation clipper")
    def _(rng, x): l = u(rng, .2, 1); return lambda: D.clipper(x, l)
    @op("digital_pre_compensation comp_mod_sin", tol=2e-3)
    def _(rng, x): x /= np.abs(x).max() * 1.01; v = gen.pick(rng, [1.14, 1. + .8j]); return lambda: D.comp_mod_sin(x, v)
    def f(rng, rx, tx, al, M): n = int(rng.integers(1, 4)); n = min(n, 2) if M > 16 else n; r = bool(rng.integers(2)); return lambda: D.find_sym_patterns(tx, al, n, ret_ptrns=r)
    sym(f, "digital_pre_compensation find_sym_patterns", modes=0, ms=(4, 16))
    def f(rng, rx, tx, al, M):
        n = int(rng.integers(1, 4)); r = bool(rng.integers(2)); r = True if M > 4 and n > 1 else r; idx = None if rng.random() < .5 else rng.random(tx.size) < .7
        return (lambda: D.cal_lut(tx, rx, al, n, idx, r)), [idx]
    sym(f, "digital_pre_compensation cal_lut", modes=0, ms=(4, 16), dtype=False)

    # quality
    def f(rng, rx, tx, al, M): return lambda: SQ.make_decision(rx, al)
    sym(f, "signal_quality make_decision", modes=0)
    def f(rng, rx, tx, al, M): return lambda: SQ.norm_to_s0(rx, M)
    sym(f, "signal_quality norm_to_s0", modes=None)
    def f(rng, rx, tx, al, M): return lambda: (SQ.cal_evm(rx, M, tx), SQ.cal_evm(rx, M), SQ.cal_snr_qam(rx, M), SQ.cal_s0(rx, M))
    sym(f, "signal_quality evm and snr", modes=0, dtype=False, tol=2e-3)
    def f(rng, rx, tx, al, M): return lambda: SQ.cal_snr_blind_qpsk(rx)
    sym(f, "signal_quality cal_snr_blind_qpsk", modes=0, ms=(4,), dtype=False, tol=5e-3)
    def f(rng, rx, tx, al, M): return lambda: SQ.cal_ser_qam(rx, tx, M)
    sym(f, "signal_quality cal_ser_qam", modes=0, dtype=False)
    def f(rng, rx, tx, al, M):
        n0 = u(rng, .01, .2); q = bool(rng.integers(2))
        return (lambda: SQ.cal_mi(rx, tx, al, n0, fast=q)), [n0]
    sym(f, "signal_quality cal_mi", modes=0, dtype=False, tol=2e-3)

    # synchronisation and bits
    def shifted(rng, tx):
        k = int(rng.integers(0, tx.shape[-1])); L = int(rng.integers(30, tx.shape[-1])); return np.ascontiguousarray(np.roll(tx, k, -1)[..., :L]), k
    def f(rng, rx, tx, al, M): r, k = shifted(rng, tx); return (lambda: (B.find_sequence_offset(r, tx), B.find_sequence_offset(r, tx, show_cc=True)[0])), [r]
    sym(f, "ber_functions find_sequence_offset", modes=0)
    def f(rng, rx, tx, al, M):
        r, k = shifted(rng, tx); q = gen.pick(rng, [1, 1j, -1, -1j]); y = (r * q).astype(r.dtype); y = lay(rng, y); return (lambda: (lambda o: (o[0], o[1], o[2]))(B.find_sequence_offset_complex(y, tx))), [y]
    sym(f, "ber_functions find_sequence_offset_complex", modes=0)
    def f(rng, rx, tx, al, M):
        r, k = shifted(rng, tx); y = (r * gen.pick(rng, [1, 1j, -1, -1j])).astype(r.dtype); a = gen.pick(rng, ["tx", "rx"]); return (lambda: B.sync_and_adjust(tx, y, a)), [y]
    sym(f, "ber_functions sync_and_adjust", modes=0)
    def f(rng, rx, tx, al, M):
        r, k = shifted(rng, tx); m = gen.pick(rng, [None, "truncate", "extend"]); o = int(rng.integers(0, 5)) if m != None else 0; return (lambda: B.adjust_data_length(tx, r, m, offset=o)), [r]
    sym(f, "ber_functions adjust_data_length", modes=0)
    def g(rng, c):
        n = int(rng.integers(300, 900)); tx = rng.random(n) < .5; k = int(rng.integers(0, n)); L = int(rng.integers(200, n + 1)); rx = np.roll(tx, k)[:L]; rx, tx = lay(rng, rx, tx)
        w = int(rng.integers(3)); fn = [lambda: B.cal_ber_nosyncd(rx, tx), lambda: B.sync_rx2tx(tx, rx, 60), lambda: B.sync_tx2rx(tx, rx, 60)][w] if L == n else (lambda: B.cal_ber_nosyncd(rx, tx))
        return Op(fn, [rx, tx])
    ARR["ber_functions bits"] = g
    def g(rng, c):
        n = int(rng.integers(50, 300)); a = rng.random(n) < .5; b = rng.random(n) < .1; rx, tx = lay(rng, a ^ (b & (rng.random() < .7)), a); return Op(lambda: B.cal_ber_syncd(rx, tx, threshold=1), [rx, tx])
    ARR["ber_functions cal_ber_syncd"] = g

    # pilots
    def f(rng, rx, tx, al, M): return lambda: PR.pilot_based_foe(rx, tx)
    sym(f, "pilotbased_receiver pilot_based_foe", modes=None, ms=(4,), dtype=False)
    def f(rng, rx, tx, al, M):
        r = gen.pick(rng, [4, 8]); p = np.ascontiguousarray(tx[:, ::r]); n = gen.pick(rng, [1, 3]); rm = bool(rng.integers(2)); mb = gen.pick(rng, [None, 5]); return (lambda: PR.pilot_based_cpe(rx, p, r, num_average=n, max_num_blocks=mb, remove_phase_pilots=rm)), [p]
    sym(f, "pilotbased_receiver pilot_based_cpe", modes=2, ms=(4,), n=240)
    def f(rng, rx, tx, al, M):
        L = 160; idx = np.arange(0, L, 8); p = np.ascontiguousarray(tx[:, idx]); n = gen.pick(rng, [3, 5]); nf = int(rng.integers(1, 3)); return (lambda: PR.pilot_based_cpe_new(rx, p, idx, L, num_average=n, nframes=nf)), [p, idx]
    sym(f, "pilotbased_receiver pilot_based_cpe_new", modes=2, ms=(4,), n=330)
    @op("pilotbased_receiver shift_signal", [2], tol=0)
    def _(rng, x): s = gen.pick(rng, [[int(v) for v in rng.integers(0, 30, x.shape[0])], rng.integers(0, 30, x.shape[0])]); return (lambda: PR.shift_signal(x, s)), [s]
    def g(rng, c):
        s = rng.integers(50, 300, int(rng.integers(1, 4))); n = (17, 17 + 4 * int(rng.integers(0, 5))); return Op(lambda: PR.correct_shifts(s, n, 2), [s], dtype=False)
    ARR["pilotbased_receiver correct_shifts"] = g
    def g(rng, c):
        M = 4; al = gen.ref_qam(4); L, n, os_ = 300, 64, 2; ref = rng.choice(al, (2, n)); fr = rng.choice(gen.ref_qam(16), (2, L)); fr[:, :n] = ref
        x = rs(np.tile(fr, (1, 3))) + gen.cnoise(rng, (2, 6 * L), .02); k = int(rng.integers(0, 2 * L)); x = np.roll(x, k, -1).astype(c); ref = ref.astype(c); x = lay(rng, x)
        me = gen.pick(rng, ["cma", "mcma"]); return Op(lambda: PR.frame_sync(x, ref, os_, frame_len=L, mu=1e-3, Ntaps=17, Niter=3, method=me, adaptive_stepsize=True), [x, ref], tol=None)
    ARR["pilotbased_receiver frame_sync"] = g
    def g(rng, c):
        al = gen.ref_qam(4); n, os_ = 128, 2; ref = rng.choice(al, (2, 2 * n)); x = rs(ref) + gen.cnoise(rng, (2, 4 * n), .02); x, ref = x.astype(c), ref[:, 20:20 + n].astype(c); x = lay(rng, x)
        sh = np.array([40 - 16, 40 - 16]) + int(rng.integers(0, 2)); fo, ad = bool(rng.integers(2)), bool(rng.integers(2)); w0 = None; ms = gen.pick(rng, [("cma", "cma"), ("cma", "sbd"), ("mcma", "mddma")])
        if rng.random() < .5: w0 = np.zeros((2, 2, 17), c); w0[0, 0, 8] = w0[1, 1, 8] = 1
        return Op(lambda: PR.equalize_pilot_sequence(x, ref, sh, os_, foe_comp=fo, mu=(1e-3, 1e-3), Ntaps=17, Niter=3, adaptive_stepsize=ad, methods=ms, wxinit=w0), [x, ref, sh, w0], tol=None)
    ARR["pilotbased_receiver equalize_pilot_sequence"] = g

    # equalisers
    def eqsig(rng, c, M, nm, L):
        al = gen.ref_qam(M); tx = rng.choice(al, (nm, L)); x = rs(tx); x = x / np.sqrt(np.mean(abs(x)**2)); x = x + gen.cnoise(rng, x.shape, .05)
        return lay(rng, x.astype(c)), tx.astype(c)
    def taps(rng, c, nm, Nt, real):
        n = nm * (2 if real else 1); w = .01 * (rng.standard_normal((n, n, Nt)) + (0 if real else 1j * rng.standard_normal((n, n, Nt)))); w[np.arange(n), np.arange(n), Nt // 2] += 1
        return w.astype(rt(c) if real else c)
    def g(rng, c):
        M = gen.pick(rng, [4, 16, 64]); nm = int(rng.integers(1, 4)); Nt = int(rng.integers(3, 12)); L = int(rng.integers(60, 160)); x, tx = eqsig(rng, c, M, nm, L)
        ms = list(E.TRAINING_FCTS); me = ms[int(rng.integers(len(ms)))]; real = me in E.REAL_VALUED; w = taps(rng, c, nm, Nt, real) if rng.random() < .6 else None
        modes = None if rng.random() < .6 else gen.pick(rng, [np.arange(nm), list(range(nm)), [nm - 1]])
        ap = bool(rng.integers(2)) and (modes is None or len(modes) == nm); mu = 10**u(rng, -4, -2.7); ad = bool(rng.integers(2)); ni = int(rng.integers(1, 3)); T = int(rng.integers(20, L - Nt)); sy = tx if me in E.DATA_AIDED else None
        return Op(lambda: E.equalise_signal(x, 2, mu, M, wxy=w, Ntaps=Nt, TrSyms=T, Niter=ni, method=me, adaptive_stepsize=ad, symbols=sy, modes=modes, apply=ap), [x, tx, w, modes], tol=None if ad or me in DECIDING else 3e-3)
    ARR["equalisation equalise_signal"] = g
    def g(rng, c):
        M = gen.pick(rng, [4, 16, 64]); nm = int(rng.integers(1, 4)); Nt = int(rng.integers(3, 12)); L = int(rng.integers(60, 160)); x, tx = eqsig(rng, c, M, nm, L)
        ms = gen.pick(rng, [("mcma", "sbd"), ("cma", "mddma"), ("rde", "dd"), ("cma", "cma"), ("cma_real", "dd_real")]); ms = ms if all(m in E.TRAINING_FCTS for m in ms) else ("mcma", "sbd"); w = taps(rng, c, nm, Nt, "real" in ms[0]) if rng.random() < .6 else None
        ap = bool(rng.integers(2)); T = (int(rng.integers(20, L - Nt)),) * 2; sy = None
        return Op(lambda: E.dual_mode_equalisation(x, 2, (1e-3, 1e-3), M, wxy=w, Ntaps=Nt, TrSyms=T, methods=ms, symbols=sy, apply=ap), [x, tx, w], tol=3e-3 if ms == ("cma", "cma") else None)
    ARR["equalisation dual_mode_equalisation"] = g
    def g(rng, c):
        nm = int(rng.integers(1, 4)); Nt = int(rng.integers(1, 12)); x, tx = eqsig(rng, c, 4, nm, int(rng.integers(40, 120))); real = bool(rng.integers(2)); w = taps(rng, c, nm, Nt, real); me = gen.pick(rng, ["pyt", "py"])
        me = "pyt" if real else me; o = int(rng.integers(1, 3)); w = lay(rng, w); modes = None if rng.random() < .6 or real else np.arange(int(rng.integers(1, nm + 1)))
        return Op(lambda: E.apply_filter(x, o, w, me, modes), [x, w, modes])
    ARR["equalisation apply_filter"] = g
    def g(rng, c):
        w = lay(rng, taps(rng, c, 2, int(rng.integers(5, 20)), False)); return Op(lambda: E.orthogonalizetaps(w), [w], tol=5e-3)
    ARR["equalisation orthogonalizetaps"] = g
    @op("equalisation CDcomp", [1], tol=1e-3)
    def _(rng, x): n = gen.pick(rng, [0, 64, 128]); return lambda: E.CDcomp(x, 2e10, n, 1e3, 16e-6, 1550e-9)[0]

    # compiled kernels
    def f(rng, rx, tx, al, M):
        snr = u(rng, 1, 100); bm = SignalQAMGrayCoded(M, 32, dtype=rx.dtype, seed=1)._bitmap_mtx; r = np.ascontiguousarray(rx); nb = int(np.log2(M)); a = np.float32 if rx.dtype == np.complex64 else np.float64
        return (lambda: (PD.soft_l_value_demapper(r, nb, a(snr), bm), PD.soft_l_value_demapper_minmax(r, nb, a(snr), bm))), [r, bm]
    sym(f, "kernels soft demappers", modes=0, ms=(4, 16), dtype=False, tol=5e-3)
    def f(rng, rx, tx, al, M): r, t = np.ascontiguousarray(rx), np.ascontiguousarray(tx); return (lambda: PD.estimate_snr(r, t, al)), [r, t]
    sym(f, "kernels estimate_snr", modes=0, dtype=False, tol=2e-3)
    def f(rng, rx, tx, al, M):
        n, N = int(rng.integers(4, 20)), int(rng.integers(2, 10)); an = np.linspace(-np.pi / 4, np.pi / 4, n, endpoint=False).astype(rt(rx.dtype)).reshape(1, -1); r = np.ascontiguousarray(rx); ix = rng.integers(0, n, r.size).astype(np.int32)
        aa = an if rng.random() < .5 else np.ascontiguousarray(np.tile(an, (r.size, 1))); return (lambda: (PD.bps(r, aa, al, N), PD.select_angles(aa, ix))), [r, aa, ix]
    sym(f, "kernels bps", modes=0, tol=None)
    def f(rng, rx, tx, al, M): r = np.ascontiguousarray(rx); return (lambda: PE.make_decision(r, al)), [r]
    sym(f, "kernels make_decision", modes=0)

    # helpers, utilities, theory
    @op("helpers normalise_and_center")
    def _(rng, x): return lambda: H.normalise_and_center(x)
    @op("helpers normalise_and_center_pil", [2])
    def _(rng, x): i = rng.random(x.shape[-1]) < .5; i[:2] = True; return (lambda: H.normalise_and_center_pil(x, i)), [i]
    @op("helpers dump_edges", tol=0)
    def _(rng, x): n = int(rng.integers(0, 9)); return lambda: H.dump_edges(x, n)
    @op("helpers set_mid_point")
    def _(rng, x): y = gen.pick(rng, [x, x.real]); m = u(rng, -1, 1); return (lambda: H.set_mid_point(y, m)), [y]
    @op("helpers rescale_signal")
    def _(rng, x): m = u(rng, .5, 2); return lambda: H.rescale_signal(x, m)
    @op("helpers set_mid_and_resale")
    def _(rng, x): m, w = u(rng, -1, 1), u(rng, .5, 2); return lambda: H.set_mid_and_resale(x, m, w)
    @op("helpers get_center_shift_fac")
    def _(rng, x): y = x.real; return (lambda: H.get_center_shift_fac(y)), [y]
    @op("helpers small ones", tol=1e-3)
    def _(rng, x): y = np.abs(x); return (lambda: (H.cabssquared(x), H.dB2lin(y), H.lin2dB(y + 1))), [y]
    @op("filtering moving_average")
    def _(rng, x): n = int(rng.integers(1, 12)); return lambda: HF.moving_average(x, n)
    @op("utils rolling_window", tol=0)
    def _(rng, x): n = int(rng.integers(1, 9)); w = bool(rng.integers(2)); return lambda: np.array(U.rolling_window(x, n, wrap=w))
    def g(rng, c):
        d = rng.random(300) < .5; k = int(rng.integers(0, 250)); s = d[k:k + 40]; return Op(lambda: U.find_offset(s, d), [s, d])
    ARR["utils find_offset"] = g
    def g(rng, c):
        n = int(rng.integers(2, 5)); i, q = rng.integers(0, 2**n, 50), rng.integers(0, 2**n, 50); b = rng.integers(0, 2, 20); return Op(lambda: (U.convert_iqtosinglebitstream(i, q, n), U.bool2bin(b)), [i, q, b])
    ARR["utils bits"] = g
    @op("segmentaxis segment_axis", tol=0)
    def _(rng, x): n = int(rng.integers(3, 20)); o = int(rng.integers(0, n)); e = gen.pick(rng, ["cut", "wrap", "pad"]); return lambda: np.array(SA.segment_axis(x, n, o, axis=x.ndim - 1, end=e))
    def g(rng, c):
        t = lay(rng, np.sort(rng.uniform(-8, 8, 60))); b = u(rng, 0.01, 1)
        return Op(lambda: (SF.ttanh(t, 1, .2, 2), SF.gauss(t, 1, .2, 2), SF.supergauss(t, 1, .2, 2, 3), SF.sech(t, 1, .2, 2), SF.rcos_time(t, b, 1), SF.rrcos_time(t, b, 1.), SF.rrcos_freq(t, b, 1.), SF.rcos_freq(t, b, 1.), SF.q_function(t)), [t])
    ARR["special_fcts"] = g
    def g(rng, c):
        s = lay(rng, 10**rng.uniform(0, 3, 12)); e = lay(rng, rng.uniform(-30, -10, 9)); M = gen.pick(rng, [4, 16, 64, 32])
        return Op(lambda: (T.ser_vs_es_over_n0_qam(s, M), T.ber_vs_es_over_n0_qam(s, M), T.ser_vs_es_over_n0_psk(s, M), T.ser_vs_es_over_n0_4pam(s), T.ber_vs_evm_qam(e, M), T.hybrid_qam_ber_vs_esn0(s, 1., .5, 4, 16)), [s, e])
    ARR["theory curves"] = g
    def g(rng, c):
        al = gen.ref_qam(gen.pick(rng, [16, 64])); nu = u(rng, .1, 3); lv, p = T.cal_ps_probablts(al, nu); al, lv, p = lay(rng, al, lv, p)
        return Op(lambda: (T.cal_ps_probablts(al, nu), T.generate_ps_symbols(100, lv, p)), [al, lv, p], rnd=True, dtype=False)
    ARR["theory shaping"] = g
    def g(rng, c):
        al = gen.ref_qam(gen.pick(rng, [4, 16])); s = u(rng, 0, 20); return Op(lambda: (T.sim_mi_mc(al, s, 200), T.cal_gmi(4, s, 100)), [al, s], rnd="own")
    ARR["theory information"] = g


def arrays():
    if not ARR: _declare()
    return ARR


DECIDING = ("rde", "mrde", "sbd", "mddma", "dd", "dd_real", "dd_data_real", "sbd_data")

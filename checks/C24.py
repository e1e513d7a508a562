"""C24 pattern look-up tables against a dictionary of patterns filled position by position."""
import numpy as np
import gen
from qampy import signals
from qampy.core import digital_pre_compensation as dpc, pythran_dsp

RULE = ("transmitted sequences over square, cross, PSK (complex patterns) and rectangular alphabets, with pattern-dependent, per-symbol and random deviations, pattern lengths 1-5, "
        "full and partial index selections (masks and position lists that include the edges); every table entry is recomputed from a dictionary keyed by the pattern itself; "
        "non-trivial: at least two patterns occur")
REQUIRED = ["patterns inspected", "positions indexed", "table entries", "absent patterns", "selections", "complex patterns", "rectangular alphabets", "corrections applied", "even lengths"]


def alphabet(ctx, rng, cplx):
    kind = gen.pick(rng, ["qam", "qam", "rect"] + (["psk"] if cplx else []))
    if kind == "qam":
        M = gen.pick(rng, [4, 8, 16, 32, 64] if not cplx else [4, 8, 16]); a = gen.ref_qam(M)
    elif kind == "psk":
        M = gen.pick(rng, [2, 4, 8]); a = np.exp(2j * np.pi * np.arange(M) / M)
    else:
        mi, mq = (int(v) for v in rng.integers(1, 6 if not cplx else 4, 2)); M = mi * mq
        li, lq = np.sort(rng.uniform(-1, 1, mi)) + np.arange(mi) * .3, np.sort(rng.uniform(-1, 1, mq)) + np.arange(mq) * .3
        a = (li[:, None] + 1j * lq[None, :]).ravel(); ctx.count("rectangular alphabets")
    return kind, a[rng.permutation(a.size)]


def patterns(ctx, rng, i):
    k, L = int(rng.integers(2, 9)), int(rng.integers(1, 5)); n = gen.loguniform(rng, max(1, L), 1000)
    cplx = rng.random() < .5
    ref = np.arange(k) * 1.0 - k / 2 + (1j * (np.arange(k) % 3) if cplx else 0); ref = ref[rng.permutation(k)]
    t = rng.integers(0, k, n); x = ref[t]
    if rng.random() < .5: x = x + (gen.cnoise(rng, n, .05) if cplx else rng.standard_normal(n) * .05)
    ctx.case(levels=k, length=L, n=n, cplx=cplx); b = gen.digest([x, ref])
    r = rng.random() < .5
    o = dpc.find_sym_patterns(x, ref, L, ret_ptrns=True) if r else dpc.find_sym_patterns(x, ref, L)
    ctx.ok(gen.digest([x, ref]) == b, "find_sym_patterns altered its arguments")
    p = o[0] if r else o
    dec = abs(x[:, None] - ref[None, :]).argmin(1)
    win = dec[(np.arange(n)[:, None] + np.arange(L)[None, :]) % n]
    ctx.ok(np.shape(p) == (n,) and p.min() >= 0 and p.max() < k ** L, "pattern index: shape %s range %s..%s" % (np.shape(p), p.min(), p.max()))
    # one index for one pattern and vice versa
    u, inv = np.unique(win, axis=0, return_inverse=True); inv = inv.ravel()
    ctx.ok(np.unique(np.stack([inv, p]), axis=1).shape[1] == u.shape[0] == np.unique(p).size, "patterns and indices do not correspond one to one")
    if r:
        ctx.ok(o[1].shape == (k ** L, L), "table of patterns %s" % (o[1].shape,))
        ctx.eq(o[1][p], ref[win], "pattern listed for the index"); ctx.ok(np.unique(o[1], axis=0).shape[0] == k ** L, "patterns are listed twice")
    ctx.count("patterns inspected", u.shape[0]); ctx.count("positions indexed", n)
    if u.shape[0] > 1: ctx.nontrivial()


def lut(ctx, rng, i):
    cplx = rng.random() < .3; kind, a = alphabet(ctx, rng, cplx); dt = gen.pick(rng, gen.DT)
    nlev = a.size if cplx else max(np.unique(a.real).size, np.unique(a.imag).size)
    L = int(rng.integers(1, 6))
    while nlev ** L > 20000: L -= 1
    n = gen.loguniform(rng, max(L, 4), 4000)
    a = a.astype(dt); tx = a[rng.integers(0, a.size, n)]
    if rng.random() < .2: tx = np.tile(tx[:max(2, n // 10)], 12)[:n].copy(); n = tx.size     # few patterns
    h = gen.pick(rng, ["random", "pattern", "symbol"])
    dev = gen.cnoise(rng, n, .1)
    if h == "pattern": dev = dev * .1 + .1 * (np.roll(tx, 1) * np.roll(tx, -1).conj() + abs(tx) ** 2 * tx)
    if h == "symbol": dev = .2 * tx * abs(tx)
    rx = (tx + dev).astype(dt)
    sel, mode = None, gen.pick(rng, ["none", "mask", "pilots"])
    if mode == "mask": sel = rng.random(n) < rng.uniform(.05, 1); sel[int(rng.integers(n))] = True
    if mode == "pilots": sel = np.ones(n, bool); sel[:: int(rng.integers(2, 40))] = False; sel[-1] = True
    if sel is not None and (rng.random() < .5): sel[0] = True
    ctx.case(alphabet=kind, M=a.size, length=L, n=n, deviation=h, dtype=np.dtype(dt).name, selection=mode, cplx=cplx)
    args = [tx, rx, a, sel]; b = gen.digest(args); kw = {}
    if sel is not None: kw["idx_data"] = sel; ctx.count("selections")
    if cplx: kw["real_ptrns"] = False; ctx.count("complex patterns")
    elif rng.random() < .5: kw["real_ptrns"] = True
    ea, iI, iQ = dpc.cal_lut(tx, rx, a, mem_len=L, **kw)
    ctx.ok(gen.digest(args) == b, "cal_lut altered its arguments")
    ctx.ok(ea.ndim == 1 and ea.size == nlev ** L, "table of %s entries for %d patterns" % (ea.shape, nlev ** L))
    pos = np.arange(n) if sel is None else np.nonzero(sel)[0]
    ctx.ok(iI.shape == iQ.shape == pos.shape, "indices %s %s for %d positions" % (iI.shape, iQ.shape, pos.size))
    err = tx.astype(complex) - rx; win = (pos[:, None] - L // 2 + np.arange(L)[None, :]) % n
    tol = 1e-12 if dt is np.complex128 else 2e-5
    used = np.zeros(ea.size, bool)
    for part, idx in ((np.real, iI), (np.imag, iQ)):
        ctx.ok(idx.min() >= 0 and idx.max() < ea.size, "pattern index outside of the table")
        d = {}
        for k, key in enumerate(map(tuple, (tx[win] if cplx else part(tx[win])))): d.setdefault(key, []).append(k)
        for key, ks in d.items():
            ks = np.array(ks); ctx.ok(np.all(idx[ks] == idx[ks[0]]), "positions of one pattern have different indices", pattern=key)
            ctx.close(part(ea[idx[ks[0]]]), part(err[pos[ks]]).mean(), tol * (1 + len(ks)), "table entry of a pattern that occurs %d times" % len(ks))
        ctx.ok(np.unique(idx).size == len(d), "%d indices for %d patterns" % (np.unique(idx).size, len(d)))
        ctx.count("table entries", len(d)); used = np.zeros(ea.size, bool); used[idx] = True
        ctx.ok(np.all(part(ea[~used]) == 0), "entry of a pattern that does not occur is not zero"); ctx.count("absent patterns", np.count_nonzero(~used))
        # applying the table removes the mean deviation of every pattern
        c = part(err[pos]) - part(ea[idx]); m = np.zeros(ea.size); np.add.at(m, idx, c)
        ctx.ok(abs(m).max() <= tol * 10 * n, "mean deviation left after the correction: %g" % abs(m).max())
    # the correction is exact where the deviation is a function of the symbol
    if h == "symbol" and cplx: ctx.close(ea[iI], err[pos], 1e-11 if dt is np.complex128 else 1e-4, "deviation that only depends on the symbol")
    ctx.count("corrections applied"); ctx.count("positions indexed", pos.size)
    if L % 2 == 0: ctx.count("even lengths")
    if len(d) > 1: ctx.nontrivial()


def kernel(ctx, rng, i):
    dt = gen.pick(rng, gen.DT); n, N = gen.loguniform(rng, 1, 2000), gen.loguniform(rng, 1, 500); ctx.case(n=n, N=N, dtype=np.dtype(dt).name)
    e = gen.cnoise(rng, n).astype(dt); I, Q = rng.integers(0, N, n), rng.integers(0, N, n)
    y = pythran_dsp.cal_lut_avg(e, I, Q, N)
    w = [np.bincount(k, v.astype(float), N) / np.maximum(1, np.bincount(k, minlength=N)) for k, v in ((I, e.real), (Q, e.imag))]
    ctx.close(y, w[0] + 1j * w[1], 1e-12 if dt is np.complex128 else 1e-5, "cal_lut_avg"); ctx.count("table entries", N)
    if n > 1: ctx.nontrivial()


def long(ctx, rng, i):
    """patterns that occur ten thousands of times: the averages stay exact"""
    n = int(10 ** rng.uniform(4.9, 5.8)) if i % 3 else int(rng.integers(65530, 66000) * 2); k = gen.pick(rng, [2, 4]); L = int(rng.integers(1, 3)); dt = gen.DT[i % 2]
    a = gen.ref_qam(4).astype(dt) if k == 4 else np.array([1, -1], dt); t = rng.integers(0, k, n)
    if i % 4 == 1: t[:] = 0                                # one pattern throughout
    tx = a[t]; dev = gen.pick(rng, [.1, .4, 1.]); rx = (tx + dev * (.5 + .2j) + gen.cnoise(rng, n, dev)).astype(dt)
    ctx.case(n=n, levels=k, length=L, dtype=np.dtype(dt).name, deviation=dev)
    ea, iI, iQ = dpc.cal_lut(tx, rx, a, mem_len=L)
    err = tx.astype(complex) - rx; tol = 1e-11 if dt is np.complex128 else 2e-3 * dev
    for part, idx in ((np.real, iI), (np.imag, iQ)):
        w = np.bincount(idx, part(err), ea.size) / np.maximum(1, np.bincount(idx, minlength=ea.size))
        ctx.close(part(ea), w, tol, "average over %d positions of %d patterns" % (n, np.unique(idx).size)); ctx.count("table entries", np.unique(idx).size)
    ctx.peak("occurrences of one pattern", np.bincount(iI).max()); ctx.nontrivial()


def reject(ctx, rng, i):
    a = gen.ref_qam(16); n = 50; t = a[rng.integers(0, 16, n)]
    bad = gen.pick(rng, [(t.reshape(1, -1), t.reshape(1, -1)), (t, t[:-1]), (t.reshape(2, -1), t)]); ctx.case(shapes=[np.shape(b) for b in bad])
    ctx.raises(lambda: dpc.cal_lut(bad[0], bad[1], a), "shapes %s" % [np.shape(b) for b in bad]); ctx.nontrivial()


SCENARIOS = [("patterns", patterns, 500, 10000), ("lut", lut, 500, 10000), ("kernel", kernel, 300, 6000), ("long", long, 12, 120), ("reject", reject, 12, 50)]

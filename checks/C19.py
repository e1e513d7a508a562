"""C19 PRBS generators, shift registers and bit-source objects against the defining recurrences."""
import itertools, warnings
import numpy as np
import gen
from qampy import signals
from qampy.core import prbs, utils

RULE = ("every order with None, integer and bit-array seeds (small, large, single-bit, random) and lengths 1..20000 compared bit for bit with the recurrence written in the "
        "oracle; complete periods of the orders 7, 15 and 23, primitivity of the order 31 polynomial; bit sources with full, short and missing order and seed lists; "
        "non-trivial: the sequence is longer than its order")
REQUIRED = ["recurrence steps", "galois steps", "complete periods", "register states", "short lists", "random seeds inspected", "reproductions", "signals", "bert signals", "rejections"]
TAP = {7: 6, 15: 14, 23: 18, 31: 28}


def ext_ref(order, seed, n):
    """a[k] = a[k-tap] xor a[k-order], the seed being the last `order` bits with the newest as most significant bit"""
    t = TAP[order]; a = np.zeros(order + n, bool)
    for k in range(order): a[k] = (seed >> k) & 1          # a[0] is the oldest: the bit that leaves first
    k = order
    while k < order + n:
        m = min(t, order + n - k)
        a[k:k + m] = a[k - t:k - t + m] ^ a[k - order:k - order + m]
        k += m
    return a[order:]


def int_ref(order, seed, n):
    """bit that overflows when the state polynomial is multiplied by x modulo x^order + x^tap + 1: it satisfies a[k+order] = a[k+tap] xor a[k]"""
    P = (1 << order) | (1 << TAP[order]) | 1; s = seed; a = np.zeros(max(n, order), bool)
    for k in range(min(order, len(a))):
        a[k] = (s >> (order - 1)) & 1; s <<= 1
        if s >> order: s ^= P
    d = order - TAP[order]; k = order
    while k < n:
        m = min(d, n - k); a[k:k + m] = a[k - order + TAP[order]:k - order + TAP[order] + m] ^ a[k - order:k - order + m]; k += m
    return a[:n]


def seeds(ctx, rng, order):
    kind = gen.pick(rng, ["none", "int", "int", "bit", "bits", "numpy"])
    if kind == "none": v, arg = 2 ** order - 1, None
    elif kind == "int": v = int(rng.integers(1, 2 ** order)); arg = v
    elif kind == "bit": v = 1 << int(rng.integers(order)); arg = v
    elif kind == "numpy": v = int(rng.integers(1, 2 ** order)); arg = np.int64(v)
    else:
        b = rng.integers(0, 2, order); b[int(rng.integers(order))] = 1
        v = sum(int(x) << k for k, x in enumerate(b)); arg = gen.pick(rng, [b, b.astype(bool), list(b), tuple(b)])
    ctx.case(order=order, seed=v, kind=kind)
    return v, arg


def seq(ctx, rng, i):
    order = gen.pick(rng, list(TAP)); v, arg = seeds(ctx, rng, order); n = gen.loguniform(rng, 1, 20000); ctx.case(n=n)
    b = gen.digest(arg)
    a = prbs.make_prbs_extXOR(order, gen.pick(rng, [n, float(n)]), arg) if arg is not None or rng.random() < .5 else prbs.make_prbs_extXOR(order, n)
    ctx.ok(a.dtype == bool and a.shape == (n,), "%s %s" % (a.dtype, a.shape)); ctx.eq(a, ext_ref(order, v, n), "external XOR sequence"); ctx.count("recurrence steps", n)
    c = prbs.make_prbs_intXOR(order, n, arg)
    ctx.ok(c.dtype == bool and c.shape == (n,), "%s %s" % (c.dtype, c.shape)); ctx.eq(c, int_ref(order, v, n), "internal XOR sequence"); ctx.count("galois steps", n)
    ctx.ok(gen.digest(arg) == b, "the seed was altered")
    m = min(n, 400); P = (1 << order) | (1 << TAP[order]) | 1
    g = list(itertools.islice(utils.lfsr_ext(v, [order, TAP[order]], order), m)); ctx.eq(np.array([x for x, _ in g], bool), a[:m], "lfsr_ext and make_prbs_extXOR")
    full = np.concatenate([[(v >> k) & 1 for k in range(order)], a]).astype(int)
    ctx.eq(np.array([s for _, s in g]), np.array([int(sum(int(full[k + 1 + j]) << j for j in range(order))) for k in range(m)]), "register states")
    g = list(itertools.islice(utils.lfsr_int(v, P), m)); ctx.eq(np.array([x for x, _ in g], bool), c[:m], "lfsr_int and make_prbs_intXOR")
    s = v
    for k in range(m):
        s <<= 1; s = s ^ P if s >> order else s
        ctx.ok(g[k][1] == s, "state %d of lfsr_int" % k)
    ctx.count("register states", 2 * m)
    if n > order: ctx.nontrivial()


def period(ctx, rng, i):
    order = [7, 15, 7, 15, 23, 23][i % 6] if i < 6 else gen.pick(rng, [7, 15]); v, arg = seeds(ctx, rng, order); T = 2 ** order - 1
    fn = gen.pick(rng, [prbs.make_prbs_extXOR, prbs.make_prbs_intXOR]) if i > 5 else (prbs.make_prbs_extXOR, prbs.make_prbs_intXOR)[(i // 2 if i < 4 else i) % 2]
    a = fn(order, T + order + 5, arg); ctx.case(fn=fn.__name__)
    ctx.eq(a[T:], a[:order + 5], "period")
    ctx.ok(int(a[:T].sum()) == 2 ** (order - 1), "%d ones in a period" % a[:T].sum())
    w = np.zeros(T, np.int64)
    for j in range(order): w = (w << 1) | a[j:j + T]
    seen = np.zeros(T + 1, bool); seen[w] = True
    ctx.ok(not seen[0] and seen[1:].all(), "not every non-zero word occurs once in a period"); ctx.count("complete periods"); ctx.nontrivial()


def primitive(ctx, rng, i):
    """orders too long to run through: the observed recurrence generates a maximum-length sequence if x has order 2^31-1 (a prime) modulo its polynomial"""
    order, t = 31, TAP[31]; P = (1 << order) | (1 << t) | 1
    def mul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            b >>= 1; a <<= 1
            if a >> order: a ^= P
        return r
    r, base, e = 1, 2, 2 ** 31 - 1
    while e:
        if e & 1: r = mul(r, base)
        base = mul(base, base); e >>= 1
    ctx.ok(r == 1, "x^31+x^28+1 in the oracle"); v, arg = seeds(ctx, rng, order); n = 300000
    for f in (prbs.make_prbs_extXOR, prbs.make_prbs_intXOR):
        a = f(order, n, arg); d = t if f is prbs.make_prbs_extXOR else order - t
        ctx.ok(not np.any(a[order:] ^ a[order - d:-d] ^ a[:-order]), "%s: recurrence" % f.__name__)
        ctx.ok(a.any() and abs(a.mean() - .5) < .02, "%s: %d ones of %d" % (f.__name__, a.sum(), n))
    ctx.count("recurrence steps", 2 * n); ctx.nontrivial()


def prbsbits(ctx, rng, i):
    nm, N = int(rng.integers(1, 5)), gen.loguniform(rng, 1, 3000)
    no, ns = gen.pick(rng, [nm, nm, int(rng.integers(0, nm + 2))]), gen.pick(rng, [nm, nm, int(rng.integers(0, nm + 2))])
    order = [gen.pick(rng, list(TAP)) for _ in range(no)]
    seed = [None if rng.random() < .2 else int(rng.integers(1, 2 ** (order[k] if k < no else 15))) for k in range(ns)]
    kw = dict(nmodes=nm, order=order, seed=seed)
    if rng.random() < .2: kw.pop("order"); order = [15, 23]
    if rng.random() < .2: kw.pop("seed"); seed = [None, None]
    if rng.random() < .3: kw = {k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()}
    ctx.case(N=N, **kw); b = gen.digest(kw)
    p = signals.PRBSBits(N, **kw)
    ctx.ok(gen.digest(kw) == b, "the arguments were altered")
    ctx.ok(p.shape == (nm, N) and p.dtype == bool and type(p) is signals.PRBSBits, "%s %s" % (p.shape, p.dtype))
    used = []
    for m in range(nm):
        o, s = int(p._order[m]), p._seed[m]
        if m < len(order): ctx.ok(o == order[m], "mode %d has order %d instead of %d" % (m, o, order[m]))
        else: ctx.ok(o in (15, 23), "order %d" % o); ctx.count("short lists")
        if m < len(seed) and seed[m] is not None: ctx.ok(s == seed[m], "mode %d has seed %s instead of %s" % (m, s, seed[m]))
        elif m >= len(seed) or m >= len(order):
            ctx.ok(s is not None and 0 < s < 2 ** o, "random seed %s of order %d" % (s, o)); ctx.count("random seeds inspected"); ctx.count("short lists")
        v = 2 ** o - 1 if s is None else int(s); used.append((o, v))
        if v < 2 ** o: ctx.eq(np.array(p[m]), ext_ref(o, v, N), "mode %d" % m)
        ctx.count("recurrence steps", N)
    if N > 200:
        for a, c in itertools.combinations(range(nm), 2):
            if used[a] != used[c]: ctx.ok(np.any(np.array(p[a]) != np.array(p[c])), "modes %d and %d are equal" % (a, c))
    if nm <= len(order) and nm <= len(seed):
        ctx.eq(np.array(signals.PRBSBits(N, **kw)), np.array(p), "second object"); ctx.count("reproductions")
    q = p[:, :N // 2 + 1].copy(); ctx.ok(q._order == p._order and q._seed == p._seed, "seed and order of a slice")
    if N > 7: ctx.nontrivial()


def randombits(ctx, rng, i):
    nm, N, s = int(rng.integers(1, 5)), gen.loguniform(rng, 1, 20000), gen.pick(rng, [None, int(rng.integers(2**32)), 0, [int(rng.integers(100))]]); ctx.case(nmodes=nm, N=N, seed=s)
    g0 = gen.digest(list(np.random.get_state()))
    r = signals.RandomBits(N, nmodes=nm, seed=s)
    ctx.ok(r.shape == (nm, N) and r.dtype == bool and r._seed == s, "%s %s" % (r.shape, r.dtype))
    ctx.ok(gen.digest(list(np.random.get_state())) == g0, "the global random state was used")
    r2 = signals.RandomBits(N, nmodes=nm, seed=s); a, c = np.array(r), np.array(r2)
    if s is None:
        if a.size > 64: ctx.ok(np.any(a != c), "two unseeded objects are equal")
    else: ctx.eq(a, c, "same seed"); ctx.count("reproductions")
    if s is not None and a.size > 64: ctx.ok(np.any(np.array(signals.RandomBits(N, nmodes=nm, seed=12345)) != a), "another seed gives the same bits")
    if N > 64:
        for x, y in itertools.combinations(range(nm), 2): ctx.ok(np.mean(a[x] != a[y]) > .2, "modes %d and %d resemble each other" % (x, y))
        ctx.ok(abs(a.mean() - .5) < 3.5 / np.sqrt(a.size), "%g ones" % a.mean())
        for m in range(nm): ctx.ok(abs(np.mean(a[m, 1:] ^ a[m, :-1]) - .5) < 3.5 / np.sqrt(N), "neighbouring bits of mode %d depend on each other" % m)
    if N > 1: ctx.nontrivial()


def sig(ctx, rng, i):
    M, N, nm = gen.pick(rng, gen.QAM[:-1]), gen.loguniform(rng, 1, 1000), int(rng.integers(1, 4)); k = int(round(np.log2(M))); n = N * k
    if rng.random() < .5:
        order = [gen.pick(rng, list(TAP)) for _ in range(nm)]; seed = [int(rng.integers(1, 2 ** o)) for o in order]
        kw = dict(bitclass=signals.PRBSBits, order=order, seed=seed); want = np.array([ext_ref(o, v, n) for o, v in zip(order, seed)])
    else:
        s = int(rng.integers(2**31)); kw = dict(seed=s)
        if rng.random() < .5: kw["bitclass"] = signals.RandomBits
        want = np.array(signals.RandomBits(n, nmodes=nm, seed=s))
    ctx.case(M=M, N=N, nmodes=nm, **{a: getattr(c, "__name__", c) for a, c in kw.items()})
    x = signals.SignalQAMGrayCoded(M, N, nmodes=nm, **kw)
    ctx.eq(np.array(x.bits), want, "bits of the signal"); ctx.count("signals")
    y = signals.SignalQAMGrayCoded(M, N, nmodes=nm, **kw); ctx.eq(np.array(x), np.array(y), "samples of a second signal with the same seed"); ctx.count("reproductions")
    ctx.nontrivial()


def bert(ctx, rng, i):
    N, nm = gen.loguniform(rng, 10, 3000), int(rng.integers(1, 4))
    o = [[gen.pick(rng, [7, 15, 23, 31]) for _ in range(nm)] for _ in range(2)]; sh = [int(rng.integers(-2 * N, 2 * N)) for _ in range(2)]; iv = [bool(rng.integers(2)) for _ in range(2)]
    ctx.case(N=N, nmodes=nm, orders=o, shifts=sh, invert=iv)
    if nm > 2: o = [o[0][:2], o[1][:2]]; nm = 2       # the seed list of the bit source has two entries
    x = signals.QPSKfromBERT(N, nmodes=nm, prbsorders=o, prbsshifts=tuple(sh), prbsinvert=tuple(iv))
    b = np.array(x.bits); ctx.ok(b.shape == (nm, 2 * N), "shape of the bits %s" % (b.shape,))
    for j in range(2):
        for m in range(nm):
            a = np.roll(ext_ref(o[j][m], 2 ** o[j][m] - 1, N), sh[j]) ^ iv[j]
            ctx.eq(b[m, j::2], a, "%s bits of mode %d" % ("IQ"[j], m))
    # the bits are what is sent
    c = np.asarray(x.coded_symbols); ctx.close(np.array(x), c[gen.labels(b, 2)], 1e-12, "symbols"); ctx.count("bert signals"); ctx.nontrivial()


def reject(ctx, rng, i):
    o = int(gen.pick(rng, [0, 1, 6, 8, 9, 11, 16, 20, 32, -7])); ctx.case(order=o)
    ctx.raises(lambda: prbs.make_prbs_extXOR(o, 10), "order %d" % o); ctx.raises(lambda: prbs.make_prbs_intXOR(o, 10), "order %d" % o)
    ctx.raises(lambda: signals.PRBSBits(10, nmodes=1, order=[o]), "order %d" % o); ctx.count("rejections"); ctx.nontrivial()


SCENARIOS = [("sequences", seq, 400, 8000), ("periods", period, 30, 300), ("primitive31", primitive, 4, 40), ("PRBSBits", prbsbits, 500, 10000), ("RandomBits", randombits, 300, 6000),
             ("signals", sig, 200, 4000), ("QPSKfromBERT", bert, 100, 2000), ("reject", reject, 20, 100)]

"""C10 results under every thread count against one thread; ThreadSanitizer over all parallel kernels."""
import glob, json, os, pickle, re, subprocess, sys, tempfile, time
import numpy as np

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("every kernel with a parallel loop (filter, complex and real-valued training with every method, fixed and adaptive step, 1-8 modes, mode lists; phase search, angle selection, decisions, demappers, SNR/GMI/MI sums) in both precisions through the library's functions; the same seeded workload runs in processes with 1..8 threads, "
        "active and passive waiting, oversubscribed, several times each; and in a ThreadSanitizer build whose OpenMP runtime is pthreads, with several team sizes and injected start delays; non-trivial: a workload entry that was executed by more than one thread")
REQUIRED = ["results compared", "repetitions compared", "thread counts", "tsan parallel regions", "tsan threads", "tsan workload entries", "tsan results compared"]
ASSUMPTIONS = ["The generated C++ is the same for both builds; ThreadSanitizer sees the pthread stand-in for the OpenMP runtime, whose fork, join, locks and atomics have OpenMP's semantics"]


def ops(seed, scale):
    """[(name, function, kind)]; kind exact (per element work) or sum (order of additions free) or chaos (statistical)"""
    import gen
    from qampy import signals, theory
    from qampy.core import equalisation as ceq, phaserecovery as pr, signal_quality as sq, ber_functions as bf, pythran_dsp as pd
    from qampy.core.equalisation import pythran_equalisation as pe
    from qampy import equalisation as qeq
    rng = np.random.default_rng([seed, 77]); out = []
    add = lambda n, f, k="exact": out.append((n, f, k))
    for dt in gen.DT:
        t = np.dtype(dt).name; rt = np.empty(0, dt).real.dtype
        for q in range(2):
            nm = int(rng.integers(2, 9)) if q else 2; os_ = int(rng.integers(1, 4)); N = int(scale * rng.integers(150, 400)); Nt = int(rng.integers(2, 12)); M = gen.pick(rng, [4, 16, 32]); a = gen.ref_qam(M)
            s = a[rng.integers(0, M, (nm, N))]; E = (np.repeat(s, os_, axis=1) + .1 * gen.cnoise(rng, (nm, N * os_))).astype(dt); w = gen.cnoise(rng, (nm, nm, Nt)).astype(dt); wr = rng.standard_normal((2 * nm, 2 * nm, Nt)).astype(rt); mo = rng.permutation(nm)
            add("filter %s %dm" % (t, nm), lambda E=E, os_=os_, w=w: ceq.apply_filter(E, os_, w)); add("filter modes %s %dm" % (t, nm), lambda E=E, os_=os_, w=w, mo=mo: ceq.apply_filter(E, os_, w, modes=mo)); add("filter real %s %dm" % (t, nm), lambda E=E, os_=os_, w=wr: ceq.apply_filter(E, os_, w))
            for me in ceq.TRAINING_FCTS:
                ad = bool(rng.integers(2)); modes = None if rng.random() < .6 else mo[:max(2, nm // 2)]; it = int(rng.integers(1, 3))
                for adaptive in (ad,) if q else (False, True):
                    add("train %s %s %dm%s" % (me, t, nm, " adaptive" if adaptive else ""), lambda E=E, os_=os_, me=me, s=s, M=M, Nt=Nt, modes=modes, it=it, adaptive=adaptive, N=N: ceq.equalise_signal(E, os_, 2e-3 / Nt, M, Ntaps=Nt, TrSyms=min(N, (N * os_ - Nt) // os_ - 1), Niter=it, method=me, adaptive_stepsize=adaptive, symbols=s if me in ceq.DATA_AIDED else None, modes=modes))
            add("dual %s %dm" % (t, nm), lambda E=E, os_=os_, M=M, Nt=Nt: ceq.dual_mode_equalisation(E, os_, (1e-4, 1e-4), M, Ntaps=Nt, methods=("mcma", "sbd"), adaptive_stepsize=(True, True)))
        M = gen.pick(rng, [16, 64]); a = gen.ref_qam(M).astype(dt); N = int(scale * rng.integers(600, 1500)); sg = signals.SignalQAMGrayCoded(M, N, nmodes=2, dtype=dt, seed=int(rng.integers(1000))); x = (gen.raw(sg) * np.exp(1j * np.cumsum(rng.standard_normal(N)) * .01) + .05 * gen.cnoise(rng, (2, N))).astype(dt); Na = int(rng.integers(5, 40)); Nw = int(rng.integers(3, 25))
        add("bps " + t, lambda x=x, a=a, Na=Na, Nw=Nw: pr.bps(x, Na, a, Nw)); add("bps two stage " + t, lambda x=x, a=a, Na=Na, Nw=Nw: pr.bps_twostage(x, Na, a, Nw))
        ang = np.tile(np.linspace(-.7, .7, Na), (N, 1)) + np.linspace(0, .1, N)[:, None]; add("bps kernel, angles per sample " + t, lambda x=x, a=a, g=ang.astype(rt), Nw=Nw: pd.bps(x[0].copy(), g, a, Nw))
        ix = rng.integers(0, Na, N); add("select angles " + t, lambda g=ang.astype(rt), ix=ix: (pd.select_angles(g, ix), pd.select_angles(g[:1].copy(), ix.astype(np.int32))))
        add("decisions " + t, lambda x=x, sg=sg: sg.make_decision(sg.recreate_from_np_array(x))); add("decision kernel " + t, lambda x=x, a=a: pe.make_decision(x[1].copy(), a)); add("parallel decision " + t, lambda x=x, a=a: [pe.det_symbol_parallel(v, a)[0] for v in x[0, :40]])
        z = sg.recreate_from_np_array(x)
        add("gmi " + t, lambda z=z: z.cal_gmi(snr=12), "sum"); add("gmi minmax " + t, lambda z=z: z.cal_gmi(snr=12, llr_minmax=True), "sum"); add("snr " + t, lambda z=z: z.est_snr(), "sum"); add("mi " + t, lambda z=z: z.cal_mi(snr=12), "sum"); add("metrics " + t, lambda z=z: (z.cal_ser(), z.cal_ber(), z.cal_evm()), "sum")
        add("mi kernel " + t, lambda a=a, rng0=rng.integers(1000): pd.cal_mi_mc((.2 * gen.cnoise(np.random.default_rng(rng0), 300)).astype(a.dtype), a[:16].copy(), .08), "sum")
        bm = sg._bitmap_mtx; add("demapper " + t, lambda x=x, bm=bm, sg=sg: (pd.soft_l_value_demapper(x[0].copy(), sg.Nbits, 12., bm), pd.soft_l_value_demapper_minmax(x[1].copy(), sg.Nbits, 12., bm)))
    add("gmi simulation", lambda: theory.cal_gmi(16, 10., 400) if hasattr(theory, "cal_gmi") else 0, "chaos")
    return out


def flat(r):
    if isinstance(r, (tuple, list)): return [y for x in r for y in flat(x)]
    return [np.array(np.asarray(r))]


def work(seed, scale, reps, out):
    """child process: run the workload, store all results (reps times), and the counters of the shim"""
    sys.path.insert(0, os.path.join(V, "lib"))
    import qload
    qload.install(json.loads(os.environ["VERIF_NATIVE"]))
    res = []
    for name, f, kind in ops(seed, scale):
        res.append((name, kind, [flat(f()) for _ in range(reps)]))
    cnt = {}
    if os.environ.get("VERIF_SHIM"):
        import ctypes
        for so in json.loads(os.environ["VERIF_NATIVE"]).values():
            l = ctypes.CDLL(so)
            for k in ("shim_regions", "shim_threads_started"): cnt[k] = cnt.get(k, 0) + ctypes.c_ulong.in_dll(l, k).value
    pickle.dump((res, cnt), open(out, "wb"))


def spawn(so, seed, scale, reps, out, env, log):
    e = dict(os.environ, VERIF_NATIVE=json.dumps(so), OPENBLAS_NUM_THREADS="1", **env)
    return subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--work", str(seed), str(scale), str(reps), out], env=e, stdout=open(log, "wb"), stderr=subprocess.STDOUT, start_new_session=True)


def differ(a, b, kind, loose=False):
    """None or what differs between two results"""
    if len(a) != len(b): return "%d and %d arrays" % (len(a), len(b))
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype: return "%s %s and %s %s" % (x.shape, x.dtype, y.shape, y.dtype)
        if kind == "chaos": continue
        if x.dtype.kind in "iub":
            n = int((x != y).sum())
            if n and not loose: return "%d of %d integers differ" % (n, x.size)
            continue
        single = x.dtype in (np.complex64, np.float32); tol = (1e-4 if single else 1e-9) * (1e3 if loose else 1)
        f = np.isfinite(x.astype(complex)) & np.isfinite(y.astype(complex))
        if not np.array_equal(np.isfinite(x.astype(complex)), np.isfinite(y.astype(complex))): return "not finite values differ"
        m = max(abs(x[f]).max(initial=0), 1e-30); d = abs(x[f].astype(complex) - y[f]).max(initial=0)
        if not d <= tol * m: return "values differ by %g of %g" % (d, m)
    return None


def main(run):
    import native
    quick = run.tier == "quick"; so = native.ensure("plain"); ts = native.ensure("tsan"); tmp = tempfile.mkdtemp(prefix="vp.C10."); c = run.counters
    cnt = lambda k, n=1: c.__setitem__(k, c.get(k, 0) + n)
    rec = lambda scn, msg, **case: run.viols.append(dict(property="C10", scenario=scn, index=len(run.viols), seed=run.seed, tier=run.tier, message=msg, mech=None, case=case, detail={}))
    try:
        jobs = []
        for k in range(1 if quick else 6):
            seed = run.seed * 1000 + k
            jobs.append((seed, 1, {"OMP_NUM_THREADS": "1"}, 2 if quick else 3))
            for n in ([2, 3, 4, 6, 8] if quick else [2, 3, 4, 5, 6, 7, 8, 13]):
                jobs.append((seed, n, {"OMP_NUM_THREADS": str(n), "OMP_WAIT_POLICY": "passive" if n % 2 else "active", "OMP_DYNAMIC": "false", "GOMP_SPINCOUNT": "1000"}, 3 if quick else 8))
        done = {}
        for j in range(0, len(jobs), 2):                    # two at a time: they disturb each other, which varies the schedule
            ps = []
            for seed, n, env, reps in jobs[j:j + 2]:
                o = os.path.join(tmp, "p%d.%d" % (seed, n)); ps.append((seed, n, o, spawn(so, seed, 2 if quick else 4, reps, o, env, o + ".log")))
            for seed, n, o, p in ps:
                try: p.wait(400 if quick else 1500)
                except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait(); run.incon.append("watchdog: workload with %d threads" % n); continue
                if p.returncode: rec("threads", "the workload with %d threads ended with %s: %s" % (n, p.returncode, open(o + ".log", errors="replace").read()[-800:]), threads=n, workload=seed) if p.returncode < 0 or n > 1 else run.errors.append(open(o + ".log", errors="replace").read()[-2000:]); continue
                done[seed, n] = pickle.load(open(o, "rb"))[0]; os.remove(o)
        for (seed, n), res in sorted(done.items()):
            base = done.get((seed, 1))
            if base is None: continue
            for (name, kind, rr), (_, _, b) in zip(res, base):
                for k, r in enumerate(rr):
                    if n == 1 and k == 0: continue
                    run.evals += 1; cnt("oracle decisions"); cnt("results compared"); d = differ(r, b[0], kind)
                    if k: cnt("repetitions compared")
                    if n > 1: run.keys.add("%s/%d/%d" % (name, n, seed))
                    if d: rec("threads", "%s: %d threads against one: %s" % (name, n, d), threads=n, workload=seed, entry=name, repetition=k); break
            cnt("thread counts")
        run.samples.append(dict(scenario="threads", entries=[r[0] for r in next(iter(done.values()))][:20] if done else []))
        # ThreadSanitizer
        pre = subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip(); tj = []
        for k in range(2 if quick else 8):
            n = [4, 2, 7, 3, 8, 5, 6, 16][k]; log = os.path.join(tmp, "ts%d" % k)
            tj.append((k, n, log, spawn(ts, run.seed * 1000 + 500 + k, .4, 1, log + ".out", {"LD_PRELOAD": pre, "SHIM_THREADS": str(n), "SHIM_JITTER": str(run.seed * 31 + k), "VERIF_SHIM": "1", "OMP_NUM_THREADS": str(n), "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_bugs=1:history_size=4:log_path=" + log + ".tsan"}, log + ".log"),
                       spawn(so, run.seed * 1000 + 500 + k, .4, 1, log + ".ref", {"OMP_NUM_THREADS": "1"}, log + ".reflog")))
            if len(tj) % 4 == 0:
                for x in tj[-4:]: x[3].wait(1500)
        for k, n, log, p, pref in tj:
            try: p.wait(500 if quick else 1500); pref.wait(200)
            except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait(); run.incon.append("watchdog: ThreadSanitizer run"); continue
            if p.returncode or not os.path.exists(log + ".out"): run.errors.append("ThreadSanitizer run ended with %s: %s" % (p.returncode, open(log + ".log", errors="replace").read()[-1500:])); continue
            res, sc = pickle.load(open(log + ".out", "rb")); cnt("tsan parallel regions", sc["shim_regions"]); cnt("tsan threads", sc["shim_threads_started"]); cnt("tsan workload entries", len(res)); run.evals += len(res)
            for name, _, _ in res: run.keys.add("tsan %s/%d" % (name, n))
            ref = pickle.load(open(log + ".ref", "rb"))[0]
            for (name, kind, r), (_, _, b) in zip(res, ref):
                if "complex64" in name: continue             # other rounding (no -ffast-math) flips decisions in single precision
                cnt("oracle decisions"); cnt("tsan results compared"); d = differ(r[0], b[0], kind, loose=True)
                if d: rec("tsan_results", "%s: %d threads with delays against one: %s" % (name, n, d), threads=n, entry=name)
            seen = set()
            for f in glob.glob(log + ".tsan*"):
                for rep in open(f, errors="replace").read().split("=================="):
                    if "WARNING: ThreadSanitizer" not in rep or "pythran_" not in rep: continue
                    fn = re.findall(r"#\d+ .*?(?:__pythran_|::)(\w+)::(?:\w+)?", rep); head = re.search(r"WARNING: ThreadSanitizer: ([^(]*)", rep).group(1).strip(); loc = re.findall(r"#0 (.*?) \(|#0 (.*)", rep)
                    key = head + "|" + "|".join("".join(l)[:90] for l in loc[:2]); cnt("tsan reports")
                    if key in seen: continue
                    seen.add(key); rec("tsan", "ThreadSanitizer: %s in a compiled kernel" % head, threads=n, run=k, workload=run.seed * 1000 + 500 + k); run.viols[-1]["detail"] = {"report": rep.strip()[:4000]}
        run.samples.append(dict(scenario="tsan", teams=[x[1] for x in tj]))
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def replay(v):
    print(json.dumps(v, indent=1)); print("schedules are not deterministic: run the check again with VERIF_SEED=%d VERIF_TIER=%s" % (v["seed"], v["tier"])); return 1


if __name__ == "__main__" and len(sys.argv) > 1 and sys.argv[1] == "--work":
    work(int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]), sys.argv[5])

"""Runner shared by all checks.

A check is a module checks/<id>.py with
  SCENARIOS : list of (name, function(ctx, rng, i), cases quick, cases thorough)
  RULE      : text for the evidence file (how cases are made, what makes one non-trivial)
  REQUIRED  : counters that must be non-zero, otherwise the run is inconclusive
  SHARDS    : worker processes (default 6), THREADS: OMP threads per worker (default 1)
  ENV       : extra environment for the workers,  KIND: native build ("plain"/"asan"/"tsan")
  main(run) : optional, replaces the sharded case loop (used by the sanitizer checks)

Verdicts: 0 held on everything explored, 1 violated (VIOLATION line and replay file),
3 inconclusive (monitor not reached, watchdog), 2 harness error.
"""
import importlib.util, json, os, signal, subprocess, sys, time, traceback, zlib, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.modules.setdefault("vp", sys.modules[__name__])
QUICK = 4             # the quick counts of the checks times this
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
OUT = os.environ.get("VERIF_OUT", VERIF)       # where evidence/ and replay/ go
MAXV = 4                                       # violations recorded per scenario and worker


class Violation(Exception):
    def __init__(self, msg, mech=None, **det):
        super().__init__(msg)
        self.mech, self.det = mech, det


class Skip(Exception):
    """The generated case is outside the property's domain."""


def short(o, n=400):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return "array%s %s %s" % (o.shape, o.dtype, np.array2string(np.asarray(o).ravel()[:8], precision=6))
    except Exception:
        pass
    s = repr(o)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """Records what the monitors observed."""
    def __init__(self, tier):
        self.tier, self.thorough = tier, tier == "thorough"
        self.counters, self.keys, self.samples = {}, set(), {}
        self.evals = 0
        self.desc = {}
        self.scn = ""

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def peak(self, name, v):
        v = float(v)
        k = "max:" + name
        self.counters[k] = max(self.counters.get(k, 0.0), v)

    def case(self, **kw):
        """Describe the present case; the description identifies it as distinct."""
        self.desc.update(kw)

    def nontrivial(self, *key):
        """Count this case as non-trivial (key: what makes it distinct; default the description)."""
        k = repr((self.scn, key or sorted((a, short(b)) for a, b in self.desc.items())))
        self.keys.add(hashlib.sha1(k.encode()).hexdigest()[:16])

    def ok(self, cond, msg, mech=None, **det):
        """An oracle decision."""
        self.count("oracle decisions")
        if not cond:
            raise Violation(msg, mech=mech, **{k: short(v) for k, v in det.items()})

    def eq(self, a, b, msg, **det):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        self.ok(a.shape == b.shape, msg + ": shapes %s and %s differ" % (a.shape, b.shape), **det)
        same = a == b
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            same = same | (np.isnan(a) & np.isnan(b))
        if not np.all(same):
            i = np.argwhere(~same)[0]
            self.ok(False, msg + ": %d of %d values differ, first at %s: %r instead of %r" %
                    ((~same).sum(), same.size, tuple(i), a[tuple(i)], b[tuple(i)]), **det)
        self.count("oracle decisions")
        self.count("values compared", a.size)

    def close(self, a, b, tol, msg, **det):
        """max |a-b| <= tol (absolute)."""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        self.ok(a.shape == b.shape, msg + ": shapes %s and %s differ" % (a.shape, b.shape), **det)
        if a.size == 0:
            return
        d = np.abs(a.astype(np.complex128) - b.astype(np.complex128))
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        good = bool(np.all(d <= tol))
        self.ok(good, msg + ": deviation %g > %g at %s: %r instead of %r" % (d[i], tol, tuple(map(int, i)), a[i], b[i]), **det)
        self.count("values compared", a.size)

    def raises(self, fn, msg, exc=Exception, **det):
        try:
            r = fn()
        except exc:
            self.count("oracle decisions")
            return
        self.ok(False, msg + ": no exception, returned %s" % short(r), **det)


def load_check(pid):
    path = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    return m


def case_rng(pid, scn, i, seed):
    import numpy as np
    ss = [seed & 0xffffffff, zlib.crc32(("%s/%s" % (pid, scn)).encode()), i]
    rng = np.random.default_rng(ss)
    np.random.seed(int(rng.integers(2**32)))
    return rng


def from_repo(tb):
    """The exception was raised while code of the repository was running."""
    root = os.path.join(REPO, "qampy") + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(tb))


def run_case(pid, scn, fn, i, seed, ctx):
    """Returns None or a violation record."""
    rng = case_rng(pid, scn, i, seed)
    ctx.desc, ctx.scn = {}, scn
    rec = dict(property=pid, scenario=scn, index=i, seed=seed, tier=ctx.tier)
    try:
        fn(ctx, rng, i)
    except Skip:
        ctx.count("skipped cases")
        return None
    except Violation as e:
        ctx.evals += 1
        return dict(rec, message=str(e), mech=e.mech, case={k: short(v) for k, v in ctx.desc.items()}, detail=e.det)
    except MemoryError:
        raise
    except Exception as e:
        ctx.evals += 1
        tb = traceback.format_exc().strip().split("\n")
        who = "the library raised" if from_repo(e.__traceback__) else "the result could not be evaluated:"
        return dict(rec, message="%s %s: %s" % (who, type(e).__name__, e), mech=None,
                    case={k: short(v) for k, v in ctx.desc.items()}, detail={"traceback": tb[-12:]})
    ctx.evals += 1
    if scn not in ctx.samples:
        ctx.samples[scn] = dict(index=i, **{k: short(v, 120) for k, v in ctx.desc.items()})
    return None


def worker(pid, shard, nshards, tier, seed, budget, out):
    import qload
    qload.install()
    ctx = Ctx(tier)
    m = load_check(pid)
    t0, viols, cut, err = time.time(), [], 0, None
    prog = open(out + ".progress", "w")
    only, case = os.environ.get("VERIF_SCENARIO"), os.environ.get("VERIF_CASE")
    todo = []
    for name, fn, nq, nt in m.SCENARIOS:
        if only and name != only:
            continue
        n = min(QUICK * nq, max(nq, nt)) if tier == "quick" else nt
        todo.append([(name, fn, i) for i in ([int(case)] if case else range(n))])
    # interleave scenarios so that a time cut thins all of them
    order = []
    for k, lst in enumerate(todo):
        order += [((j + 0.5) / len(lst), k, x) for j, x in enumerate(lst)]
    order.sort(key=lambda x: (x[0], x[1]))
    nv = {}
    for n, (_, _, (name, fn, i)) in enumerate(order):
        if n % nshards != shard or nv.get(name, 0) >= MAXV:
            continue
        if time.time() - t0 > budget:
            cut += 1
            continue
        prog.seek(0); prog.write(json.dumps(dict(scenario=name, index=i)).ljust(200)); prog.flush()
        try:
            v = run_case(pid, name, fn, i, seed, ctx)
        except BaseException:
            err = "%s[%d]: %s" % (name, i, traceback.format_exc())
            break
        if v:
            nv[name] = nv.get(name, 0) + 1
            viols.append(v)
    json.dump(dict(counters=ctx.counters, keys=sorted(ctx.keys), samples=ctx.samples, evals=ctx.evals, viols=viols, cut=cut,
                   err=err, wall=time.time() - t0), open(out + ".tmp", "w"))
    os.replace(out + ".tmp", out)


class Run:
    """One run of a check in the parent process."""
    def __init__(self, pid):
        self.pid, self.tier, self.seed = pid, TIER, SEED
        self.t0 = time.time()
        self.viols, self.errors, self.incon, self.notes = [], [], [], []
        self.counters, self.keys, self.samples, self.evals, self.cut = {}, set(), [], 0, 0
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)

    def merge(self, d):
        for k, v in d["counters"].items():
            self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max:") else self.counters.get(k, 0) + v
        self.keys |= set(d["keys"])
        have = {s["scenario"] for s in self.samples}
        self.samples += [dict(scenario=k, **v) for k, v in d["samples"].items() if k not in have]
        self.evals += d["evals"]; self.cut += d["cut"]; self.viols += d["viols"]
        if d["err"]:
            self.errors.append(d["err"])

    def sharded(self, m, native):
        import tempfile, shutil
        nsh = int(os.environ.get("VERIF_SHARDS", getattr(m, "SHARDS", 8)))
        quick = self.tier == "quick"
        budget = float(os.environ.get("VERIF_BUDGET", getattr(m, "BUDGET", (240, 3000))[0 if quick else 1]))
        hard = budget + (240 if quick else 900)
        tmp = tempfile.mkdtemp(prefix="vp." + self.pid + ".")
        env = dict(os.environ, VERIF_NATIVE=json.dumps(native), OMP_NUM_THREADS=str(getattr(m, "THREADS", 1)), OMP_WAIT_POLICY="passive",
                   TMPDIR=tmp, HOME=tmp)
        env.update(getattr(m, "ENV", {}))
        ps = []
        for s in range(nsh):
            out = os.path.join(tmp, "w%d.json" % s)
            lg = open(out + ".log", "wb")
            ps.append((subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--worker", self.pid, str(s), str(nsh),
                                         self.tier, str(self.seed), str(budget), out], env=env, stdout=lg, stderr=subprocess.STDOUT,
                                        start_new_session=True), out))
        end = time.time() + hard
        try:
            for p, out in ps:
                try:
                    p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    try: still = time.time() - os.path.getmtime(out + ".progress")
                    except OSError: still = 0
                    if still > 200:                        # cases take milliseconds to seconds
                        last = self._progress(out)
                        self.viols.append(dict(property=self.pid, scenario=last.get("scenario"), index=last.get("index"), seed=self.seed, tier=self.tier,
                                               message="the case did not return within %d s" % still, mech=None, case={}, detail={}))
                        continue
                    self.incon.append("watchdog: a worker did not finish, last case %s" % self._progress(out))
                    continue
                if os.path.exists(out):
                    self.merge(json.load(open(out)))
                elif p.returncode < 0 and p.returncode != -signal.SIGKILL:
                    last = self._progress(out)
                    self.viols.append(dict(property=self.pid, scenario=last.get("scenario"), index=last.get("index"), seed=self.seed, tier=self.tier,
                                           message="the library crashed the process with signal %d%s" % (-p.returncode, self._report(out)), mech=None, case={},
                                           detail=dict(log=open(out + ".log", errors="replace").read()[:6000])))
                else:
                    self.errors.append("worker ended with %s: %s" % (p.returncode, open(out + ".log", errors="replace").read()[-1500:]))
        finally:
            for p, _ in ps:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
            shutil.rmtree(tmp, ignore_errors=True)

    @staticmethod
    def _report(out):
        import re
        t = open(out + ".log", errors="replace").read()
        m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*)", t)
        f = re.findall(r"#\d+ .* in (.*?)(?: \(|$)", t, re.M)
        return "" if not m else ": %s in %s" % (m.group(1)[:200], "; ".join(x[:120] for x in f[:4]))

    @staticmethod
    def _progress(out):
        try:
            return json.loads(open(out + ".progress").read())
        except Exception:
            return {}

    def finish(self, m):
        kf = [e for e in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if e["property"] == self.pid]
        known, fresh = {}, []
        for v in self.viols:
            e = next((e for e in kf if v.get("mech") and v["mech"] == e["mechanism"]), None)
            if e:
                known.setdefault(e["mechanism"], []).append(v)
            else:
                fresh.append(v)
        for e in kf:
            if e["mechanism"] in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
            else:
                self.notes.append("known finding %s was not observed in this run" % e["mechanism"])
        missing = [c for c in getattr(m, "REQUIRED", []) if not self.counters.get(c)]
        if missing:
            self.incon.append("monitors never reached: %s" % ", ".join(missing))
        if self.evals == 0:
            self.incon.append("no case was executed")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.keys), rule=m.RULE, samples=self.samples[:12] or [{}],
                                monitors={k: (round(v, 9) if isinstance(v, float) else v) for k, v in sorted(self.counters.items())},
                                cases_not_run_for_time=self.cut),
                  assumptions=getattr(m, "ASSUMPTIONS", []), wall_s=round(time.time() - self.t0, 2), violations=len(fresh),
                  known_findings_observed=sorted(known), inconclusive=self.incon, notes=self.notes)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle decisions, %.1f s%s" %
              (self.pid, self.tier, self.seed, self.evals, len(self.keys), self.counters.get("oracle decisions", 0), time.time() - self.t0,
               ", %d cases cut for time" % self.cut if self.cut else ""))
        if fresh:
            seen = {}
            for v in fresh:
                seen.setdefault(v["scenario"], v)
            for s, v in seen.items():
                path = os.path.join(OUT, "replay", "%s-%s.json" % (self.pid, str(s).replace(" ", "_")))
                json.dump(v, open(path, "w"), indent=1)
                print("  scenario %s case %s: %s %s" % (s, v["index"], v["message"][:600], json.dumps(v["case"])[:500]))
                if v["detail"]:
                    print("    " + json.dumps(v["detail"])[:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        for e in self.errors:
            print("harness error: " + e[-3000:])
        for e in self.incon:
            print("inconclusive: " + e)
        return 2 if self.errors else 3 if self.incon else 0


def replay(pid, path):
    v = json.load(open(path))
    import native, qload
    qload.install(native.ensure("plain"))
    m = load_check(pid)
    if hasattr(m, "replay"):
        return m.replay(v)
    ctx = Ctx(v["tier"])
    fn = next(f for n, f, _, _ in m.SCENARIOS if n == v["scenario"])
    r = run_case(pid, v["scenario"], fn, v["index"], v["seed"], ctx)
    print(json.dumps(r, indent=1))
    return 1 if r else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        return worker(a[1], int(a[2]), int(a[3]), a[4], int(a[5]), float(a[6]), a[7])
    pid = a[0]
    if len(a) > 2 and a[1] == "--replay":
        os.environ.setdefault("OMP_NUM_THREADS", "1")
        sys.exit(replay(pid, a[2]))
    import native, qload
    run = Run(pid)
    try:
        so = native.ensure("plain")
        qload.install(so)
        m = load_check(pid)
        if getattr(m, "main", None):
            m.main(run)
        else:
            run.sharded(m, so)
        rc = run.finish(m)
    except native.BuildError as e:
        print("harness error: %s" % e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()

"""Builds of the two pythran kernels from the current working tree of the repository.

plain : same flags as setup.py (the shared object in the repository is reused only if it was
        provably built from the present source by the same toolchain)
asan  : AddressSanitizer + UndefinedBehaviorSanitizer, asserts enabled, serial
tsan  : ThreadSanitizer, OpenMP runtime replaced by lib/gomp_shim.c (pthreads, so that
        ThreadSanitizer sees every fork/join and lock)

Everything is cached by the content of the *generated C++*, so edits that do not change the
generated code (comments, `pass`) cost nothing, and a stale object can never be used.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, sysconfig, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
PY = "/opt/venv/bin/python"
PYTHRAN = "/opt/venv/bin/pythran"
MODS = {"qampy.core.pythran_dsp": "qampy/core/pythran_dsp",
        "qampy.core.equalisation.pythran_equalisation": "qampy/core/equalisation/pythran_equalisation"}
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
BASE = ["-shared", "-fPIC", "-w", "-DENABLE_PYTHON_MODULE", "-D__PYTHRAN__=3", "-DPYTHRAN_BLAS_NONE", "-std=c++17"]
FLAGS = {
    "plain": ["-O3", "-ffast-math", "-march=native", "-funroll-loops", "-fopenmp", "-fno-math-errno", "-fvisibility=hidden",
              "-fno-wrapv", "-DUSE_XSIMD", "-DNDEBUG", "-finline-limit=100000", "-mfpmath=sse"],
    # no -ffast-math: UBSan/ASan builds check memory, not rounding; NDEBUG stays (it is what users run)
    "asan": ["-O1", "-g1", "-march=native", "-DNDEBUG", "-fvisibility=hidden", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize=vptr,null,alignment", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-march=native", "-DNDEBUG", "-fvisibility=hidden", "-fopenmp", "-fsanitize=thread"],
}

class BuildError(RuntimeError):
    pass

def _incs():
    code = "import pythran,numpy,os;print(os.path.dirname(pythran.__file__));print(numpy.get_include())"
    a = subprocess.run([PY, "-c", code], capture_output=True, text=True, check=True).stdout.split()
    return ["-I" + a[0], "-I" + a[1], "-I/usr/include/python3.12"]

def _cpu():
    out = []
    for l in open("/proc/cpuinfo"):
        if l.startswith(("model name", "flags")) and l.split("\t")[0] not in [o.split("\t")[0] for o in out]:
            out.append(l)
    return "".join(out)

def _state_matches(rel):
    """True if the repository's own .so for `rel` was built from the present source (key of build.sh)."""
    st = "/opt/vp/state/%s.key" % os.path.basename(rel)
    so = os.path.join(REPO, rel + SUFFIX)
    if REPO != "/repo" or not os.path.exists(st) or not os.path.exists(so):
        return False
    script = r'''cd /repo || exit 1
export HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
PY=/opt/venv/bin/python
env_key=$({ sha256sum setup.py pyproject.toml; grep -m1 '^model name' /proc/cpuinfo; grep -m1 '^flags' /proc/cpuinfo
            g++ --version; $PY -c 'import numpy, pythran; print(numpy.__version__, pythran.__version__)'; } 2>&1)
{ echo "$env_key"; sha256sum "%s.py"; } 2>&1 | sha256sum | cut -d' ' -f1''' % rel
    key = subprocess.run(["bash", "-c", script], capture_output=True, text=True).stdout.strip()
    if key != open(st).read().strip():
        return False
    # the object must not be older than the moment the key was written for another source
    return os.path.getmtime(so) <= os.path.getmtime(st) + 5

def _srckey(rel):
    """Hash of what pythran translates: the token stream without comments (other than pragmas), blank
    lines and `pass` statements."""
    import io, tokenize
    text = open(os.path.join(REPO, rel + ".py"), "rb").read()
    out, skip = [], False
    toks = list(tokenize.tokenize(io.BytesIO(text).readline))
    for i, t in enumerate(toks):
        if t.type in (tokenize.ENCODING, tokenize.NL):
            continue
        if t.type == tokenize.COMMENT and not re.match(r"#\s*(pythran|omp)\b", t.string):
            continue
        if t.type == tokenize.NAME and t.string == "pass" and toks[i + 1].type in (tokenize.NEWLINE, tokenize.COMMENT):
            skip = True
            continue
        if skip and t.type == tokenize.NEWLINE:
            skip = False
            continue
        out.append((t.type, "" if t.type in (tokenize.INDENT, tokenize.DEDENT, tokenize.NEWLINE) else t.string))
    return hashlib.sha256(repr(out).encode()).hexdigest()

def _cpp(rel, tmp, openmp):
    """Generate the C++ for the present source."""
    src = os.path.join(REPO, rel + ".py")
    work = os.path.join(tmp, os.path.basename(rel)); os.makedirs(work, exist_ok=True)
    name = os.path.basename(rel)
    shutil.copyfile(src, os.path.join(work, name + ".py"))
    out = os.path.join(work, name + ".cpp")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=tmp)
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PYTHRAN, "-E", "-DUSE_XSIMD"] + (["-fopenmp"] if openmp else []) + [name + ".py", "-o", out],
                       cwd=work, env=env, capture_output=True, text=True, timeout=300)
    if r.returncode or not os.path.exists(out):
        raise BuildError("pythran cannot translate %s: %s" % (src, (r.stderr + r.stdout)[-2000:]))
    return out

def _compile(kind, cpp, so):
    if kind == "tsan":      # compile with -fopenmp, link the shim instead of libgomp
        cmds = [["g++"] + [f for f in BASE if f != "-shared"] + FLAGS[kind] + _incs() + ["-c", cpp, "-o", so + ".o"],
                ["g++", "-shared", "-fsanitize=thread", so + ".o", shim_object(), "-lpthread", "-lm", "-o", so + ".tmp"]]
    else:
        cmds = [["g++"] + BASE + FLAGS[kind] + _incs() + [cpp, "-o", so + ".tmp", "-lm"] +
                (["-fopenmp", "-Wl,-strip-all"] if kind == "plain" else [])]
    for cmd in cmds:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=850)
        if r.returncode:
            raise BuildError("g++ (%s) failed: %s" % (kind, r.stderr[-3000:]))
    if kind == "tsan":
        os.remove(so + ".o")
    os.replace(so + ".tmp", so)

def shim_object():
    src = os.path.join(VERIF, "lib", "gomp_shim.c")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:20]
    o = os.path.join(CACHE, "native", "gomp_shim-%s.o" % key)
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        t = o + ".%d.tmp.o" % os.getpid()
        subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-c", src, "-o", t], check=True)
        os.replace(t, o)
    return o

def _so_path(kind, rel):
    h = _srckey(rel) + _cpu() + " ".join(BASE + FLAGS[kind])
    h += subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout
    h += subprocess.run([PYTHRAN, "-V"], capture_output=True, text=True).stdout
    if kind == "tsan":
        h += open(os.path.join(VERIF, "lib", "gomp_shim.c")).read()
    d = os.path.join(CACHE, "native", kind + "-" + hashlib.sha256(h.encode()).hexdigest()[:24])
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, os.path.basename(rel) + SUFFIX)

def ensure(kind="plain", verbose=True):
    """Return {module name: path of shared object} for `kind`, compiling what is not cached."""
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(os.path.join(CACHE, "native"), exist_ok=True)
    res, todo = {}, []
    with open(os.path.join(CACHE, "native", "lock-" + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for mod, rel in MODS.items():
            if kind == "plain" and _state_matches(rel):
                res[mod] = os.path.join(REPO, rel + SUFFIX)
                continue
            so = res[mod] = _so_path(kind, rel)
            if not os.path.exists(so):
                todo.append((rel, so))
        if todo:
            if verbose:
                print("building %s kernels: %s" % (kind, ", ".join(os.path.basename(t[0]) for t in todo)), flush=True)
            if kind == "tsan":
                shim_object()
            tmp = tempfile.mkdtemp(prefix="vpn.", dir=os.path.join(CACHE, "native"))
            try:
                with ThreadPoolExecutor(4) as ex:
                    list(ex.map(lambda t: _compile(kind, _cpp(t[0], tmp, kind != "asan"), t[1]), todo))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    return res

def seed_cache_from_repo():
    """setup: keep the repository's own (provably current) objects under their source key, so that
    checks on sources that translate to the same C++ need no compilation."""
    for mod, rel in MODS.items():
        if _state_matches(rel):
            so = _so_path("plain", rel)
            if not os.path.exists(so):
                shutil.copyfile(os.path.join(REPO, rel + SUFFIX), so + ".tmp")
                os.replace(so + ".tmp", so)

if __name__ == "__main__":
    for k in sys.argv[1:] or ["plain"]:
        print(k, ensure(k))

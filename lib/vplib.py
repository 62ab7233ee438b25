"""Builds harnesses from /repo's working tree, runs them sharded, reports."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "Source")
LIB = os.path.join(VERIF, "lib")
BUILD = os.path.join(VERIF, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = min(8, os.cpu_count() or 8)
PYENV = "/opt/vp/pyenv"
HDF5_INC = ["/usr/include/hdf5/serial"]
HDF5_LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5"]


PY_INC = ["-I/usr/include/python3.12", "-fvisibility=hidden"]
PY_LIBS = ["-lpython3.12"]


class CheckError(Exception):
    """The check itself could not be carried out."""


def include_dirs():
    out = [SRC]
    for d, subs, files in os.walk(SRC):
        subs[:] = [s for s in subs if s != "Geant"]
        if any(f.endswith((".hh", ".h", ".hpp")) for f in files):
            out.append(d)
    return sorted(set(out))


def sources(*parts):
    """Source files of the given parts of the repository (found, not listed)."""
    out = []
    for p in parts:
        base = os.path.join(SRC, p)
        for d, subs, files in os.walk(base):
            subs[:] = [s for s in subs if s != "Geant"]
            out += [os.path.join(d, f) for f in files if f.endswith((".cpp", ".cc", ".c"))]
    return sorted(out)


CORE = ("Physics", "Particles", "Tools")

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in (SRC, LIB, os.path.join(VERIF, "checks")):
            for d, subs, files in sorted(os.walk(base)):
                for f in sorted(files):
                    if base == SRC or f.endswith((".hh", ".h", ".cpp", ".c", ".cc")):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _tree = h.hexdigest()
    return _tree


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(name, groups, link=(), cxx="g++"):
    """groups: list of (files, flags). Returns the path of the program."""
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], []
    incs = ["-I" + d for d in include_dirs()] + ["-I" + LIB] + ["-I" + d for d in HDF5_INC]
    for files, flags in groups:
        for f in files:
            own = not f.startswith(SRC)
            key = hashlib.sha256(("\0".join([tree_hash(), f, cxx] + list(flags))).encode()).hexdigest()[:24]
            o = os.path.join(BUILD, "obj", key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((f, o, [x for x in flags if x] + incs))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    def one(j):
        f, o, flags = j
        t = o + ".tmp%d" % os.getpid()
        r = _run([cxx, "-c", f, "-o", t, "-w"] + [x for x in flags if not x.startswith("@main=")])
        for x in flags:   # the program under test becomes a function of the harness
            if x.startswith("@main=") and r.returncode == 0:
                r = _run(["objcopy", "--redefine-sym", "main=" + x[6:], t])
        if r.returncode == 0:
            os.replace(t, o)
        return f, r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f, r in ex.map(one, jobs):
            if r.returncode:
                raise CheckError("cannot compile %s\n%s" % (f, r.stdout[-4000:]))
    exe = os.path.join(BUILD, name)
    lk = hashlib.sha256("\0".join(objs + list(link) + [cxx]).encode()).hexdigest()[:16]
    exe = exe + "-" + lk
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        r = _run([cxx, "-o", t] + objs + list(link))
        if r.returncode:
            raise CheckError("cannot link %s\n%s" % (name, r.stdout[-4000:]))
        os.replace(t, exe)
        # keep the build folder small: drop older builds of the same program
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            if old != exe and os.path.isfile(old) and ".tmp" not in old and re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}", os.path.basename(old)):
                os.unlink(old)
        objdir = os.path.join(BUILD, "obj")
        fs = sorted((os.path.getmtime(os.path.join(objdir, x)), x) for x in os.listdir(objdir))
        for _, x in fs[:-1500]:
            try: os.unlink(os.path.join(objdir, x))
            except OSError: pass
    return exe


RNG = ["-include", os.path.join(LIB, "vp_rng.hh")]
BASE = ["-std=gnu++11", "-O2", "-g1"]
HARN = ["-I" + os.path.join(LIB, "wrap"), "-std=gnu++17", "-O1", "-g1", "-DVP_RNG_IMPL"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def std_build(name, harness, parts=CORE, rng=True, asan=False, extra=(), hextra=(), files=(), link=(), cli=False, python=False, more=()):
    """One harness + the repository's parts, sequential build.  With cli the
    command-line program is linked in as qedcasc_main."""
    if python:
        extra = list(extra) + PY_INC; hextra = list(hextra) + PY_INC; link = list(link) + PY_LIBS
        parts = tuple(dict.fromkeys(tuple(parts) + CORE))
    if cli: parts = tuple(dict.fromkeys(tuple(parts) + CORE + ("IO",)))
    f = BASE + (RNG if rng else []) + (ASAN if asan else []) + list(extra)
    h = HARN + (ASAN if asan else []) + list(hextra)
    groups = [(sources(*parts), f)]
    if cli:
        prog = [x for x in sources("Exec")]
        mains = [x for x in prog if re.search(r"\bmain\s*\(", open(x, errors="replace").read())]
        if len(mains) != 1: raise CheckError("no single main program in Source/Exec")
        groups.append(([x for x in prog if x not in mains], f)); groups.append((mains, f + ["@main=qedcasc_main"]))
    if python:   # no program of its own among them
        groups.append(([x for x in sources("Python") if not re.search(r"\bint\s+main\s*\(", open(x, errors="replace").read())], f))
    if files:
        groups.append((list(files), f))
    # the harness last: inline functions are those of the sources under test
    groups.append(([os.path.join(VERIF, "checks", harness)] if isinstance(harness, str) else list(harness), h))
    groups += list(more)
    return build(name, groups, link=list(link) + (["-fsanitize=address"] if asan else []) + HDF5_LIBS + ["-lpthread", "-ldl"])


class Result:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.evals = self.transitions = self.traces = 0
        self.distinct, self.states = set(), set()
        self.samples, self.counters, self.notes = [], {}, {}
        self.violations = []          # (key, message, extra)
        self.assumptions = []
        self.exhaustive = True
        self.rule = ""
        self.t0 = time.time()
        self.coverage = {}

    def merge(self, d, tag):
        self.evals += d.get("evals", 0); self.transitions += d.get("transitions", 0); self.traces += d.get("traces", 0)
        for k, v in d.get("counters", {}).items():
            if k in ("cases_not_reached", "explorations_cut_short"): self.exhaustive = False
            self.counters[k] = self.counters.get(k, 0) + v
        self.notes.update(d.get("notes", {}))
        for s in d.get("samples", []):
            if len(self.samples) < 16 and s not in self.samples: self.samples.append(s)

    def hashes(self, path):
        if not os.path.exists(path): return
        b = open(path, "rb").read()
        for i in range(0, len(b) - 15, 16):
            t, v = struct.unpack_from("<QQ", b, i)
            (self.states if t else self.distinct).add(v)


def harness_env(**kw):
    e = dict(os.environ)
    e.update(QED_TABLES_PATH=os.path.join(REPO, "Tables"), VERIF_TIER=TIER, VERIF_SEED=str(SEED),
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:detect_odr_violation=0", LC_ALL="C", OMP_NUM_THREADS="1",
             HDF5_USE_FILE_LOCKING="FALSE",
             PYTHONPATH=PYENV + "/lib/python3.12/site-packages", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def watch(ps, end, case_limit):
    """Waits for the shards and ends those that stay in one case too long."""
    late, left = [], list(ps)
    while left:
        for d, p in list(left):
            if p.poll() is not None: left.remove((d, p)); continue
            t = 0
            try:
                with open(os.path.join(d, "cur"), "rb") as f:
                    f.seek(65528); b = f.read(8)
                    if len(b) == 8: t = struct.unpack("<d", b)[0]
            except OSError: pass
            if time.time() > end or (t > 0 and time.time() - t > case_limit):
                try: os.killpg(p.pid, 9)
                except ProcessLookupError: pass
                p.wait(); late.append(p); left.remove((d, p))
        if left: time.sleep(0.02)
    return late


def run_harness(res, exe, tag, shards=JOBS, limit=600, args=(), env=(), only=None, crash_is_violation=True, case_limit=None, share=1.0):
    """Runs a harness in shards; a shard that dies or hangs in a case is a
    violation of that case once that is confirmed by running the case alone.
    What is not reached within the time is left out and reported as such."""
    if case_limit is None: case_limit = 150 if TIER == "quick" else 300
    limit = min(limit, 600 if TIER == "quick" else 850) * share
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % res.pid)
    try:
        ps = []
        if only is not None: shards = 1
        for i in range(shards):
            d = os.path.join(scratch, str(i)); os.mkdir(d)
            e = harness_env(VP_OUT=os.path.join(d, "out"), VP_CUR=os.path.join(d, "cur"), VP_SHARD="%d/%d" % (i, shards), VP_TMP=d, **dict(env))
            e.pop("VP_ONLY", None)
            if only is not None: e["VP_ONLY"] = only
            else: e["VP_DEADLINE"] = "%.3f" % (time.time() + 0.75 * limit)
            ps.append((i, d, subprocess.Popen([exe] + list(args), cwd=d, env=e, stdin=subprocess.DEVNULL,
                       stdout=open(os.path.join(d, "stdout"), "w"), stderr=open(os.path.join(d, "stderr"), "w"), start_new_session=True)))
        end = time.time() + limit
        late = watch([(d, p) for i, d, p in ps], end, case_limit)
        for i, d, p in ps:
            hung = p in late
            done = False
            if os.path.exists(os.path.join(d, "out")):
                for l in open(os.path.join(d, "out"), errors="replace"):
                    try: r = json.loads(l)
                    except ValueError: continue
                    if r["t"] == "viol": res.violations.append((r["key"], r["msg"], {"harness": tag}))
                    elif r["t"] == "done": done = True; res.merge(r, tag)
            res.hashes(os.path.join(d, "out.hash"))
            if done and p.returncode == 0: continue
            cur = ""
            if os.path.exists(os.path.join(d, "cur")):
                cur = open(os.path.join(d, "cur"), "rb").read().split(b"\0")[0].decode(errors="replace")
            err = (open(os.path.join(d, "stderr"), errors="replace").read() + open(os.path.join(d, "stdout"), errors="replace").read())[-3000:]
            if not cur or not crash_is_violation:
                raise CheckError("harness %s shard %d ended with %s before its first case\n%s" % (tag, i, p.returncode, err))
            how = "hangs" if hung else "ends the process (status %s)" % p.returncode
            if only is None:
                again = Result(res.pid, res.level)
                run_harness(again, exe, tag, shards=1, limit=case_limit, args=args, env=env, only=cur)
                if not any(v[2].get("crash") for v in again.violations):
                    if again.violations: res.violations += again.violations; continue
                    if res.violations: continue
                    raise CheckError("harness %s: case %r %s, but not when run alone\n%s" % (tag, cur, how, err))
                res.violations += again.violations
            else:
                res.violations.append((cur, "the code under test %s in this case: %s" % (how, err.strip()[-600:]), {"harness": tag, "crash": True}))
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: out.append(m.groups())
    return out


def write_evidence(res, extra_cov=None):
    cov = {}
    if res.level == "model_checking":
        cov.update(states=len(res.states), transitions=res.transitions, traces_validated_against_impl=res.traces)
    if res.evals and res.level != "model_checking":
        cov.update(evaluations=res.evals)
    if res.level in ("exploration", "fault_enumeration"):
        cov.update(evaluations=res.evals, distinct_nontrivial=len(res.distinct), rule=res.rule)
    elif res.rule:
        cov["rule"] = res.rule
        if res.distinct: cov["distinct_outcomes"] = len(res.distinct)
    cov["samples"] = res.samples
    cov["exhaustive"] = res.exhaustive
    cov.update(res.counters); cov.update(res.notes); cov.update(res.coverage); cov.update(extra_cov or {})
    ev = dict(property=res.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=res.level, coverage=cov,
              assumptions=res.assumptions, wall_s=round(time.time() - res.t0, 2), violations=len(res.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", res.pid + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def report(res):
    """Evidence, KNOWN-FINDING and VIOLATION lines; returns the exit status."""
    known = {(p, k): t for p, k, t in known_findings()}
    seen, left = set(), []
    for key, msg, extra in res.violations:
        k = (res.pid, key)
        if k in known:
            if k not in seen: print("KNOWN-FINDING: property=%s %s" % (res.pid, known[k]))
            seen.add(k)
        else: left.append((key, msg, extra))
    res.violations = left
    write_evidence(res)
    rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
    byk = {}
    for key, msg, extra in left: byk.setdefault(key, (msg, extra))
    for n, (key, (msg, extra)) in enumerate(sorted(byk.items(), key=lambda x: (len(x[0]), x[0]))[:5]):
        p = os.path.join(rd, "%s-%d.json" % (res.pid, n))
        with open(p, "w") as f: json.dump(dict(property=res.pid, key=key, message=msg, **extra), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (res.pid, p))
        print("  case: %s" % key[:600]); print("  %s" % msg[:1200])
    if left: print("%s: %d violating cases" % (res.pid, len(byk)))
    else:
        print("%s held: %d evaluations, %d states, %d transitions, %d distinct outcomes, %.1f s" % (res.pid, res.evals, len(res.states), res.transitions, len(res.distinct), time.time() - res.t0))
    sys.stdout.flush()
    return 1 if left else 0


def omp_build(name, harness, **kw):
    """The sources under test compiled for OpenMP and thread instrumentation,
    with the runtime of lib/ompsim in place of libgomp and libtsan."""
    rt = os.path.join(LIB, "ompsim", "ompsim.cc")
    wrap = ["-Wl," + ",".join("--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock",
            "pthread_mutex_trylock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")), "-no-pie"]
    return std_build(name, harness, extra=["-DUSEOPENMP", "-fopenmp", "-fsanitize=thread", "-O1", "-fno-pie"], hextra=["-fno-pie", "-DVP_OMP_EXPLORE"] + list(kw.pop("hextra", [])),
                     link=wrap, more=[([rt], ["-std=gnu++17", "-O2", "-g1", "-fno-pie"])], **kw)

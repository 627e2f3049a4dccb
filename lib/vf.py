"""Shared machinery: runs the real code on cases, hands the recorded behaviours to TLC,
   collects TLC's verdicts, and turns them into exit codes, VIOLATION lines and evidence."""
import sys, os, json, time, random, re, subprocess, tempfile, shutil, signal, io, traceback, hashlib, contextlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)

class Machinery(Exception):
    """the checking machinery (not the code under test) failed"""

def setup_env():
    os.environ.setdefault("LANG", "C.UTF-8")
    for k in ("PICO8_PLATFORM_CHAR", "PICO8_VERSION_LATEST_IS_DEFAULT", "PICO8_VERSION_ID"):
        os.environ.pop(k, None)
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)

_mains = {}
def repo_main(lang="pico8"):
    """the command line entry point of the real code (in process)"""
    if lang not in _mains:
        setup_env()
        import run_shrinko, pico_defs
        _mains[lang] = run_shrinko.create_main(getattr(pico_defs.Language, lang))
    return _mains[lang]

class Timeout(BaseException):
    pass

def _on_alarm(sig, frame):
    raise Timeout()

def run_cli(args, lang="pico8", timeout=60):
    """run the real command line; returns (status, stdout, stderr).
       status: the exit code, or 'crash:<exception>' / 'hang'"""
    main = repo_main(lang)
    out, err = io.StringIO(), io.StringIO()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = main([str(a) for a in args])
                status = 0 if rc is None else int(rc)
            except SystemExit as ex:
                status = ex.code if isinstance(ex.code, int) else (0 if ex.code is None else 1)
            except Timeout:
                status = "hang"
            except BaseException as ex:
                status = "crash:" + type(ex).__name__
                err.write("".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:])[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return status, out.getvalue(), err.getvalue()

def guarded(fn, *args, timeout=60):
    """call fn on the real code; returns (True, value) or (False, 'crash:..'/'hang')"""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return True, fn(*args)
    except Timeout:
        return False, "hang"
    except (Machinery, KeyboardInterrupt):
        raise
    except BaseException as ex:
        return False, "crash:" + type(ex).__name__ + ":" + str(ex)[:200]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

# ---- parallel driving of the real code

_pool_fn = None
def _pool_call(item):
    return _pool_fn(item)

def pmap(fn, items, chunk=4):
    """run fn(item) in forked workers (each in a scratch directory of its own)"""
    global _pool_fn
    items = list(items)
    if not items:
        return []
    _pool_fn = fn
    repo_main("pico8"); repo_main("picotron") # import before forking
    root = scratch()
    def init():
        d = tempfile.mkdtemp(dir=root)
        os.chdir(d)
    ctx = mp.get_context("fork")
    with ctx.Pool(NCPU, initializer=init) as pool:
        return pool.map(_pool_call, items, chunksize=chunk)

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="vf_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        pid = os.getpid()
        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch

# ---- TLC

class TlcResult:
    def __init__(m):
        m.verdicts = {}; m.states = 0; m.distinct = 0; m.lines = []; m.out = ""; m.error = None; m.wall = 0; m.coverage = {}

def run_tlc(module, data=None, cfg=None, workers=NCPU, timeout=800, xss="64m", mem="12g", simulate=None, extra=(), env=None, coverage=False):
    """run TLC on spec/<module>.tla; data is made available to the spec as JSON through IOEnv.VF_DATA.
       The spec prints 'V <case> <verdict> <detail>' once per finished behaviour."""
    d = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ)
    if env: e.update(env)
    if data is not None:
        p = os.path.join(d, "data.json")
        with open(p, "w") as f:
            json.dump(data, f, separators=(",", ":"))
        e["VF_DATA"] = p
    e["VF_OUT"] = os.path.join(d, "out.json")
    cfgp = os.path.join(d, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg or "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xss{xss}", f"-Xmx{mem}", f"-DTLA-Library={SPEC}", "-cp", TLA_CP, "tlc2.TLC",
           "-config", cfgp, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-workers", str(workers)]
    if coverage: cmd += ["-coverage", "1"]
    if simulate: cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    r = TlcResult()
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {module}")
    r.wall = time.time() - t0
    r.out = out = p.stdout.decode("utf8", "replace")
    for line in out.split("\n"):
        if line.startswith('"V ') and line.endswith('"'):
            parts = line[3:-1].split(" ", 2)
            try: i = int(parts[0])
            except ValueError: continue
            r.verdicts[i] = (parts[1], parts[2] if len(parts) > 2 else "")
        elif line.startswith('"'):
            r.lines.append(line[1:-1])
        elif coverage:
            mm = re.match(r"<(\w+) line .*>: (\d+):(\d+)", line)
            if mm: r.coverage[mm[1]] = int(mm[3])
    mm = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    if mm:
        r.states, r.distinct = map(int, mm[-1])
    if p.returncode != 0:
        r.error = p.returncode
    shutil.rmtree(d, ignore_errors=True)
    return r

def tlc_verdicts(module, cases, base=None, timeout=800, label="", chunk=None, **kw):
    """validate every case (recorded behaviour) against the spec; returns (list of verdicts, stats).
       A case TLC cannot even evaluate gets the verdict ('uninterpretable', ..)."""
    n = len(cases)
    verd = [None] * n
    states = distinct = 0
    wall = 0
    todo = list(range(n))
    if chunk is None: chunk = n or 1
    queue = [todo[i:i+chunk] for i in range(0, n, chunk)]
    outs = []
    while queue:
        idxs = queue.pop(0)
        data = dict(base or {})
        data["cases"] = [cases[i] for i in idxs]
        r = run_tlc(module, data, timeout=timeout, **kw)
        states += r.states; distinct += r.distinct; wall += r.wall
        outs.extend(r.lines)
        for k, v in r.verdicts.items():
            if 1 <= k <= len(idxs):
                verd[idxs[k-1]] = v
        missing = [i for i in idxs if verd[i] is None]
        if missing:
            if "Parsing or semantic analysis failed" in r.out or "Could not parse" in r.out or not r.states and not r.verdicts and len(idxs) == n and "Evaluating" not in r.out and "Error: The" not in r.out and "error" not in r.out.lower():
                raise Machinery(f"TLC on {module}: " + r.out[-3000:])
            if len(missing) == 1 and len(idxs) == 1 or len(idxs) == 1:
                mm = re.search(r"Error: (.*?)(?:\n\n|\Z)", r.out, re.S)
                verd[idxs[0]] = ("uninterpretable", (mm[1] if mm else r.out[-600:])[:600].replace("\n", " "))
                if os.environ.get("VF_DEBUG"): sys.stderr.write(r.out[-3000:])
            else:
                # isolate what TLC cannot evaluate: every missing case again, in halves
                if len(missing) == len(idxs):
                    h = len(missing) // 2
                    queue.insert(0, missing[h:]); queue.insert(0, missing[:h])
                else:
                    queue.insert(0, missing)
    return verd, dict(states=states, distinct=distinct, wall=wall, lines=outs)

# ---- the check itself

KNOWN = os.path.join(VERIF, "known_findings.txt")

class Check:
    def __init__(m, pid, level, technique_rule):
        m.pid = pid; m.level = level; m.rule = technique_rule
        m.tier = os.environ.get("VERIF_TIER", "quick")
        m.thorough = m.tier == "thorough"
        m.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        m.t0 = time.time()
        m.states = m.transitions = 0
        m.cases = 0
        m.nontrivial = set()
        m.samples = []
        m.violations = []   # (key, what, replay dict)
        m.known_hits = {}
        m.extra = {}
        m.assumptions = []
        m.known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k["property"] == pid and k.get("status") == "known":
                        m.known.append(k)

    def rng(m, name):
        return random.Random(f"{m.pid}/{m.seed}/{name}")

    def scale(m, quick, thorough=None):
        return (quick if not m.thorough else (thorough if thorough is not None else quick * 8))

    def add_stats(m, st):
        m.states += st["distinct"]; m.transitions += st["states"]

    def note(m, case, nontrivial=True):
        m.cases += 1
        if nontrivial:
            m.nontrivial.add(hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()[:16])

    def sample(m, s, limit=6):
        if len(m.samples) < limit:
            m.samples.append(s)

    def violation(m, key, what, replay):
        """key: a stable identification of the failing input/call site (matched with the known findings)"""
        for k in m.known:
            if k["key"] == key:
                m.known_hits.setdefault(key, k)
                return
        m.violations.append((key, what, replay))

    def validate(m, module, cases, recs, key=None, base=None, describe=None, timeout=800, okv=("ok",), **kw):
        """recs: what the spec reads (one dict per case); cases: how to reproduce them"""
        verd, st = tlc_verdicts(module, recs, base=base, timeout=timeout, **kw)
        m.add_stats(st)
        bad = 0
        for i, (c, v) in enumerate(zip(cases, verd)):
            if v is None:
                raise Machinery(f"no verdict for case {i} of {module}")
            if v[0] not in okv:
                bad += 1
                m.violation(key(c, v) if key else v[0], f"{v[0]} {v[1]}", dict(case=c, verdict=list(v), record=recs[i]))
        return verd

    def finish(m):
        for k in m.known_hits.values():
            print(f"KNOWN-FINDING: property={m.pid} {k['what']}")
        rc = 0
        old = os.path.join(VERIF, "evidence", "replays", f"{m.pid}.json")
        if os.path.exists(old): os.unlink(old)
        if m.violations:
            rdir = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{m.pid}.json")
            with open(path, "w") as f:
                json.dump([dict(key=k, what=w, replay=r) for k, w, r in m.violations[:100]], f, indent=1, default=repr)
            for k, w, r in m.violations[:8]:
                print(f"  violated: {w[:400]}")
                print("   ", json.dumps(r.get("case"), default=repr)[:600])
            print(f"{len(m.violations)} violating cases")
            print(f"VIOLATION property={m.pid} replay={path}")
            rc = 1
        cov = dict(states=m.states, transitions=m.transitions, traces_validated_against_impl=m.cases,
                   evaluations=m.cases, distinct_nontrivial=len(m.nontrivial), rule=m.rule,
                   samples=m.samples or ["none"], **m.extra)
        if m.level == "translation_validation":
            cov["programs"] = m.cases
            cov["disagreements_checked"] = m.extra.get("disagreements_checked", m.cases)
        ev = dict(property=m.pid, tier=m.tier if m.tier in ("quick", "thorough") else "quick", seed=m.seed, level=m.level,
                  coverage=cov, assumptions=m.assumptions, wall_s=round(time.time() - m.t0, 2), violations=len(m.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{m.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print(f"{m.pid}: {'VIOLATED' if rc else 'held'}; {m.cases} behaviours of the real code, {m.states} spec states, {time.time()-m.t0:.1f}s")
        return rc

def b2l(b):
    return list(b)

def s2l(s):
    """text -> code points"""
    return [ord(c) for c in s]

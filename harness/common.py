"""Shared machinery: environment, TLC runs, verdicts, evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
WORKERS = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def rng(*salt):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, salt))))


class Timeout(Exception):
    """The code under test did not come back."""


class deadline:
    def __init__(self, seconds):
        self.s = seconds

    def _fire(self, *_):
        raise Timeout("no answer within %ss" % self.s)

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class MachineryError(Exception):
    pass


class Scratch:
    """A private scratch directory, removed at exit."""
    _dir = None

    @classmethod
    def dir(cls):
        if cls._dir is None:
            cls._dir = tempfile.mkdtemp(prefix="verif_")
            import atexit
            pid = os.getpid()
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(cls._dir, ignore_errors=True))
        return cls._dir

    @classmethod
    def path(cls, name):
        return os.path.join(cls.dir(), name)


class TLCResult:
    def __init__(self):
        self.out = ""
        self.generated = self.distinct = 0
        self.rejects, self.accepts, self.prints = [], [], []
        self.violated = None
        self.rc = None


_PRINT = re.compile(r'^<<\s*"(REJECT|ACCEPT|OUT)",\s*(.*?)\s*>>$', re.S)


def _printed(text):
    """The tuples PrintT wrote; TLC breaks long ones over several lines."""
    cur = None
    for line in text.splitlines():
        if cur is None:
            if not re.match(r'^<<\s*"(REJECT|ACCEPT|OUT)"', line):
                continue
            cur = line
        else:
            cur += " " + line.strip()
        bare = re.sub(r'"(\\.|[^"\\])*"', '""', cur)
        if bare.count("<<") == bare.count(">>"):
            m = _PRINT.match(cur.strip())
            if m:
                yield m.group(1), m.group(2)
            cur = None


def tlc(module, cfg=None, data=None, env=None, args=(), workers=None, timeout=800, heap="12g", tag=None):
    """Run TLC on spec/<module>.tla.  data is written as JSON and named by $TRACE."""
    tag = tag or module
    e = dict(os.environ)
    if data is not None:
        fd, p = tempfile.mkstemp(suffix=".json", prefix=tag + "_", dir=Scratch.dir())
        with os.fdopen(fd, "w") as f:
            json.dump(data, f)
        e["TRACE"] = p
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc_", dir=Scratch.dir())
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers or WORKERS), "-config", cfg or module + ".cfg"] \
        + list(args) + [module + ".tla"]
    r = TLCResult()
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC on %s took more than %ss" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.out, r.rc, r.wall = p.stdout, p.returncode, time.time() - t
    for kind, body in _printed(r.out):
        {"REJECT": r.rejects, "ACCEPT": r.accepts, "OUT": r.prints}[kind].append(body)
    for line in r.out.splitlines():
        m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
        if m:
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.match(r"^The number of states generated: (\d+)", line)
        if m:
            r.generated = int(m.group(1))
        m = re.match(r"^Error: (Invariant|Action property|Temporal properties|Property) ?(\S*)", line)
        if m and r.violated is None:
            r.violated = m.group(2) or m.group(1)
    return r


def tlc_traces(module, data, **kw):
    """TLC on recorded traces, with a verdict for each: a trace with an event for which the specification has no meaning
    (TLC cannot evaluate it: a value outside every type the specification knows) is rejected at that event, and the others are
    judged without it."""
    key, var = ("traces", "tr") if "traces" in data else ("batches", "b")
    seen = {}
    for x in data[key]:                      # every trace has a name of its own
        seen[x["id"]] = seen.get(x["id"], 0) + 1
        if seen[x["id"]] > 1:
            x["id"] += "-again%d" % seen[x["id"]]
    data = dict(data)
    extra_rej, extra_acc = [], []
    for _ in range(6):
        r = tlc(module, data=data, **kw)
        stuck = re.findall(r"^/\\ %s = (\d+)$" % var, r.out, re.M)
        step = re.findall(r"^/\\ l = (\d+)$", r.out, re.M)
        decided = len(r.accepts) + (len(r.rejects) if key == "traces" else 0)
        if decided >= len(data[key]) or not stuck or not step or "Error: " not in r.out:
            break
        n, l = int(stuck[-1]), int(step[-1])
        tid = data[key][n - 1]["id"]
        why = re.search(r"^Error: (.*(?:\n(?!Error|The error|\d+\.).*){0,3})", r.out, re.M).group(1)
        extra_rej.append('%s, %d, %s' % (json.dumps(tid), l, json.dumps("no specified behaviour: " + " ".join(why.split()))))
        if key == "batches":
            extra_acc.append('%s, %d' % (json.dumps(tid), l))
        data[key] = data[key][:n - 1] + data[key][n:]
        if not data[key]:
            break
    r.rejects = extra_rej + r.rejects
    r.accepts = extra_acc + r.accepts
    return r


def tla_fields(s):
    """Split the inside of a printed TLA+ tuple at top level."""
    out, depth, cur, inq = [], 0, "", False
    i = 0
    while i < len(s):
        ch = s[i]
        if inq:
            cur += ch
            if ch == "\\":
                i += 1
                cur += s[i]
            elif ch == '"':
                inq = False
        elif ch == '"':
            inq = True
            cur += ch
        elif s.startswith("<<", i) or s.startswith(">>", i):
            depth += 1 if ch == "<" else -1
            cur += s[i:i + 2]
            i += 1
        elif ch in "{[(":
            depth += 1
            cur += ch
        elif ch in "}])":
            depth -= 1
            cur += ch
        elif ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        i += 1
    out.append(cur.strip())
    return out


def unq(s):
    return json.loads(s) if s.startswith('"') else s


class Check:
    """Collects what one check explored, its violations, and writes the evidence file."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes = [], {}
        self.violations = []
        self.assumptions = []
        self.parts = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in (json.load(open(kf)) if os.path.exists(kf) else [])
                      if k.get("property") == prop and k.get("status") == "open"]

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def add(self, r, validated=0, part=None):
        self.states += r.distinct
        self.transitions += r.generated
        self.validated += validated
        self.parts.append(dict(part=part, states=r.distinct, generated=r.generated, validated=validated,
                               wall_s=round(r.wall, 1)))

    def violate(self, what, case):
        """case: JSON-able, enough to replay the failing behaviour."""
        ident = json.dumps(case.get("ident", case), sort_keys=True, default=str)
        for k in self.known:
            if k.get("ident") == ident or (k.get("match") and k["match"] in what):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        self.violations.append((what, case))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples, parts=self.parts)
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.violations:
            print("OK property=%s states=%d validated=%d wall=%.1fs" % (self.prop, self.states, self.validated,
                                                                       time.time() - T0))
            return 0
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (what, case) in enumerate(self.violations[:5]):
            p = os.path.join(rd, "%s_%d.json" % (self.prop, n))
            with open(p, "w") as f:
                json.dump(dict(property=self.prop, what=what, case=case), f, indent=1, default=str)
            print("  %s" % what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1


def pmap(fn, items, procs=None, chunk=1):
    """Map in forked worker processes; a worker that dies or raises is a machinery error."""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 2:
        return [fn(x) for x in items]
    with mp.get_context("fork").Pool(min(procs or WORKERS, len(items))) as pool:
        return pool.map(fn, items, chunk)


def guarded(fn, seconds=60):
    """(outcome, result) of a call of the code under test."""
    try:
        with deadline(seconds):
            return "ok", fn()
    except Timeout:
        return "Timeout", None
    except Exception as e:
        return type(e).__name__, None

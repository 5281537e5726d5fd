"""C20-C23: histories of qtcodes.tools.benchmarking against spec/BenchTrace.tla (contract) and spec/SaveModel.tla (design)."""
import contextlib, fcntl, glob, io, itertools, math, resource, warnings
import numpy as np
from concurrent.futures import ProcessPoolExecutor
from common import *
import gen

UNIT = 215040
RATES = [0.0, 2.5e-07, 1e-05, 0.00012345678, 0.01, 0.04, 0.0437, 0.07, 0.1, 0.123456789, 0.13, 0.16, 1 / 3, 0.5, 1.0]   # numbered from 1, increasing
WIDE = 50
THRESH = [3, 9, 14, 1, 6, 12, 16, 0, 10, 5, 7, 13, 2, 11, 4]


def pid_of(p):
    try:
        return RATES.index(float(p)) + 1
    except (ValueError, TypeError):
        return -1


def lid_of(x):
    try:
        k = round(float(x) * UNIT)
        return k if abs(float(x) * UNIT - k) < 1e-6 else -1
    except (ValueError, TypeError):
        return -1


class Stub:
    """A decoder that logs what it is asked.  The low 4 bits of a result number the physical rate that was simulated."""

    def __init__(self, d, T, log, inner=None):
        self.params = {"d": d, "T": T}
        self.log, self.inner = log, inner

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        bits = syndromes.replace(" ", "")
        p = int(bits[-4:], 2)
        v = 1 if int(bits[:6], 2) % 17 < THRESH[p - 1] else 0
        e = 0 if err_prob is None else pid_of(err_prob)
        with open("%s.%d" % (self.log, os.getpid()), "a") as f:
            f.write("%d %d %d\n" % (p, e, v))
        return v


class Noise:
    """The noise model of rate number n sets the result's low bits to n; a delay per rate forces completion orders."""

    def __init__(self, order=()):
        self.order = list(order)

    def __call__(self, p):
        from qiskit_aer.noise import NoiseModel, pauli_error
        n = RATES.index(float(p)) + 1
        if n in self.order:
            time.sleep(0.06 * self.order.index(n))
        nm = NoiseModel()
        for k in range(4):
            if n >> k & 1:
                nm.add_quantum_error(pauli_error([("X", 1.0)]), "id", [k])
        return nm


def circuit():
    """Four bits that tell the physical rate, and enough random bits to make every shot's result a string of its own."""
    from qiskit import QuantumCircuit
    n, k = 10, WIDE // 10
    qc = QuantumCircuit(4 + n, 4 + n * k)
    for i in range(4):
        qc.id(i)
    qc.measure(range(4), range(4))
    for j in range(k):
        for i in range(n):
            qc.h(4 + i)
            qc.measure(4 + i, 4 + j * n + i)
    return qc


class Killed(BaseException):
    pass


def _trace(n, act, only):
    """Act at the n-th executed line (of the code under test only, or of everything)."""
    left = [n]
    me = os.getpid()

    def local(frame, event, arg):
        if event == "line" and os.getpid() == me:
            left[0] -= 1
            if left[0] <= 0:
                sys.settrace(None)
                act()
        return local

    def glob_(frame, event, arg):
        if only and not frame.f_code.co_filename.startswith(REPO):
            return None
        return local

    return glob_, left


_refuse = [0]
_hooked = []


def _hook(name, args):
    if _refuse[0] and name in ("open", "os.rename", "os.remove", "os.link", "os.truncate", "shutil.copyfile", "shutil.move"):
        _refuse[0] -= 1
        if _refuse[0] == 0:
            raise OSError(24, "Too many open files")


@contextlib.contextmanager
def no_files_left(n):
    """The n-th time a file is opened, renamed or removed, the operating system refuses."""
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked.append(1)
    _refuse[0] = n
    try:
        yield
    finally:
        _refuse[0] = 0


def _fresh_aer():
    """Stand for a process that did not simulate before: Aer's shared executor does not survive a fork."""
    try:
        import qiskit_aer.jobs.aerjob as m
        from concurrent.futures import ThreadPoolExecutor
        m.DEFAULT_EXECUTOR = ThreadPoolExecutor(max_workers=1)
    except Exception:
        pass


def in_child(fn, seconds=60):
    """Run fn in a forked child in its own process group; everything it started dies with it.  Returns its exit code."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            os.setpgid(0, 0)
            _fresh_aer()
            fn()
            code = 0
        except BaseException:
            code = 6
        finally:
            os._exit(code)
    t = time.time()
    try:
        while True:
            q, st = os.waitpid(pid, os.WNOHANG)
            if q:
                return os.waitstatus_to_exitcode(st)
            if time.time() - t > seconds:
                return -99
            time.sleep(0.002)
    finally:
        with contextlib.suppress(OSError):
            os.killpg(pid, signal.SIGKILL)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Runner:
    """Replays one history in a scratch directory and records what the benchmarking code did."""

    def __init__(self, codes, where):
        self.codes = codes
        self.dir = where
        os.makedirs(where, exist_ok=True)
        self.cwd = os.getcwd()
        os.chdir(where)
        os.mkdir("deeper")
        open("notes.txt", "w").close()
        self.nlog = 0
        self.bench = {}
        self.circ = circuit()
        self.name = [self.new(b).filename for b in range(len(codes))]
        import numpy as np
        np.savez("deeper/" + self.name[0], d=(1, 1), T=1, physical_error_rates=[], logical_error_rates=[])

    def done(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def new(self, b, want=0, order=()):
        from qtcodes import TopologicalBenchmark
        d, T = self.codes[b]
        dec = Stub(tuple(d), T, os.path.join(self.dir, "log%d" % self.nlog))
        self.bench[b] = TopologicalBenchmark(decoder=dec, circ=self.circ, noise_model_func=Noise(order),
                                             correct_logical_value=want)
        return self.bench[b]

    def obj(self, b, want=None, order=None):
        """The code's long-lived benchmark, set up for this event."""
        self.nlog += 1
        o = self.bench[b]
        o.decoder.log = os.path.join(self.dir, "log%d" % self.nlog)
        if want is not None:
            o.correct_logical_value = want
        o.noise_model_func = Noise(order or ())
        return o

    def runs(self, shots, want):
        out = []
        for p in sorted(glob.glob(os.path.join(self.dir, "log%d.*" % self.nlog))):
            cur = None
            for line in open(p):
                if not line.endswith("\n") or len(line.split()) != 3:
                    continue
                r, e, v = map(int, line.split())
                if cur is None or cur[:2] != [r, e] or cur[2] == shots:
                    cur = [r, e, 0, 0]
                    out.append(cur)
                cur[2] += 1
                cur[3] += v != want
            os.unlink(p)
        return out

    def observe(self):
        import numpy as np
        out = []
        for b, name in enumerate(self.name):
            o = dict(there=os.path.exists(name), ok=False, dh=0, dw=0, t=0, ps=[], ls=[])
            if o["there"]:
                try:
                    with np.load(name) as f:
                        d = f["d"]
                        o.update(dh=int(d[0]), dw=int(d[1]), t=int(f["T"]), ps=[pid_of(x) for x in f["physical_error_rates"]],
                                 ls=[lid_of(x) for x in f["logical_error_rates"]], ok=True)
                except Exception:
                    o["ok"] = False
            out.append(o)
        return out

    # --- events
    def run(self, a):
        ev = {k: v for k, v in a.items()}
        with quiet():
            getattr(self, "do_" + a["k"])(a, ev)
        ev["files"] = self.observe()
        return ev

    def do_append(self, a, ev):
        o = self.obj(a["b"])
        if a["via"] == "fresh":
            o = self.new(a["b"])
        if a["via"] == "child":
            rc = in_child(lambda: o.append_data(RATES[a["p"] - 1], a["l"] / UNIT))
            ev["out"] = "ok" if rc == 0 else "process ended with %d" % rc
        else:
            ev["out"], _ = guarded(lambda: o.append_data(RATES[a["p"] - 1], a["l"] / UNIT))

    def lines_of(self, fn, only):
        """How many lines an undisturbed call executes (measured in a copy of the directory)."""
        r, w = os.pipe()

        def count():
            tmp = self.dir + ".count"
            shutil.copytree(self.dir, tmp)
            os.chdir(tmp)
            tr, left = _trace(10 ** 9, lambda: None, only)
            sys.settrace(tr)
            try:
                fn()
            finally:
                sys.settrace(None)
                os.write(w, b"%d" % (10 ** 9 - left[0]))
        rc = in_child(count)
        os.close(w)
        s = os.read(r, 64)
        os.close(r)
        shutil.rmtree(self.dir + ".count", ignore_errors=True)
        return int(s or b"0")

    def do_crash(self, a, ev):
        o = self.obj(a["b"])
        call = lambda: o.append_data(RATES[a["p"] - 1], a["l"] / UNIT)
        if a["how"] == "bytes":
            size = os.path.getsize(self.name[a["b"]]) if os.path.exists(self.name[a["b"]]) else 900
            n = a["n"] if "n" in a else a["at"] * (size + 100) // 1000

            def fn():
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                call()
        else:
            only = a.get("only", a["at"] % 2 == 0)
            n = a["n"] if "n" in a else 1 + a["at"] * (self.lines_of(call, only) + 2) // 1000

            def fn():
                sys.settrace(_trace(n, lambda: os._exit(9), only)[0])
                call()
        ev["out"] = "exit %d" % in_child(fn)
        ev["n"] = n

    def do_fail(self, a, ev):
        o = self.obj(a["b"])
        call = lambda: o.append_data(RATES[a["p"] - 1], a["l"] / UNIT)
        if a["how"] == "files":
            n = a["n"]
            with no_files_left(n):
                ev["out"], _ = guarded(call)
        elif a["how"] == "disk":
            size = os.path.getsize(self.name[a["b"]]) if os.path.exists(self.name[a["b"]]) else 900
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            n = a["n"] if "n" in a else a["at"] * (size + 100) // 1000
            old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
            try:
                ev["out"], _ = guarded(call)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                signal.signal(signal.SIGXFSZ, old)
        else:
            only = a.get("only", a["at"] % 2 == 0)
            n = a["n"] if "n" in a else 1 + a["at"] * (self.lines_of(call, only) + 2) // 1000

            kind = a.get("exc", n) % 3

            def boom():
                raise Killed() if kind == 0 else MemoryError() if kind == 1 or not only else OSError(5, "Input/output error")
            try:
                sys.settrace(_trace(n, boom, only)[0])
                call()
                ev["out"] = "ok"
            except BaseException as e:
                ev["out"] = type(e).__name__
            finally:
                sys.settrace(None)
        ev["n"] = n

    def do_single(self, a, ev):
        o = self.obj(a["b"], a["want"])
        ev["out"], ret = guarded(lambda: o.single(RATES[a["p"] - 1], save_data=a["save"], **self.shots_arg(a)))
        ev["ret"] = lid_of(ret)
        ev["runs"] = self.runs(a["shots"], a["want"])

    def shots_arg(self, a):
        return {} if a["shots"] == 2048 else {"shots": a["shots"]}          # 2048 is the default

    def rates_arg(self, a):
        import numpy as np
        ps = [RATES[p - 1] for p in a["ps"]]
        return {"list": list, "tuple": tuple, "array": np.array, "none": lambda x: None}[a.get("form", "list")](ps)

    def do_sweep(self, a, ev, mp=False):
        order = [a["ps"][i - 1] for i in a.get("order", [])] if mp else ()
        o = self.obj(a["b"], a["want"], order)
        arg = self.rates_arg(a)
        before = None if arg is None else list(arg)
        kw = dict(save_data=a["save"], **self.shots_arg(a))
        if not mp:
            kw["deg_weight"] = a["deg"]
        ev["out"], _ = guarded(lambda: (o.sweep_mp if mp else o.sweep)(arg, **kw), 60)
        ev["intact"] = arg is None or list(arg) == before
        try:
            ev["mem"] = dict(ps=[pid_of(x) for x in o.data["physical_error_rates"]],
                             ls=[lid_of(x) for x in o.data["logical_error_rates"]])
        except Exception:
            ev["mem"] = dict(ps=[-1], ls=[-1])
        ev["runs"] = self.runs(a["shots"], a["want"])

    def do_mp(self, a, ev):
        self.do_sweep(a, ev, True)

    def do_killsweep(self, a, ev):
        o = self.obj(a["b"], a["want"])
        ps = [RATES[p - 1] for p in a["ps"]]
        call = lambda: (o.sweep_mp if a["mp"] else o.sweep)(ps, save_data=True, shots=a["shots"])
        n = 1 + a["at"] * (20 + 8 * len(ps)) // 1000 if a["mp"] else 1 + a["at"] * (30 + 75 * len(ps)) // 1000

        def fn():
            sys.settrace(_trace(n, lambda: os._exit(9), True)[0])
            call()
        ev["out"] = "exit %d" % in_child(fn)
        ev["n"] = n
        ev["runs"] = self.runs(a["shots"], a["want"])

    def do_put(self, a, ev):
        import numpy as np
        d, T = self.codes[a["b"]]
        np.savez(self.name[a["b"]], d=tuple(d), T=T, physical_error_rates=np.array([RATES[p - 1] for p in a["ps"]]),
                 logical_error_rates=np.array([l / UNIT for l in a["ls"]]))

    def shown(self, an):
        return dict(dh=int(an.params["d"][0]), dw=int(an.params["d"][1]), t=int(an.params["T"]),
                    ps=[pid_of(x) for x in an.data["physical_error_rates"]],
                    ls=[lid_of(x) for x in an.data["logical_error_rates"]])

    def do_load(self, a, ev):
        from qtcodes import TopologicalAnalysis

        def go():
            an = TopologicalAnalysis(self.name[a["b"]])
            an.load_data()
            return self.shown(an)
        ev["out"], ev["a"] = guarded(go)
        ev["a"] = ev["a"] or {}

    def line(self, ln, T):
        xs, ys = list(ln.get_xdata()), list(ln.get_ydata())
        return dict(xs=[pid_of(x) for x in xs], yplain=[lid_of(y) for y in ys], yround=[lid_of(y * T) for y in ys],
                    diagonal=len(xs) == len(ys) and all(x == y for x, y in zip(xs, ys)))

    def do_plot(self, a, ev):
        import matplotlib.pyplot as plt
        from qtcodes import TopologicalAnalysis
        plt.close("all")
        T = self.codes[a["b"]][1]

        def go():
            an = TopologicalAnalysis(self.name[a["b"]])
            an.load_data()
            kw = {}
            fig = ax = None
            if a["ax"] != "none":
                fig = plt.figure()
                kw["fig"] = fig
            if a["ax"] in ("both", "other"):
                axs = fig.subplots(1, 2)
                ax = kw["ax"] = axs[0]
                plt.sca(axs[1] if a["ax"] == "other" else axs[0])
            if a["ax"] == "other":
                plt.figure().subplots()
            an.plot(log=a["log"], per_round=a["round"], **kw)
            every = [x for n in plt.get_fignums() for x in plt.figure(n).axes]
            if ax is None:
                mine = [x for x in every if x.lines and (fig is None or x.figure is fig)]
                ax = mine[0] if mine else every[0]
            ev["lines"] = [self.line(x, T) for x in ax.lines]
            ev["stray"] = sum(len(x.lines) for x in every if x is not ax)
            ev["xlog"], ev["ylog"] = ax.get_xscale() == "log", ax.get_yscale() == "log"
        ev["lines"], ev["stray"], ev["xlog"], ev["ylog"] = [], 0, False, False
        ev["out"], _ = guarded(go)
        plt.close("all")

    def do_batch(self, a, ev):
        import matplotlib.pyplot as plt
        from qtcodes import TopologicalBatchAnalysis
        plt.close("all")
        ev["figs"], ev["as"] = [], []

        def go():
            ba = TopologicalBatchAnalysis(self.dir + "/" + ("d_" if a.get("pre") else ""))
            ev["as"] = []
            for an in ba.analyses:
                s = self.shown(an)
                base = os.path.relpath(an.filename, self.dir)
                s["name"] = self.name.index(base) if base in self.name else -1
                ev["as"].append(s)
            if a["plot"]:
                ba.plot()
                for n in plt.get_fignums():
                    for ax in plt.figure(n).axes:
                        ev["figs"].append(dict(xlog=ax.get_xscale() == "log", ylog=ax.get_yscale() == "log",
                                               lines=[self.line(x, 1) for x in ax.lines]))
                for p in glob.glob("*.png"):
                    os.unlink(p)
        ev["out"], _ = guarded(go)
        plt.close("all")


CODESETS = [[((3, 3), 1), ((5, 3), 2)], [((3, 5), 2), ((11, 1), 4), ((9, 3), 1)], [((1, 5), 3), ((3, 3), 3)],
            [((5, 5), 2), ((3, 3), 2), ((7, 7), 2), ((13, 1), 6)],
            # codes that differ in little: sides swapped, the same digits, the same number of qubits
            [((3, 5), 2), ((5, 3), 2), ((15, 1), 2), ((1, 15), 2)],
            [((1, 11), 1), ((11, 1), 1), ((1, 1), 11), ((1, 1), 1), ((11, 1), 11)], [((3, 3), 1), ((9, 1), 1), ((3, 3), 11), ((3, 31), 1), ((33, 1), 1)]]


def _replay(job):
    tid, codes, acts = job
    r = Runner(codes, os.path.join(Scratch.dir(), "h_%s_%d" % (tid, os.getpid())))
    try:
        ev = []
        for a in acts:
            ev.append(r.run(a))
            if ev[-1].get("out") == "Timeout":
                break
    finally:
        r.done()
    return dict(id=tid, codes=[dict(dh=d[0], dw=d[1], t=T) for d, T in codes], ev=ev)


def replay(jobs, procs=None):
    import multiprocessing as mp
    import qtcodes, matplotlib.pyplot, qiskit_aer                          # loaded once, before forking
    Scratch.dir()
    with ProcessPoolExecutor(procs or WORKERS, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(_replay, jobs))


def judge(chk, traces, jobs, clauses, part):
    r = tlc_traces("BenchTrace", data=dict(traces=traces, unit=UNIT, clauses=clauses))
    acc = [unq(tla_fields(p)[0]) for p in r.accepts]
    rej = [(unq(f[0]), int(f[1]), unq(f[2])) for f in map(tla_fields, r.rejects)]
    if len(acc) + len(rej) != len(traces):
        raise MachineryError("TLC decided %d of %d traces\n%s" % (len(acc) + len(rej), len(traces), r.out[-3000:]))
    by = {j[0]: j for j in jobs}
    for tid, step, why in rej:
        ev = next(t for t in traces if t["id"] == tid)["ev"][step - 1]
        call = {k: v for k, v in ev.items() if k not in ("files", "vals")}
        chk.violate("%s: step %d %s: %s" % (tid, step, json.dumps(call)[:600], why), dict(history=by[tid], step=step, why=why, event=ev))
    chk.add(r, validated=len(acc), part=part)
    return rej


def histories(num, length, kinds, nb, salt, maxrates=4, shots=(8, 16, 20, 24)):
    r = tlc("BenchGen", data=dict(kinds=list(kinds), nb=nb, np=len(RATES), unit=UNIT, shots=list(shots), maxrates=maxrates, len=length),
            workers=1, tag="bgen", args=["-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(SEED * 7919 + salt)])
    hs = gen._parse(r)
    if len(hs) < num * .5:
        raise MachineryError("history generation failed:\n" + r.out[-2000:])
    return hs[:num]


def jobs_of(num, length, kinds, salt, **kw):
    out = []
    for n, codes in enumerate(CODESETS):
        k = (num + len(CODESETS) - 1 - n) // len(CODESETS)
        for i, h in enumerate(histories(k, length, kinds, len(codes), salt * 10 + n, **kw) if k else []):
            out.append(("h%d.%d.%d" % (salt, n, i), codes, h))
    return out


def run_histories(chk, jobs, clauses, part, procs=None):
    traces = replay(jobs, procs)
    for t in traces[:1] + traces[-2:]:
        chk.sample({"id": t["id"], "events": [{k: v for k, v in e.items() if k in ("k", "b", "p", "l", "ps", "how", "n", "save", "out")}
                                             for e in t["ev"]][:6]})
    counts = {}
    for t in traces:
        for e in t["ev"]:
            counts[e["k"]] = counts.get(e["k"], 0) + 1
    chk.notes["events"] = {k: chk.notes.get("events", {}).get(k, 0) + counts.get(k, 0)
                           for k in set(counts) | set(chk.notes.get("events", {}))}
    judge(chk, traces, jobs, clauses, part)


INTS = (int, int, int, np.int64, np.uint8, bool, np.bool_)                    # how a logical value may be given


# --- C20 ------------------------------------------------------------------------------------------------------
def _rates(job):
    """One code: random result strings, judged against decoding each string with a decoder built for it alone."""
    from qtcodes import TopologicalBenchmark
    from decode_checks import make
    from parse_checks import num_syn
    code, T, seed, n = job
    r = rng("c20", code, T, seed)
    nx, nz = num_syn(code[1])
    evs, acts = [], []
    bm, pool = None, []
    for i in range(n):
        err = r.choice([None, None, 0.01, 0.2, 0.001])
        want = r.choice([0, 1])
        strings = {}
        for _ in range(r.choice([1, 2, 3, 6, 12, 30])):
            weights = [(0.1, 0.5), (0.02, 0.05)][r.randrange(2)]
            p = r.choice(weights)
            parts = ["".join("1" if r.random() < p else "0" for _ in range(nx + nz)) for _ in range(T)]
            lat = r.random() < .4
            head = "".join("1" if r.random() < .3 else "0" for _ in range(code[1][0] * code[1][1])) if lat else r.choice("01")
            s = " ".join([head] + parts)
            if pool and r.random() < .5:
                s = r.choice(pool)                                     # asked before, perhaps with another probability
            pool.append(s)
            strings[s] = r.choice([1, 1, 2, 7, 100, 1023, 0])
        if sum(strings.values()) == 0:
            strings[next(iter(strings))] = 3
        fresh = make(code, T)
        vals, o = [], "ok"
        for s, c in strings.items():
            oo, v = guarded(lambda: make(code, T).correct_readout(s, "Z", err_prob=err), 120)
            if oo != "ok":
                o = oo
            vals.append([v if v in (0, 1) else -1, c])
        if o != "ok":
            continue                      # decoding itself fails: C13-C17's business
        if bm is None or r.random() < .2:
            bm = TopologicalBenchmark(decoder=fresh, circ=None, correct_logical_value=want)
        bm.correct_logical_value = r.choice(INTS)(want)
        arg = dict(strings)
        out, rate = guarded(lambda: bm.logical_error_rate(arg, err_prob=err) if err is not None or r.random() < .5
                            else bm.logical_error_rate(arg), 120)
        tot = sum(strings.values())
        num = round(float(rate) * tot) if out == "ok" else 0
        evs.append(dict(k="rate", out=out, vals=vals, want=want, num=num,
                        exact=out == "ok" and abs(float(rate) * tot - num) < 1e-6, text=str(rate),
                        intact=list(arg.items()) == list(strings.items()), files=[]))
        acts.append(dict(strings=strings, err=err, want=want))
    return "%s-%dx%d-T%d-%d" % (code[0], code[1][0], code[1][1], T, seed), evs, acts


class Fixed:
    """A decoder whose answers are given; it answers for the right type and error probability only."""

    def __init__(self, table, err):
        self.params = {"d": (3, 3), "T": 1}
        self.table, self.err = table, err

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        if err_prob != self.err or logical_readout_type != "Z":
            raise AssertionError("asked with %r, %r" % (logical_readout_type, err_prob))
        return self.table[syndromes]


def c20():
    from qtcodes import TopologicalBenchmark
    chk = Check("C20")
    codes = [("XXZZ", (3, 3), False), ("XZZX", (3, 3), False), ("XXZZ", (3, 5), False), ("Repetition", (3, 1), False),
             ("Repetition", (7, 1), False), ("XZZX", (5, 3), False), ("XXZZ", (3, 1), False), ("XXZZ", (5, 5), False), ("XZZX", (3, 5), False), ("Repetition", (11, 1), False), ("XZZX", (7, 7), False)]
    jobs = [(c, T, s, 12 if not THOROUGH else 40) for c in codes for T in (1, 2, 3) for s in range(3 if not THOROUGH else 10)
            if c[1][0] * c[1][1] * T <= 50]
    traces, js = [], []
    for tid, ev, acts in pmap(_rates, jobs):
        if ev:
            traces.append(dict(id=tid, codes=[], ev=ev))
            js.append((tid, "code", acts))
    # decoders with given answers: every small table of values and counts
    r = rng("c20fixed")
    n = 0
    for size in (1, 2, 3):
        for vals in itertools.product([0, 1], repeat=size):
            for want in (0, 1):
                evs, acts = [], []
                for counts in itertools.product([0, 1, 2, 5], repeat=size) if size < 3 else [[r.randrange(1, 2000) for _ in range(3)] for _ in range(4)]:
                    if not sum(counts):
                        continue
                    err = r.choice([None, .1, .003, 0.0])
                    strings = {"%d %08d" % (i % 2, i): c for i, c in enumerate(counts)}
                    as_int = r.choice(INTS)
                    dec = Fixed({s: as_int(v) for s, v in zip(strings, vals)}, err)
                    bm = TopologicalBenchmark(decoder=dec, circ=None, correct_logical_value=r.choice(INTS)(want))
                    arg = dict(strings)
                    out, rate = guarded(lambda: bm.logical_error_rate(arg, err) if err is not None else bm.logical_error_rate(arg))
                    tot = sum(counts)
                    num = round(float(rate) * tot) if out == "ok" else 0
                    evs.append(dict(k="rate", out=out, vals=[[v, c] for v, c in zip(vals, counts)], want=want, num=num,
                                    exact=out == "ok" and abs(float(rate) * tot - num) < 1e-6, text=str(rate),
                                    intact=arg == strings, files=[]))
                    acts.append(dict(strings=strings, values=vals, want=want, err=err))
                traces.append(dict(id="fixed%d" % n, codes=[], ev=evs))
                js.append(("fixed%d" % n, "given answers", acts))
                n += 1
    # many strings, large counts; the same strings asked again on one benchmark with other probabilities, answers and wanted values
    from qiskit.result import Counts
    for n in range(24 if not THOROUGH else 200):
        r = rng("c20many", n)
        size = r.choice([5, 20, 64, 128, 300, 700])
        pool = ["%d %s %s" % (r.randrange(2), format(r.getrandbits(8), "08b"), format(i, "010b")) for i in range(size)]
        dec = Fixed({}, None)
        bm = TopologicalBenchmark(decoder=dec, circ=None, correct_logical_value=r.randrange(2))
        evs, acts = [], []
        for _ in range(6):
            top = r.choice([1, 3, 2048, 10 ** 6 // size])
            keep = r.choice([1, .5, .05])
            strings = {s: r.randrange(top + 1) for s in r.sample(pool, max(1, int(keep * size)))}
            strings[pool[0]] = strings.get(pool[0], 0) + 1
            bias = r.choice([0, .02, .5, .98, 1])
            dec.table = {s: int(r.random() < bias) for s in pool}
            dec.err = r.choice([None, 0.0, .1, .003, .25])
            want = r.choice([0, 1])
            bm.correct_logical_value = r.choice(INTS)(want)
            arg = Counts(strings) if r.random() < .3 else dict(strings)
            before = list(arg.items())
            out, rate = guarded(lambda: bm.logical_error_rate(arg, err_prob=dec.err) if dec.err is not None or r.random() < .5
                                else bm.logical_error_rate(arg))
            tot = sum(strings.values())
            num = round(float(rate) * tot) if out == "ok" else 0
            evs.append(dict(k="rate", out=out, vals=[[dec.table[s], c] for s, c in strings.items()], want=want,
                            num=num, exact=out == "ok" and abs(float(rate) * tot - num) < 1e-6, text=str(rate),
                            intact=list(arg.items()) == before, files=[]))
            acts.append(dict(strings=strings, values=dec.table, want=want, err=dec.err))
        traces.append(dict(id="many%d" % n, codes=[], ev=evs))
        js.append(("many%d" % n, "given answers", acts))
    chk.notes["rates_judged"] = sum(len(t["ev"]) for t in traces)
    for t in traces[:3]:
        chk.sample(dict(id=t["id"], first=t["ev"][0]))
    judge(chk, traces, js, ["rate"], "rates")
    return chk


# --- C21 ------------------------------------------------------------------------------------------------------
def c21():
    chk = Check("C21")
    save_model(chk)
    q = not THOROUGH
    jobs = jobs_of(16 if q else 160, 6, ["sweep"] * 4 + ["single"], 1, maxrates=5)
    jobs += jobs_of(16 if q else 120, 4, ["mp"] * 3 + ["single", "sweep"], 2, maxrates=4)
    jobs += jobs_of(8 if q else 60, 3, ["sweep", "sweep", "mp", "mp", "single"], 6, maxrates=13, shots=(8, 20, 96, 560))
    jobs += jobs_of(8 if q else 40, 12, ["sweep", "single", "single", "append", "mp"], 7, maxrates=3, shots=(8, 16))
    jobs += jobs_of(4 if q else 24, 3, ["sweep", "mp", "single"], 8, maxrates=2, shots=(1680, 2048))
    # runs of many shots, of every kind, saved and not
    for n, shots in enumerate((2048, 2560, 4096 + 1024, 3360, 10240, 26880)):
        kinds = [dict(k="single", b=0, p=4 + n % 5, save=True, shots=shots, want=n % 2),
                 dict(k="single", b=1, p=3 + n % 5, save=False, shots=shots, want=1 - n % 2),
                 dict(k="mp", b=0, ps=[6, 2 + n % 3], order=[], save=n % 2 == 0, shots=shots, want=0, form="list"),
                 dict(k="sweep", b=0, ps=[8, 3 + n % 3], order=[], save=n % 2 == 1, deg=n % 3 > 0, shots=shots, want=1, form="tuple")]
        if shots > 6000:
            kinds = kinds[:2] + kinds[2 + n % 2:3 + n % 2]
        jobs += [("s%d-%d" % (n, j), CODESETS[0], [k]) for j, k in enumerate(kinds)]
    # every order of completion of three and four rates; default rates; all orders of the caller's list
    perms = []
    for m in (3, 4) if not q else (3,):
        for n, order in enumerate(itertools.permutations(range(1, m + 1))):
            perms.append(dict(k="mp", b=0, ps=[2, 5, 7, 9][:m], order=list(order), save=n % 2 == 0, shots=16, want=0))
    for n, ps in enumerate(itertools.permutations([3, 6, 8])):
        perms.append(dict(k="sweep", b=1, ps=list(ps), save=n % 2 == 0, shots=8, want=1, deg=n % 3 == 0, form="list"))
    default = [pid_of(p) for p in (0.04, 0.07, 0.10, 0.13, 0.16)]
    perms.append(dict(k="sweep", b=0, ps=default, form="none", save=False, shots=8, want=0, deg=True))
    perms.append(dict(k="mp", b=0, ps=default, form="none", save=True, shots=8, want=0, order=[]))
    for i in range(0, len(perms), 4):
        jobs.append(("o%d" % i, CODESETS[0], perms[i:i + 4]))
    run_histories(chk, jobs, ["sweep"], "sweeps", procs=6)
    return chk


# --- C22 ------------------------------------------------------------------------------------------------------
def save_model(chk):
    """The design of saving, exhaustively; two broken designs must be rejected."""
    r = tlc("SaveModel")
    if r.violated or r.rc != 0:
        raise MachineryError("SaveModel: %s\n%s" % (r.violated, r.out[-2000:]))
    chk.add(r, part="SaveModel")
    for cfg in ("SaveInPlace.cfg", "SaveEach.cfg"):
        b = tlc("SaveModel", cfg=cfg)
        if not b.violated:
            raise MachineryError("%s: the broken design was not rejected" % cfg)
    if THOROUGH:
        r = tlc("SaveModel", cfg="SaveModelBig.cfg", timeout=1500)
        if r.violated or r.rc != 0:
            raise MachineryError("SaveModel: %s\n%s" % (r.violated, r.out[-2000:]))
        chk.add(r, part="SaveModelBig")


def crash_jobs():
    """A crash or failure at every point of a save: on no file, on a file with points, and after an earlier crash."""
    A = lambda p, l, b=0, via="here": dict(k="append", b=b, p=p, l=l, via=via)
    jobs = []
    probe = Runner(CODESETS[0], os.path.join(Scratch.dir(), "probe"))
    try:
        with quiet():
            n_new = [probe.lines_of(lambda: probe.bench[0].append_data(.1, 0), only) for only in (True, False)]
            probe.bench[0].append_data(.1, .1)
            n_old = [probe.lines_of(lambda: probe.bench[0].append_data(.1, 0), only) for only in (True, False)]
            size = os.path.getsize(probe.name[0]) if os.path.exists(probe.name[0]) else 900
    finally:
        probe.done()
    r = rng("c22")
    pts = []
    for n in range(1, n_old[0] + 2):
        pts.append(dict(how="line", only=True, n=n))
    step = max(1, n_old[1] // (150 if not THOROUGH else 2500))
    for n in range(1 + r.randrange(step), n_old[1] + 2, step):
        pts.append(dict(how="line", only=False, n=n))
    for n in range(0, size + 60, 20 if not THOROUGH else 7):
        pts.append(dict(how="bytes", n=n))
    i = 0
    for pt in pts:
        c = dict(k="crash", b=0, p=3, l=7, at=0, **pt)
        pre = [[A(5, 1), A(2, 4)], [A(5, 1), A(1, 30, 1)], []][i % 3 if i % 5 else 0]
        jobs.append(("c%d" % i, CODESETS[0], pre + [c, A(4, 9, 0, ["here", "fresh", "child"][i % 3]), A(1, 2)]))
        if i % 3 == 0:
            jobs.append(("cc%d" % i, CODESETS[0], pre + [c, dict(c, p=7, l=11), A(4, 9), A(4, 9)]))
        how = "disk" if pt["how"] == "bytes" else "interrupt"
        jobs.append(("f%d" % i, CODESETS[0], pre + [dict(c, k="fail", how=how), A(4, 9), A(3, 7)]))
        if pt.get("only"):
            for exc in (0, 1, 2):
                jobs.append(("x%d-%d" % (i, exc), CODESETS[0], [[A(5, 1), A(2, 4)], [A(5, 1)], []][exc if i % 3 else 0] +
                             [dict(c, k="fail", how="interrupt", exc=exc), A(4, 9)]))
        i += 1
    for n in range(1, 9):
        for j, pre in enumerate(([A(5, 1), A(2, 4)], [A(5, 1)], [])):
            c = dict(k="fail", b=0, p=3, l=7, at=0, how="files", n=n)
            jobs.append(("o%d-%d" % (n, j), CODESETS[0], pre + [c, A(4, 9, 0, ["here", "fresh", "child"][(n + j) % 3]), c, A(1, 2)]))
    return jobs


def c22():
    chk = Check("C22")
    save_model(chk)
    q = not THOROUGH
    jobs = crash_jobs()
    jobs += jobs_of(24 if q else 200, 9, ["append"] * 4 + ["crash", "crash", "fail", "single", "sweep"], 3, maxrates=3)
    jobs += jobs_of(16 if q else 120, 5, ["mp", "mp", "append", "crash", "killsweep", "killsweep", "sweep", "single"], 4, maxrates=3)
    jobs += jobs_of(8 if q else 60, 40, ["append"] * 8 + ["crash", "fail", "single", "sweep", "append"], 9, maxrates=5)
    jobs += jobs_of(4 if q else 40, 12, ["mp", "append", "append", "sweep", "killsweep", "single"], 10, maxrates=9)
    r = rng("c22many")
    for n in range(4 if q else 30):                                     # files that hold many points already
        m = [60, 30, 130, 255, 500][n % 5]
        put = dict(k="put", b=0, ps=sorted(r.randrange(1, len(RATES) + 1) for _ in range(m)), ls=[r.randrange(UNIT) for _ in range(m)])
        jobs.append(("n%d" % n, CODESETS[0], [put] + [dict(k="append", b=0, p=r.randrange(1, len(RATES) + 1), l=r.randrange(UNIT), via=v)
                                                      for v in ("here", "fresh", "child", "here")]
                     + [dict(k="sweep", b=0, ps=[3, 15, 1], save=True, deg=True, shots=8, want=0, form="list", order=[]),
                        dict(k="append", b=1, p=2, l=7, via="here")]))
    for n in range(3 if q else 12):                                     # a file is replaced by another of the same size
        A = lambda via="here": dict(k="append", b=0, p=r.randrange(1, len(RATES) + 1), l=r.randrange(UNIT), via=via)
        put = lambda m: dict(k="put", b=0, ps=sorted(r.randrange(1, len(RATES) + 1) for _ in range(m)), ls=[r.randrange(UNIT) for _ in range(m)])
        jobs.append(("s%d" % n, CODESETS[0], [A(), A(), put(2), A(), put(3), A(["here", "fresh", "here"][n % 3]), put(4), put(4), A(), A()]))
    for n in range(6 if q else 60):                                     # points that occur again, in every place of the file
        few = [(r.randrange(1, len(RATES) + 1), r.choice([0, 0, 7, UNIT - 1])) for _ in range(3)]
        few += [(few[0][0], 3), (few[1][0], few[0][1])]
        jobs.append(("e%d" % n, CODESETS[0], [dict(k="append", b=0, p=p, l=l, via=["here", "here", "fresh", "child"][r.randrange(4)])
                                              for p, l in (r.choice(few) for _ in range(12)) for _ in range(r.choice([1, 1, 2]))]))
    for n, order in enumerate(itertools.permutations([1, 2, 3])):
        jobs.append(("m%d" % n, CODESETS[0], [dict(k="append", b=0, p=5, l=3, via="here"),
                                              dict(k="mp", b=0, ps=[2, 5, 8], order=list(order), save=True, shots=16, want=0),
                                              dict(k="append", b=0, p=2, l=1, via="fresh")]))
    for n, codes in enumerate(CODESETS):                                # every code of a set saves, twice, in turn
        acts = [dict(k="append", b=b, p=1 + (b + 3 * i) % len(RATES), l=b + 7 * i, via=["here", "fresh", "child"][(b + i) % 3])
                for i in range(2) for b in range(len(codes))]
        jobs.append(("t%d" % n, codes, acts))
    run_histories(chk, jobs, ["file"], "saves")
    chk.assumptions.append("a process death stops the process between two executed lines or during a write; the operating system "
                           "keeps what was written (no power loss)")
    return chk


# --- C23 ------------------------------------------------------------------------------------------------------
def c23():
    chk = Check("C23")
    q = not THOROUGH
    jobs = jobs_of(40 if q else 400, 8, ["append", "put", "put", "load", "plot", "plot", "batch"], 5, maxrates=6)
    sets = [((3, 3), 1), ((11, 1), 2), ((5, 3), 3), ((1, 9), 2), ((9, 9), 1)]
    i = 0
    for order in itertools.permutations(range(4)) if q else itertools.permutations(range(5)):
        r = rng("c23", i)
        acts = []
        for b in order:
            n = r.randrange(1, 5)
            acts.append(dict(k="put", b=b, ps=[r.randrange(1, len(RATES) + 1) for _ in range(n)], ls=[r.randrange(49) for _ in range(n)]))
        acts += [dict(k="batch", plot=i % 6 == 0, pre=i % 2 == 1)]
        jobs.append(("b%d" % i, sets, acts))
        i += 1
    many = [((h, w), T) for h, w, T in [(3, 3, 1), (3, 3, 2), (3, 3, 11), (3, 5, 1), (5, 3, 1), (5, 5, 4), (7, 1, 1), (1, 7, 1), (9, 9, 10),
                                          (11, 3, 2), (13, 13, 1), (101, 1, 1), (15, 3, 100), (25, 25, 5), (7, 7, 7), (5, 5, 40)]]
    for n in range(4 if q else 40):
        r = rng("c23many", n)
        acts = []
        for b in r.sample(range(len(many)), len(many) - n % 3):
            m = r.choice([1, 2, 5, 12, 40])
            ps = [r.randrange(1, len(RATES) + 1) for _ in range(m)]
            acts.append(dict(k="put", b=b, ps=sorted(ps) if r.random() < .5 else ps, ls=[r.randrange(UNIT + 1) for _ in range(m)]))
        last = acts[-1]["b"]
        acts += [dict(k="batch", plot=n % 4 == 0, pre=n % 2 == 1), dict(k="load", b=last)]
        acts += [dict(k="plot", b=a["b"], log=n % 2 == 0, round=r.random() < .7, ax=r.choice(["none", "fig", "both", "other"])) for a in acts[:4]]
        acts += [dict(k="append", b=last, p=3, l=77, via="here"), dict(k="load", b=last), dict(k="batch", plot=False)]
        jobs.append(("y%d" % n, many, acts))
    i = 0
    for log in (True, False):
        for rnd in (True, False):
            for ax in ("none", "fig", "both", "other"):
                jobs.append(("p%d" % i, sets, [dict(k="put", b=2, ps=[4, 2, 9], ls=[3, 9, 27]),
                                               dict(k="plot", b=2, log=log, round=rnd, ax=ax)]))
                i += 1
    run_histories(chk, jobs, ["show"], "analyses")
    return chk


CHECKS = dict(C20=c20, C21=c21, C22=c22, C23=c23)

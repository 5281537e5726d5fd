"""Runs API histories on the real qtcodes.circuits and records what they emit."""
import copy
import zlib
import numpy as np
from common import deadline, Timeout
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Clbit
from qtcodes.circuits.xxzz import XXZZQubit
from qtcodes.circuits.xzzx import XZZXQubit
from qtcodes.circuits.repetition import RepetitionQubit
from qtcodes.circuits.circ import TopologicalRegister, TopologicalCircuit

TYPES = {"XXZZ": XXZZQubit, "XZZX": XZZXQubit, "Repetition": RepetitionQubit}
KNOWN = {"h", "x", "y", "z", "s", "sdg", "cx", "cz", "swap", "measure", "reset"}
SKIP = {"barrier", "delay"}
REWRITE = {"sx": ["h", "s", "h"], "sxdg": ["h", "sdg", "h"]}
OFFSET = 10000
CALL_SECONDS = 60


def dspec(d):
    """How a request spells its dimensions, for the spec."""
    if d is None:
        return {"form": "none", "v": []}
    if isinstance(d, tuple):
        return {"form": "tuple", "v": [int(x) for x in d]}
    if isinstance(d, list):
        return {"form": "list", "v": [int(x) for x in d]}
    if isinstance(d, (int, float, np.integer, np.floating)):
        return {"form": "num", "v": [int(d)]}
    return {"form": "other", "v": []}


def le(v):
    """A number as a list of bits, least first."""
    return [] if v == 0 else [int(v) & 1] + le(int(v) >> 1)


class Rec:
    """Records the effect of calls on a set of circuits."""

    def __init__(self, tid):
        self.id = tid
        self.ev = []
        self.circs = []
        self.actions = []

    # numbering ------------------------------------------------------------
    def watch(self, circ):
        for k, c in enumerate(self.circs):
            if c is circ:
                return k
        self.circs.append(circ)
        return len(self.circs) - 1

    def qid(self, circ, q):
        return self.watch(circ) * OFFSET + circ.find_bit(q).index

    def bid(self, circ, b):
        return self.watch(circ) * OFFSET + circ.find_bit(b).index

    # lowering -------------------------------------------------------------
    def _lower(self, circ, op, qs, bs, cond, out):
        name = op.name
        if name in SKIP:
            return
        c = getattr(op, "condition", None)
        if name == "if_else":
            c, body, other = op.condition, op.blocks[0], (op.blocks[1] if len(op.blocks) > 1 else None)
            blocks = [(body, True)] + ([(other, False)] if other is not None else [])
            for blk, pos in blocks:
                cc = self._cond(circ, c)
                if not pos:
                    cc = (cc[0], 1 - cc[1]) if len(cc[0]) == 1 else None
                if cond is not None or cc is None:
                    out.append({"g": "nested-condition", "q": qs, "b": bs, "c": [], "v": []})
                    continue
                for inst in blk.data:
                    iq = [qs[blk.find_bit(q).index] for q in inst.qubits]
                    ib = [bs[blk.find_bit(b).index] for b in inst.clbits]
                    self._lower(circ, inst.operation, iq, ib, cc, out)
            return
        if c is not None:
            if cond is not None:
                name = "nested-condition"
            cond = self._cond(circ, c)
        bits, v = cond if cond is not None else ([], 0)
        if name in KNOWN or name == "id":
            out.append({"g": name, "q": qs, "b": bs, "c": bits, "v": le(v)})
        elif name in REWRITE:
            for g in REWRITE[name]:
                out.append({"g": g, "q": qs, "b": bs, "c": bits, "v": le(v)})
        elif name == "cy":
            for g, q in (("sdg", qs[1:]), ("cx", qs), ("s", qs[1:])):
                out.append({"g": g, "q": q, "b": bs, "c": bits, "v": le(v)})
        elif getattr(op, "definition", None) is not None and len(op.definition.data) > 0 \
                and not name.startswith(("u", "r", "p", "t")):
            d = op.definition
            for inst in d.data:
                iq = [qs[d.find_bit(q).index] for q in inst.qubits]
                ib = [bs[d.find_bit(b).index] for b in inst.clbits]
                self._lower(circ, inst.operation, iq, ib, cond, out)
        else:
            out.append({"g": name, "q": qs, "b": bs, "c": bits, "v": le(v)})

    def _cond(self, circ, c):
        reg, v = c
        bits = [reg] if isinstance(reg, Clbit) else list(reg)
        return [self.bid(circ, b) for b in bits], int(v)

    def _sig(self, circ):
        out = []
        for inst in circ.data:
            op = inst.operation
            c = getattr(op, "condition", None)
            out.append((op.name, tuple(map(float, [p for p in op.params if isinstance(p, (int, float))])),
                        tuple(circ.find_bit(q).index for q in inst.qubits),
                        tuple(circ.find_bit(b).index for b in inst.clbits),
                        None if c is None else (repr(c[0]), int(c[1]))))
        return out

    def _regs(self, circ):
        return [(r.name, r.size) for r in circ.qregs], [(r.name, r.size) for r in circ.cregs]

    def call(self, kind, fn, args=None, **fields):
        """Run fn(); record outcome and everything it appended to any watched circuit."""
        before = [(self._sig(c), self._regs(c), len(c.qubits), len(c.clbits)) for c in self.circs]
        saved = copy.deepcopy(args)
        res, out = None, "ok"
        try:
            with deadline(CALL_SECONDS):
                res = fn()
        except Timeout:
            out = "Timeout"
        except Exception as e:  # the outcome is judged by the spec
            out = type(e).__name__
        e = dict(k=kind, out=out, ins=[], all=[], nq=[], nc=[], prefix=True,
                 args=saved == args, **fields)
        for k, c in enumerate(self.circs):
            sig, (qr, cr) = self._sig(c), self._regs(c)
            bsig, (bq, bc) = ([], ([], []))
            if k < len(before):
                bsig, (bq, bc) = before[k][0], before[k][1]
            if sig[:len(bsig)] != bsig or qr[:len(bq)] != bq or cr[:len(bc)] != bc:
                e["prefix"] = False
            # only new instructions; if the prefix shrank, the tail is what is left
            low = []
            for inst in list(c.data)[len(bsig):]:
                self._lower(c, inst.operation, [self.qid(c, q) for q in inst.qubits],
                            [self.bid(c, b) for b in inst.clbits], None, low)
            e["ins"] += [x for x in low if x["g"] != "id"]
            e["all"] += low if kind in ("id", "id_data") else [x for x in low if x["g"] == "id"]
            e["nq"] += [{"n": r.name, "b": [self.qid(c, q) for q in r]} for r in c.qregs[len(bq):]]
            e["nc"] += [{"n": r.name, "b": [self.bid(c, b) for b in r]} for r in c.cregs[len(bc):]]
        self.ev.append(e)
        return res

    def note(self, kind, **fields):
        self.ev.append(dict(k=kind, **fields))

    def trace(self):
        return {"id": self.id, "ev": self.ev}


class World:
    """Interprets abstract actions (JSON) on the real library."""

    def __init__(self, tid):
        self.rec = Rec(tid)
        self.cname = "exp" if zlib.crc32(str(tid).encode()) % 2 else None     # the circuits of many experiments are called alike
        self.used = zlib.crc32(str(tid).encode()) // 2 % 4
        self.tq = {}          # number -> TopologicalQubit
        self.circs = {}       # circuit number -> QuantumCircuit
        self.uq, self.ub = {}, {}
        self.treg = self.tcirc = None
        self.params = {}      # shared parameter dictionaries by tag
        self.failed = False

    def circ(self, n=0):
        if n not in self.circs:
            self.circs[n] = QuantumCircuit(name=self.cname)
            self.rec.watch(self.circs[n])
        return self.circs[n]

    def run(self, actions):
        self.actions = actions
        for a in actions:
            getattr(self, "do_" + a["k"], self.do_op)(dict(a))
            if self.failed:
                break
        return self.rec.trace()

    def mkparams(self, a):
        d = a.get("d")
        if isinstance(d, dict):   # {"tuple":[..]} | {"list":[..]} | {"num":n} | {"np":n} | {"float":n} | {"str":s}
            (f, v), = d.items()
            d = {"tuple": lambda: tuple(v), "list": lambda: list(v), "num": lambda: v, "np": lambda: np.int64(v),
                 "float": lambda: float(v), "str": lambda: str(v), "nptuple": lambda: tuple(np.int64(x) for x in v),
                 "none": lambda: None, "set": lambda: {"v": v}}[f]()
        tag = a.get("shared")
        if tag is not None and tag in self.params:
            return self.params[tag], d
        p = {}
        if d is not None:
            p["d"] = d
        as_ = {"int": int, "np": np.bool_}.get(a.get("pf_as"), bool)
        if a.get("pf"):
            p["phase-flip-protected"] = as_(True)
        elif a.get("pf_explicit"):
            p["phase-flip-protected"] = as_(False)
        # a dictionary that served elsewhere: a decoder's, or the parameters of another lattice
        p.update([{}, {"T": 2}, {}, {"T": 3, "num_readout": 4, "num_lattice_readout": 1, "num_data": 9, "num_syn": (4, 4)}][self.used])
        if tag is not None:
            self.params[tag] = p
        return p, d

    # environment ------------------------------------------------------------
    def do_env(self, a):
        c = self.circ(a.get("circ", 0))
        nq, nc = [], []
        if a.get("q"):
            r = QuantumRegister(a["q"], a.get("qname", "user"))
            c.add_register(r)
            for i in range(a["q"]):
                self.uq[len(self.uq)] = (c, r[i])
            nq.append({"n": r.name, "b": [self.rec.qid(c, x) for x in r]})
        for n in a.get("b", []):
            r = ClassicalRegister(n, a.get("bname", "ub") + str(len(self.ub)))
            c.add_register(r)
            self.ub[len(self.ub)] = (c, r)
            nc.append({"n": r.name, "b": [self.rec.bid(c, x) for x in r]})
        self.rec.note("user", nq=nq, nc=nc, ins=[])

    def do_alias(self, a):
        """A further register over bits (or qubits) that the circuit has already."""
        if "qubits" in a:
            qs = [self._q(s) for s in a["qubits"]]
            r = QuantumRegister(name=a["name"], bits=[q for _, q in qs])
            qs[0][0].add_register(r)
        else:
            bs = [(self.ub[n][0], self.ub[n][1][i]) for n, i in a["bits"]]
            r = ClassicalRegister(name=a["name"], bits=[b for _, b in bs])
            bs[0][0].add_register(r)
            self.ub[len(self.ub)] = (bs[0][0], r)
        self.rec.note("user", nq=[], nc=[], ins=[])

    def _q(self, s):
        """'u3' = user qubit 3, 'd1.4' = data qubit 4 of tqubit 1"""
        if s[0] == "u":
            return self.uq[int(s[1:])]
        t, i = s[1:].split(".")
        q = self.tq[int(t)]
        return q.circ, q.lattice.qregisters["data"][int(i)]

    def do_user(self, a):
        ins = []
        for g in a["g"]:
            if g[0] == "measure":
                c, q = self._q(g[1])
                r, i = g[2].split(".")
                b = self.ub[int(r)][1][int(i)]
                c.measure(q, b)
                ins.append({"g": "measure", "q": [self.rec.qid(c, q)], "b": [self.rec.bid(c, b)], "c": [], "v": []})
            else:
                qs = [self._q(x) for x in g[1:]]
                c = qs[0][0]
                getattr(c, g[0])(*[q for _, q in qs])
                ins.append({"g": g[0], "q": [self.rec.qid(c, q) for _, q in qs], "b": [], "c": [], "v": []})
        self.rec.note("user", nq=[], nc=[], ins=ins)

    def do_bell(self, a):
        qs = []
        for s in a["q"]:
            if s.startswith("D"):
                q = self.tq[int(s[1:])]
                qs += [self.rec.qid(q.circ, x) for x in q.lattice.qregisters["data"]]
            else:
                c, q = self._q(s)
                qs.append(self.rec.qid(c, q))
        self.rec.note("bell", qs=qs)

    # construction -------------------------------------------------------------
    def do_new(self, a):
        p, d = self.mkparams(a)
        own = a.get("own_circ")
        c = None if own else self.circ(a.get("circ", 0))
        cls = TYPES[a["type"]]
        box = {}

        def build():
            box["q"] = cls(p, name=a["name"], circ=c) if c is not None else cls(p, name=a["name"])
            self.rec.watch(box["q"].circ)
            if c is None and self.cname:
                box["q"].circ.name = self.cname
            return box["q"]
        q = self.rec.call("new", build, args=p, t=a["t"], name=a["name"], type=a["type"],
                          d=dspec(p.get("d", d) if a.get("shared") is None else self._reqd(a, p)), pf=bool(a.get("pf")))
        if q is not None:
            self.tq[a["t"]] = q
        elif not a.get("may_fail"):
            self.failed = True

    def do_setp(self, a):
        """The caller changes a dictionary it has passed before: only later requests see it."""
        p, (_, d) = self.params[a["shared"]], self.mkparams({"d": a["d"]})
        p["d"] = d
        self._written[a["shared"]] = copy.deepcopy(d)

    def _reqd(self, a, p):
        # the dimensions the user wrote when the shared dictionary was made
        if not hasattr(self, "_written"):
            self._written = {}
        if a["shared"] not in self._written:
            self._written[a["shared"]] = copy.deepcopy(p.get("d"))
        return self._written[a["shared"]]

    # calls on one topological qubit -----------------------------------------
    def do_op(self, a):
        k, t = a["k"], a["t"]
        q = self.tq.get(t)
        if q is None:
            self.failed = True
            return
        via = a.get("via", "method")
        obj = self.tcirc if via in ("index", "object") else q
        pre = () if via == "method" else ((t,) if via == "index" else (q,))
        names = {"readout_x": "measure_x", "readout_z": "measure_z", "lattice_readout_x": "measure_lattice_x",
                 "lattice_readout_z": "measure_lattice_z"} if via != "method" else {}
        f = dict(t=t, creg=[], val=[], q=0)
        if k in ("readout_x", "readout_z"):
            if a.get("creg") is not None:
                if isinstance(a["creg"], str):       # a register of the library's, by name
                    c = q.circ
                    r = next((r for r in q.circ.cregs if r.name == a["creg"]), None)
                    if r is None:
                        self.failed = True
                        return
                else:
                    c, r = self.ub[a["creg"]]
                f["creg"] = [self.rec.bid(c, b) for b in r]
                self.rec.call(k, lambda: getattr(obj, names.get(k, k))(*pre, readout_creg=r), **f)
                return
            self.rec.call(k, lambda: getattr(obj, names.get(k, k))(*pre), **f)
        elif k in ("x_c_if", "z_c_if"):
            if isinstance(a["creg"], str):       # a register of the library's, by name
                c = q.circ
                r = next((r for r in c.cregs if r.name == a["creg"]), None)
                if r is None:
                    self.failed = True
                    return
            else:
                c, r = self.ub[a["creg"]]
            f["creg"] = [self.rec.bid(c, b) for b in r]
            f["val"] = le(a["val"])
            self.rec.call(k, lambda: getattr(q, k)(r, np.int64(a["val"]) if a.get("np") else a["val"]), **f)
        elif k in ("cx_control", "cx_target"):
            c, u = self.uq[a["u"]] if isinstance(a["u"], int) else self._q(a["u"])
            f["q"] = self.rec.qid(c, u)
            kw = {"control": u} if k == "cx_control" else {"target": u}
            self.rec.call(k, lambda: q.cx(**kw), **f)
        elif k == "cx_bad":
            kw = {}
            if a.get("both"):
                kw = {"control": self.uq[0][1], "target": self.uq[1][1]}
            self.rec.call(k, lambda: q.cx(**kw), **f)
        else:
            self.rec.call(k, lambda: getattr(obj, names.get(k, k))(*pre), **f)

    def do_entangle(self, a):
        """Entangle the plaquettes of one type (or all), then measure and reset those syndrome qubits."""
        k, t = a["k"], a["t"]
        q = self.tq.get(t)
        if q is None:
            self.failed = True
            return
        self.nent = getattr(self, "nent", 0) + 1
        name = "user_syn_%d" % self.nent
        roles = {"entangle": ["mz", "mx"], "entangle_x": ["mx"], "entangle_z": ["mz"]}[k]

        def run():
            getattr(q.lattice, k)()
            syn = [b for role in roles for b in q.lattice.qregisters.get(role, [])]
            if syn:
                r = ClassicalRegister(len(syn), name)
                q.circ.add_register(r)
                q.circ.measure(syn, list(r))
                q.circ.reset(syn)
        self.rec.call(k, run, t=t, creg=[], val=[], q=0, reg=name)

    do_entangle_x = do_entangle_z = do_entangle

    def do_tcirc(self, a):
        """Another circuit object on the same register."""
        self.tcirc = TopologicalCircuit(self.treg)

    # registers and circuits ---------------------------------------------------
    def do_treg(self, a):
        c = self.circ(a.get("circ", 0)) if not a.get("own_circ") else None
        ps = [self.mkparams(x) for x in a["items"]]
        types = [x["type"] for x in a["items"]][:a.get("ntypes", len(a["items"]))]
        name = a.get("name", "treg")
        box = {}

        def build():
            kw = dict(ctypes=types, params=[p for p, _ in ps], name=name)
            if a.get("bare") and not types:
                kw = dict(name=name)
            if c is not None:
                kw["circ"] = c
            box["r"] = TopologicalRegister(**kw)
            self.rec.watch(box["r"].circ)
            return box["r"]
        r = self._add_call(build, a, ps, types, name, "data")
        if r is None:
            if not a.get("may_fail"):
                self.failed = True
            return
        self.treg = r
        self.tcirc = TopologicalCircuit(r)
        self._sync()

    def _add_call(self, fn, a, ps, types, name, sub):
        args = [p for p, _ in ps]
        return self.rec.call("treg_add", fn, args=args, treg=name, sub=sub, types=types,
                             ds=[dspec(d) for _, d in ps], pfs=[bool(x.get("pf")) for x in a["items"]])

    def _sync(self):
        for s in self.treg.tqubits.values():
            for n, q in s.items():
                self.tq.setdefault(n, q)

    def do_treg_add(self, a):
        ps = [self.mkparams(x) for x in a["items"]]
        types = [x["type"] for x in a["items"]][:a.get("ntypes", len(a["items"]))]
        sub = a.get("sub", "data")
        self._add_call(lambda: self.treg.add_tqubits(sub, types, [p for p, _ in ps]), a, ps, types,
                       self.treg.name, sub)
        self._sync()

    def do_treg_get(self, a):
        found = []

        def get():
            q = self.treg[a["key"]]
            found.extend(sorted(self._names(q)))
        self.rec.call("treg_get", get, key=a["key"], found=found)

    def do_treg_sub(self, a):
        found = []

        def get():
            s = self.treg[a["name"]]
            for n, q in s.items():
                found.extend(self._names(q) if self._names(q) == [n] else [-2])
        self.rec.call("treg_sub", get, name=a["name"], found=found)

    def _names(self, q):
        """The numbers under which a qubit lives, by the name of its registers."""
        p = self.treg.name + "_"
        r = [r for r in q.lattice.qregisters["data"].name.split(p)[1:]]
        return [int(x.split("_")[0]) for x in r][:1] if q.circ is self.treg.circ else [-3]

    def do_tcx(self, a):
        kw, ask = {}, dict(asked=False, atype="", ad=dspec(None), apf=False)
        if "anc" in a:
            p, d = self.mkparams(a["anc"])
            kw = {"ancilla_ctype": a["anc"]["type"], "ancilla_params": p}
            ask = dict(asked=True, atype=a["anc"]["type"], ad=dspec(d), apf=bool(a["anc"].get("pf")))
        via = a.get("via", "index")
        x, y = (a["t"], a["t2"]) if via == "index" else (self.tq[a["t"]], self.tq[a["t2"]])
        self.rec.call("tcx", lambda: self.tcirc.cx(x, y, **kw), args=kw, t=a["t"], t2=a["t2"], treg=self.treg.name, **ask)
        self._sync()

    def do_tcx_bad(self, a):
        kw = {"ancilla_ctype": "XXZZ"} if a.get("half") == "type" else {"ancilla_params": {"d": (3, 1)}}
        self.rec.call("tcx_bad", lambda: self.tcirc.cx(a["t"], a["t2"], **kw), args=kw, t=a["t"], t2=a["t2"],
                      treg=self.treg.name)
        self._sync()

    def do_tbad(self, a):
        """An operation of the circuit layer on a number that names no qubit."""
        names = {"readout_x": "measure_x", "readout_z": "measure_z", "lattice_readout_x": "measure_lattice_x",
                 "lattice_readout_z": "measure_lattice_z"}
        n, other = a["n"], a.get("other")
        if a["op"] == "cx":
            args = (n, other) if a.get("first") else (other, n)
        elif a["op"] == "parse_readout":
            args = (n, a["string"], "Z")
        else:
            args = (n,)
        self.rec.call("tbad", lambda: getattr(self.tcirc, names.get(a["op"], a["op"]))(*args), op=a["op"])
        self._sync()

    def do_tparse(self, a):
        """A string interpreted by the circuit (by number or object) and by the qubit itself."""
        q = self.tq[a["t"]]
        got = []

        def text(r):
            return repr((int(r[0]), {k: [tuple(float(v) for v in h) for h in sorted(r[1][k])] for k in sorted(r[1])}))

        def run():
            who = a["t"] if a.get("via", "index") == "index" else q
            args = (a["string"],) if a["type"] is None else (a["string"], a["type"])
            got.append(text(self.tcirc.parse_readout(who, *args)))
        ref = text(q.parse_readout(a["string"], a["type"] or "Z"))
        self.rec.call("tparse", run, t=a["t"], want=[ref], got=got)

    # decoders and execution -------------------------------------------------
    def do_dec(self, a):
        from qtcodes import RotatedDecoder, RepetitionDecoder
        p, d = self.mkparams(a)
        p["T"] = a.get("T", 1)
        cls = RepetitionDecoder if a["type"] == "Repetition" else RotatedDecoder
        out = "ok"
        try:
            with deadline(CALL_SECONDS):
                cls(p)
        except Timeout:
            out = "Timeout"
        except Exception as e:
            out = type(e).__name__
        self.rec.note("dec", type=a["type"], d=dspec(d), pf=bool(a.get("pf")), out=out)

    def do_run(self, a):
        """Execute the circuit once; log the result string as the user gets it."""
        out, fields, string = "ok", [], ""
        try:
            with deadline(CALL_SECONDS):
                string = execute_once(self.circs[0], a["seed"])
                fields = [[int(ch) for ch in f] for f in string.split(" ")]
        except Timeout:
            out = "Timeout"
        except Exception as e:
            out = type(e).__name__
        self.rec.note("run", out=out, fields=fields)
        self.string = string


def execute_counts(circ, seed, shots=1):
    from qiskit_aer import AerSimulator
    sim = AerSimulator(method="stabilizer")
    return sim.run(circ, shots=shots, seed_simulator=seed).result().get_counts()


def execute_once(circ, seed):
    return next(iter(execute_counts(circ, seed)))


def record(tid, actions):
    return World(tid).run(actions)

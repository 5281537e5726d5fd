"""C13, C16: memory experiments with faults, generated by TLC from spec/FaultModel.tla, executed on the real library."""
import itertools
from common import *
from recorder import TYPES
from parse_checks import num_syn, twice
from qiskit import QuantumCircuit


def config(code, rt, form, R, v, maxf, minf=0, flips=False, frm=0, to=None, paulis="xyz", n=0, walk=False):
    ty, d, pf = code
    return dict(id="%s%dx%d%s-%s-%s-R%d-v%d-%d" % (ty, d[0], d[1], "p" if pf else "", rt, form, R, v, n), type=ty, dh=d[0],
                dw=d[1], pf=pf, rt=rt, form=form, R=R, v=v, maxf=maxf, minf=minf, flips=flips,
                **{"from": frm, "to": R - 2 if to is None else to}, paulis=list(paulis), walk=walk)


def behaviours(configs, random=False, num=0, salt=0):
    """Fault histories with their specified observations, from TLC."""
    if not random:
        r = tlc("FaultModel", data=dict(configs=configs, random=False), timeout=3000 if THOROUGH else 600)
        if r.violated or not r.prints:
            raise MachineryError("FaultModel:\n" + r.out[-3000:])
    else:
        depth = max(k["maxf"] for k in configs) + 3
        r = tlc("FaultModel", data=dict(configs=configs, random=True), workers=1,
                args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED * 104729 + salt)],
                timeout=3000 if THOROUGH else 600)
        if r.violated or len(r.prints) < num * .5:
            raise MachineryError("FaultModel:\n" + r.out[-3000:])
    return [json.loads(unq(tla_fields(p)[0])) for p in r.prints], r


def build(k, other=None):
    """The experiment without faults; data qubits, and where each error slot goes."""
    circ = QuantumCircuit()
    p = {"d": (k["dh"], k["dw"])}
    if k["pf"]:
        p["phase-flip-protected"] = True
    extra = None
    if other:
        extra = TYPES[other[0]]({"d": tuple(other[1])} if not other[2] else {"d": tuple(other[1]), "phase-flip-protected": True},
                                name="other", circ=circ)
        extra.reset_z()
        extra.stabilize()
    q = TYPES[k["type"]](p, name="tq", circ=circ)
    (q.reset_z if k["rt"] == "Z" else q.reset_x)()
    if k["v"]:
        (q.x if k["rt"] == "Z" else q.z)()
    slots = {-1: len(circ.data)}
    for r in range(k["R"]):
        q.stabilize()
        if extra is not None:
            extra.stabilize()
        slots[r] = len(circ.data)
    name = ("readout_" if k["form"] == "logical" else "lattice_readout_") + k["rt"].lower()
    getattr(q, name)()
    if extra is not None:
        extra.readout_z()
    return circ, q, slots, extra


def with_errors(circ, q, slots, faults):
    out = circ.copy_empty_like()
    at = {}
    for f in faults:
        if f["k"] == "data":
            at.setdefault(slots[f["t"]], []).append(f)
    data = q.lattice.qregisters["data"]
    for i, inst in enumerate(circ.data):
        for f in at.get(i, ()):
            getattr(out, f["p"])(data[f["q"]])
        out.append(inst)
    return out


def own_fields(circ, string, name):
    """Fields of the string that belong to one topological qubit."""
    regs = [r.name for r in circ.cregs][::-1]
    fs = string.split(" ")
    if len(fs) != len(regs):
        return None
    return [f for f, r in zip(fs, regs) if r.startswith(name + "_")]


def flip(fields, k, faults):
    """Faults of recorded bits: round r is field -1-r, bit s counted from the right."""
    fields = [list(f) for f in fields]
    for f in faults:
        if f["k"] == "flip":
            fld = fields[len(fields) - 1 - f["t"]]
            i = len(fld) - 1 - f["s"]
            fld[i] = "1" if fld[i] == "0" else "0"
    return " ".join("".join(f) for f in fields)


def run_group(job):
    """Execute all behaviours of one configuration: observations, in order."""
    from qiskit_aer import AerSimulator
    k, bs, seed, other = job
    out, res = guarded(lambda: build(k, other), 120)
    if out != "ok":
        return [dict(out="building: " + out) for _ in bs]
    circ, q, slots, extra = res
    sim = AerSimulator(method="stabilizer", max_parallel_threads=1)
    obs = []
    for c in range(0, len(bs), 100):
        part = bs[c:c + 100]
        circs = [with_errors(circ, q, slots, b["faults"]) for b in part]
        result = sim.run(circs, shots=1, seed_simulator=seed + c).result()
        for n, b in enumerate(part):
            s = next(iter(result.get_counts(n)))
            fields = own_fields(circ, s, "tq")
            if fields is None or len(fields) != k["R"] + 1:
                obs.append(dict(out="record: '%s'" % s))
                continue
            string = flip(fields, k, b["faults"])
            o, r = guarded(lambda: q.parse_readout(string, k["rt"]), 20)
            d = dict(out=o, string=string)
            if o == "ok":
                try:
                    d.update(value=int(r[0]), X=sorted(twice(r[1]["X"])), Z=sorted(twice(r[1]["Z"])))
                except Exception as e:
                    d["out"] = "malformed " + type(e).__name__
            if extra is not None:
                of = own_fields(circ, s, "other")
                o2, r2 = guarded(lambda: extra.parse_readout(" ".join(of), "Z"), 20)
                d["other"] = [o2, r2]
            obs.append(d)
    return obs


def execute(configs, bs, others=()):
    by = {k["id"]: (k, [], others[i % len(others)] if others else None) for i, k in enumerate(configs)}
    for b in bs:
        by[b["cfg"]][1].append(b)
    jobs = []
    for i, (k, lst, other) in enumerate(by.values()):
        for c in range(0, len(lst), 200):
            jobs.append((k, lst[c:c + 200], SEED * 31 + i * 1000 + c, other))
    obs = pmap(run_group, jobs)
    for (k, lst, _, other), ob in zip(jobs, obs):
        for b, o in zip(lst, ob):
            yield k, b, o, other


CODES13 = [("XXZZ", (3, 3), False), ("XZZX", (3, 3), False), ("Repetition", (3, 1), False), ("Repetition", (1, 5), True),
           ("XXZZ", (3, 5), False), ("XZZX", (5, 3), False), ("XXZZ", (5, 1), False), ("XZZX", (3, 1), False),
           ("XZZX", (1, 5), False), ("XXZZ", (5, 5), False), ("XZZX", (5, 5), False)]


def types_of(code):
    """Readout types a code protects."""
    nx, nz = num_syn(code[1])
    return (["Z"] if nz else []) + (["X"] if nx else [])


def c13():
    chk = Check("C13")
    single, multi = [], []
    n = 0
    for i, code in enumerate(CODES13 + ([("XXZZ", (7, 3), False), ("XZZX", (3, 7), False), ("XZZX", (7, 7), False)] if THOROUGH else [])):
        small = code[1][0] * code[1][1] <= 9
        for rt in ("Z", "X"):
            for form in ("logical", "lattice"):
                n += 1
                R = 3 if small else 2
                if small or THOROUGH:
                    # every single error at every time
                    single.append(config(code, rt, form, R, n % 2, 1, frm=-1, to=R - 1, n=n))
                multi.append(config(code, rt, form, 2 + n % 3, n % 2, 3 + n % 7, minf=0, frm=-1, to=1 + n % 3, n=n))
    if THOROUGH:
        single += [config(c, rt, "lattice", 2, 0, 2, frm=0, to=1, n=5000 + j) for c in CODES13[:4] for j, rt in enumerate("ZX")]
    bs, r = behaviours(single)
    chk.add(r, part="all single errors")
    done = judge_runs(chk, single, bs, ("value", "X", "Z"))
    bs2, r2 = behaviours(multi, random=True, num=2000 if not THOROUGH else 12000, salt=13)
    chk.add(r2, part="random combinations")
    others = [("XXZZ", (3, 3), False), ("XZZX", (3, 1), False), ("Repetition", (3, 1), False), None]
    done += judge_runs(chk, multi, bs2, ("value", "X", "Z"), others)
    # large lattices: many errors in every gap, so that every qubit and plaquette takes part
    big = []
    for i, d in enumerate([(3, 9), (9, 3), (7, 7), (3, 13), (13, 3), (5, 9), (9, 5), (1, 11), (11, 1), (7, 3), (3, 7), (9, 9)]
                          + ([(11, 11), (3, 17), (17, 3), (11, 5), (5, 13)] if THOROUGH else [])):
        for ty in ("XXZZ", "XZZX"):
            for rt in ("Z", "X"):
                n += 1
                big.append(config((ty, d, False), rt, ("logical", "lattice")[(n + i) % 2], 5, n % 2, min(60, d[0] * d[1]),
                                  frm=-1, to=4, n=n))
    bs3, r3 = behaviours(big, random=True, num=len(big) * (6 if not THOROUGH else 40), salt=131)
    chk.add(r3, part="many errors on large lattices")
    done += judge_runs(chk, big, bs3, ("value", "X", "Z"))
    # many rounds
    long = []
    for i, code in enumerate(CODES13[:9]):
        for rt in ("Z", "X"):
            n += 1
            R = (8, 11, 13, 17)[n % 4]
            long.append(config(code, rt, ("logical", "lattice")[(n + i) % 2], R, n % 2, 3 * R, frm=-1, to=R - 1, n=n))
    bs4, r4 = behaviours(long, random=True, num=len(long) * (6 if not THOROUGH else 40), salt=132)
    chk.add(r4, part="many rounds")
    done += judge_runs(chk, long, bs4, ("value", "X", "Z"))
    chk.validated = done
    return chk


def judge_runs(chk, configs, bs, keys, others=()):
    done = 0
    for k, b, o, other in execute(configs, bs, others):
        done += 1
        b["X"], b["Z"] = sorted(map(list, b["X"])), sorted(map(list, b["Z"]))
        if o["out"] != "ok":
            chk.violate("%s, faults %s: %s" % (k["id"], b["faults"], o["out"]), dict(config=k, faults=b["faults"], observed=o))
        elif any(o[x] != b[x] for x in keys):
            bad = [x for x in keys if o[x] != b[x]][0]
            chk.violate("%s, faults %s: %s is %s, specified %s (string '%s')" % (k["id"], b["faults"], bad, o[bad], b[bad], o["string"]),
                        dict(config=k, faults=b["faults"], observed=o, specified={x: b[x] for x in keys}))
        elif other and (o["other"][0] != "ok" or o["other"][1][0] != 0 or any(o["other"][1][1][t] for t in "XZ")):
            chk.violate("%s, faults %s: errors show in the record of another topological qubit: %s" % (k["id"], b["faults"], o["other"]),
                        dict(config=k, faults=b["faults"], observed=o))
        elif done % 400 == 1:
            chk.sample(dict(config=k["id"], faults=b["faults"], string=o["string"], X=o["X"], Z=o["Z"], value=o["value"]))
    return done


def decode_group(job):
    from qtcodes import RotatedDecoder, RepetitionDecoder
    k, items = job
    T = k["R"] - 1 + (k["form"] == "lattice")
    p = {"d": (k["dh"], k["dw"]), "T": T}
    if k["pf"]:
        p["phase-flip-protected"] = True
    o, dec = guarded(lambda: (RepetitionDecoder if k["type"] == "Repetition" else RotatedDecoder)(p), 120)
    if o != "ok":
        return [[("building the decoder", o)] for _ in items]
    out = []
    for s, probs in items:
        res = []
        for e in probs:
            o, v = guarded(lambda: dec.correct_readout(s, k["rt"]) if e is None else dec.correct_readout(s, k["rt"], err_prob=e), 60)
            res.append((e, v if o == "ok" else o))
        out.append(res)
    return out


def c16():
    chk = Check("C16")
    exh, rnd = [], []
    n = 0
    # t = 1: every single fault; t >= 2: every pair on small ones, random ones on the others
    one = [("XXZZ", (3, 3), False), ("XZZX", (3, 3), False), ("Repetition", (3, 1), False), ("Repetition", (1, 3), True),
           ("XXZZ", (3, 5), False), ("XZZX", (5, 3), False), ("XXZZ", (3, 1), False), ("XZZX", (1, 3), False)]
    two = [("XXZZ", (5, 5), False), ("XZZX", (5, 5), False), ("XXZZ", (5, 3), False), ("XZZX", (3, 5), False),
           ("XZZX", (5, 3), False), ("XXZZ", (3, 5), False), ("XXZZ", (7, 3), False), ("XZZX", (3, 7), False), ("XZZX", (7, 7), False),
           ("XXZZ", (7, 7), False), ("Repetition", (9, 1), False), ("Repetition", (1, 9), True), ("XZZX", (5, 1), False), ("XZZX", (1, 7), False)]
    dist = lambda c, rt: c[1][0] if rt == "Z" else c[1][1]
    for code in one:
        for rt in types_of(code):
            if dist(code, rt) >= 3:
                for form in ("logical", "lattice"):
                    for v in (0, 1):
                        n += 1
                        exh.append(config(code, rt, form, 3 + n % 2 if code[1] != (3, 3) else 4 - n % 2, v, 1, flips=True, n=n))
    for code in [("Repetition", (5, 1), False), ("Repetition", (1, 5), True)] + ([("XXZZ", (5, 3), False)] if THOROUGH else []):
        for rt in types_of(code):
            t = (dist(code, rt) - 1) // 2
            if t >= 1:
                for v in (0, 1):
                    n += 1
                    exh.append(config(code, rt, "lattice" if v else "logical", 3, v, t, flips=True,
                                      paulis="x" if rt == "Z" else "z", n=n))
    for code in two:
        for rt in types_of(code):
            t = (dist(code, rt) - 1) // 2
            if t >= 1:
                for form in ("logical", "lattice"):
                    n += 1
                    # only faults that matter for this readout type, or all of them
                    rnd.append(config(code, rt, form, 3 + n % 3, n % 2, t, flips=True, n=n, paulis="xyz"))
    for i, code in enumerate(one + two[:10]):
        for rt in types_of(code):
            if dist(code, rt) >= 3:
                n += 1
                rnd.append(config(code, rt, ("logical", "lattice")[(n + i) % 2], (7, 9, 12)[n % 3], n % 2, (dist(code, rt) - 1) // 2,
                                  flips=True, n=n))
    # large distances: many faults, anywhere or in chains
    large = []
    for i, (code, rounds) in enumerate([(("XXZZ", (9, 9), False), 3), (("XZZX", (9, 9), False), 3), (("XXZZ", (11, 11), False), 2),
                                        (("XZZX", (11, 11), False), 3), (("XXZZ", (13, 3), False), 3), (("XZZX", (3, 13), False), 3),
                                        (("XXZZ", (3, 17), False), 2), (("XZZX", (17, 3), False), 2), (("XXZZ", (7, 7), False), 5),
                                        (("XZZX", (5, 5), False), 7), (("XXZZ", (25, 1), False), 3), (("XZZX", (1, 19), False), 4),
                                        (("Repetition", (21, 1), False), 3), (("Repetition", (1, 31), True), 3),
                                        (("Repetition", (41, 1), False), 2), (("XXZZ", (5, 9), False), 4), (("XZZX", (9, 5), False), 4)]):
        for rt in types_of(code):
            for walk in (False, True):
                n += 1
                large.append(config(code, rt, ("logical", "lattice")[n % 2], rounds, (n + i) // 2 % 2, (dist(code, rt) - 1) // 2,
                                    flips=not walk, walk=walk, n=n, paulis="y" if walk else "xyz"))
    bs, r = behaviours(exh)
    chk.add(r, part="all fault sets")
    bs2, r2 = behaviours(rnd, random=True, num=3000 if not THOROUGH else 18000, salt=16)
    chk.add(r2, part="random fault sets")
    bs3, r3 = behaviours(large, random=True, num=len(large) * (25 if not THOROUGH else 250), salt=163)
    chk.add(r3, part="many faults at large distances")
    todo = {}
    for k, b, o, _ in itertools.chain(execute(exh, bs), execute(rnd, bs2), execute(large, bs3)):
        if "string" not in o:
            chk.violate("%s, faults %s: %s" % (k["id"], b["faults"], o["out"]), dict(config=k, faults=b["faults"], observed=o))
            continue
        todo.setdefault(k["id"], (k, []))[1].append((b, o["string"]))
    jobs = []
    for k, lst in todo.values():
        # a weighting small enough that counting paths cannot outweigh a fault
        probs = [None, 1e-9, 1e-6] if dist((0, (k["dh"], k["dw"])), k["rt"]) <= 3 else [None, 1e-9]
        for c in range(0, len(lst), 60):
            jobs.append((k, lst[c:c + 60], probs))
    res = pmap(decode_group, [(k, [(s, probs) for _, s in lst]) for k, lst, probs in jobs])
    done = 0
    for (k, lst, probs), rs in zip(jobs, res):
        for (b, s), answers in zip(lst, rs):
            done += 1
            for e, v in answers:
                if v != k["v"]:
                    chk.violate("%s, %d faults %s: string '%s' decodes to %s with err_prob=%s, encoded %s" %
                                (k["id"], len(b["faults"]), b["faults"], s, v, e, k["v"]),
                                dict(config=k, faults=b["faults"], string=s, err_prob=e, decoded=str(v)))
                    break
            if done % 300 == 1:
                chk.sample(dict(config=k["id"], faults=b["faults"], string=s, decoded=answers))
    chk.validated = done
    return chk


CHECKS = {"C13": c13, "C16": c16}

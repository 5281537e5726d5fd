"""C11 (reading an executed record), C12: conformance to spec/Parse.tla."""
import itertools
from common import *
from recorder import TYPES, World, record, execute_once
import circuit_checks as cc

PARSE_CODES = [("XXZZ", (3, 3), False), ("XZZX", (3, 3), False), ("XXZZ", (3, 5), False), ("XZZX", (5, 3), False),
               ("Repetition", (3, 1), False), ("Repetition", (5, 1), False), ("Repetition", (1, 3), True),
               ("Repetition", (1, 7), True), ("XXZZ", (5, 5), False), ("XXZZ", (1, 5), False), ("XZZX", (3, 1), False),
               ("XXZZ", (7, 3), False), ("XZZX", (3, 7), False), ("XXZZ", (9, 3), False), ("XZZX", (3, 9), False),
               ("XZZX", (7, 7), False), ("XXZZ", (9, 9), False), ("XXZZ", (13, 1), False), ("XZZX", (1, 13), False),
               ("Repetition", (11, 1), False), ("XXZZ", (5, 7), False), ("XXZZ", (1, 1), False), ("XZZX", (1, 1), False),
               ("XXZZ", (11, 7), False), ("XZZX", (3, 11), False), ("XZZX", (9, 5), False), ("XXZZ", (19, 1), False),
               ("Repetition", (1, 17), True), ("XXZZ", (3, 1), False), ("XXZZ", (1, 3), False), ("XZZX", (1, 3), False)]


def num_syn(d):
    return (d[0] + 1) // 2 * (d[1] - 1), (d[1] + 1) // 2 * (d[0] - 1)


def parsers(code, T):
    """Everything that parses strings of this code: (who, function)."""
    from qtcodes import RotatedDecoder, RepetitionDecoder
    from qtcodes.circuits.circ import TopologicalRegister, TopologicalCircuit
    ty, d, pf = code
    p = {"d": tuple(d)}
    if pf:
        p["phase-flip-protected"] = True
    q = TYPES[ty](dict(p), name="tq")
    dec = (RepetitionDecoder if ty == "Repetition" else RotatedDecoder)(dict(p, T=max(1, T)))
    tc = TopologicalCircuit(TopologicalRegister(ctypes=["XXZZ", ty], params=[{"d": (3, 3)}, dict(p)]))
    return [("encoder", q.parse_readout), ("decoder", dec.parse_readout),
            ("circuit", lambda s, t: tc.parse_readout(1, s, t))]


def twice(hits):
    out = []
    for h in hits:
        t, r, c = (float(x) for x in h)
        if t != int(t) or 2 * r != int(2 * r) or 2 * c != int(2 * c):
            return [["not half-integral", 0, 0]]
        out.append([int(t), int(2 * r), int(2 * c)])
    return out


def answer(fn, s, rt):
    out, res = guarded(lambda: fn(s, rt), 20)
    if out == "ok":
        try:
            v, h = res
            return dict(out="ok", v=int(v), X=twice(h["X"]), Z=twice(h["Z"]))
        except Exception as e:
            return dict(out="malformed " + type(e).__name__, v=0, X=[], Z=[])
    return dict(out=out, v=0, X=[], Z=[])


def ask(ps, fields, rt, pass_rt=True):
    """All parsers' answers to one string, equal ones once."""
    s = " ".join("".join(map(str, f)) for f in fields)
    seen, out = {}, []
    for who, fn in ps:
        a = answer(fn, s, rt if pass_rt else None)
        k = json.dumps(a)
        if k in seen:
            seen[k]["who"] += "+" + who
        else:
            a["who"] = who
            seen[k] = a
            out.append(a)
    return dict(fields=[list(f) for f in fields], rt=rt, answers=out)


def bits(x, n):
    return [int(b) for b in format(x, "0%db" % n)] if n else []


def strings(code, r, full):
    """(fields, rt) for one code: all short ones, all with one or two ones, and random ones."""
    d = code[1]
    nx, nz = num_syn(d)
    n, nd = nx + nz, d[0] * d[1]
    types = {(True, "Repetition"): ["X"], (False, "Repetition"): ["Z"]}.get((code[2], code[0]), ["X", "Z"])
    if nz == 0 and nx:
        types = ["X"]
    if nx == 0 and nz:
        types = ["Z"]
    # the logical operator of the other type still has a value
    extra = ["X", "Z"] if code[0] != "Repetition" else types
    for rt in extra:
        yield [[0]], rt
        yield [[1]], rt
        for head, hn in (("bit", 1), ("lattice", nd)):
            for R in list(range(0 if hn > 1 else 1, 5 if not full else 7)) + [8, 12, 19]:
                tot = hn + n * R
                cut = lambda b: [b[:hn]] + [b[hn + n * i:hn + n * (i + 1)] for i in range(R)]
                if tot <= (9 if not full else 13):
                    for x in range(2 ** tot):
                        yield cut(bits(x, tot)), rt
                else:
                    step = (1 if tot <= 40 else 2) if R < 7 else max(1, tot // 24)
                    for i in range(0, tot, step):
                        b = [0] * tot
                        b[i] = 1
                        yield cut(b), rt
                        j = r.randrange(tot)
                        b = [0] * tot
                        b[i] ^= 1
                        b[j] ^= 1
                        yield cut(b), rt
                    for _ in range((25 if R < 7 else 14) if not full else 400 if R < 7 else 60):
                        p = r.choice([.1, .5, .5, .9])
                        yield cut([int(r.random() < p) for _ in range(tot)]), rt


def slow(code, r, num):
    """Long records in which little changes from round to round, and long ones of all kinds."""
    d = code[1]
    nx, nz = num_syn(d)
    for m in range(num):
        R = r.choice([33, 41, 45, 64, 70, 101] if nx + nz < 40 else [41, 45])
        f = [[int(r.random() < .3) for _ in range(d[0] * d[1] if m % 2 else 1)]]
        pool = [[int(r.random() < p) for _ in range(nx + nz)] for p in (0, .05, .2, .5)]
        cur = r.choice(pool)
        for _ in range(R):
            if r.random() < (.3, .1, .9)[m % 3]:
                cur = r.choice(pool)
            f.append(list(cur))
        yield f, ("X" if code[2] else "Z") if code[0] == "Repetition" else "XZ"[m // 2 % 2]


def _code_batch(job):
    code, seed, full = job
    r = rng("parse", seed)
    ps = parsers(code, 2)
    asked = list(strings(code, r, full)) + list(slow(code, r, 8 if not full else 60))
    return [ask(ps, f, rt, pass_rt=len(f[0]) > 1 or n % 3 != 0) for n, (f, rt) in enumerate(asked)]


# codes that are easily taken for each other: as many data qubits and as many plaquettes
ALIKE = [[("XXZZ", (3, 5), False), ("XXZZ", (5, 3), False), ("XZZX", (5, 3), False), ("XZZX", (3, 5), False)],
         [("Repetition", (3, 1), False), ("Repetition", (1, 3), True), ("XXZZ", (1, 3), False), ("XZZX", (3, 1), False)],
         [("XZZX", (3, 3), False), ("XXZZ", (3, 3), False)],
         [("Repetition", (1, 9), True), ("Repetition", (9, 1), False), ("XXZZ", (9, 1), False)],
         [("XXZZ", (7, 3), False), ("XXZZ", (3, 7), False)]]


def _alike_batch(job):
    """The same strings to the parsers of several codes, in turn."""
    codes, seed, full = job
    r = rng("alike", seed)
    ps = [parsers(c, 1 + (i + seed) % 3) for i, c in enumerate(codes)]
    out = [[] for _ in codes]
    asked = [x for c in codes for x in strings(c, r, False)]
    for f, rt in r.sample(asked, min(len(asked), 150 if not full else 1500)):
        for i, c in enumerate(codes):
            if c[0] == "Repetition" and rt != ("X" if c[2] else "Z"):
                continue
            out[i].append(ask(ps[i], f, rt))
    return out


def c12():
    chk = Check("C12")
    codes = PARSE_CODES + ([("XXZZ", (11, 11), False), ("XZZX", (11, 3), False), ("Repetition", (15, 1), False),
                            ("Repetition", (1, 9), True), ("XXZZ", (7, 7), False), ("XXZZ", (3, 9), False),
                            ("XZZX", (1, 9), False), ("XZZX", (5, 5), False)] if THOROUGH else [])
    res = pmap(_code_batch, [(c, i, THOROUGH) for i, c in enumerate(codes)])
    batches = []
    for c, cases in zip(codes, res):
        for k in range(0, len(cases), 250):
            batches.append(dict(id="%s-%dx%d/%d" % (c[0], c[1][0], c[1][1], k // 250), dh=c[1][0], dw=c[1][1],
                                cases=cases[k:k + 250]))
    groups = [(o, i, THOROUGH) for i, g in enumerate(ALIKE) for o in (g, g[::-1])]
    for i, (g, res) in enumerate(zip(groups, pmap(_alike_batch, groups))):
        for c, cases in zip(g[0], res):
            batches.append(dict(id="alike%d-%s-%dx%d" % (i, c[0], c[1][0], c[1][1]), dh=c[1][0], dw=c[1][1], cases=cases))
    judge_parse(chk, batches, "strings")
    return chk


def judge_parse(chk, batches, part):
    r = tlc_traces("ParseTrace", data=dict(batches=batches), timeout=3000 if THOROUGH else 800)
    if len(r.accepts) != len(batches):
        raise MachineryError("TLC finished %d of %d batches\n%s" % (len(r.accepts), len(batches), r.out[-3000:]))
    by = {b["id"]: b for b in batches}
    for p in r.rejects:
        f = tla_fields(p)
        bid, n, why = unq(f[0]), int(f[1]), unq(f[2])
        case = by[bid]["cases"][n - 1]
        s = " ".join("".join(map(str, x)) for x in case["fields"])
        chk.violate("%s: string '%s' (%s): %s" % (bid, s, case["rt"], why),
                    dict(lattice=[by[bid]["dh"], by[bid]["dw"]], string=s, readout_type=case["rt"], why=why))
    total = sum(len(b["cases"]) for b in batches)
    chk.add(r, validated=total - len(r.rejects), part=part)
    for b in batches[:2] + batches[-1:]:
        c = b["cases"][-1]
        chk.sample(dict(lattice=b["id"], fields=c["fields"], rt=c["rt"], answer=c["answers"][0]))


def _executed(job):
    """Run a history on Aer; the trace, and the string as one topological qubit's user parses it."""
    tid, acts, code = job
    w = World(tid)
    tr = w.run(acts)
    return tr, getattr(w, "string", None)


def c11():
    chk = Check("C11")
    r = rng("c11")
    codes = cc.QUICK_CODES if not THOROUGH else cc.QUICK_CODES + cc.BIG_CODES[:5]
    import gen
    kinds = ["stabilize"] * 4 + ["readout_x", "readout_z", "readout_z_creg", "readout_x_creg", "x", "z", "reset_x", "reset_z",
                                "lattice_readout_x", "lattice_readout_z", "id", "x_c_if", "cx_target", "u_gate1",
                                "u_measure", "u_error"]
    jobs = []
    # histories on one or two qubits with the user's registers in between, executed
    for n in range(44 if not THOROUGH else 400):
        k = 1 + n % 2
        cs = [codes[(n + i) % len(codes)] if k == 1 else cc.SMALL[r.randrange(8)] for i in range(k)]
        hs, _ = ([None], None)
        key = tuple(c[1][0] * c[1][1] for c in cs)
        jobs.append((n, k, cs, key))
    pools = {}
    for n, k, cs, key in jobs:
        pools.setdefault((k, key), []).append(n)
    hist = {}
    for i, ((k, key), ns) in enumerate(sorted(pools.items())):
        hs, _ = gen.histories(len(ns), 12, list(range(k)), list(key), kinds, salt=1100 + i)
        for n, h in zip(ns, hs):
            hist[n] = h
    work = []
    for n, k, cs, key in jobs:
        if n not in hist:
            continue
        acts = [cc.env()] + [cc.new(t, c, name="q%d" % t) for t, c in enumerate(cs)] + hist[n] + [{"k": "run", "seed": SEED * 1000 + n}]
        work.append(("run-%d" % n, acts, None))
    # the standard experiment: rounds, then one readout; the string goes to the parser
    for n, code in enumerate(codes):
        for rt in "xz":
            for form in ("readout_", "lattice_readout_"):
                R = 1 + (n + (rt == "x")) % 4
                acts = [cc.new(0, code), {"k": "reset_" + ("z" if n % 2 else "x"), "t": 0}]
                acts += [{"k": "stabilize", "t": 0}] * R
                acts += [{"k": form + rt, "t": 0}, {"k": "run", "seed": SEED * 999 + n}]
                work.append(("exp-%d-%s%s" % (n, form, rt), acts, (code, rt.upper())))
    # many rounds: circuits of hundreds of classical bits
    for n, (code, R) in enumerate([(("XXZZ", (3, 3), False), 24), (("XZZX", (3, 5), False), 20), (("Repetition", (3, 1), False), 70),
                                   (("XZZX", (5, 5), False), 12), (("Repetition", (1, 5), True), 40)]):
        for rt in ("x" if code[2] else "z",) if code[0] == "Repetition" else "xz":
            acts = [cc.new(0, code), {"k": "reset_" + ("z" if n % 2 else "x"), "t": 0}]
            for i in range(R):           # faults now and then
                acts += [{"k": "stabilize", "t": 0}]
                if i % 6 == 3:
                    acts += [{"k": "user", "g": [[g, "d0.%d" % r.randrange(code[1][0] * code[1][1])] for g in "xz"]}]
            acts += [{"k": ("lattice_readout_" if n % 2 else "readout_") + rt, "t": 0}, {"k": "run", "seed": SEED * 997 + 2 * n + (rt == "x")}]
            work.append(("long-%d%s" % (n, rt), acts, (code, rt.upper())))
    res = pmap(_executed, work)
    traces, cases = [t for t, _ in res], [a for _, a, _ in work]
    for t in traces[:2]:
        chk.sample({"id": t["id"], "calls": [e["k"] for e in t["ev"]], "fields": t["ev"][-1].get("fields")})
    # 1. structure of the record, call by call, and of the executed result string
    def reference(acts):
        return [acts]
    probe = Check("C11")
    cc.judge(probe, traces, cases, ["outcome", "registers", "writes", "earlier", "ideal"], cc.ALLCALLS, "record",
             timeout=3000 if THOROUGH else 800)
    chk.states, chk.transitions, chk.validated, chk.parts = probe.states, probe.transitions, probe.validated, probe.parts
    for what, case in probe.violations:
        if "contradicts" in case["why"]:
            ref = [cc.solo(case["actions"][:-1], "ref")]
            if cc.rejected(ref, ["outcome", "state"], cc.ALLCALLS):
                chk.notes["not_attributed"] = chk.notes.get("not_attributed", 0) + 1
                continue        # the circuit itself is wrong: another property's concern
        chk.violate(what, case)
    # 1b. every short order of the calls that record something
    rec = ["stabilize", "readout_x", "readout_z", "readout_x_creg", "readout_z_creg", "lattice_readout_x",
           "lattice_readout_z", "reset_z"]
    short, names = [], []
    for i, code in enumerate([("XXZZ", (3, 1), False), ("XZZX", (1, 3), False), ("Repetition", (3, 1), False),
                              ("XZZX", (3, 1), False), ("XXZZ", (1, 3), False), ("Repetition", (1, 3), True)]):
        for bell in (False,) if not THOROUGH else (False, True):
            short += cc.short_histories(rec, 3 if not THOROUGH else 4, [code], bell=bell)
    long = []
    for i, h in enumerate(gen.many([dict(num=3 if not THOROUGH else 20, length=26, tq=[0], nd=[c[1][0] * c[1][1]],
                                         kinds=rec + ["stabilize"] * 4 + ["reset_x", "x", "id"], salt=1150 + i)
                                    for i, c in enumerate(codes)])):
        long += [[cc.env(), cc.new(0, codes[i])] + x for x in h]
    cases2 = short + long
    traces2 = cc.record_all([("ord-%d" % i, a) for i, a in enumerate(cases2)])
    cc.judge(chk, traces2, cases2, ["outcome", "registers", "writes", "earlier", "ideal"], cc.ALLCALLS, "orders of recording calls",
             timeout=3000 if THOROUGH else 800)
    # 2. the string as executed is read as (readout, last round, ..., first round)
    by = {}
    for (tid, acts, x), (tr, s) in zip(work, res):
        if x and s is not None:
            code, rt = x
            ps = parsers(code, 3)
            fields = [[int(ch) for ch in f] for f in s.split(" ")]
            nx, nz = num_syn(code[1])
            if len(fields) < 2 or any(len(f) != nx + nz for f in fields[1:]) or \
                    len(fields[0]) not in (1, code[1][0] * code[1][1]):
                chk.violate("%s: result string '%s' is not (readout, last round, ..., first round)" % (tid, s),
                            dict(actions=acts, string=s))
                continue
            by.setdefault((code[1], code[0]), []).append(ask(ps, fields, rt))
    batches = [dict(id="%s-%dx%d" % (k[1], k[0][0], k[0][1]), dh=k[0][0], dw=k[0][1], cases=v) for k, v in by.items()]
    judge_parse(chk, batches, "executed strings")
    return chk


CHECKS = {"C11": c11, "C12": c12}

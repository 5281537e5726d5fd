"""C01-C11, C24: conformance of API histories to spec/CircuitTrace.tla."""
import itertools
from common import *
import gen
from recorder import record

OPS1 = ["reset_x", "reset_z", "x", "z", "id", "id_data", "stabilize", "readout_x", "readout_z",
        "lattice_readout_x", "lattice_readout_z", "x_c_if", "z_c_if", "cx_control", "cx_target", "cx_bad"]
ALLCALLS = ["new", "dec", "tcx", "tcx_bad", "tbad", "tparse", "treg_add", "treg_get", "treg_sub"] + OPS1
BASE = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "readout_x", "readout_z", "readout_x_creg",
        "readout_z_creg", "lattice_readout_x", "lattice_readout_z", "x_c_if", "z_c_if", "cx_control", "cx_target",
        "u_gate1", "u_gate2", "u_error", "u_measure", "u_set"]

QUICK_CODES = [("XXZZ", (3, 3), False), ("XZZX", (3, 3), False), ("XXZZ", (3, 5), False), ("XZZX", (5, 3), False),
               ("XXZZ", (5, 1), False), ("XZZX", (3, 1), False), ("XZZX", (1, 3), False), ("XXZZ", (1, 3), False),
               ("Repetition", (3, 1), False), ("Repetition", (1, 5), True), ("XZZX", (3, 5), False),
               ("XXZZ", (5, 3), False), ("XZZX", (1, 5), False), ("XZZX", (5, 1), False), ("XXZZ", (1, 1), False),
               ("XZZX", (1, 1), False)]
BIG_CODES = [("XXZZ", (5, 5), False), ("XZZX", (5, 5), False), ("XXZZ", (3, 7), False), ("XZZX", (7, 3), False),
             ("XXZZ", (1, 7), False), ("XZZX", (1, 9), False), ("Repetition", (9, 1), False), ("XZZX", (7, 1), False)]


def new(t, code, name="tq", **kw):
    ty, d, pf = code
    a = {"k": "new", "t": t, "type": ty, "d": {"tuple": list(d)}, "pf": pf, "name": name}
    a.update(kw)
    return a


def env(q=2, b=(1, 2), **kw):
    return dict(k="env", q=q, b=list(b), **kw)


def judge(chk, traces, cases, clauses, calls, part, timeout=800):
    """TLC decides every trace; rejected ones become violations."""
    by = {}
    for t, c in zip(traces, cases):
        by[t["id"]] = c
    assert len(by) == len(traces)
    r = tlc_traces("CircuitTrace", data=dict(traces=traces, clauses=clauses, calls=calls), timeout=timeout)
    acc, rej = [], []
    for p in r.accepts:
        acc.append(unq(tla_fields(p)[0]))
    for p in r.rejects:
        f = tla_fields(p)
        rej.append((unq(f[0]), int(f[1]), unq(f[2])))
    if len(acc) + len(rej) != len(traces):
        raise MachineryError("TLC decided %d of %d traces\n%s" % (len(acc) + len(rej), len(traces), r.out[-3000:]))
    for tid, step, why in rej:
        ev = next(t for t in traces if t["id"] == tid)["ev"][step - 1]
        call = {k: v for k, v in ev.items() if k not in ("ins", "all", "nq", "nc")}
        chk.violate("%s: call %d %s: %s" % (tid, step, json.dumps(call), why),
                    dict(actions=by[tid], step=step, why=why, event=ev))
    chk.add(r, validated=len(acc), part=part)
    return [x[0] for x in rej]


def _record_chunk(jobs):
    return [record(tid, acts) for tid, acts in jobs]


def record_all(jobs):
    """[record(tid, acts)], in parallel."""
    n = max(1, min(64, len(jobs) // 4))
    res = pmap(_record_chunk, [jobs[i::n] for i in range(n)])
    out = [None] * len(jobs)
    for i in range(n):
        out[i::n] = res[i]
    return out


def sim_traces(codes, num, length, kinds, bell=True, salt=0, tag="sim", prefix=(), tail=()):
    """Random histories from ApiGen on each code, one topological qubit."""
    traces, cases, nst = [], [], 0
    lens = {}
    for n, code in enumerate(codes):
        nd = code[1][0] * code[1][1]
        lens.setdefault(nd, []).append((n, code))
    hss = gen.many([dict(num=num * len(g), length=length, tq=[0], nd=[nd], kinds=kinds, salt=salt * 100 + nd)
                    for nd, g in lens.items()])
    for (nd, group), hs in zip(lens.items(), hss):
        for i, h in enumerate(hs):
            n, code = group[i % len(group)]
            pre = [env(), new(0, code)] + ([{"k": "bell", "q": ["D0", "u0", "u1"]}] if bell else [])
            acts = pre + list(prefix) + h + list(tail)
            traces.append(("%s-%s-%dx%d%s-%d" % (tag, code[0], code[1][0], code[1][1], "p" if code[2] else "", i), acts))
            cases.append(acts)
    return record_all(traces), cases


def pair_traces(kinds, length, num, salt=60):
    """Random histories on two topological qubits that share a circuit."""
    r = rng("pairs", salt)
    out, groups = [], {}
    names = [("tq", "tq2"), ("tq1", "tq"), ("a", "a_mz"), ("tq", "tq_data"), ("q_1", "q_10"), ("x", "y"), ("tq", "tq_copy"),
             ("q_c", "q"), ("b", "b_readout"), ("tq_m", "tq"), ("Q", "q"), ("a b", "a")]
    for n in range(num):
        cs = [SMALL[r.randrange(8)], SMALL[r.randrange(8)]]
        groups.setdefault(tuple(c[1][0] * c[1][1] for c in cs), []).append((n, cs))
    traces, cases = [], []
    hss = gen.many([dict(num=len(items), length=length, tq=[0, 1], nd=list(nds), kinds=kinds, salt=salt * 100 + g)
                    for g, (nds, items) in enumerate(sorted(groups.items()))])
    for (nds, items), hs in zip(sorted(groups.items()), hss):
        for (n, cs), h in zip(items, hs):
            a, b = names[n % len(names)]
            acts = [env(), new(0, cs[0], name=a), new(1, cs[1], name=b)] + \
                ([{"k": "bell", "q": ["D0", "D1", "u0"]}] if n % 3 else []) + h
            traces.append(("pair-%d" % n, acts))
            cases.append(acts)
    return record_all(traces), cases


def focus_check(prop, kinds_focus, clauses, calls, length=8, num=6, extra=None, tails=((),)):
    """Histories dense in the calls under test, on every code, with arbitrary (Bell-paired) input states."""
    chk = Check(prop)
    kinds = BASE + list(kinds_focus) * 5
    codes = QUICK_CODES
    if THOROUGH:
        codes, num, length = QUICK_CODES + BIG_CODES, num * 12, length + 8
    n = 0
    traces, cases = [], []
    for tl in tails:
        for bell in (True, False):
            tr, ca = sim_traces(codes, num if bell else max(2, num // 3), length, kinds, bell=bell, salt=n + 1,
                                tag="%s%d" % ("bell" if bell else "zero", n), tail=tl)
            traces += tr
            cases += ca
            n += 1
    # long histories: many rounds and readouts on one qubit
    tr, ca = sim_traces([c for c in codes if c[1][0] * c[1][1] <= 15], 1 if not THOROUGH else 6, 24, kinds + ["stabilize"] * 5,
                        salt=50, tag="long")
    traces, cases = traces + tr, cases + ca
    # two qubits on one circuit, one name the beginning of the other
    tr, ca = pair_traces(kinds, 9 if not THOROUGH else 16, 24 if not THOROUGH else 200)
    traces, cases = traces + tr, cases + ca
    if extra:
        ex = extra()
        traces += record_all([("x%d" % i, acts) for i, acts in enumerate(ex)])
        cases += ex
    chk.notes["calls_judged"] = sum(1 for t in traces for e in t["ev"] if e["k"] in calls)
    for t in traces[:2] + traces[-2:]:
        chk.sample({"id": t["id"], "calls": [e["k"] for e in t["ev"]]})
    judge(chk, traces, cases, clauses, calls, "histories", timeout=3000 if THOROUGH else 850)
    return chk


def short_histories(kinds, length, codes, bell=False, nu=1, ub=(1,)):
    """All histories up to a length (exhaustive, from ApiGen by BFS)."""
    out = []
    for code in codes:
        nd = code[1][0] * code[1][1]
        hs, _ = gen.exhaustive(length, [0], [nd], kinds, nu=nu, ub=ub)
        for h in hs:
            out.append([env(q=max(nu, 2), b=list(ub)), new(0, code)] +
                       ([{"k": "bell", "q": ["D0", "u0", "u1"]}] if bell else []) + h)
    return out


WIDE_CODES = [("XXZZ", (3, 9), False), ("XZZX", (9, 3), False), ("XXZZ", (7, 5), False), ("XZZX", (5, 7), False),
              ("XXZZ", (7, 7), False), ("XXZZ", (13, 1), False), ("XZZX", (1, 13), False), ("Repetition", (11, 1), False),
              ("Repetition", (1, 11), True), ("XXZZ", (9, 5), False), ("XZZX", (7, 7), False), ("XXZZ", (9, 7), False),
              ("XZZX", (11, 3), False), ("XXZZ", (3, 11), False), ("XXZZ", (11, 5), False), ("XZZX", (7, 9), False),
              ("XZZX", (3, 13), False), ("XZZX", (17, 1), False), ("XXZZ", (1, 19), False), ("Repetition", (15, 1), False)]


def big_histories(focus, often=13):
    """A fixed varied history on large and on thin codes; and one repeated many times on small codes."""
    out = []
    pre = lambda code: [env(), new(0, code), {"k": "bell", "q": ["D0", "u0", "u1"]}]
    more = [("XXZZ", (9, 9), False), ("XZZX", (9, 9), False), ("XXZZ", (3, 15), False), ("XZZX", (15, 3), False),
            ("XZZX", (21, 1), False), ("XXZZ", (1, 21), False), ("XXZZ", (11, 7), False)]
    for code in BIG_CODES + WIDE_CODES + (more if THOROUGH else []):
        out.append(pre(code) + focus)
    for n, code in enumerate([("XXZZ", (3, 3), False), ("XZZX", (1, 3), False), ("Repetition", (3, 1), False)] +
                             ([("XZZX", (3, 3), False), ("XXZZ", (5, 3), False)] if THOROUGH else [])):
        ks = [a for a in focus if a["k"] != "cx_bad"]
        loop = ks + [{"k": "stabilize", "t": 0}]
        out.append(pre(code) + loop * (often if not THOROUGH else 26))
        out.append(pre(code) + [a for a in loop for _ in range(often - 2)])
    return [resets(h) for h in out]


def resets(h):
    """After a lattice readout the state is only specified from the next reset on."""
    out = []
    for i, a in enumerate(h):
        out.append(a)
        if a["k"].startswith("lattice") and i + 1 < len(h) and not h[i + 1]["k"].startswith("reset"):
            out.append({"k": "reset_" + "xz"[i // 3 % 2], "t": a["t"]})
    return out


def swapped(calls):
    """Lattices of the same size but turned, on one circuit."""
    out = []
    for n, (dh, dw) in enumerate([(3, 5), (1, 5), (3, 7)] + ([(5, 7), (1, 9), (3, 9)] if THOROUGH else [])):
        for ty in ("XXZZ", "XZZX"):
            for a, b in (((dh, dw), (dw, dh)), ((dw, dh), (dh, dw))):
                two = [new(0, (ty, a, False), name="a"), new(1, ((ty, "XXZZ", "XZZX")[n % 3], b, False), name="b")]
                out.append([env()] + two + ([{"k": "bell", "q": ["D0", "D1", "u0"]}] if dh * dw < 18 else []) +
                           [dict(x, t=t) for x in calls for t in (1, 0)])
    return out


def c02():
    T = {"k": "stabilize", "t": 0}
    foc = [T, {"k": "x", "t": 0}, T, {"k": "readout_z", "t": 0}, T]

    def extra():
        """The user entangles and measures plaquettes between rounds; two lattices of swapped dimensions."""
        out = []
        for n, code in enumerate(QUICK_CODES if not THOROUGH else QUICK_CODES + BIG_CODES):
            e = lambda m: {"k": ["entangle_x", "entangle_z", "entangle"][(n + m) % 3], "t": 0}
            out.append([env(), new(0, code), {"k": "bell", "q": ["D0", "u0", "u1"]}] + ([e(2)] if n % 2 else [T]) + [e(0), T, e(1), T, e(2), T])
        for n, (code, m) in enumerate([(("XXZZ", (3, 3), False), 24), (("XZZX", (3, 5), False), 24), (("Repetition", (5, 1), False), 50)]):
            h = [env(), new(0, code), {"k": "reset_z", "t": 0}]
            for i in range(m):               # hundreds of classical bits
                h += [T] + ([{"k": "user", "g": [[g, "d0.%d" % (i * 5 % (code[1][0] * code[1][1]))] for g in "xz"]}] if i % 6 == 3 else [])
            out.append(h)
        return out + swapped([T, T])
    chk = focus_check("C02", ["stabilize", "u_scramble", "u_error"], ["outcome", "registers", "state", "earlier"],
                      ["stabilize"], length=7, num=5, extra=lambda: big_histories(foc) + extra())
    model(chk)
    return chk


def c03():
    foc = [{"k": k, "t": 0} for k in ("x", "stabilize", "z", "reset_x", "z", "stabilize", "x", "reset_z", "x", "stabilize")]
    return focus_check("C03", ["x", "z", "reset_x", "reset_z", "u_scramble"], ["outcome", "registers", "state", "earlier"],
                       ["x", "z", "reset_x", "reset_z"], length=8, num=5,
                       extra=lambda: big_histories(foc) + short_histories(
                           ["reset_x", "reset_z", "x", "z", "stabilize"], 3,
                           [("XXZZ", (3, 1), False), ("XZZX", (1, 3), False)], bell=True))


def c04():
    foc = [{"k": k, "t": 0} for k in ("readout_x", "readout_z", "stabilize", "readout_z", "readout_x", "x", "readout_z")]

    def into_own():
        """Readouts into a register of an earlier readout, own or another qubit's."""
        out = []
        for n, code in enumerate(QUICK_CODES if not THOROUGH else QUICK_CODES + BIG_CODES):
            ro = lambda k, t=0, reg=None: {"k": "readout_" + k, "t": t, "creg": reg}
            a, b = "xz" if n % 2 else "zx"
            out.append([env(), new(0, code), new(1, SMALL[n % 8], name="other"), {"k": "bell", "q": ["D0", "D1"]}, ro(a), ro(b),
                        ro(b, 0, "tq_readout_0"), {"k": "stabilize", "t": 0}, ro(a, 1), ro(a, 0, "other_readout_0"), ro(a),
                        ro(b, 1, "tq_readout_2"), ro(b, 0, 0), ro(a, 0, "tq_readout_1"), ro(b)])
            # a register over a bit that another register has too
            out.append([env()] + [{"k": "alias", "name": "part%d" % m, "bits": [[1, m]]} for m in (1, 0)] + [new(0, code)] +
                       [{"k": "bell", "q": ["D0"]}, ro(a, 0, 2), ro(b, 0, 3), ro(a, 0, 3), ro(b), ro(b, 0, 2)])
        return out
    return focus_check("C04", ["readout_x", "readout_z", "readout_x_creg", "readout_z_creg"],
                       ["outcome", "registers", "state", "earlier"], ["readout_x", "readout_z"], length=8, num=5,
                       extra=lambda: big_histories(foc) + into_own() + short_histories(
                           ["readout_x", "readout_z", "readout_z_creg", "readout_x_creg", "stabilize", "x"], 3,
                           [("XXZZ", (1, 3), False), ("XZZX", (3, 1), False)], bell=True))


def c05():
    foc = [{"k": k, "t": 0} for k in ("stabilize", "readout_x", "lattice_readout_x", "reset_z", "x", "stabilize",
                                      "lattice_readout_z", "reset_x", "lattice_readout_x")]
    return focus_check("C05", ["lattice_readout_x", "lattice_readout_z", "reset_x", "reset_z", "stabilize"],
                       ["outcome", "registers", "state", "earlier"],
                       ["lattice_readout_x", "lattice_readout_z"], length=7, num=5,
                       extra=lambda: big_histories(foc),
                       tails=(({"k": "reset_x", "t": 0}, {"k": "lattice_readout_x", "t": 0}),
                              ({"k": "reset_z", "t": 0}, {"k": "stabilize", "t": 0}, {"k": "lattice_readout_x", "t": 0})))


def c06():
    r = rng("c06")
    put = [{"k": "user", "g": [["h", "u0"], ["measure", "u0", "0.0"], ["h", "u1"], ["measure", "u1", "1.1"]]}]
    foc = put + [{"k": "x_c_if", "t": 0, "creg": 0, "val": 1}, {"k": "z_c_if", "t": 0, "creg": 1, "val": 2},
                 {"k": "stabilize", "t": 0}, {"k": "x_c_if", "t": 0, "creg": 1, "val": 0},
                 {"k": "z_c_if", "t": 0, "creg": 0, "val": 0}, {"k": "x_c_if", "t": 0, "creg": 1, "val": 3}]

    def extra():
        out = big_histories(foc, often=7)
        # the register may be one the library made: an own readout, an earlier one, another qubit's
        own = lambda k, reg, v, t=0: {"k": k, "t": t, "creg": reg, "val": v}
        for n, code in enumerate(QUICK_CODES if not THOROUGH else QUICK_CODES + BIG_CODES):
            a, b = ("readout_z", "readout_x") if n % 2 else ("readout_x", "readout_z")
            out.append([env(), new(0, code), new(1, SMALL[n % 8], name="other"), {"k": "bell", "q": ["D0", "D1"]}, {"k": a, "t": 0},
                        own("x_c_if", "tq_readout_0", n % 2), {"k": b, "t": 0}, own("z_c_if", "tq_readout_1", 1), {"k": "stabilize", "t": 0},
                        own("x_c_if", "tq_readout_0", 1), {"k": b, "t": 1}, own("z_c_if", "other_readout_0", 1),
                        own("x_c_if", "tq_readout_1", 0, 1), own("z_c_if", "tq_readout_0", 2), {"k": a, "t": 0}])
        for code in QUICK_CODES[:6] if not THOROUGH else QUICK_CODES:
            for size in (1, 2, 3, 4, 5, 7):
                for held in range(2 ** size) if size < 4 else sorted({0, 2 ** size - 1, 2 ** (size - 1), 2, *(
                        r.randrange(2 ** size) for _ in range(3))}):
                    acts = [env(q=2, b=[size]), new(0, code), {"k": "bell", "q": ["D0"]}]
                    for b in range(size):
                        g = [["reset", "u0"]] + ([["x", "u0"]] if held >> b & 1 else []) + [["measure", "u0", "0.%d" % b]]
                        acts.append({"k": "user", "g": g})
                    for v in range(2 ** size) if size < 4 else sorted({held, held ^ 1, held ^ 2 ** (size - 1), held & 7,
                                                                        held % 2, r.randrange(2 ** size)}):
                        acts.append({"k": "x_c_if" if (v + held) % 2 else "z_c_if", "t": 0, "creg": 0, "val": v})
                        if v == held:
                            acts.append({"k": "z_c_if" if (v + held) % 2 else "x_c_if", "t": 0, "creg": 0, "val": v})
                    out.append(acts)
        # registers that share bits; values beyond small registers
        for n in range(8 if not THOROUGH else 60):
            code = (QUICK_CODES + SMALL)[n % len(QUICK_CODES + SMALL)] if THOROUGH else SMALL[n % 8]
            parts = [r.sample(range(4), k) for k in (2, 1, 3)]
            held = r.randrange(16)
            acts = [env(q=2, b=[4])] + ([new(0, code)] if n % 2 else []) + \
                [{"k": "alias", "name": "part%d" % i, "bits": [[0, b] for b in p]} for i, p in enumerate(parts)] + \
                ([] if n % 2 else [new(0, code)]) + [{"k": "bell", "q": ["D0"]}]
            acts += [{"k": "user", "g": [["reset", "u0"]] + ([["x", "u0"]] if held >> b & 1 else []) + [["measure", "u0", "0.%d" % b]]}
                     for b in range(4)]
            for i, p in enumerate(parts):
                value = sum((held >> b & 1) << m for m, b in enumerate(p))
                for v in (value, value ^ 1, held, value | 1 << len(p)):
                    acts.append({"k": ["x_c_if", "z_c_if"][(n + i + (v == value)) % 2], "t": 0, "creg": 1 + i, "val": v})
            acts += [{"k": "z_c_if", "t": 0, "creg": 0, "val": held}, {"k": "readout_x", "t": 0, "creg": 2},
                     {"k": "x_c_if", "t": 0, "creg": 2, "val": 1}, {"k": "z_c_if", "t": 0, "creg": 0, "val": held ^ 1 << parts[1][0]}]
            out.append(acts)
        for n in range(8):
            size, held = 1 + n // 4, n % 4 % (2 << n // 4)
            acts = [env(q=2, b=[size]), new(0, SMALL[n]), {"k": "bell", "q": ["D0"]}, {"k": "user", "g": [
                g for b in range(size) if held >> b & 1 for g in (["reset", "u0"], ["x", "u0"], ["measure", "u0", "0.%d" % b])]}]
            acts += [{"k": ["x_c_if", "z_c_if"][(n + m) % 2], "t": 0, "creg": 0, "val": held + (m << size)} for m in (1, 2, 3, 128, 0)]
            out.append(acts)
        # wide registers, values beyond the register
        for n, size in enumerate((1, 3, 9, 17, 32, 33, 64, 70) if not THOROUGH else (1, 2, 3, 9, 12, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70)):
            for held in {1 << size - 1, 1 << r.randrange(size) | 1 << r.randrange(size) | 1}:
                g = []
                for b in range(size):
                    if held >> b & 1:
                        g += [["reset", "u0"], ["x", "u0"], ["measure", "u0", "0.%d" % b]]
                acts = [env(q=2, b=[size]), new(0, SMALL[(n + held) % 8]), {"k": "bell", "q": ["D0"]}, {"k": "user", "g": g}]
                for v in r.sample(sorted({held ^ 1, held & 0xffffffff, held & 255, held | 1 << size, held | 1 << 64, held >> 1}), 2) + [held]:
                    acts.append({"k": r.choice(["x_c_if", "z_c_if"]), "t": 0, "creg": 0, "val": v, "np": v < 1 << 60 and r.random() < .3})
                out.append(acts)
        return out
    return focus_check("C06", ["x_c_if", "z_c_if", "u_measure", "u_set"], ["outcome", "registers", "state", "earlier"],
                       ["x_c_if", "z_c_if"], length=8, num=5, extra=extra)


def c07():
    foc = [{"k": "cx_control", "t": 0, "u": 0}, {"k": "cx_target", "t": 0, "u": 1}, {"k": "stabilize", "t": 0},
           {"k": "cx_target", "t": 0, "u": 0}, {"k": "cx_target", "t": 0, "u": 0}, {"k": "cx_bad", "t": 0},
           {"k": "cx_bad", "t": 0, "both": True}, {"k": "cx_control", "t": 0, "u": 1}]
    def elsewhere():
        """The physical qubit comes after the lattice, from the middle of a register; or it is a data qubit of another one."""
        out = []
        for n, code in enumerate(SMALL[:8] + [WIDE_CODES[n % 8] for n in range(2)]):
            cx = lambda k, u: {"k": k, "t": 0, "u": u}
            out.append([env(q=2 if n % 2 else 0, b=[1]), new(0, code), env(q=3, b=[], qname="w"), env(q=2, b=[], qname="v")] +
                       ([{"k": "alias", "name": "all", "qubits": ["u%d" % u for u in (4, 2, 3, 1)]}] if n % 3 == 0 else []) +
                       [{"k": "bell", "q": ["D0"] + ["u%d" % u for u in range(7 if n % 2 else 5)]}] +
                       [cx(["cx_control", "cx_target"][(u + n) % 2], u) for u in (4, 1, 2, 3)] + [{"k": "stabilize", "t": 0}] +
                       [cx(["cx_target", "cx_control"][(u + n) % 2], u) for u in (4, 1, 2)])
            other = SMALL[(n + 3) % 8]
            last = other[1][0] * other[1][1] - 1
            out.append([env(q=1, b=[1]), new(1, other, name="o")] + [new(0, code)] + [{"k": "bell", "q": ["D0", "D1"]}] +
                       [cx(["cx_control", "cx_target"][(i + n) % 2], "d1.%d" % i) for i in (last, 0, 1)] + [{"k": "stabilize", "t": 0}] +
                       [cx(["cx_target", "cx_control"][(i + n) % 2], "d1.%d" % i) for i in (last, 1)])
        return out
    return focus_check("C07", ["cx_control", "cx_target", "cx_bad", "u_gate1", "u_gate2"],
                       ["outcome", "registers", "state", "earlier", "noop"],
                       ["cx_control", "cx_target", "cx_bad"], length=8, num=5,
                       extra=lambda: elsewhere() + big_histories(foc) + short_histories(
                           ["cx_control", "cx_target", "u_gate1", "stabilize"], 3, [("XXZZ", (3, 1), False)], bell=True))


def treg(codes, **kw):
    return dict(k="treg", items=[{"type": c[0], "d": {"tuple": list(c[1])}, "pf": c[2]} for c in codes], **kw)


SMALL = [("XXZZ", (3, 1), False), ("XZZX", (1, 3), False), ("Repetition", (3, 1), False), ("XXZZ", (3, 3), False),
         ("XZZX", (3, 3), False), ("Repetition", (1, 3), True), ("XZZX", (3, 1), False), ("XXZZ", (1, 3), False),
         ("XZZX", (3, 5), False), ("XXZZ", (5, 3), False)]


def c08():
    chk = Check("C08")
    r = rng("c08")
    pairs = list(itertools.product(SMALL, SMALL))
    r.shuffle(pairs)
    kinds = ["tcx"] * 10 + ["tcx_bad", "x", "z", "stabilize", "stabilize", "readout_x", "readout_z", "reset_x", "reset_z",
                            "u_gate1", "u_error", "lattice_readout_z"]
    traces, cases = [], []

    def add(tag, acts):
        tid = "%s-%d" % (tag, len(traces))
        traces.append((tid, acts))
        cases.append(acts)
    BELL = lambda n: {"k": "bell", "q": ["D%d" % i for i in range(n)]}
    # every ordered pair of types and shapes: once and twice, by number and by object
    for n, (a, b) in enumerate(pairs if THOROUGH else pairs[:60]):
        acts = [env(), treg([a, b]), BELL(2), {"k": "tcx", "t": 0, "t2": 1, "via": "index"},
                {"k": "tcx", "t": n % 2, "t2": 1 - n % 2, "via": "object"}]
        add("pair", acts)
    # explicit ancilla
    for n, (a, b) in enumerate(pairs[:20 if THOROUGH else 8]):
        c = SMALL[n % len(SMALL)]
        anc = {"type": c[0], "d": {"tuple": list(c[1])}, "pf": c[2]}
        add("ancilla", [env(), treg([a, b]), BELL(2), {"k": "tcx", "t": 1, "t2": 0, "anc": anc},
                        {"k": "tcx", "t": 0, "t2": 1, "anc": anc}])
    # ancilla sub-register made by the user
    add("own-ancilla", [env(), treg([SMALL[0], SMALL[1]]), dict(k="treg_add", sub="ancilla", items=[
        {"type": "XXZZ", "d": {"tuple": [3, 1]}}]), BELL(2), {"k": "tcx", "t": 0, "t2": 1}, {"k": "tcx", "t": 0, "t2": 1}])
    # an ancilla is a topological qubit of the register too: as control, as target, both; with no, one or two others left
    TINY = [c for c in SMALL if c[1][0] * c[1][1] <= 3]
    for n in range(6 if not THOROUGH else 24):
        cs = [r.choice(TINY) for _ in range(2)]
        own = [{"type": c[0], "d": {"tuple": list(c[1])}, "pf": c[2]} for c in r.sample(TINY, n % 3)]
        acts = [env(), treg(cs)] + ([dict(k="treg_add", sub="ancilla", items=own)] if own else [])
        acts += [BELL(2 + len(own))] if own else [BELL(2), {"k": "tcx", "t": 0, "t2": 1}, {"k": "reset_z", "t": 2},
                                                 {"k": "bell", "q": ["D2"]}]
        own = len(own)
        acts += [{"k": "tcx", "t": 2, "t2": n % 2, "via": "index"}]     # the ancilla is 3: the user's or a new one
        if own == 2 or n % 2:
            acts += [{"k": ["reset_x", "reset_z"][n % 2], "t": 3}, {"k": "tcx", "t": 2, "t2": 3}] if own == 2 else \
                [{"k": "readout_z", "t": 2}, {"k": "reset_x", "t": 3}, {"k": "tcx", "t": 3, "t2": 1}, {"k": "readout_x", "t": 3}]
        if own == 2:
            acts += [{"k": "readout_z", "t": 3}, {"k": "readout_x", "t": 2}]
            # 4 was made for the CX of the two
            acts += [{"k": "reset_x", "t": 4}, {"k": "tcx", "t": 4, "t2": 0, "via": "object"}, {"k": "readout_x", "t": 4}]
        acts += [{"k": "tcx", "t": 0, "t2": 1}]
        add("ancilla-itself", acts)
    # histories on two and three topological qubits
    for n in range(14 if not THOROUGH else 120):
        k = 2 + n % 2
        cs = [SMALL[r.randrange(8)] for _ in range(k)]
        hs, _ = gen.histories(1, 7, list(range(k)), [c[1][0] * c[1][1] for c in cs], kinds, vias=("index", "object"),
                              salt=n) if n < 4 or THOROUGH else (None, None)
        if hs is None:
            hs = [[{"k": "tcx", "t": x, "t2": y} for x, y in [r.sample(range(k), 2) for _ in range(3)]]]
        add("hist", [env(), treg(cs), BELL(k)] + hs[0])
    # the circuit has registers called as the internal ones already; another circuit object on the same register
    for n in range(4 if not THOROUGH else 20):
        cs = [SMALL[r.randrange(8)] for _ in range(2)]
        acts = [env(q=1, qname="w"), env(q=2, b=[1, 1, 1, 1], bname="m", qname="cnot_readout") if n % 2 else env(), treg(cs), BELL(2)]
        for m in range(3):
            acts += [{"k": "tcx", "t": m % 2, "t2": 1 - m % 2, "via": ["index", "object"][n % 2]}] * (1 + m % 2)
            acts += [{"k": "tcirc"}, {"k": "stabilize", "t": 1 - m % 2}] if n != 1 else []
        add("names", acts)
    # many uses
    for n in range(4 if not THOROUGH else 30):
        k = 2 + n % 2
        cs = [SMALL[r.randrange(8)] for _ in range(k)]
        acts = [env(), treg(cs), BELL(k)]
        for m in range(8 if not THOROUGH else 16):
            x, y = r.sample(range(k), 2)
            acts += [{"k": "tcx", "t": x, "t2": y, "via": "index"}] + \
                ([{"k": r.choice(["x", "z", "stabilize", "readout_x", "readout_z"]), "t": x}] if m % 3 == 0 else [])
        add("many", acts)
    # uses far apart, with many registers of others in between
    for n in range(2 if not THOROUGH else 10):
        cs = [SMALL[r.randrange(4)] for _ in range(2)]
        acts = [env(), treg(cs), BELL(2), {"k": "tcx", "t": 0, "t2": 1}]
        for m in range(2):
            acts += [{"k": "stabilize", "t": (m + i) % 2} for i in range(45 + 30 * n)]
            acts += [{"k": "tcx", "t": m, "t2": 1 - m, "via": ["index", "object"][m]}]
        add("apart", acts)
    for n, (a, b) in enumerate([(BIG_CODES[0], SMALL[0]), (SMALL[1], BIG_CODES[1]), (BIG_CODES[6], BIG_CODES[5]),
                                (BIG_CODES[2], SMALL[4]), (BIG_CODES[3], BIG_CODES[7])]):
        add("large", [env(), treg([a, b]), BELL(2)] + [{"k": "tcx", "t": m, "t2": 1 - m, "via": "index"} for m in (0, 1)])
    for c in r.sample(SMALL[:8], 3):
        add("bad", [env(), treg([c, SMALL[0]]), BELL(2), {"k": "tcx_bad", "t": 0, "t2": 1, "half": "type"},
                    {"k": "tcx_bad", "t": 0, "t2": 1, "half": "params"}, {"k": "tcx", "t": 0, "t2": 1},
                    {"k": "tcx_bad", "t": 0, "t2": 1, "half": "params"}, {"k": "tcx", "t": 1, "t2": 0}])
    # an ancilla that cannot be built, however it was asked for, and then one that can
    BADP = [{"num": 2}, {"tuple": [3, 2]}, {"tuple": [3]}, {"tuple": [-1, 3]}]
    for n in range(6 if not THOROUGH else 24):
        a, b = pairs[-1 - n]
        badanc = {"type": ["XXZZ", "XZZX", "Repetition"][n % 3], "d": BADP[n // 3 % 4 if n % 2 else n % 4]}
        good = SMALL[n % len(SMALL)]
        anc = {"type": good[0], "d": {"tuple": list(good[1])}, "pf": good[2]}
        fail = [{"k": "tcx", "t": 0, "t2": 1, "anc": badanc}, dict(k="treg_add", sub="ancilla", items=[badanc])]
        acts = [env(), treg([a, b]), BELL(2)] + fail[n % 2:] + fail[:n % 2 + (n > 3)]
        acts += [{"k": "tcx", "t": 1, "t2": 0, **({"anc": anc} if n % 2 else {})}, {"k": "tcx", "t": 0, "t2": 1, "anc": badanc},
                 {"k": "tbad", "op": "cx", "n": 9, "other": 0, "first": n % 2}, {"k": "tcx", "t": 0, "t2": 1}]
        add("refused", acts)
    traces = record_all(traces)
    chk.notes["calls_judged"] = sum(1 for t in traces for e in t["ev"] if e["k"] in ("tcx", "tcx_bad"))
    for t in traces[:3]:
        chk.sample({"id": t["id"], "calls": [e["k"] for e in t["ev"]]})
    judge(chk, traces, cases, ["outcome", "state", "earlier", "noop", "arguments"], ["tcx", "tcx_bad", "tbad"], "cnot histories",
          timeout=3000 if THOROUGH else 850)
    return chk


def model(chk):
    """The design itself: spec/Machine.tla, all histories of any length; broken designs are rejected."""
    def code(ty, dh, dw, budget=1, user=False, zop=0):
        return dict(type=ty, dh=dh, dw=dw, budget=budget, user=user, zop=zop)
    good = [code("CSS", 3, 1), code("XZZX", 1, 3), code("XZZX", 3, 1), code("CSS", 1, 3)]
    if THOROUGH:
        good += [code("XZZX", 1, 3, 2), code("CSS", 3, 1, 3), code("CSS", 3, 3), code("XZZX", 3, 3), code("XZZX", 5, 1),
                 code("CSS", 1, 5), code("CSS", 3, 1, 1, True), code("XZZX", 1, 3, 1, True)]
    r = tlc("Machine", data=dict(codes=good), timeout=2500)
    if r.violated or "No error has been found" not in r.out:
        raise MachineryError("Machine: the design is not a refinement\n" + r.out[-3000:])
    chk.add(r, part="design: lattice refines an ideal qubit")
    for bad in (code("CSS", 1, 3, zop=1), code("XZZX", 3, 3, budget=0, zop=2)):
        r = tlc("Machine", data=dict(codes=[bad]), timeout=800)
        if "No error has been found" in r.out:
            raise MachineryError("Machine accepts a broken design: %s" % bad)
        chk.add(r, part="broken design rejected")


def c24():
    def extra():
        out = []
        for code in QUICK_CODES + BIG_CODES + [("XXZZ", (1, 1), False), ("Repetition", (1, 1), True), ("XZZX", (1, 1), False)]:
            out.append([env(), new(0, code), new(1, SMALL[0], name="other"), {"k": "id", "t": 0}, {"k": "id_data", "t": 0},
                        {"k": "id_data", "t": 0}, {"k": "id", "t": 0}, {"k": "id", "t": 0}, {"k": "x", "t": 0}, {"k": "id_data", "t": 0},
                        {"k": "stabilize", "t": 0}, {"k": "id", "t": 1}, {"k": "id_data", "t": 0}, {"k": "id", "t": 0},
                        {"k": "lattice_readout_z", "t": 0}, {"k": "id", "t": 0}])
        out += big_histories([{"k": k, "t": 0} for k in ("id", "id_data", "readout_x", "id_data", "id")], often=7)
        for cs in ([SMALL[3], SMALL[1]], [SMALL[4], SMALL[2]]):
            out.append([env(), treg(cs), {"k": "bell", "q": ["D0", "D1"]}] +
                       [{"k": k, "t": t, "via": v} for k in ("id", "id_data") for t in (0, 1)
                        for v in ("index", "object", "method")])
        return out
    return focus_check("C24", ["id", "id_data"], ["outcome", "registers", "state", "earlier", "own", "markers"],
                       ["id", "id_data"], length=6, num=3, extra=extra)


def c25():
    ks = ["entangle_x", "entangle_z", "entangle"]
    foc = [{"k": k, "t": 0} for k in ("entangle_x", "entangle_z", "stabilize", "entangle", "x", "entangle_z", "z", "entangle_x")]
    return focus_check("C25", ks + ["u_scramble", "u_error"], ["outcome", "registers", "state", "earlier", "own", "noop"],
                       ks, length=7, num=4, extra=lambda: big_histories(foc, often=5))


def spellings(ty, full):
    """Requests for lattices: every spelling of many dimensions."""
    hi = 11 if full else 7
    ns = list(range(-3, hi + 1))
    out = [{}]
    for n in ns:
        out += [{"num": n}, {"np": n}]
        if n % 2 or n < 4:
            out += [{"float": n}]
    for a in range(-1, hi + 1):
        for b in range(-1, hi + 1):
            if ty == "Repetition" and a > 1 and b > 1 and (a + b) % 3:
                continue
            out.append({"tuple": [a, b]})
    out += [{"nptuple": [3, 5]}, {"tuple": []}, {"tuple": [3]}, {"tuple": [3, 3, 3]}, {"tuple": [5, 3, 1, 1]},
            {"tuple": [13, 1]}, {"tuple": [1, 13]}, {"tuple": [1, 12]}, {"tuple": [9, 3]}, {"tuple": [3, 9]},
            {"nptuple": [1, 5]}, {"nptuple": [5, 1]}, {"num": 11}, {"num": 10}, {"num": 17}, {"tuple": [15, 15]}, {"tuple": [15, 14]},
            {"tuple": [12, 12]}, {"tuple": [17, 3]}, {"tuple": [3, 19]}, {"tuple": [9, 13]}, {"tuple": [25, 1]}, {"tuple": [1, 33]},
            {"tuple": [24, 1]}, {"tuple": [101, 1]}, {"tuple": [1, 101]}, {"tuple": [9, 10]}, {"tuple": [10, 9]}, {"tuple": [-5, -3]},
            {"tuple": [0, 0]}, {"tuple": [-9, 9]}, {"num": 16}, {"num": -17}]
    if ty == "Repetition":
        out += [{"list": [3, 1]}, {"list": [1, 3]}, {"str": "3"}, {"str": "31"}, {"set": 3}]
    else:
        out += [{"list": [3, 5]}, {"list": [3]}, {"list": [4, 3]}, {"list": [3, 3, 3]}, {"list": [-3, 3]}]
    return out


def c01():
    chk = Check("C01")
    r = rng("c01")
    traces, cases = [], []

    def add(tag, acts):
        tid = "%s-%d" % (tag, len(traces))
        traces.append(record(tid, acts))
        cases.append(acts)
    for ty in ("XXZZ", "XZZX", "Repetition"):
        pool = [(d, pf) for d in spellings(ty, THOROUGH) for pf in ((False, True) if ty == "Repetition" else (False,))]
        # alone on a fresh circuit of their own, or on a fresh one that is passed in; and the decoder of the same code
        for n, (d, pf) in enumerate(pool):
            as_ = ["bool", "int", "np"][n // 2 % 3]
            a = dict(k="new", t=0, type=ty, pf=pf, pf_explicit=n % 3 == 0, pf_as=as_, name=["tq", "a b", "L"][n % 3], may_fail=True)
            if d:
                a["d"] = d
            if n % 2:
                a["own_circ"] = True
            acts = [a]
            (f, v), = d.items() if d else (("none", 0),)
            if d and f != "str" and not (f == "nptuple" and ty == "Repetition" and False):
                acts.append(dict(k="dec", type=ty, d=d, pf=pf, pf_as=as_, T=1 + n % 2))
            add("lone-%s" % ty, acts)
        # several requests, good and bad, on a circuit with earlier contents
        for n in range(12 if not THOROUGH else 60):
            acts = [env(), new(0, SMALL[n % 8], name="first"), {"k": "reset_x", "t": 0}, {"k": "stabilize", "t": 0},
                    {"k": "user", "g": [["h", "u0"], ["cx", "u0", "u1"], ["measure", "u1", "0.0"]]}]
            for m in range(6):
                d, pf = r.choice(pool)
                a = dict(k="new", t=1 + m, type=ty, pf=pf, name="q%d" % m, may_fail=True)
                if d:
                    a["d"] = d
                acts.append(a)
            acts += [{"k": "stabilize", "t": 0}, {"k": "readout_x", "t": 0}]
            add("shared-%s" % ty, acts)
    chk.notes["calls_judged"] = sum(1 for t in traces for e in t["ev"] if e["k"] in ("new", "dec"))
    for t in traces[:3]:
        chk.sample({"id": t["id"], "ev": [{k: e.get(k) for k in ("k", "type", "d", "out")} for e in t["ev"]]})
    judge(chk, traces, cases, ["outcome", "registers", "earlier", "noop"], ["new", "dec"], "requests",
          timeout=3000 if THOROUGH else 850)
    return chk


def solo(acts, tid):
    """Record a history in a fresh interpreter (no state left over from other histories)."""
    import subprocess
    code = ("import sys,json; sys.path.insert(0, %r); from recorder import record; a=json.load(sys.stdin); "
            "print('@@'+json.dumps(record(a[0], a[1])))" % os.path.join(VERIF, "harness"))
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps([tid, acts]), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=600)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    raise MachineryError("could not record %s alone:\n%s" % (tid, p.stderr[-2000:]))


def rejected(traces, clauses, calls):
    if not traces:
        return set()
    r = tlc_traces("CircuitTrace", data=dict(traces=traces, clauses=clauses, calls=calls), timeout=800)
    if len(r.accepts) + len(r.rejects) != len(traces):
        raise MachineryError("TLC decided %d of %d traces\n%s" % (len(r.accepts) + len(r.rejects), len(traces), r.out[-3000:]))
    return {unq(tla_fields(p)[0]) for p in r.rejects}


STATEFUL = ("joint state", "not an operation")


def judge_relative(chk, traces, cases, clauses, calls, part, reference, solo_clauses=("outcome", "state")):
    """Like judge, but a rejection for the joint state alone only counts when the same calls are right in the
    reference arrangement (each qubit by itself, or by its own methods): otherwise the defect is not this property's."""
    probe = Check(chk.prop)
    probe.known = []
    judge(probe, traces, cases, clauses, calls, part, timeout=3000 if THOROUGH else 850)
    chk.states, chk.transitions = chk.states + probe.states, chk.transitions + probe.transitions
    chk.validated += probe.validated
    chk.parts += probe.parts
    for what, case in probe.violations:
        if any(s in case["why"] for s in STATEFUL):
            refs = [solo(a, "ref-%d" % i) for i, a in enumerate(reference(case["actions"]))]
            if rejected(refs, list(solo_clauses), calls):
                chk.notes["not_attributed"] = chk.notes.get("not_attributed", 0) + 1
                continue
        chk.violate(what, case)


def of_qubit(acts, t):
    """The history of one topological qubit only."""
    keep = []
    for a in acts:
        if a["k"] in ("env",) or a.get("t") == t and "t2" not in a:
            a = dict(a)
            a.pop("shared", None)
            keep.append(a)
        elif a["k"] == "bell":
            keep.append(dict(a, q=[x for x in a["q"] if x[0] == "u" or x == "D%d" % t]))
        elif a["k"] == "user":
            g = [x for x in a["g"] if not any(str(y).startswith("d") and not y.startswith("d%d." % t) for y in x[1:])]
            if g:
                keep.append(dict(a, g=g))
    return keep


def lazy_news(h, news):
    """Insert each construction just before the first use of its qubit."""
    out, made = [], set()
    for a in h:
        for t in sorted(news):
            used = a.get("t") == t or a.get("t2") == t or (
                a["k"] == "user" and any(str(y).startswith("d%d." % t) for x in a["g"] for y in x[1:]))
            if used and t not in made:
                made.add(t)
                out += news[t]
        out.append(a)
    return out


def c09():
    chk = Check("C09")
    r = rng("c09")
    kinds = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "stabilize", "readout_x", "readout_z",
             "readout_z_creg", "lattice_readout_x", "lattice_readout_z", "id", "id_data", "x_c_if", "z_c_if",
             "cx_control", "cx_target", "u_gate1", "u_gate2", "u_error", "u_measure"]
    traces, cases = [], []
    FAM = {"XXZZ": [c for c in SMALL if c[0] == "XXZZ"], "XZZX": [c for c in SMALL if c[0] == "XZZX"],
           "Repetition": [c for c in SMALL if c[0] == "Repetition"]}
    N = 60 if not THOROUGH else 500
    NAMES3 = [("alice", "bob", "tq"), ("tq", "tq_copy", "t"), ("q_c", "q", "q_c_c"), ("a1", "a", "a11"), ("x_mz", "x_m", "x")]
    hist = {}
    for n in range(N):
        k = 2 + (n % 3 == 0)
        mode = n % 5
        cs = [SMALL[r.randrange(8)] for _ in range(k)]
        if mode in (1, 2):          # one dictionary for all, of one type or of several
            base = r.choice(["XXZZ", "XZZX", "Repetition"])
            spec = r.choice([{"num": 3}, {"tuple": [3, 1]}, {}])
            cs = [(base if mode == 1 else r.choice(["XXZZ", "XZZX", "Repetition"]), (3, 1), False) for _ in range(k)]
            if spec == {"num": 3} or spec == {}:
                nds = [3 if c[0] == "Repetition" else 9 for c in cs]
            else:
                nds = [3] * k
        elif mode == 3:             # the same type and size several times, different dictionaries
            cs = [cs[0]] * k
            nds = [c[1][0] * c[1][1] for c in cs]
        else:
            nds = [c[1][0] * c[1][1] for c in cs]
        key = tuple(nds)
        if not hist.get(key):
            hist[key], _ = gen.histories(12, 12 if not THOROUGH else 18, list(range(k)), nds, kinds, salt=900 + n)
        h = hist[key].pop()
        news = {}
        for t, c in enumerate(cs):
            a = new(t, c, name=NAMES3[n % len(NAMES3)][t])
            if mode in (1, 2):
                a["shared"] = "p"
                a.pop("d")
                if spec:
                    a["d"] = spec
            if mode == 4 and t == 1:
                a["circ"] = 1 if False else 0
            news[t] = [a] + ([{"k": "bell", "q": ["D%d" % t]}] if n % 2 else [])
        acts = [env()] + lazy_news(h, news)
        traces.append(record("iso-%d" % n, acts))
        cases.append(acts)
    # the caller changes the dictionary between requests: earlier qubits stay as they are
    for n in range(12 if not THOROUGH else 60):
        ty = ["XXZZ", "XZZX", "Repetition"][n % 3]
        dims = r.sample([[3, 1], [5, 1]] if ty == "Repetition" else [[3, 1], [1, 3], [3, 3], [3, 5], [1, 5]], 2)
        nds = [x[0] * x[1] for x in dims]
        h = gen.histories(1, 14, [0, 1], nds, kinds, salt=950 + n)[0][0]
        first = h[:5]
        for i, a in enumerate(first):
            if a.get("t") == 1 or any("d1." in str(y) for x in a.get("g", []) for y in x):
                first = h[:i]
                break
        form = [{"tuple": dims[0]}, {"list": list(dims[0])}][n % 2 if ty != "Repetition" else 0]
        acts = [env(), dict(k="new", t=0, type=ty, name="p", shared="s", d=form), {"k": "bell", "q": ["D0"]}] + first + \
            [dict(k="setp", shared="s", d={"tuple": dims[1]})] + \
            ([{"k": "stabilize", "t": 0}] if n % 4 < 2 else []) + \
            [dict(k="new", t=1, type=ty, name="q", shared="s", d={"tuple": dims[1]}), {"k": "bell", "q": ["D1"]}] + h[len(first):] + \
            [{"k": k, "t": t} for k in ("stabilize", "readout_x", "readout_z", "reset_x", "lattice_readout_x") for t in (0, 1)]
        acts = resets(acts)
        traces.append(record("setp-%d" % n, acts))
        cases.append(acts)
    # lattices of the same size but turned
    for n, acts in enumerate(swapped([{"k": k} for k in ("reset_x", "stabilize", "x", "readout_z", "reset_z", "readout_x", "stabilize",
                                                         "lattice_readout_z")])):
        traces.append(record("turned-%d" % n, acts))
        cases.append(acts)
    # qubits built on circuits of their own from one dictionary
    for n in range(6):
        ty = ["XXZZ", "XZZX", "Repetition"][n % 3]
        acts = []
        for t in range(3):
            acts.append(dict(k="new", t=t, type=ty, d={"num": 3}, name="tq", own_circ=True, shared="p"))
            acts += [{"k": k, "t": u} for u in range(t + 1) for k in ("reset_x", "stabilize", "readout_z")]
        acts += [{"k": "lattice_readout_z", "t": 0}, {"k": "stabilize", "t": 1}, {"k": "lattice_readout_x", "t": 2}]
        traces.append(record("own-%d" % n, acts))
        cases.append(acts)
    chk.notes["calls_judged"] = sum(1 for t in traces for e in t["ev"] if e["k"] in ALLCALLS)
    for t in traces[:3]:
        chk.sample({"id": t["id"], "calls": [(e["k"], e.get("t")) for e in t["ev"]]})

    def reference(acts):
        ts = sorted({a["t"] for a in acts if a["k"] == "new"})
        return [of_qubit(acts, t) for t in ts]
    judge_relative(chk, traces, cases, ["outcome", "own", "writes", "arguments", "earlier", "registers", "state"],
                   ALLCALLS, "shared circuits", reference)
    return chk


def as_methods(acts):
    return [[dict(a, via="method") if "via" in a else a for a in acts]]


def c10():
    chk = Check("C10")
    r = rng("c10")
    kinds = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "readout_x", "readout_z", "readout_z_creg",
             "readout_x_creg", "lattice_readout_x", "lattice_readout_z", "id", "id_data", "u_error"]
    traces, cases = [], []
    BADITEM = [{"type": "Nope", "d": {"num": 3}}, {"type": "XXZZ", "d": {"num": 4}}, {"type": "Repetition", "d": {"tuple": [3, 3]}},
               {"type": "XZZX", "d": {"tuple": [3]}}, {"type": "xxzz", "d": {"num": 3}}, {"type": "XXZZ", "d": {"tuple": [-1, 3]}}]

    def good():
        c = SMALL[r.randrange(8)]
        return {"type": c[0], "d": {"tuple": list(c[1])}, "pf": c[2]}

    def item(x, n):
        if x == "u":
            return dict(BADITEM[n % 2 * 4])
        if x == "b":
            return dict([BADITEM[1], BADITEM[2], BADITEM[3], BADITEM[5]][n % 4])
        return good()

    def real(h, n, mixed):
        """A generated register history with real types and dimensions."""
        acts, m = [], n
        for a in h["h"]:
            a = dict(a)
            if "p" in a:
                p = a.pop("p")
                a["items"] = []
                for x in p:
                    m += 1
                    a["items"].append(item(x, m) if mixed or x in "bu" else
                                      {"type": ["XXZZ", "XZZX", "Repetition"][m % 3],
                                       "d": {"tuple": [3, 1] if m % 2 or m % 3 == 2 else [1, 3]}})
                if "s" in p:
                    a["ntypes"] = len(p) - 1
            if a["k"] == "treg":
                a.update(name=["treg", "T", "reg_1"][n % 3], bare=n % 2, own_circ=n % 7 == 3, may_fail=True)
            acts.append(a)
        subs = ["data", "spare", "ancilla", "more", "nothing"]
        acts += [{"k": "treg_get", "key": k} for k in range(-1, h["n"] + 2)] + [{"k": "treg_sub", "name": s} for s in subs]
        return acts if n % 7 == 3 else [env()] + acts
    NAMES = ["data", "spare", "ancilla", "more"]
    LISTS = [[], ["g"], ["g", "g"], ["g", "b"], ["b", "g"], ["g", "u"], ["g", "s"], ["g", "g", "b", "g"], ["g", "g", "g"]]
    FIRST = [[], ["g"], ["g", "g"]]
    # all of them with two additions, and with four additions of a simpler kind; random longer ones
    lib = [(h, False) for h in gen.registers(0, 3, NAMES[:3], LISTS, FIRST, gets=False, random=False)]
    lib += [(h, False) for h in gen.registers(0, 5, NAMES[:3], [["g"], ["g", "b"]] + ([["g", "g"]] if THOROUGH else []),
                                              [["g"]], gets=False, random=False)]
    lib += [(h, True) for h in gen.registers(60 if not THOROUGH else 600, 11, NAMES, LISTS, FIRST, salt=3)]
    lib += [(h, n % 2 == 0) for n, h in enumerate(gen.registers(8 if not THOROUGH else 80, 14, NAMES, [["g"] * 3, ["g", "g", "b"]],
                                                                FIRST, gets=False, salt=4))]
    for n, (h, mixed) in enumerate(lib):
        traces.append(None)
        cases.append(real(h, n, mixed) + ([{"k": "uses", "n": h["n"]}] if n % 5 == 0 and h["n"] else []))
    TOPS = ["stabilize", "id", "id_data", "reset_x", "reset_z", "x", "z", "cx", "readout_x", "readout_z", "lattice_readout_x",
            "lattice_readout_z", "parse_readout"]

    def parses(t, c):
        """Strings of random rounds on code c, interpreted by number, by object and by the qubit itself."""
        dh, dw = c[1]
        out = []
        for m in range(3):
            syn = ["".join(r.choice("01") for _ in range(dh * dw - 1)) for _ in range(r.randrange(1, 4))]
            first = "".join(r.choice("01") for _ in range(1 if m == 1 else dh * dw))
            ty = ["Z", None, "X"][(m + t) % 3]
            out.append({"k": "tparse", "t": t, "string": " ".join([first] + syn), "type": ty, "via": ["index", "object"][m % 2]})
        return out
    # operations by index, object and method on several qubits, also in a non-data sub-register
    hist = {}
    for n in range(30 if not THOROUGH else 200):
        k = 2 + n % 2
        cs = [SMALL[r.randrange(8)] for _ in range(k)]
        nds = tuple(c[1][0] * c[1][1] for c in cs)
        if not hist.get(nds):
            hist[nds], _ = gen.histories(6, 10, list(range(k)), list(nds), kinds, vias=("index", "object", "method"),
                                         salt=1000 + n)
        h = hist[nds].pop()
        if n % 3 == 0:
            pre = [treg(cs[:1]), dict(k="treg_add", sub="spare", items=treg(cs[1:])["items"])]
        else:
            pre = [treg(cs)]
        acts = [env()] + pre + ([{"k": "bell", "q": ["D%d" % i for i in range(k)]}] if n % 2 else []) + h
        if n % 4 == 0:
            bad = {"type": "XXZZ", "d": {"num": 2}}
            acts += [{"k": "tcx", "t": 0, "t2": 1, "anc": bad}, dict(k="treg_add", sub="ancilla", items=[bad]),
                     {"k": "treg_sub", "name": "ancilla"}, {"k": "treg_get", "key": k}] + \
                [{"k": kk, "t": t} for t in (0, 1) for kk in ("reset_z", "stabilize")] + \
                [{"k": "tcx", "t": 1, "t2": 0}, {"k": "treg_sub", "name": "ancilla"}, {"k": "treg_get", "key": k}]
        for op in r.sample(TOPS, 4):
            acts.insert(r.randrange(2 + (n % 3 == 0), len(acts) + 1), dict(
                k="tbad", op=op, n=r.choice([-1, k + 1, k + 2, 10 ** 6, -k]), other=r.randrange(k), first=r.random() < .5, string="0 0"))
        for t in range(k):
            acts += parses(t, cs[t])
        traces.append(None)
        cases.append(acts)
    for i, acts in enumerate(cases):
        if acts[-1]["k"] == "uses":      # after everything, the qubits that exist are usable
            n = acts.pop()["n"]
            ts = sorted({0, n - 1, n // 2})
            acts += [dict(k=kk, t=t, via=v) for t in ts
                     for kk, v in (("reset_x", "index"), ("stabilize", "object"), ("readout_x", "index"))]
    traces = record_all([("reg-%d" % i, acts) for i, acts in enumerate(cases)])
    chk.notes["calls_judged"] = sum(1 for t in traces for e in t["ev"] if e["k"] in ALLCALLS)
    for t in traces[:2] + traces[-1:]:
        chk.sample({"id": t["id"], "calls": [(e["k"], e.get("t")) for e in t["ev"]]})
    judge_relative(chk, traces, cases, ["outcome", "own", "lookup", "earlier", "registers", "noop", "arguments", "state"],
                   ALLCALLS, "registers", as_methods)
    return chk


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C24": c24, "C25": c25}

"""C27: what is drawn of decoding graphs, against spec/Draw.tla.  C28: registers of topological circuits, against spec/OwnRegs.tla."""
import ast, warnings
from common import *
from parse_checks import twice
from decode_checks import make, types_of, hit_sets, judge_traces


# --- C27 ------------------------------------------------------------------------------------------------------
def _mil(x):
    return int(round(float(x) * 1000))


def _read(ax, deep):
    """Marks, straight lines and texts of a drawing."""
    from matplotlib.patches import FancyArrowPatch
    marks, lines, labels, weights, sizes, fonts = [], [], [], [], set(), set()
    for c in ax.collections:
        if hasattr(c, "get_segments") and not hasattr(c, "_offsets3d"):
            segs = getattr(c, "_segments3d", None) if deep else None
            for s in segs if segs is not None else c.get_segments():
                lines.append([list(p) + [0] * (3 - len(p)) for p in (s[0], s[-1])])
        else:
            pts = zip(*c._offsets3d) if deep and hasattr(c, "_offsets3d") else [(x, y, 0) for x, y in c.get_offsets()]
            for p in pts:
                marks.append([_mil(v) for v in p])
            sizes |= {round(float(s), 3) for s in c.get_sizes()}
    for c in ax.lines:
        ps = list(zip(*(c.get_data_3d() if deep else c.get_data())))
        ps = [list(p) + [0] * (3 - len(p)) for p in ps]
        if len(ps) == 1 or c.get_linestyle() in ("None", "", " "):
            marks += [[_mil(v) for v in p] for p in ps]
        else:
            lines += [[a, b] for a, b in zip(ps, ps[1:]) if not any(v != v for v in a + b)]          # broken at nan
    for c in ax.patches:
        if isinstance(c, FancyArrowPatch):
            a, b = c._posA_posB
            lines.append([[a[0], a[1], 0], [b[0], b[1], 0]])
    for c in ax.texts:
        p = c.get_position_3d() if deep and hasattr(c, "get_position_3d") else c.get_position() + (0,)
        p = [_mil(v) for v in p]
        try:
            v = ast.literal_eval(c.get_text().strip())
        except Exception:
            continue
        if isinstance(v, tuple) and len(v) == 3:
            labels.append([p] + twice([v]))
            fonts.add(round(float(c.get_fontsize()), 3))
        elif isinstance(v, (int, float)):
            weights.append([p, int(round(v * 1e6))])
    lines = [[[_mil(v) for v in e] for e in x] for x in lines]
    return marks, labels, lines, weights, sizes, fonts


def _drawn(job):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    warnings.simplefilter("ignore")
    code, T, ty, items = job
    o, dec = guarded(lambda: make(code, T), 100)
    out = []
    for n, (what, hits, p, deep, opts) in enumerate(items):
        c = dict(out=o, T=T, deep=deep, nodes=[], edges=[], marks=[], labels=[], lines=[], weights=[], asked=[], used=[], intact=True)
        out.append(c)
        if o != "ok":
            continue
        plt.close("all")
        shows, real = [], plt.show
        plt.show = lambda *a, **k: shows.append(plt.gcf().number)

        def graph(g):
            idx = {i: k + 1 for k, i in enumerate(g.node_indexes())}
            return twice(g.nodes()), [[idx[a], idx[b], int(round(float(w) * 1e6))] for a, b, w in g.weighted_edge_list()]

        def run():
            kw = {} if p is None else {"err_prob": p}
            if what == "syndrome":
                g = dec.S[ty]
            else:
                g = dec._make_error_graph([tuple(x) for x in hits], ty, **kw)
                if what == "matched":
                    g = dec._run_mwpm_graph(g, **({} if p is None else {"floats": True}))
            c["nodes"], c["edges"] = graph(g)
            if deep:
                (dec.draw if T > 1 and n % 2 and not opts else dec.draw3D)(g, **opts)
                if not shows and not plt.get_fignums():
                    c["out"] = "not shown"
                    return
                ax = plt.figure(shows[-1] if shows else plt.get_fignums()[-1]).axes[0]
                angle = opts.get("angle") or [-116, 22]
                c["asked"], c["used"] = [str(float(x)) for x in angle], [str(float(ax.azim)), str(float(ax.elev))]
            else:
                fig, ax = dec.draw(g, **opts)
                open_ = bool(shows) or fig.number in plt.get_fignums()
                c["asked"], c["used"] = [str(opts.get("show", True))], [str(open_)]
                if ax not in fig.axes:
                    c["out"] = "axes of another figure"
            c["marks"], c["labels"], c["lines"], c["weights"], sizes, fonts = _read(ax, deep)
            if not deep and c["nodes"]:
                for k, got in (("dpi", {float(fig.dpi)}), ("node_size", sizes), ("font_size", fonts)):
                    if k in opts:
                        c["asked"].append(str({float(opts[k])}))
                        c["used"].append(str(got))
            c["intact"] = graph(g) == (c["nodes"], c["edges"])
        try:
            out_, _ = guarded(run, 100)
        finally:
            plt.show = real
        c["out"] = out_ if out_ != "ok" else c["out"]
        plt.close("all")
    return out


def c27():
    chk = Check("C27")
    r = rng("c27")
    plan = []
    codes = [(("Repetition", (3, 1), False), 1), (("Repetition", (1, 5), True), 1), (("XXZZ", (3, 3), False), 1), (("XXZZ", (3, 5), False), 1),
             (("XXZZ", (5, 3), False), 1), (("XXZZ", (7, 1), False), 1), (("XXZZ", (1, 3), False), 1),
             (("Repetition", (5, 1), False), 2), (("Repetition", (1, 3), True), 3), (("XXZZ", (3, 3), False), 2), (("XXZZ", (3, 3), False), 4),
             (("XXZZ", (3, 5), False), 2), (("XXZZ", (5, 3), False), 3), (("XXZZ", (1, 5), False), 2)]
    if THOROUGH:
        codes += [(("XXZZ", (5, 5), False), 1), (("XXZZ", (7, 3), False), 1), (("XXZZ", (5, 5), False), 2), (("XXZZ", (3, 3), False), 9)]
    for code, T in codes:
        for ty in types_of(code):
            hs = [h for h in hit_sets(code[1], T, ty, r, 40, False) if len(h) <= 5]
            hs = [hs[0]] + r.sample(hs, min(len(hs), 6 if not THOROUGH else 40))
            items = [("syndrome", [], None, T > 1, {}), ("matched", [], None, T > 1, {})]
            for n, h in enumerate(hs):
                for what in ("error", "matched"):
                    deep = T > 1 or n % 4 == 3
                    p = r.choice([None, None, .05, .2, .45])
                    opts = r.choice([{}, {"angle": [0, 0]}, {"angle": [r.randrange(-180, 180), r.choice([0, 90, -7.5])]},
                                      {"angle": [r.randrange(-180, 180), r.randrange(-80, 80)]}]) if deep else \
                        r.choice([{}, {"show": False}, {"dpi": 77}, {"node_size": 33}, {"font_size": 5.5, "show": True},
                                  {"dpi": 60, "node_size": 400, "font_size": 3, "show": False}])
                    items.append((what, h, p, deep, opts))
            for k in range(0, len(items), 5):
                plan.append((code, T, ty, items[k:k + 5]))
    # large graphs: hundreds of nodes and edges
    for n, (code, T) in enumerate([(("XXZZ", (7, 7), False), 1), (("XXZZ", (5, 5), False), 7), (("Repetition", (21, 1), False), 9),
                                   (("XXZZ", (9, 11), False), 1), (("XXZZ", (7, 3), False), 10)][:5 if THOROUGH else 4]):
        ty = types_of(code)[n % len(types_of(code))]
        hs = [h for h in hit_sets(code[1], T, ty, r, 40, False, big=True) if 5 < len(h) <= 9]
        plan.append((code, T, ty, [("syndrome", [], None, T > 1, {})]))
        plan.append((code, T, ty, [(what, h, None, T > 1, {}) for what in ("matched", "error") for h in hs[:2] if
                                   what == "matched" or T == 1]))
    traces, acts = [], []
    for n, (job, cases) in enumerate(zip(plan, pmap(_drawn, plan))):
        code, T, ty, items = job
        traces.append(dict(id="%s-%dx%d-T%d-%s/%d" % (code[0], code[1][0], code[1][1], T, ty, n), ev=cases))
        acts.append([list(map(str, x)) for x in items])
    judge_traces(chk, "Draw", traces, acts, "drawings")
    for t, a in zip(traces[:2], acts):
        chk.sample(dict(id=t["id"], drawn=a))
    return chk


# --- C28 ------------------------------------------------------------------------------------------------------
def _own(job):
    """One history of calls on topological circuits that share a quantum circuit."""
    from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
    from qtcodes import TopologicalRegister, TopologicalCircuit
    tid, h, shared = job
    r = rng("c28", tid)
    K = max([a["t"] for a in h] + [1])
    circ = QuantumCircuit()
    if shared % 2:
        circ.add_register(QuantumRegister(2, "a"), ClassicalRegister(1, "b"))
    regs = []
    for k in range(K):
        # circuits on one register, or on registers of their own
        regs.append(regs[0] if k and shared % 3 == 0 else
                    TopologicalRegister(circ=circ, ctypes=["Repetition"] * 2, params=[{"d": 3}, {"d": 3}], name="T%d" % k))
    tcs = [TopologicalCircuit(t) for t in regs]
    names = sorted({a["name"] for a in h}) + ["m1", "m2", "m3", "cnot_readout"]

    def ob():
        own = []
        for k, t in enumerate(tcs):
            for kind, table, have in (("q", t.qreg, circ.qregs), ("c", t.creg, circ.cregs)):
                for name in names:
                    if name in table:
                        at = [n + 1 for n, x in enumerate(have) if x is table[name]]
                        own.append([k + 1, kind, name, at[0] if at else 0])
        return dict(q=[[x.name, x.size] for x in circ.qregs], c=[[x.name, x.size] for x in circ.cregs],
                    nb=[circ.num_qubits, circ.num_clbits], own=own)

    def use(t, tc, what, name):
        if what == "cx":
            tc.cx(0, 1)
        elif what == "round":
            tc.stabilize(r.randrange(2))
        elif what == "readout":
            (tc.measure_x if r.random() < .5 else tc.measure_z)(r.randrange(2))
        elif what == "into" and tc.creg.get(name) is not None and tc.creg[name].size == 1:
            tc.measure_z(0, readout_creg=tc.creg[name])
        elif what == "qubit":
            regs[t].add_tqubit("more", "Repetition", {"d": 3})
        elif what == "user" and name not in {x.name for x in circ.qregs + circ.cregs}:
            circ.add_register(r.choice([QuantumRegister, ClassicalRegister])(r.randrange(1, 3), name))

    first, ev = ob(), []
    for a in h:
        e = dict(a)
        tc = tcs[a["t"] - 1]
        if a["k"] == "add":
            fn = tc.add_qreg if a["kind"] == "q" else tc.add_creg
            have = circ.qubits if a["kind"] == "q" else circ.clbits
            e["bits"] = a["bits"] and 0 < a["size"] <= len(have)
            kw = dict(bits=list(have)[-a["size"]:]) if e["bits"] else dict(size=a["size"])
            if a["override"] or r.random() < .5:
                kw["override"] = a["override"]
            if "bits" not in kw and r.random() < .3:
                out, _ = guarded(lambda: fn(kw.pop("size"), a["name"], **kw), 60)
            else:
                out, _ = guarded(lambda: fn(name=a["name"], **kw), 60)
        else:
            out, _ = guarded(lambda: use(a["t"] - 1, tc, a["what"], a["name"]), 60)
        ev.append(dict(e, out=out, ob=ob()))
    return dict(id=tid, first=first, ev=ev)


def c28():
    chk = Check("C28")

    def generate(num, **cfg):
        args = ["-simulate", "num=%d" % num, "-depth", str(cfg["len"] + 2), "-seed", str(SEED * 7919 + cfg["len"])] if num else []
        g = tlc("OwnRegs", cfg="OwnGen.cfg", data=dict(dict(random=bool(num), circuits=2, names=["a", "b"], sizes=[1, 2], bits=[False], uses=[]),
                                                       **cfg), args=args, **(dict(workers=1) if num else {}))
        hs = [json.loads(unq(tla_fields(p)[0])) for p in g.prints]
        if len(hs) < max(1, num // 2):
            raise MachineryError("history generation failed:\n" + g.out[-2000:])
        return hs
    hs = generate(0, len=2) + generate(0, len=3, circuits=2, names=["a"], sizes=[1]) + generate(0, len=4, circuits=1, names=["a"], sizes=[2])
    n = 300 if not THOROUGH else 4000
    every = dict(uses=["cx", "cx", "round", "readout", "into", "qubit", "user"], bits=[False, True], sizes=[1, 2, 1, 3, -1])
    hs += generate(n, len=9, circuits=3, names=["a", "b", "c", "T0_0_data", "T0_1_mz"], **every)
    hs += generate(n // 4, len=25, circuits=2, names=["a", "b", "b_", "a_", "a__", "cnot", "T0_more"], **every)
    jobs = [("own-%d" % k, h, k) for k, h in enumerate(hs)]
    traces = pmap(_own, jobs, chunk=20)
    judge_traces(chk, "OwnRegs", traces, [h for _, h, _ in jobs], "registers of topological circuits")
    chk.notes["calls_judged"] = sum(len(t["ev"]) for t in traces)
    chk.sample(dict(id=traces[-1]["id"], calls=hs[-1][:6]))
    return chk


CHECKS = {"C27": c27, "C28": c28}

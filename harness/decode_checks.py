"""C14, C15, C17-C19: conformance of the decoders to spec/DecodeTrace.tla, spec/CallHistory.tla, spec/LookUp.tla."""
import copy, itertools, math
from common import *
from parse_checks import num_syn, twice
from recorder import TYPES


def make(code, T):
    from qtcodes import RotatedDecoder, RepetitionDecoder
    ty, d, pf = code
    p = {"d": tuple(d), "T": T}
    if pf:
        p["phase-flip-protected"] = True
    return (RepetitionDecoder if ty == "Repetition" else RotatedDecoder)(p)


def types_of(code):
    nx, nz = num_syn(code[1])
    return (["Z"] if nz else []) + (["X"] if nx else [])


def sites(d, ty):
    """Faces of a type as (row, col) floats, as labels write them."""
    dh, dw = d
    if ty == "Z":
        fs = [(i, j) for i in range(1, dh) for j in range(dw + 1) if (i + j) % 2 == 0]
    else:
        fs = [(i, j) for i in range(dh + 1) for j in range(1, dw) if (i + j) % 2 == 1]
    return [(i - .5, j - .5) for i, j in fs]


def judge(chk, batches, cases_of, part, timeout=None, bonus=()):
    r = tlc_traces("DecodeTrace", data=dict(batches=batches, bonus=list(bonus)), timeout=timeout or (3000 if THOROUGH else 800))
    if len(r.accepts) != len(batches):
        raise MachineryError("TLC finished %d of %d batches\n%s" % (len(r.accepts), len(batches), r.out[-3000:]))
    by = {b["id"]: b for b in batches}
    total = sum(len(b.get("cases", [1])) for b in batches if b["kind"] != "model")
    for p in r.rejects:
        f = tla_fields(p)
        bid, n, why = unq(f[0]), int(f[1]), unq(f[2])
        b = by[bid]
        if b["kind"] == "model":
            raise MachineryError("%s: %s" % (bid, why))
        case = cases_of(b, n - 1)
        chk.violate("%s: %s: %s" % (bid, json.dumps(case), why), dict(batch=bid, dims=[b["dh"], b["dw"]], T=b["T"], type=b["ty"],
                                                                     case=case, why=why))
    chk.add(r, validated=total - len(r.rejects), part=part)
    return r


# --- C14 ------------------------------------------------------------------------------------------------------
def read_graph(dec, ty):
    g = dec.S[ty]
    nodes = list(g.nodes())
    idx = {i: n for n, i in enumerate(g.node_indexes())}
    edges = []
    for a, b, w in g.weighted_edge_list():
        edges.append([idx[a] + 1, idx[b] + 1, 1 if w == 1 else -1])
    return dict(out="ok", nodes=twice(nodes), edges=edges, virtual=twice(dec.virtual[ty]))


def _graphs(job):
    """Graphs of decoders that live side by side."""
    decs = [guarded(lambda: make(code, T), 300) for code, T in job]
    return [_graph(d, code) for d, (code, _) in zip(decs, job)]


def _graph(built, code):
    o, dec = built
    out = []
    # a surface code has a graph of either type, also of one without plaquettes (boundary sites only)
    for ty in types_of(code) if code[0] == "Repetition" else "XZ":
        if o != "ok":
            out.append((ty, dict(out=o, nodes=[], edges=[], virtual=[])))
            continue
        o2, g = guarded(lambda: read_graph(dec, ty), 60)
        out.append((ty, g if o2 == "ok" else dict(out="graph of type %s: %s" % (ty, o2), nodes=[], edges=[], virtual=[])))
    return out


def c14():
    chk = Check("C14")
    jobs = []
    hi = 7 if not THOROUGH else 11
    for dh in range(1, hi + 1, 2):
        for dw in range(1, hi + 1, 2):
            for T in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4, 6):
                if dh * dw * T <= (110 if not THOROUGH else 300):
                    jobs.append((("XXZZ", (dh, dw), False), T))
    for d in (3, 5, 7, 9) + ((13, 17) if THOROUGH else ()):
        for T in (1, 2, 4):
            jobs.append((("Repetition", (d, 1), False), T))
            jobs.append((("Repetition", (1, d), True), T))
    jobs += [(("XXZZ", (9, 3), False), 2), (("XXZZ", (3, 9), False), 1), (("XXZZ", (1, 15), False), 2), (("XXZZ", (15, 1), False), 3),
             (("XXZZ", (3, 3), False), 8), (("XXZZ", (3, 1), False), 12), (("XXZZ", (9, 9), False), 1), (("XXZZ", (9, 5), False), 3),
             (("XXZZ", (5, 9), False), 2), (("XXZZ", (3, 5), False), 11), (("XXZZ", (5, 3), False), 10), (("XXZZ", (5, 5), False), 6),
             (("XXZZ", (7, 7), False), 4), (("XXZZ", (1, 9), False), 11), (("XXZZ", (9, 1), False), 13), (("XXZZ", (11, 3), False), 4),
             (("XXZZ", (3, 11), False), 5), (("Repetition", (3, 1), False), 15), (("Repetition", (1, 5), True), 11),
             (("Repetition", (11, 1), False), 6), (("Repetition", (1, 13), True), 3),
             (("XXZZ", (13, 11), False), 2), (("XXZZ", (21, 5), False), 2), (("XXZZ", (3, 25), False), 2), (("XXZZ", (27, 27), False), 1),
             (("XXZZ", (47, 45), False), 1), (("Repetition", (1101, 1), False), 1), (("Repetition", (1, 301), True), 3),
             (("XXZZ", (3, 3), False), 40), (("XXZZ", (1, 1501), False), 1), (("XXZZ", (99, 3), False), 3)]
    batches = []
    groups = [[j] for j in jobs] + [g for a in ALIKE for g in (a, a[::-1])]
    for (code, T), gs in [x for g, res in zip(groups, pmap(_graphs, groups)) for x in zip(g, res)]:
        for ty, g in gs:
            b = dict(id="%s-%dx%d-T%d-%s" % (code[0], code[1][0], code[1][1], T, ty), kind="graph", dh=code[1][0],
                     dw=code[1][1], T=T, ty=ty, graph=g)
            batches.append(b)
    judge(chk, batches, lambda b, n: {"graph": b["id"]}, "graphs")
    for b in batches[:3]:
        chk.sample(dict(graph=b["id"], nodes=len(b["graph"]["nodes"]), edges=len(b["graph"]["edges"])))
    return chk


# --- C15, C17 -------------------------------------------------------------------------------------------------
def hit_sets(d, T, ty, r, num, full, big=False):
    """Sets of hits: all of them where there are few, else random ones (uniform, clustered, along the boundary)."""
    nodes = [(float(t), row, col) for t in range(T) for row, col in sites(d, ty)]
    if len(nodes) <= (8 if not full else 10):
        for k in range(len(nodes) + 1):
            for c in itertools.combinations(nodes, k):
                yield list(c)
        return
    cap = 8 if not full else 9
    for n in range(num):
        k = r.randrange(1, 12 if n % 40 == 3 and big else cap if n % 4 else 4)
        mode = n % 3
        if mode == 0:
            c = r.sample(nodes, min(k, len(nodes)))
        elif mode == 1:
            x = r.choice(nodes)
            near = sorted(nodes, key=lambda y: (abs(y[0] - x[0]) + max(abs(y[1] - x[1]), abs(y[2] - x[2])), r.random()))
            c = r.sample(near[:2 * k + 2], min(k, len(near[:2 * k + 2])))
        else:
            # effect of a few random faults
            hs = set()
            for _ in range(r.randrange(1, 5)):
                u = r.choice(nodes)
                kind = r.randrange(3)
                if kind == 0 and T > 1:
                    v = (u[0] + 1, u[1], u[2])
                else:
                    v = (u[0], u[1] + r.choice([-1, 1]), u[2] + r.choice([-1, 1]))
                for w in (u, v):
                    if w in nodes:
                        hs ^= {w}
            c = sorted(hs)[:cap]
        r.shuffle(c)
        yield c


def many_hits(d, T, ty, r, num, top):
    """Many hits at once: uniform, around one place, or the effect of many faults."""
    nodes = [(float(t), row, col) for t in range(T) for row, col in sites(d, ty)]
    for n in range(num):
        k = min(len(nodes), r.randrange(9, top + 1))
        if n % 3 == 0:
            c = r.sample(nodes, k)
        elif n % 3 == 1:
            x = r.choice(nodes)
            c = r.sample(sorted(nodes, key=lambda y: (abs(y[0] - x[0]) + max(abs(y[1] - x[1]), abs(y[2] - x[2])), r.random()))[:2 * k], k)
        else:
            hs, last = set(), []
            while len(hs) < k - 1 and len(last) < 500:
                u = r.choice(nodes)
                v = (u[0] + 1, u[1], u[2]) if r.random() < .3 else (u[0], u[1] + r.choice([-1, 1]), u[2] + r.choice([-1, 1]))
                hs ^= {w for w in (u, v) if w in nodes}
                last.append(u)
            c = sorted(hs)[:top]
        r.shuffle(c)
        yield c


def edge_hits(d, T, ty, r, num):
    """Hits next to one or both boundaries, far enough apart that most are explained from there: many crossings at once."""
    nodes = [(float(t), row, col) for t in range(T) for row, col in sites(d, ty)]
    axis, end = (1, d[0] - 1) if ty == "Z" else (2, d[1] - 1)
    near = [x for x in nodes if x[axis] < 1]
    far = [x for x in nodes if x[axis] > end - 1]
    for n in range(num):
        c, gap = [], r.choice([3, 4, 5])
        for pool in ([near], [near, far])[n % 2]:
            for x in r.sample(pool, len(pool)):
                if all(abs(x[0] - y[0]) + max(abs(x[1] - y[1]), abs(x[2] - y[2])) >= gap for y in c) and r.random() < .9:
                    c.append(x)
        c = c[:9 + n % 4]
        r.shuffle(c)
        yield c


def many_paths(d, T, ty, r, num, ps):
    """One or two hits whose explanations have many paths and nearly equal weights (only a choice of cases)."""
    real = {(t,) + x for t in range(T) for x in sites(d, ty)}
    edge = lambda x: (x[1] < 0 or x[1] > d[0] - 1) if ty == "Z" else (x[2] < 0 or x[2] > d[1] - 1)

    def paths(u):
        dist, cnt, front = {u: 0}, {u: 1}, [u]
        while front:
            new = {}
            for v in front:
                t, i, j = v
                for w in [(t, i + a, j + b) for a in (-1, 1) for b in (-1, 1)] + [(t - 1, i, j), (t + 1, i, j)]:
                    w = w if w in real else ((-1,) + w[1:] if edge(w) and w[0] == t and -1 <= w[1] <= d[0] and -1 <= w[2] <= d[1] else None)
                    if w and w not in dist:
                        new[w] = new.get(w, 0) + cnt[v]
            cnt.update(new)
            dist.update({w: dist[v] + 1 for w in new})
            front = [w for w in new if w[0] >= 0]
        return dist, cnt

    def out(dist, cnt, p):
        """Least weights to either side."""
        ends = [w for w in dist if w[0] < 0]
        low = lambda w: (w[1] if ty == "Z" else w[2]) < 0
        best = min(dist[w] for w in ends)
        n = sum(cnt[w] for w in ends if dist[w] == best)
        return best - math.log(n) / math.log((1 - p) / p), n

    real_, got = sorted(real), []
    for _ in range(num * 30):
        if len(got) >= num:
            break
        u, p = r.choice(real_), r.choice(ps)
        du, cu = paths(u)
        wu, nu = out(du, cu, p)
        if len(got) % 4 == 3:
            if nu > 800:
                got.append(([tuple(map(float, u))], p))
            continue
        near = [v for v in real_ if cu.get(v, 0) > 800]
        if not near:
            continue
        v = r.choice(near)
        wv, _ = out(*paths(v), p)
        if abs(du[v] - math.log(cu[v]) / math.log((1 - p) / p) - wu - wv) < 1.2 or len(got) % 4 == 2:
            got.append(([tuple(map(float, u)), tuple(map(float, v))], p))
    return got


def line_hits(d, T, ty, r, num):
    """Any number of hits of one time on a line of data qubits."""
    places = sites(d, ty)
    for n in range(num):
        t = float(r.randrange(T))
        p = r.choice([.1, .3, .45, .5, .7, 1])
        if n % 2:
            err = [int(r.random() < p) for _ in range(len(places) + 1)]
            c = [(t,) + x for x, a, b in zip(places, err, err[1:]) if a != b]
        else:
            c = [(t,) + x for x in places if r.random() < p]
        r.shuffle(c)
        yield c


def _answers(job):
    """Answers of some decoders living side by side, asked in turn."""
    decs = [guarded(lambda: make(code, T), 300) for code, T, _, _ in job]
    out = [[] for _ in job]
    for n in range(max(len(x[3]) for x in job)):
        for k, (code, T, ty, items) in enumerate(job):
            if n < len(items):
                out[k].append(_answer(decs[k], code, ty, *items[n]))
    return out


def _answer(built, code, ty, hits, noise, v, p):
    o, dec = built
    if o != "ok":
        return dict(out="building the decoder: " + o, v=0, who="decoder")
    h = {ty: [tuple(x) for x in hits], ("X" if ty == "Z" else "Z"): [tuple(x) for x in noise]}
    kw = {} if p is None else {"err_prob": p}
    o2, a = guarded(lambda: dec.correct_readout(h, ty, v, **kw), 60)
    try:
        a = dict(out=o2, v=int(a) if o2 == "ok" else 0, who=code[0])
        if o2 == "ok" and a["v"] not in (0, 1):
            a["out"] = "value"
    except Exception:
        a = dict(out="malformed", v=0, who=code[0])
    return a


DEC_CODES = [("Repetition", (3, 1), False), ("Repetition", (1, 3), True), ("Repetition", (5, 1), False), ("Repetition", (1, 7), True),
             ("XXZZ", (3, 3), False), ("XXZZ", (3, 5), False), ("XXZZ", (5, 3), False), ("XXZZ", (5, 5), False),
             ("XXZZ", (7, 3), False), ("XXZZ", (3, 7), False), ("XXZZ", (7, 7), False), ("XXZZ", (5, 1), False), ("XXZZ", (1, 5), False)]


def ask_all(plan, together=()):
    """plan: list of (code, T, ty, items); answers in the same shape.  together: groups of entries asked in turn."""
    jobs, where = [list(g) and [plan[n] for n in g] for g in together], [list(g) for g in together]
    grouped = {n for g in together for n in g}
    for n, (code, T, ty, items) in enumerate(plan):
        for c in range(0, len(items) if n not in grouped else 0, 60):
            jobs.append([(code, T, ty, items[c:c + 60])])
            where.append([n])
    out = [[] for _ in plan]
    for ns, a in zip(where, pmap(_answers, jobs)):
        for n, x in zip(ns, a):
            out[n] += x
    return out


# decoders that are easily taken for each other
ALIKE = [[(("XXZZ", (3, 5), False), 2), (("XXZZ", (5, 3), False), 2), (("XXZZ", (3, 5), False), 1), (("XXZZ", (5, 3), False), 3)],
         [(("Repetition", (5, 1), False), 2), (("Repetition", (1, 5), True), 2), (("XXZZ", (5, 1), False), 2), (("XXZZ", (1, 5), False), 2)],
         [(("XXZZ", (3, 3), False), 3), (("XXZZ", (3, 3), False), 1), (("XXZZ", (9, 1), False), 3), (("XXZZ", (5, 5), False), 3)],
         [(("Repetition", (3, 1), False), 11), (("XXZZ", (3, 11), False), 1), (("XXZZ", (11, 3), False), 1), (("Repetition", (11, 1), False), 3)]]


def alike(r, per, choose):
    """Entries of a plan for such groups: the same hits to every decoder that has them; and the groups."""
    plan, groups = [], []
    for g in ALIKE:
        for order in (g, g[::-1]):
            ns, asked = [], []
            for code, T in order:
                for ty in types_of(code):
                    nodes = {(float(t),) + x for t in range(T) for x in sites(code[1], ty)}
                    mine = [h for h in hit_sets(code[1], T, ty, r, per, False) if h][:per]
                    asked += mine
                    ns.append(len(plan))
                    plan.append([code, T, ty, nodes])
            r.shuffle(asked)
            for n in ns:
                code, T, ty, nodes = plan[n]
                plan[n] = (code, T, ty, [choose(m, h) for m, h in enumerate(asked) if set(h) <= nodes])
            groups.append(ns)
    return plan, groups


def label(hits):
    return [[int(t), int(2 * r), int(2 * c)] for t, r, c in hits]


def c15():
    chk = Check("C15")
    r = rng("c15")
    plan = []
    for code in DEC_CODES:
        for ty in types_of(code):
            for T in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4, 5):
                if code[1] == (7, 7) and T > 2 and not THOROUGH:
                    continue
                items = []
                other = "X" if ty == "Z" else "Z"
                noise = [(float(t), a, b) for t in range(T) for a, b in sites(code[1], other)]
                for n, h in enumerate(hit_sets(code[1], T, ty, r, 700 if not THOROUGH else 3000, THOROUGH, big=True)):
                    items.append((h, r.sample(noise, min(len(noise), n % 4)), n % 2, None))
                plan.append((code, T, ty, items))
    # large, thin and long ones
    for n, (code, T) in enumerate([(("XXZZ", (9, 3), False), 2), (("XXZZ", (3, 9), False), 2), (("XXZZ", (9, 9), False), 1),
                                   (("XXZZ", (5, 7), False), 3), (("XXZZ", (7, 5), False), 2), (("XXZZ", (13, 1), False), 3),
                                   (("XXZZ", (1, 13), False), 4), (("Repetition", (11, 1), False), 5), (("Repetition", (1, 9), True), 6),
                                   (("XXZZ", (3, 3), False), 8), (("XXZZ", (3, 5), False), 6), (("XXZZ", (5, 3), False), 7),
                                   (("XXZZ", (5, 5), False), 5), (("XXZZ", (7, 7), False), 3), (("Repetition", (3, 1), False), 12),
                                   (("XXZZ", (1, 3), False), 11)]):
        for ty in types_of(code):
            other = "X" if ty == "Z" else "Z"
            noise = [(float(t), a, b) for t in range(T) for a, b in sites(code[1], other)]
            plan.append((code, T, ty, [(h, r.sample(noise, min(len(noise), m % 4)), m % 2, None) for m, h in
                                       enumerate(hit_sets(code[1], T, ty, r, 160 if not THOROUGH else 900, False, big=True))]))
    # many hits at once: 9 to 14 anywhere, dozens on a line
    few = 14 if not THOROUGH else 80
    for code, T in [(("XXZZ", (9, 9), False), 1), (("XXZZ", (11, 11), False), 1), (("XXZZ", (15, 15), False), 1), (("XXZZ", (5, 5), False), 4),
                    (("XXZZ", (7, 7), False), 2), (("XXZZ", (21, 3), False), 1), (("XXZZ", (3, 21), False), 1), (("XXZZ", (15, 5), False), 2),
                    (("XXZZ", (5, 13), False), 2), (("XXZZ", (3, 3), False), 14), (("Repetition", (21, 1), False), 1),
                    (("Repetition", (1, 17), True), 4), (("Repetition", (9, 1), False), 9), (("XXZZ", (1, 15), False), 3)]:
        for ty in types_of(code):
            plan.append((code, T, ty, [(h, [], m % 2, None) for m, h in enumerate(many_hits(code[1], T, ty, r, few, 14))]))
    for code, T in [(("Repetition", (21, 1), False), 1), (("Repetition", (1, 33), True), 2), (("Repetition", (75, 1), False), 1),
                    (("XXZZ", (1, 41), False), 3), (("XXZZ", (51, 1), False), 1), (("Repetition", (1, 121), True), 1),
                    (("Repetition", (161, 1), False), 1), (("XXZZ", (1, 301), False), 1)]:
        for ty in types_of(code):
            plan.append((code, T, ty, [(h, [], m % 2, None) for m, h in enumerate(line_hits(code[1], T, ty, r, 60 if not THOROUGH else 400))]))
    for code, T in [(("XXZZ", (3, 15), False), 1), (("XXZZ", (15, 3), False), 1), (("XXZZ", (3, 33), False), 1), (("XXZZ", (33, 3), False), 1),
                    (("XXZZ", (5, 21), False), 1), (("XXZZ", (21, 5), False), 2), (("XXZZ", (3, 7), False), 9), (("XXZZ", (7, 3), False), 9)]:
        for ty in types_of(code):
            plan.append((code, T, ty, [(h, [], m % 2, None) for m, h in enumerate(edge_hits(code[1], T, ty, r, 30 if not THOROUGH else 150))]))
    side, groups = alike(r, 24 if not THOROUGH else 150, lambda m, h: (h, [], m % 2, None))
    groups = [[len(plan) + n for n in g] for g in groups]
    plan += side
    answers = ask_all(plan, groups)
    batches = [dict(id="model-%d" % i, kind="model", dh=dh, dw=dw, T=T, ty=ty) for i, (dh, dw, T, ty) in enumerate(
        [(3, 1, 3, "Z"), (1, 3, 3, "X"), (3, 3, 2, "Z"), (3, 3, 2, "X"), (5, 1, 2, "Z"), (1, 5, 2, "X"), (5, 3, 1, "Z"), (3, 5, 1, "X"),
         (3, 5, 1, "Z"), (5, 3, 1, "X")] + ([(3, 3, 3, "Z"), (3, 5, 2, "Z"), (5, 5, 1, "Z"), (5, 5, 1, "X"), (7, 1, 2, "Z")] if THOROUGH else []))]
    for (code, T, ty, items), ans in zip(plan, answers):
        cases = [dict(hits=label(h), v=v, answers=[a]) for (h, _, v, _), a in zip(items, ans)]
        for c in range(0, len(cases), 100):
            batches.append(dict(id="%s-%dx%d-T%d-%s/%d" % (code[0], code[1][0], code[1][1], T, ty, c // 100), kind="class",
                                dh=code[1][0], dw=code[1][1], T=T, ty=ty, cases=cases[c:c + 100]))
    judge(chk, batches, lambda b, n: {k: b["cases"][n][k] for k in ("hits", "v")}, "hit sets")
    for b in batches[-3:]:
        chk.sample(dict(batch=b["id"], case=b["cases"][-1]))
    return chk


def c17():
    chk = Check("C17")
    r = rng("c17")
    plan = []
    ps = [0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.45, 1e-6, 0.15, 0.25, 0.49, 0.003]
    codes = [("Repetition", (3, 1), False), ("Repetition", (1, 5), True), ("XXZZ", (3, 3), False), ("XXZZ", (3, 5), False),
             ("XXZZ", (5, 3), False), ("XXZZ", (5, 5), False), ("XXZZ", (7, 3), False), ("XXZZ", (3, 7), False)] + \
            ([("XXZZ", (7, 7), False), ("XXZZ", (5, 7), False)] if THOROUGH else [])
    for code in codes:
        for ty in types_of(code):
            for T in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4):
                if code[1] == (5, 5) and T == 3 and not THOROUGH:
                    continue
                items, n = [], 0
                pool = list(hit_sets(code[1], T, ty, r, 600 if not THOROUGH else 2500, False))
                if len(pool) > 600 and not THOROUGH:
                    pool = r.sample(pool, 600)
                for h in pool:
                    n += 1
                    if 0 < len(h) <= (4 if code[1][0] + code[1][1] > 8 else 5):
                        items.append((h, [], n % 2, ps[n % len(ps)]))
                plan.append((code, T, ty, items))
    for code, T in [(("XXZZ", (7, 7), False), 1), (("XXZZ", (5, 7), False), 2), (("XXZZ", (7, 5), False), 2), (("XXZZ", (9, 3), False), 2),
                    (("XXZZ", (3, 9), False), 2), (("XXZZ", (3, 3), False), 6), (("XXZZ", (3, 5), False), 5), (("XXZZ", (5, 3), False), 5),
                    (("XXZZ", (9, 1), False), 3), (("XXZZ", (1, 9), False), 3), (("Repetition", (7, 1), False), 4),
                    (("Repetition", (1, 9), True), 2), (("XXZZ", (5, 5), False), 4)]:
        for ty in types_of(code):
            pool = [h for h in hit_sets(code[1], T, ty, r, 300 if not THOROUGH else 1500, False) if 0 < len(h) <= 4]
            plan.append((code, T, ty, [(h, [], n % 2, ps[n % len(ps)]) for n, h in enumerate(pool)]))
    # alternatives of nearly the same weight, with thousands of paths
    for code, T in [(("XXZZ", (9, 9), False), 4), (("XXZZ", (13, 13), False), 2), (("XXZZ", (23, 23), False), 1), (("XXZZ", (11, 7), False), 5),
                    (("XXZZ", (25, 9), False), 2), (("XXZZ", (9, 25), False), 2), (("XXZZ", (7, 7), False), 7)]:
        for ty in types_of(code):
            plan.append((code, T, ty, [(h, [], n % 2, p) for n, (h, p) in enumerate(
                many_paths(code[1], T, ty, r, 12 if not THOROUGH else 120, [p for p in ps if p > .04]))]))
    side, groups = alike(r, 12 if not THOROUGH else 80, lambda m, h: (h[:4], [], m % 2, ps[m % len(ps)]))
    groups = [[len(plan) + n for n in g] for g in groups]
    plan += side
    answers = ask_all(plan, groups)
    top = 3000
    bonus = [[int(round(1e6 * math.log(k) / (math.log1p(-p) - math.log(p)))) for k in range(1, top + 1)] for p in ps]
    batches = []
    for (code, T, ty, items), ans in zip(plan, answers):
        cases = [dict(hits=label(h), v=v, p=ps.index(p) + 1, answers=[a]) for (h, _, v, p), a in zip(items, ans)]
        step = 40
        for c in range(0, len(cases), step):
            batches.append(dict(id="%s-%dx%d-T%d-%s/%d" % (code[0], code[1][0], code[1][1], T, ty, c // step), kind="degen",
                                dh=code[1][0], dw=code[1][1], T=T, ty=ty, cases=cases[c:c + step]))
    chk.notes["probabilities"] = ps
    judge(chk, batches, lambda b, n: dict({k: b["cases"][n][k] for k in ("hits", "v")}, err_prob=ps[b["cases"][n]["p"] - 1]),
          "weighted hit sets", bonus=bonus)
    for b in batches[-3:]:
        chk.sample(dict(batch=b["id"], case=b["cases"][-1]))
    return chk


# --- C26 ------------------------------------------------------------------------------------------------------
def _steps(job):
    """The steps of decoding as the documentation shows them: error graph, matching, matched graph."""
    code, T, ty, items = job
    o, dec = guarded(lambda: make(code, T), 300)
    out = []
    for hits, p in items:
        c = dict(hits=label(hits), out=o, nodes=[], edges=[], pairs=[], mnodes=[], medges=[], intact=True)
        out.append(c)
        if o != "ok":
            continue
        mil = lambda w: int(round(float(w) * 1e6))

        def graph(g):
            idx = {i: n + 1 for n, i in enumerate(g.node_indexes())}
            return list(g.nodes()), [[idx[a], idx[b], mil(w)] for a, b, w in g.weighted_edge_list()]

        def run():
            given = [tuple(x) for x in hits]
            g = dec._make_error_graph(given, ty, **({} if p is None else {"err_prob": p}))
            first = graph(g)
            pairs = dec._run_mwpm(g, **({} if p is None else {"floats": True}))
            mg = dec._run_mwpm_graph(g, **({} if p is None else {"floats": True}))
            mn, me = graph(mg)
            c.update(nodes=twice(first[0]), edges=first[1], pairs=[twice(x) for x in pairs], mnodes=twice(mn),
                     medges=[twice([mn[a - 1], mn[b - 1]]) + [w] for a, b, w in me],
                     intact=given == [tuple(x) for x in hits] and graph(g) == first)
        out[-1]["out"] = guarded(run, 60)[0]
    return out


def c26():
    chk = Check("C26")
    r = rng("c26")
    ps = [0.001, 0.03, 0.1, 0.25, 0.4, 0.48]
    plan = []
    for code, T in [(c, T) for c in DEC_CODES for T in (1, 2, 3)] + \
            [(("XXZZ", (9, 3), False), 2), (("XXZZ", (3, 9), False), 2), (("XXZZ", (5, 7), False), 2), (("XXZZ", (3, 3), False), 7),
             (("Repetition", (9, 1), False), 4), (("Repetition", (1, 9), True), 3), (("XXZZ", (3, 5), False), 5),
             (("XXZZ", (1, 9), False), 4), (("XXZZ", (9, 1), False), 2), (("XXZZ", (9, 9), False), 1)]:
        if code[1] == (7, 7) and T == 3 and not THOROUGH:
            continue
        for ty in types_of(code):
            pool = list(hit_sets(code[1], T, ty, r, 110 if not THOROUGH else 700, False))
            if len(pool) > 110 and not THOROUGH:
                pool = [[], pool[-1]] + r.sample(pool, 108)
            few = 4 if code[1][0] + code[1][1] > 8 else 5
            plan.append((code, T, ty, [(h, None if len(h) > few or n % 5 < 3 else ps[n % len(ps)]) for n, h in enumerate(pool)]))
    top = 3000
    bonus = [[int(round(1e6 * math.log(k) / (math.log1p(-p) - math.log(p)))) for k in range(1, top + 1)] for p in ps]
    batches = []
    for (code, T, ty, items), cases in zip(plan, pmap(_steps, plan)):
        for (_, p), c in zip(items, cases):
            c["p"] = 0 if p is None else ps.index(p) + 1
        for k in range(0, len(cases), 40):
            batches.append(dict(id="%s-%dx%d-T%d-%s/%d" % (code[0], code[1][0], code[1][1], T, ty, k // 40), kind="steps",
                                dh=code[1][0], dw=code[1][1], T=T, ty=ty, cases=cases[k:k + 40]))
    judge(chk, batches, lambda b, n: {k: b["cases"][n][k] for k in ("hits", "p", "pairs", "medges")}, "decoding steps", bonus=bonus)
    for b in batches[-3:]:
        chk.sample(dict(batch=b["id"], case={k: b["cases"][-1][k] for k in ("hits", "p", "pairs")}))
    return chk


# --- C18 ------------------------------------------------------------------------------------------------------
def judge_traces(chk, module, traces, actions, part, **extra):
    r = tlc_traces(module, data=dict(traces=traces, **extra), timeout=3000 if THOROUGH else 800)
    acc = len(r.accepts)
    if acc + len(r.rejects) != len(traces):
        raise MachineryError("TLC decided %d of %d traces\n%s" % (acc + len(r.rejects), len(traces), r.out[-3000:]))
    by = {t["id"]: (t, a) for t, a in zip(traces, actions)}
    for p in r.rejects:
        f = tla_fields(p)
        tid, step, why = unq(f[0]), int(f[1]), unq(f[2])
        t, a = by[tid]
        chk.violate("%s: call %d: %s" % (tid, step, why), dict(id=tid, step=step, why=why, actions=a, event=t["ev"][step - 1]))
    chk.add(r, validated=acc, part=part)
    return r


def canon(x):
    """An answer, in a form that can be compared."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
        return json.dumps([int(x[0]), {k: sorted([float(y) for y in h] for h in v) for k, v in sorted(x[1].items())}])
    return json.dumps(int(x) if not isinstance(x, (list, str)) else x)


def _history(job):
    """Calls on the decoders and encoders of some codes, side by side."""
    group, seed, length = job
    ev, acts = [], []
    sides = [_side(code, T, rng("c18", code, T, seed, n), ev, acts, "%d:" % n if n else "")
             for n, (code, T) in enumerate(group)]
    r = rng("c18", group, seed)
    for n in range(length):
        r.choice(sides)(n)
    return dict(id="+".join("%s-%dx%d-T%d" % (c[0], c[1][0], c[1][1], T) for c, T in group) + "-%d" % seed, ev=ev), acts


def _side(code, T, r, ev, acts, mark):
    """One code of a history: a function that makes one more call."""
    d = code[1]
    nx, nz = num_syn(d)
    tys = types_of(code)
    p = {"d": tuple(d)}
    if code[2]:
        p["phase-flip-protected"] = True
    from qtcodes import RotatedDecoder, RepetitionDecoder
    cls = RepetitionDecoder if code[0] == "Repetition" else RotatedDecoder
    given = dict(p, T=T)                     # the caller's dictionary
    if d[0] == d[1] or code[0] == "Repetition" and r.random() < .5:
        given["d"] = max(d)
    if code[0] != "Repetition" and r.random() < .5:      # other spellings of the dimensions
        given["d"] = r.choice([list, lambda x: tuple(float(y) for y in x), __import__("numpy").array])(d)
    spelt = given["d"]
    before = copy.deepcopy(given)
    dec = cls(given)
    # a decoder may spell its parameters out in the dictionary it is given
    full = dict({"phase-flip-protected": False}, **before)
    now = given.get("d")
    same = {k: given.get(k) for k in before if k != "d"} == {k: v for k, v in before.items() if k != "d"} and \
        ((type(now) == type(before["d"]) and str(now) == str(before["d"])) or now == tuple(d)) and \
        str(spelt) == str(before["d"]) and all(k == "d" or full.get(k, given[k]) == given[k] for k in given)
    ev.append(dict(q=mark + "build", a="built", what="building a decoder", intact=same))
    acts.append(["build", str(before)])
    u = r.random()
    if u < .3:                               # ... which is put to other uses
        given.update(d=(7, 3) if code[0] != "Repetition" else 9, T=T + 2)
    elif u < .4:
        given.clear()
    if not isinstance(spelt, (tuple, int)):              # ... as is the list of the dimensions
        spelt[r.randrange(2)] = 11
    from qiskit import QuantumCircuit
    circ = QuantumCircuit(1, 1)
    q = TYPES[code[0]](dict(p), name="tq", circ=circ)
    q.stabilize()
    # a handful of questions, asked again and again in all forms
    qs = []
    for _ in range(3):
        form = r.random() < .5
        nd = d[0] * d[1]
        R = T + 1 if not form else max(T, 1)
        head = [r.randrange(2) for _ in range(nd if form else 1)]
        pp = r.choice([.1, .3, .5])
        fields = [head] + [[int(r.random() < pp) for _ in range(nx + nz)] for _ in range(R)]
        qs.append(("s", " ".join("".join(map(str, f)) for f in fields), r.choice(tys), r.choice([None, .02, .1])))
    for _ in range(2):
        ty = r.choice(tys)
        hs = next(iter(list(hit_sets(d, T, ty, r, 3, False))[-2:]))
        other = {t: [] for t in "XZ"}
        other[ty] = [tuple(float(y) for y in x) for x in hs]
        if len(tys) == 2 and r.random() < .5:
            o = "X" if ty == "Z" else "Z"
            other[o] = [(0.0,) + x for x in sites(d, o)[:2]]
        qs.append(("h", other, ty, r.choice([None, .05])))

    def sig():
        return [(i.operation.name, [circ.find_bit(b).index for b in i.qubits]) for i in circ.data], \
            [(x.name, x.size) for x in circ.qregs + circ.cregs]

    def call(q_, what, fn, *args):
        before, s0 = copy.deepcopy(args), sig()
        out, res = guarded(fn, 60)
        try:
            a = canon(res) if out == "ok" else out
        except Exception as e:
            a = "malformed " + type(e).__name__
        ev.append(dict(q=mark + q_, a=a, what=what, intact=before == args and sig() == s0))
        acts.append([what, mark + q_])
        return res if out == "ok" else None

    def scribble(got):
        """An answer is the caller's: changing it changes no later answer."""
        if got is None or r.random() < .4:
            return
        try:
            for h in got[1].values():
                if r.random() < .5:
                    h.reverse() if r.random() < .3 else h.clear() if r.random() < .5 else h.append((0.0, .5, .5))
            if r.random() < .2:
                got[1].clear()
        except Exception:
            pass                             # an answer of another shape

    def step(n):
        i = r.randrange(len(qs))
        kind, x, ty, e = qs[i]
        kw = {} if e is None else {"err_prob": e}
        obj, who = (dec, "long-lived decoder") if r.random() < .7 else (make(code, T), "fresh decoder")
        if kind == "s":
            u = r.randrange(6)
            if u == 0:
                scribble(call("parse %d" % i, "parse by " + who, lambda: obj.parse_readout(x, ty), x))
            elif u == 1:
                scribble(call("parse %d" % i, "parse by encoder", lambda: q.parse_readout(x, ty), x))
            elif u in (2, 3):
                call("decode %d" % i, "string to " + who, lambda: obj.correct_readout(x, ty, **kw), x)
            elif u == 4:
                o, got = guarded(lambda: obj.parse_readout(x, ty), 60)
                if o == "ok":
                    v, h = got
                    call("decode %d" % i, "value and hits to " + who, lambda: obj.correct_readout(h, ty, v, **kw), h)
                    if r.random() < .5:      # the very same lists again
                        call("decode %d" % i, "same hits again to " + who, lambda: obj.correct_readout(h, ty, v, **kw), h)
                    scribble(got)
            else:
                # keyword and positional spelling
                call("decode %d" % i, "string by keywords to " + who,
                     lambda: obj.correct_readout(syndromes=x, logical_readout_type=ty, **kw), x)
        else:
            if r.random() < .7:
                call("hits %d" % i, "hits to " + who, lambda: obj.correct_readout(x, ty, 1, **kw), x)
            else:
                c = copy.deepcopy(x)
                call("hits %d" % i, "copied hits to " + who, lambda: obj.correct_readout(c, ty, 1, **kw), c)

    return step


def c18():
    chk = Check("C18")
    jobs = []
    codes = DEC_CODES + [("XZZX", (3, 3), False), ("XZZX", (3, 5), False)]
    for n, code in enumerate(codes):
        for T in (1, 2, 3):
            for s in range(4 if not THOROUGH else 40):
                jobs.append(([(code, T)], s, 24 if not THOROUGH else 40))
    for code, T in [(("XXZZ", (3, 3), False), 9), (("XZZX", (5, 3), False), 6), (("XXZZ", (7, 5), False), 2), (("XZZX", (5, 7), False), 3),
                    (("Repetition", (15, 1), False), 5), (("Repetition", (1, 9), True), 8), (("XXZZ", (9, 3), False), 2),
                    (("XXZZ", (9, 9), False), 1), (("XZZX", (1, 7), False), 4)]:
        for s in range(2 if not THOROUGH else 20):
            jobs.append(([(code, T)], s, 40))
    for n, code in enumerate(codes):
        jobs.append(([(code, 1 + n % 3)], 1000, 260 if not THOROUGH else 1200))       # many calls on one decoder
    for g in ALIKE + [[(("XZZX", (3, 5), False), 2), (("XXZZ", (3, 5), False), 2), (("XZZX", (5, 3), False), 2)]]:
        for s in range(4 if not THOROUGH else 30):
            jobs.append((g if s % 2 else g[::-1], s, 120))
    res = pmap(_history, jobs)
    traces, acts = [t for t, _ in res], [a for _, a in res]
    judge_traces(chk, "CallHistory", traces, acts, "call histories")
    chk.notes["calls_judged"] = sum(len(t["ev"]) for t in traces)
    for t in traces[:2]:
        chk.sample(dict(id=t["id"], ev=t["ev"][:5]))
    return chk


# --- C19 ------------------------------------------------------------------------------------------------------
def _tables(n):
    """One history of setting, resetting and asking tables.  Every third has many strings and large counts (decisions only)."""
    r = rng("c19", n)
    big = n % 3 == 1
    S = ["0 00", "1 00", "0 01", "1 11", "010 10"] + [["0", "011"], ["1"], [], ["0 00 00", "1 00 01"], ["000", "0 000"]][n % 5]
    if big:
        S = S + [" ".join(["01"[k % 2], format(k, "08b"), format(k * 7 % 256, "08b")]) for k in range(r.choice([3, 20, 55]))]
    top = r.choice([40, 900, 2500]) if big else 12
    codes = [("Repetition", (3, 1), False), ("XXZZ", (3, 3), False), ("Repetition", (1, 3), True), ("XZZX", (3, 5), False)]
    D = 1 + (n % 7) % 3                          # decoders in use, of the same or of different codes
    code = [codes[(n + (k * (n // 3) if n % 2 else 0)) % 4] for k in range(D)]
    T = [1 + (n + (k if n % 3 else 0)) % 3 for k in range(D)]
    decs = [make(c, t) for c, t in zip(code, T)]
    ev, log = [], []
    empty = lambda: {("X", 0): {}, ("X", 1): {}, ("Z", 0): {}, ("Z", 1): {}}
    curs = [empty() for _ in range(D)]
    passed = []
    for m in range(r.randrange(3, 60 if n % 5 == 0 else 14) * (1 if D == 1 else 2)):
        u = r.random()
        ty = r.choice("XZ")
        w = r.randrange(D)
        dec, cur = decs[w], curs[w]
        if D > 1 and r.random() < .05:
            out, new = guarded(lambda: make(code[w], T[w]), 60)
            ev.append(dict(k="new", d=w + 1, out=out))
            log.append(["new", w])
            decs[w], curs[w] = new or dec, empty()
            continue
        if u < .42 or not any(cur.values()):
            i = r.randrange(2)
            k = r.randrange(1, len(S) + 1)
            counts = {s: r.randrange(1, top + 1) for s in r.sample(S, k)}
            other = cur[(ty, 1 - i)]
            if n % 4 == 0 and r.random() < .5 and other:
                f = r.randrange(1, 3)           # same frequencies as the other table: a tie
                counts = {s: c * f for s, c in other.items()} if max(other.values()) * f <= 2 * top else counts
            elif big and r.random() < .5 and other:
                counts = dict(other)            # a tie but for a few shots
                for s in r.sample(list(counts), min(3, len(counts))):
                    counts[s] = max(0, counts[s] + r.choice([-1, 1]))
            elif r.random() < .2:
                for s in list(counts)[1:]:
                    counts[s] *= r.randrange(2)
            elif r.random() < .05:
                counts = {}
            if counts and not sum(counts.values()):
                continue
            given = dict(counts)
            if passed and r.random() < .12:         # the very dictionary of an earlier table
                x = r.choice(passed)
                if 0 < sum(x.values()) <= (4000 if big else 60):
                    given, counts = x, dict(x)
            out, _ = guarded(lambda: dec.set_look_up_table(ty, i, given), 20)
            ev.append(dict(k="set", d=w + 1, ty=ty, i=i, counts=[counts.get(s, 0) for s in S], out=out, intact=given == counts))
            log.append(["set", w, ty, i, counts])
            cur[(ty, i)] = counts
            passed.append(given)
        elif u < .48:
            out, _ = guarded(dec.reset_look_up_table, 20)
            ev.append(dict(k="reset", d=w + 1, out=out))
            log.append(["reset", w])
            curs[w] = empty()
        elif u < .55 and passed:
            x = r.choice(passed)                 # the caller goes on counting
            for s in S:
                x[s] = x.get(s, 0) + r.randrange(0, 5)
            ev.append(dict(k="reuse"))
            log.append(["reuse"])
        else:
            seen = [s for s in S if cur[(ty, 0)].get(s) or cur[(ty, 1)].get(s)]
            if not seen:
                continue
            s = r.choice(seen)
            if big or r.random() < .5:
                out, v = guarded(lambda: dec.correct_readout_look_up_table(s, ty), 20)
                try:
                    v = int(v) if out == "ok" else 0
                except Exception:
                    out, v = "malformed", 0
                ev.append(dict(k="decide", d=w + 1, ty=ty, s=S.index(s) + 1, v=v, out=out))
                log.append(["decide", w, ty, s])
            else:
                # a prior that leaves the observed string possible
                a = r.choice([None, None, 1, 2, 3, 5, 8, 9] + [10] * bool(cur[(ty, 0)].get(s)) + [0] * bool(cur[(ty, 1)].get(s)))
                p = [1, 1] if a is None else [a, 10 - a]
                kw = () if a is None else ([a / 10, (10 - a) / 10],)
                out, v = guarded(lambda: dec._run_look_up(s, ty, *kw), 20)
                try:
                    rr = [int(round(x * 10000)) for x in v] if out == "ok" else [0, 0]
                except Exception:
                    out, rr = "malformed", [0, 0]
                ev.append(dict(k="prob", d=w + 1, ty=ty, s=S.index(s) + 1, p=p, r=rr, out=out))
                log.append(["prob", w, ty, s, p])
    return dict(id="lut-%d" % n, n=len(S), dec=D, ev=ev), log


def c19():
    chk = Check("C19")
    res = [x for x in pmap(_tables, range(900 if not THOROUGH else 12000)) if x[0]["ev"]]
    traces, acts = [t for t, _ in res], [a for _, a in res]
    judge_traces(chk, "LookUp", traces, acts, "table histories")
    chk.notes["questions"] = sum(1 for t in traces for e in t["ev"] if e["k"] in ("prob", "decide"))
    for t in traces[:2]:
        chk.sample(t)
    return chk


CHECKS = {"C14": c14, "C15": c15, "C17": c17, "C18": c18, "C19": c19, "C26": c26}

"""Reading the strategies the tool writes, and judging them against the game tables (independent of the tool's code)."""
import json, re, numpy as np

class Bad(Exception):
    def __init__(self, kind, what): super().__init__(what); self.kind, self.what = kind, what
def need(c, kind, what):
    if not c: raise Bad(kind, what)

class State:
    __slots__ = ("num", "rank", "val", "succ")
    def __init__(self, num, rank, val, succ): self.num, self.rank, self.val, self.succ = num, rank, val, succ

def parse_text(out):
    """explicit strategy / counterstrategy (text): {number: State}; val is a dict name -> 0/1"""
    st = {}
    pos = 0
    rx = re.compile(r"State (\d+) with rank (\(\d+,\d+\)|\d+) -> <([^>]*)>\n\tWith (no successors\.|successors : ([^\n]*))\n*")
    while pos < len(out):
        m = rx.match(out, pos)
        need(m, "format", "unreadable strategy output near %r" % out[pos:pos + 120])
        body = m.group(3); val = {}
        for x in [y for y in body.split(", ") if y]:
            n, v = x.rsplit(":", 1); need(v in "01" and n not in val, "format", "unreadable valuation " + x); val[n] = int(v)
        num = int(m.group(1)); need(num not in st, "format", "state %d listed twice" % num)
        rk = tuple(int(x) for x in m.group(2).strip("()").split(","))
        succ = None if m.group(4) == "no successors." else [int(x) for x in m.group(5).split(", ") if x.strip()] if m.group(5) is not None else []
        if succ is not None: pass
        st[num] = State(num, rk if len(rk) > 1 else rk[0], val, succ)
        pos = m.end()
    return st
def parse_json(out):
    d = json.loads(out); need(set(d) >= {"version", "slugs", "variables", "nodes"}, "format", "keys of the JSON object")
    st = {}
    for k, n in d["nodes"].items():
        need(len(n["state"]) == len(d["variables"]), "format", "length of a state vector")
        st[int(k)] = State(int(k), n["rank"], dict(zip(d["variables"], n["state"])), list(n["trans"]))
    return st
def parse_permissive(out):
    st = {}; lines = out.split("\n"); k = 0
    while k < len(lines):
        if not lines[k]: k += 1; continue
        m = re.match(r"State (\d+) with rank (\d+)$", lines[k]); need(m, "format", "unreadable line %r" % lines[k])
        val = {}
        for x in [y for y in lines[k + 1].split(", ") if y]:
            n, v = x.rsplit(":", 1); val[n] = int(v)
        k += 2; succ = []
        while k < len(lines) and lines[k]: succ.append(int(lines[k])); k += 1
        need(int(m.group(1)) not in st, "format", "state listed twice"); st[int(m.group(1))] = State(int(m.group(1)), int(m.group(2)), val, succ)
    return st
def enc(val, names): return sum(val[n] << k for k, n in enumerate(names))
def positions(s, st, kind="format"):
    pos = {}
    for n, x in st.items():
        need(set(x.val) == set(s.inputs) | set(s.outputs), kind, "state %d does not list exactly the variables" % n)
        pos[n] = (enc(x.val, s.inputs), enc(x.val, s.outputs))
    return pos

def sccs(nodes, succ):
    """Tarjan, iterative"""
    idx, low, on, out, st, c = {}, {}, set(), [], [], 0
    for r in nodes:
        if r in idx: continue
        work = [(r, iter(succ(r)))]; idx[r] = low[r] = c; c += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]; adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c; c += 1; st.append(w); on.add(w); work.append((w, iter(succ(w)))); adv = True; break
                if w in on: low[v] = min(low[v], idx[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = set()
                while True:
                    w = st.pop(); on.discard(w); comp.add(w)
                    if w == v: break
                out.append(comp)
    return out
def live_violation(nodes, edges, A, G):
    """edges: {node: [(succ, key)]}; A, G: predicates on edge keys.  A cycle meeting every assumption and missing some guarantee, or None"""
    for j, Gj in enumerate(G):
        sub = {v: [(w, k) for w, k in edges.get(v, ()) if not Gj(k)] for v in nodes}
        for c in sccs(nodes, lambda v: [w for w, _ in sub[v]]):
            es = [k for v in c for w, k in sub[v] if w in c]
            if es and all(any(Ai(k) for k in es) for Ai in A): return j, c
    return None

def check_explicit(s, g, W, st, rob, rec=False, coop=False):
    """C05 / C16 on the automaton of a realizable specification"""
    pos = positions(s, st); nI = g.nI
    byrank0 = {pos[n] for n, x in st.items() if x.rank == 0}
    for i in range(nI):
        if not g.iE[i, 0]: continue
        adm = [(i, o) for o in range(g.nO) if g.iS[i, o]]
        if rob: need(all(p in byrank0 for p in adm), "initial", "an admissible initial position is missing")
        else: need(any(p in byrank0 for p in adm), "initial", "no initial state for an admissible initial input")
    seen = set()
    for n, x in st.items():
        key = (pos[n], x.rank); need(key not in seen, "format", "the same state is listed twice"); seen.add(key)
        need(0 <= x.rank < len(g.G) + (len(g.A) if coop else 0), "rank", "goal number out of range in state %d" % n)
    edges = {}
    for n, x in st.items():
        i, o = pos[n]; got = {}
        need(W[i, o], "winning", "state %d is not a winning position" % n)
        edges[n] = []
        for t in x.succ:
            need(t in st, "dangling", "successor %d of state %d is not listed" % (t, n))
            a, c = pos[t]
            need(a not in got, "deterministic", "state %d has two successors for one input" % n); got[a] = t
            need(g.S[i, o, a, c], "safety", "transition %d -> %d violates the safety guarantees" % (n, t))
            if g.E[i, o, a, 0]: edges[n].append((t, (i, o, a, c)))
            else: need(rec, "superfluous", "state %d has a successor for an input the safety assumptions exclude" % n)
        for a in range(nI):
            if g.E[i, o, a, 0]: need(a in got, "complete", "state %d has no successor for an allowed input" % n)
            elif rec and not coop and (g.S[i, o, a] & W[a]).any(): need(a in got, "recovery", "state %d has no successor for a violating input although the guarantees and a winning position can be kept" % n)
    v = live_violation(list(st), edges, [lambda k, A=A: A[k] for A in g.A], [lambda k, G=G: G[k] for G in g.G])
    need(v is None, "liveness", "a run satisfies all liveness assumptions but not guarantee %s" % (v and v[0]))
    if coop:
        good = set()
        for c in sccs(list(st), lambda v: [w for w, _ in edges[v]]):       # (successor components come first)
            es = [k for v in c for w, k in edges[v] if w in c]
            if any(w in good for v in c for w, _ in edges[v]) or es and all(any(B[k] for k in es) for B in list(g.A) + list(g.G)): good |= c
        for n in st: need(n in good, "cooperation", "from state %d on no run satisfies both the assumptions and the guarantees" % n)
    return edges

# ------------------------------------------------------------------ symbolic strategies: DDDMP text files
def parse_dddmp(data):
    """(names by index, number of goals, evaluate(assignment by variable index))"""
    txt = data.decode("latin1")
    names = {}; goals = None
    for l in txt.split("\n"):
        m = re.match(r"#\t(\d+): (.*)$", l)
        if m: names[int(m.group(1))] = m.group(2)
        m = re.match(r"# Num goals: (\d+)", l)
        if m: goals = int(m.group(1))
    hd = {}
    lines = txt.split("\n"); k = 0
    while not lines[k].startswith(".nodes"):
        if lines[k].startswith("."):
            p = lines[k].split(); hd[p[0]] = p[1:]
        k += 1
    for q in lines:
        if q.startswith("."):
            p = q.split(); hd[p[0]] = p[1:]
    k += 1; nodes = {}
    while not lines[k].startswith(".end"):
        p = lines[k].split(); k += 1
        if p: nodes[int(p[0])] = p
    return names, goals, hd, nodes
class Dddmp:
    def __init__(self, data):
        self.names, self.goals, self.hd, self.nodes = parse_dddmp(data)
        self.ids = [int(x) for x in self.hd[".ids"]]; self.root = int(self.hd[".rootids"][0])
        need(self.hd[".mode"] == ["A"], "format", "DDDMP mode")
        # a node's internal number counts the variables of the support in the order of the levels; with .varinfo 0 the identifier is given, too
        self.bylevel = [i for _, i in sorted(zip([int(x) for x in self.hd[".permids"]], self.ids))]
        for p in self.nodes.values():
            if p[1] != "T" and self.hd.get(".varinfo") == ["0"]: need(int(p[1]) == self.bylevel[int(p[-3])], "format", "inconsistent variable number in a node")
    def tabulate(self, order):
        """boolean array over the variable indices in `order` (axis per variable)"""
        n = len(order); ax = {v: k for k, v in enumerate(order)}; memo = {}
        def lit(v):
            need(v in ax, "format", "the relation mentions an unexpected variable %d (%s)" % (v, self.names.get(v)))
            sh = [1] * n; sh[ax[v]] = 2; a = np.array([False, True]).reshape(sh); return a
        def rec(i):
            neg = i < 0; j = abs(i)
            if j not in memo:
                p = self.nodes[j]
                if p[1] == "T": memo[j] = np.ones([1] * n, bool)
                else:
                    var = int(p[1]) if self.hd.get(".varinfo") == ["0"] else self.bylevel[int(p[-3])]
                    x = lit(var); T = rec(int(p[-2])); E = rec(int(p[-1])); memo[j] = (x & T) | (~x & E)
            r = memo[j]
            return ~r if neg else r
        import sys; sys.setrecursionlimit(100000)
        return np.broadcast_to(rec(self.root), [2] * n)

def check_symbolic(s, g, W, data, full, rec=False):
    """C06 / C16: the relation written with --symbolicStrategy (full=False) or --simpleSymbolicStrategy (full=True)"""
    d = Dddmp(data)
    need(d.goals == len(g.G), "format", "number of goals in the header")
    byname = {}
    for k, n in d.names.items(): need(n not in byname, "format", "variable name %s listed twice" % n); byname[n] = k
    def var(n, inp): return byname.get(("in_" if full and inp else "") + n)
    pre_i = [var(n, True) for n in s.inputs]; post_i = [var(n + "'", True) for n in s.inputs]
    pre_o = [var(n, False) for n in s.outputs]; post_o = [var(n + "'", False) for n in s.outputs]
    jx = []; jxp = []
    while "_jx_b%d" % len(jx) in byname: jxp.append(byname.get("_jx_b%d'" % len(jx))); jx.append(byname["_jx_b%d" % len(jx)])
    need(None not in pre_i + post_i + pre_o + post_o + (jxp if full else []), "format", "a variable is missing in the header")
    sel = [] if full else [byname.get("strat_type")]
    need(None not in sel, "format", "strat_type is missing in the header")
    need((1 << len(jx)) >= len(g.G), "format", "too few counter bits")
    order = pre_i + pre_o + post_i + post_o + jx + (jxp if full else sel)
    T = d.tabulate(order)
    # reshape: groups of bits, first variable = least significant
    def group(T, sizes):
        p, ax = 0, []
        for k in sizes: ax += list(range(p + k - 1, p - 1, -1)); p += k
        return T.transpose(ax).reshape([1 << k for k in sizes])
    nJ = len(jx)
    T = group(T, [len(pre_i), len(pre_o), len(post_i), len(post_o), nJ, nJ if full else 1])
    n = len(g.G)
    need(not T[:, :, :, :, n:].any(), "counter", "transitions for a goal number that does not exist")
    for j in range(n):
        R = T[:, :, :, :, j]
        if full:
            nxt = (j + 1) % n
            for m in range(1 << nJ):
                ok = (g.G[j] if m == nxt else np.zeros_like(g.S)) | (~g.G[j] if m == j else np.zeros_like(g.S))
                need(not (R[..., m] & ~ok).any(), "counter", "the goal counter moves from %d to %d although it must not" % (j, m))
            base = R.any(axis=4)
        else:
            need(not (R[..., 1] & ~g.G[j]).any(), "counter", "goal %d is left although it is not reached" % j)
            base = R[..., 0] | R[..., 1]
            need(not (R[..., 1] & ~R[..., 0]).any(), "counter", "moves to the next goal that are not moves of the strategy")
        need(not (base & W[:, :, None, None] & ~g.S).any(), "safety", "a transition violates the safety guarantees (goal %d)" % j)
        need(not (base & W[:, :, None, None] & ~W[None, None]).any(), "winning", "a transition leaves the winning positions (goal %d)" % j)
        e = g.E[:, :, :, 0] & W[:, :, None]
        go = base.any(axis=3)
        need(not (e & ~go).any(), "complete", "no move for an allowed input (goal %d)" % j)
        if not full:
            need(not (e & ~R[..., 0].any(axis=3)).any(), "complete", "no move towards goal %d for an allowed input" % j)
        if rec:
            can = (g.S & W[None, None]).any(axis=3) & ~g.E[:, :, :, 0] & W[:, :, None]
            need(not (can & ~go).any(), "recovery", "no move for a violating input although the guarantees and a winning position can be kept (goal %d)" % j)
        sub = base & g.E & W[:, :, None, None]
        sub = sub & ~g.G[j]
        nodes = [(i, o) for i in range(g.nI) for o in range(g.nO) if W[i, o]]
        edges = {v: [((a, c), (v[0], v[1], a, c)) for a, c in np.argwhere(sub[v])] for v in nodes}
        edges = {v: [((int(a), int(c)), k) for (a, c), k in es] for v, es in edges.items()}
        for comp in sccs(nodes, lambda v: [w for w, _ in edges[v]]):
            es = [k for v in comp for w, k in edges[v] if w in comp]
            need(not (es and all(any(A[k] for k in es) for A in g.A)), "liveness", "a run satisfies all liveness assumptions but never reaches goal %d" % j)
    return T

def check_counter(s, g, W, st, rob):
    """C07 on the automaton of an unrealizable specification; W: positions won by the system"""
    lose = ~W; pos = {}; dead = set()
    for n, x in st.items():
        if x.succ is None:
            need(set(x.val) == set(s.inputs), "format", "deadlock state %d does not list exactly the inputs" % n); dead.add(n)
        else:
            need(set(x.val) == set(s.inputs) | set(s.outputs), "format", "state %d does not list exactly the variables" % n)
            pos[n] = (enc(x.val, s.inputs), enc(x.val, s.outputs))
    start = {pos[n] for n in pos if st[n].rank[0] == 0}
    init = [(i, o) for i in range(g.nI) for o in range(g.nO) if g.iE[i, 0] and g.iS[i, o] and lose[i, o]]
    for p in init: need(p in start, "initial", "an admissible initial position won by the environment is missing")
    edges = {}
    for n, p in pos.items():
        i, o = p; x = st[n]; edges[n] = []
        need(lose[i, o], "winning", "state %d is not won by the environment" % n)
        need(len(x.rank) == 2 and x.rank[0] < len(g.A) and x.rank[1] < len(g.G), "rank", "rank of state %d" % n)
        for t in x.succ: need(t in st, "dangling", "successor %d of state %d is not listed" % (t, n))
        ins = {enc(st[t].val, s.inputs) for t in x.succ}
        need(len(ins) <= 1, "input", "state %d prescribes two inputs" % n)
        if not ins: raise Bad("no successor", "state %d lists no successor and no deadlocking input" % n)
        a = ins.pop()
        need(g.E[i, o, a, 0], "input", "state %d prescribes an input that the safety assumptions exclude" % n)
        reach = {c for c in range(g.nO) if g.S[i, o, a, c]}
        if any(t in dead for t in x.succ): need(len(x.succ) == 1 and not reach, "deadlock", "state %d: the system has a permitted reaction to the deadlocking input" % n)
        else:
            need({pos[t][1] for t in x.succ} == reach, "complete", "the successors of state %d are not exactly the permitted reactions" % n)
            edges[n] = [(t, (i, o, a, pos[t][1])) for t in x.succ]
    nodes = list(pos)
    for k, A in enumerate(g.A):
        sub = {v: [w for w, e in edges[v] if not A[e]] for v in nodes}
        for c in sccs(nodes, lambda v: sub[v]):
            need(not any(w in c for v in c for w in sub[v]), "assumptions", "a run violates liveness assumption %d from some point on" % k)
    for c in sccs(nodes, lambda v: [w for w, _ in edges[v]]):
        es = [e for v in c for w, e in edges[v] if w in c]
        need(not es or not all(any(G[e] for e in es) for G in g.G), "guarantees", "a run satisfies every guarantee infinitely often")

def check_permissive(s, g, W, st, rob):
    """C08"""
    pos = positions(s, st); have0 = {pos[n] for n in st if st[n].rank == 0}
    for i in range(g.nI):
        adm = [(i, o) for o in range(g.nO) if g.iE[i, 0] and g.iS[i, o] and W[i, o]]
        for p in adm: need(p in have0, "initial", "an admissible winning initial position is missing")
    for n, x in st.items():
        i, o = pos[n]; need(W[i, o], "winning", "state %d is not a winning position" % n)
        need(0 <= x.rank < len(g.G), "rank", "goal number")
        ins = set()
        for t in x.succ:
            need(t in st, "dangling", "successor %d of state %d is not listed" % (t, n))
            a, c = pos[t]; ins.add(a); need(g.S[i, o, a, c], "safety", "transition %d -> %d violates the safety guarantees" % (n, t))
        for a in range(g.nI):
            if g.E[i, o, a, 0]: need(a in ins, "complete", "state %d lists no successor for an allowed input" % n)

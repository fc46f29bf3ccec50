"""Contracts and loop invariants of the GR(1) fixed-point code (computeWinningPositions and its variants).

The invariants are attached by role: a loop is a fixed-point loop ("F": it modifies a BFFixedPoint) or a counting
loop ("C"); the nesting F C F C F is the one of the GR(1) formula.  Names of variables do not matter."""
import z3
from sym import *
from theory import *

class Roles:
    """what is known about the enclosing loops, collected while the executor walks into them"""
    def __init__(self, ex): self.ex = ex; self.by_path = {}; self.entryvals = {}
    def enter(self, info, st, h):
        ex = self.ex
        fps, ints, bfs, vecs, bools = [], [], [], [], []
        outer = [self.by_path[p] for p in st.loops if p in self.by_path]
        taken = {o["fp"] for o in outer if o.get("fp") is not None}
        visible = {l for fr in h.names for l in fr.values()} | {h.refs[l][0] for fr in h.names for l in fr.values() if l in h.refs}
        for loc in sorted(info["modified"], key=str):
            if loc not in visible and not (isinstance(loc, tuple) and loc[0] == "F"): continue
            v = h.store.get(loc)
            if isinstance(v, StructV) and v.cls == "BFFixedPoint" and loc not in taken: fps.append(loc)
            elif isinstance(v, BFV): bfs.append(loc)
            elif isinstance(v, (IterV,)) or (isinstance(v, z3.ExprRef) and z3.is_int(v)): ints.append(loc)
            elif isinstance(v, z3.ExprRef) and z3.is_bool(v): bools.append(loc)
            elif isinstance(v, VecV): vecs.append(loc)
        args_ = set(h.names[0].values())      # parameters of the function under proof
        kind = "F" if fps else "C" if ints else "?"
        sig = "".join(o["kind"] for o in outer) + kind
        r = {"kind": kind, "fp": fps[0] if fps else None, "ints": ints, "int": ints[0] if ints else None, "bfs": bfs, "vecs": vecs, "bools": bools, "tables": [l for l in visible if is_table(h.store.get(l)) and l not in args_],
             "fieldtabs": [l for l in h.store if isinstance(l, tuple) and l[0] == "F" and is_table(h.store[l])], "st": st, "argvecs": [l for l in visible if l in args_ and isinstance(h.store.get(l), VecV)], "sig": sig, "outer": outer}
        if sig == "FCFC": r["bfs"] = [b for b in bfs if not (isinstance(st.store.get(b), BFV) and st.store[b].t is not None and st.store[b].t.eq(ex.th.FALSE))]
        self.by_path[info["path"]] = r
        return r

def is_table(v): return isinstance(v, VecV) and v.et == ("vec", ("BF",))
def rd(v, loc): return v.ex.read(v.st, (loc, ()))
def fpval(v, r): return v.th.view_value(rd(v, r["fp"]).get("currentValue"))
def bf(v, loc): return v.th.view_value(rd(v, loc))
def fpflag(v, r): return rd(v, r["fp"]).get("reachedFixedPoint")
def num(v, loc):
    x = rd(v, loc)
    return x.idx if isinstance(x, IterV) else x

def gr1_invariants(th):
    """loop specification for computeWinningPositions-like code over theory th (GR1Theory)"""
    store = {}
    def outer_value(ex, s):
        r = store[id(ex)].by_path.get(s.loops[0]) if s.loops and id(ex) in store else None
        if r is None or r.get("fp") is None: return fresh("noZ", th.B)
        return ex.read(s, (r["fp"], ())).get("currentValue").t
    def counters(ex, s):
        rs = [store[id(ex)].by_path.get(p) for p in s.loops] if id(ex) in store else []
        out = []
        for r in rs[2:]:
            if r and r["kind"] == "C":
                x = ex.read(s, (r["int"], ())); out.append(x.idx if isinstance(x, IterV) else x)
        return out
    th.outer_value, th.counters = outer_value, counters
    def loops(ex, info, st, h):
        R = store.setdefault(id(ex), Roles(ex))
        r = R.enter(info, st, h); o = r["outer"]; sig = r["sig"]
        S = lambda name, fn: (name, fn)
        def rowset(v, t, j, lo=None):
            """row j of the table holds, for every assumption, a superset of the first innermost fixed point"""
            tb = rd(v, t); i, o, _, _ = th.coords(); k = z3.Int("kq%d" % th._n())
            x = th.st(th.xs(k, th.lts(j, th.zs, th.capz(th.FALSE))), i, o)
            c = z3.Select(z3.Select(tb.cols[1], j), k)
            xs4 = th.coords(); hc = th.holds(c, *xs4)
            return z3.And(FA([i, o, k], z3.Implies(z3.And(0 <= k, k < (th.nA if lo is None else lo), x), th.st(c, i, o)), patterns=[x]),
                          FA((k,) + xs4, z3.Implies(z3.And(0 <= k, k < (th.nA if lo is None else lo)), hc == th.st(c, xs4[0], xs4[1])), patterns=[hc]))
        def allset(v, t, upto=None):
            q = z3.Int("jq%d" % th._n()); tb = rd(v, t); i, o, _, _ = th.coords(); k = z3.Int("kq%d" % th._n())
            x = th.st(th.xs(k, th.lts(q, th.zs, th.capz(th.FALSE))), i, o)
            t = z3.Select(z3.Select(tb.cols[1], q), k); c = th.st(t, i, o)
            rng = z3.And(0 <= q, q < (th.nG if upto is None else upto), 0 <= k, k < th.nA)
            xs4 = th.coords(); hc = th.holds(t, *xs4)
            return z3.And(FA([q, k, i, o], z3.Implies(z3.And(rng, x), c), patterns=[x, c]),
                          FA((q, k) + xs4, z3.Implies(rng, hc == th.st(t, xs4[0], xs4[1])), patterns=[hc]))
        def shape(v, t):
            tb = rd(v, t); q = z3.Int("jq%d" % th._n())
            return z3.And(tb.size == th.nG, FA([q], z3.Implies(z3.And(0 <= q, q < th.nG), z3.Select(tb.cols[0], q) == th.nA), patterns=[z3.Select(tb.cols[0], q)]))
        def tables(level):
            """tables of recycled fixed points (XFixedPointRecycling)"""
            c = []
            if level >= 2:
                for n, t in enumerate(r["argvecs"]): c.append(S("argsize%d" % n, lambda v, e, t=t: rd(v, t).size == th.nG))
                for n, t in enumerate(r["fieldtabs"]):
                    if level > 2: c.append(S("fieldsize%d" % n, lambda v, e, t=t: rd(v, t).size == rd(e, t).size))
                    elif z3.is_int_value(z3.simplify(rd(View(ex, st), t).size)): c.append(S("fieldsize%d" % n, lambda v, e, t=t: rd(v, t).size == rd(e, t).size + num(v, r["int"])))
            for n, t in enumerate(r["tables"]):
                c.append(S("shape%d" % n, lambda v, e, t=t: shape(v, t)))
                chain = o + [r]
                for m, b in enumerate(chain[0]["bools"]):
                    c.append(S("filled%d-%d" % (n, m), lambda v, e, t=t, b=b: z3.Implies(rd(v, b) != first(b), allset(v, t))))
                if level >= 2: c.append(S("rows%d" % n, lambda v, e, t=t: allset(v, t, num(v, chain[1]["int"]))))
                if level == 3: c.append(S("row%d" % n, lambda v, e, t=t: z3.Implies(fpflag(v, r), rowset(v, t, num(v, chain[1]["int"])))))
                if level >= 3 :
                    for m, b in enumerate(chain[2]["bools"]):
                        c.append(S("first%d-%d" % (n, m), lambda v, e, b=b: z3.Implies(rd(v, b) == first(b), th.sub(fpval(v, chain[2]), th.FALSE))))
                if level == 4: c.append(S("row%d" % n, lambda v, e, t=t: rowset(v, t, num(v, chain[1]["int"]), num(v, chain[3]["int"]))))
            return c
        def first(b): return R.entryvals[b]
        for b in r["bools"]: R.entryvals.setdefault(b, st.store[b])
        def rows_sized(v, t, upto):
            tb = rd(v, t); q = z3.Int("jq%d" % th._n())
            return FA([q], z3.Implies(z3.And(0 <= q, q < upto), z3.Select(tb.cols[0], q) == th.nA), patterns=[z3.Select(tb.cols[0], q)])
        def bindump():
            if not th.track_dump: return []
            cov = lambda v: v.st.store[th.COV]; dz = lambda v: v.st.store[th.DZ]
            Zof = lambda v: fpval(v, (o + [r])[0]).t
            def covsub(v, b, j): i_, o_, _, _ = th.coords(); y = th.st(z3.Select(cov(v), j), i_, o_); return FA([i_, o_], z3.Implies(th.state(b, i_, o_), y), patterns=[y])
            def allcov(v, b, upto):
                i_, o_, _, _ = th.coords(); q = z3.Int("jq%d" % th._n()); y = th.st(z3.Select(cov(v), q), i_, o_)
                return FA([q, i_, o_], z3.Implies(z3.And(0 <= q, q < upto, th.state(b, i_, o_)), y), patterns=[y])
            def covup(v):
                i_, o_, _, _ = th.coords(); q = z3.Int("jq%d" % th._n()); y = th.st(z3.Select(cov(v), q), i_, o_)
                return FA([q, i_, o_], z3.Implies(z3.And(0 <= q, q < th.nG, y), th.st(th.ys(q, dz(v)), i_, o_)), patterns=[y])
            def dzis(v):
                i_, o_, _, _ = th.coords(); a, b = th.st(dz(v), i_, o_), th.st(Zof(v), i_, o_)
                return FA([i_, o_], a == b, patterns=[a, b])
            c = []
            D = lambda f: lambda v, e: f(v)
            if sig == "F":
                fl = lambda v: fpflag(v, r)
                return [S("dump-base", lambda v, e: z3.Implies(fl(v), dzis(v))), S("dump-cover", lambda v, e: z3.Implies(fl(v), allcov(v, fpval(v, r), th.nG))),
                        S("dump-upper", lambda v, e: z3.Implies(fl(v), covup(v)))]
            if not sig.startswith("FC"): return []
            chain = o + [r]
            c = [S("dump-base", lambda v, e: dzis(v)), S("dump-upper", lambda v, e: covup(v))]
            jj = lambda v: num(v, chain[1]["int"])
            for n, b in enumerate(chain[1]["bfs"]): c.append(S("dump-goals%d" % n, lambda v, e, b=b: allcov(v, bf(v, b), jj(v))))
            if len(sig) >= 3: c.append(S("dump-mu1", lambda v, e: covsub(v, fpval(v, chain[2]), jj(v))))
            if len(sig) >= 3:
                def livecert(v, e, b):
                    x = th.coords(); h = bf(v, b).at(x)
                    return FA(x, z3.Implies(h, z3.Or(z3.And(th.holds(z3.Select(th.G, jj(v)), *x), th.st(dz(v), x[2], x[3])), th.st(z3.Select(cov(v), jj(v)), x[2], x[3]))), patterns=[h])
                for n, b in enumerate(chain[2]["bfs"]): c.append(S("dump-live%d" % n, lambda v, e, b=b: livecert(v, e, b)))
            if sig == "FCFF": c.append(S("dump-bias", lambda v, e: covsub(v, fpval(v, r), jj(v))))
            if sig == "FCFC":
                for n, b in enumerate(r["bfs"]): c.append(S("dump-good%d" % n, lambda v, e, b=b: covsub(v, bf(v, b), jj(v))))
            if sig == "FCFCF":
                for n, b in enumerate(chain[3]["bfs"]): c.append(S("dump-good%d" % n, lambda v, e, b=b: covsub(v, bf(v, b), jj(v))))
                for n, b in enumerate(r["bfs"]):
                    def path(v, e, b=b):
                        x = th.coords(); P = bf(v, b); X = fpval(v, r); k = num(v, chain[3]["int"]); Ls = [bf(v, l) for l in chain[2]["bfs"]]
                        h = P.at(x)
                        return z3.Implies(fpflag(v, r), z3.And(FA(x, z3.Implies(h, z3.And(th.S.at(x), z3.Or(*[l.at(x) for l in Ls], z3.And(th.state(X, x[2], x[3]), z3.Not(th.holds(z3.Select(th.A, k), *x)))))), patterns=[h])))
                    def good(v, e, b=b):
                        P = bf(v, b); X = fpval(v, r); i_, o_, _, _ = th.coords(); th.ops[P.t.get_id()] = (P.t, True)
                        return z3.Implies(fpflag(v, r), FA([i_, o_], z3.Implies(th.state(X, i_, o_), th.st(th.cox(P.t), i_, o_)), patterns=[th.st(th.cox(P.t), i_, o_)]))
                    c += [S("path%d?" % n, path), S("path-covers%d?" % n, good)]
            return c
        if sig == "C":
            i = lambda v: num(v, r["int"])
            c = [S("range", lambda v, e: i(v) >= 0)]
            for n, t in enumerate(r["vecs"]):
                if is_table(h.store[t]):
                    c += [S("size%d" % n, lambda v, e, t=t: rd(v, t).size == rd(e, t).size),
                          S("rows%d" % n, lambda v, e, t=t: rows_sized(v, t, i(v)))]
            return c
        if sig == "F":
            return bindump() + tables(1) + [S("pre", lambda v, e: th.preonly(fpval(v, r))),
                    S("lower", lambda v, e: th.sub(th.zs, fpval(v, r))),
                    S("flag", lambda v, e: z3.Implies(fpflag(v, r), th.forall_ys(fpval(v, r), fpval(v, r))))]
        Z = lambda v: fpval(v, o[0])
        if sig == "FC":
            j = lambda v: num(v, r["int"])
            c = bindump() + tables(2) + [S("range", lambda v, e: z3.And(j(v) >= 0, j(v) <= th.nG))]
            for n, b in enumerate(r["bfs"]):
                c += [S("pre%d" % n, lambda v, e, b=b: th.preonly(bf(v, b))),
                      S("lower%d" % n, lambda v, e, b=b: th.sub(th.zs, bf(v, b))),
                      S("upper%d" % n, lambda v, e, b=b: th.forall_ys(bf(v, b), Z(v), j(v)))]
            return c
        if len(sig) >= 3 and sig[:2] == "FC": j = lambda v: num(v, o[1]["int"])
        if sig == "FCF":
            Y = lambda v: fpval(v, r)
            c = bindump() + tables(3) + [S("pre", lambda v, e: th.preonly(Y(v))),
                 S("upper", lambda v, e: th.sub(Y(v), th.ys(j(v), Z(v).t))),
                 S("flag", lambda v, e: z3.Implies(fpflag(v, r), th.prefix(j(v), Y(v))))]
            for n, b in enumerate(r["bfs"]):
                c += [S("live-lower%d" % n, lambda v, e, b=b: th.sub4(th.goal_edge(j(v), Z(v)), bf(v, b))),
                      S("live-upper%d" % n, lambda v, e, b=b: th.sub4(bf(v, b), th.lts(j(v), Z(v).t, th.ys(j(v), Z(v).t))))]
            return c
        if len(sig) >= 4 and sig[:3] == "FCF": Y = lambda v: fpval(v, o[2])
        if sig == "FCFF":    # bias for action: mu-iteration between Y and the assumptions
            B = lambda v: fpval(v, r)
            return bindump() + [S("pre", lambda v, e: th.preonly(B(v))),
                    S("upper", lambda v, e: th.sub(B(v), th.ys(j(v), Z(v).t)))]
        if sig == "FCFC":
            i = lambda v: num(v, r["int"])
            c = bindump() + tables(4) + [S("range", lambda v, e: z3.And(i(v) >= 0, i(v) <= th.nA))]
            for n, b in enumerate(r["bfs"]):
                c += [S("pre%d" % n, lambda v, e, b=b: th.preonly(bf(v, b))),
                      S("lower%d" % n, lambda v, e, b=b: th.anyX_below(th.lts(j(v), th.zs, th.cap(Y(v))), bf(v, b), i(v))),
                      S("upper%d" % n, lambda v, e, b=b: th.sub(bf(v, b), th.ys(j(v), Z(v).t)))]
            return c
        if sig == "FCFCF":
            i = lambda v: num(v, o[3]["int"]); X = lambda v: fpval(v, r)
            L = lambda v: [bf(v, b) for b in o[2]["bfs"]]
            c = bindump() + [S("pre", lambda v, e: th.preonly(X(v))),
                 S("lower", lambda v, e: th.sub(th.xs(i(v), th.lts(j(v), th.zs, th.cap(Y(v)))), X(v)))]
            for n, b in enumerate(o[2]["bfs"]):
                c.append(S("flag%d" % n, lambda v, e, b=b: z3.Implies(fpflag(v, r), th.postfix(i(v), bf(v, b), X(v)))))
            return c
        return []
    return loops

def setup_spec(ex, st):
    th = ex.th
    st.store[("F", "safetyEnv")] = th.E; st.store[("F", "safetySys")] = th.S
    st.store[("F", "livenessAssumptions")] = VecV(("BF",), th.nA, [th.A]); st.store[("F", "livenessGuarantees")] = VecV(("BF",), th.nG, [th.G])
    st.pc += [th.nA >= 1, th.nG >= 1]
    if th.track_dump: th.dump_init(st)

def winning_post(v, old, res):
    th = v.th; w = th.view_value(v.fld("winningPositions"))
    return [("winningPositions contains every position of nu Z.../mu Y.../nu X...", th.sub(th.zs, w)),
            ("winningPositions contains only such positions", th.sub(w, th.zs)),
            ("winningPositions is a predicate over current variables", th.preonly(w))]

def dump_post(v, old, res):
    """certificate of strategyDumpingData (with the obligations at every push)"""
    th = v.th; i, o, _, _ = th.coords(); q = z3.Int("jq%d" % th._n()); c = th.st(z3.Select(v.st.store[th.COV], q), i, o)
    w = lambda: th.state(v.fld("winningPositions"), i, o)
    return winning_post(v, old, res) + [("every winning position is covered by an entry of every goal", FA([q, i, o], z3.Implies(z3.And(0 <= q, q < th.nG, w()), c))),
            ("every covered position is winning", FA([q, i, o], z3.Implies(z3.And(0 <= q, q < th.nG, c), w()))),
            ("the outer set used by the entries is the winning set", FA([i, o], th.st(v.st.store[th.DZ], i, o) == w()))]

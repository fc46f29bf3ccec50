"""Cooperative GR(1) games (extensionCooperativeGR1Strategy.hpp): specification symbols, their schemas (proved in lean/Coop.lean)
and the loop invariants of computeWinningPositions.  The symbols are those of lean/Coop.lean:
   ms(k,L,X)  = mu M. pre(D /\\ (L \\/ X' /\\ M' /\\ ~A_k))      D = E /\\ S /\\ the target is not a dead end
   fxs(k,L,X) = D /\\ (L \\/ X' /\\ ms(k,L,X)' /\\ ~A_k)
   xs, lts, ys as in the standard game
   rs(k,N)    = mu R. pre(D /\\ N /\\ (A_k /\\ N' \\/ R'))
   nn(0,Z) = /\\_j ys(j,Z),  nn(k+1,Z) = nn(k,Z) /\\ rs(k,nn(k,Z)),  zs = nu Z. nn(nA,Z)"""
import z3
from gr1 import *
LG = ("F", "livenessGuarantees")

class CoopTheory(GR1Theory):
    def __init__(self):
        super().__init__()
        B, Z, F = self.B, z3.IntSort(), z3.Function
        self.ms = F("ms", Z, B, B, B); self.rs = F("rs", Z, B, B); self.nn = F("nn", Z, B, B); self.alive = z3.Const("alive", B)
    def cap(self, Y): return self.tm(Y)
    def D(self, x): return z3.And(self.S.at(x), self.E.at(x), self.st(self.alive, x[2], x[3]))
    def stp(self, k, L, X, M, x):
        return z3.And(self.D(x), z3.Or(self.h4(L, x), z3.And(self.state(X, x[2], x[3]), self.state(M, x[2], x[3]), z3.Not(self.holds(z3.Select(self.A, k), *x)))))
    def rst(self, k, N, R, x):
        return z3.And(self.D(x), self.state(N, x[0], x[1]), z3.Or(z3.And(self.holds(z3.Select(self.A, k), *x), self.state(N, x[2], x[3])), self.state(R, x[2], x[3])))
    def closed(self, f, Q):
        """pre(f) is contained in Q"""
        x = self.coords(); return FA(x, z3.Implies(f(x), self.state(Q, x[0], x[1])), patterns=[self.S.at(x)])
    def axioms(self):
        ax = Theory.axioms(self)
        B, Z = self.B, z3.IntSort(); h = self.holds; E = self.E
        k, j = z3.Ints("k j"); L, Zt, Y, X, T = z3.Consts("L Zt Y X T", B)
        x = self.coords(); i, o, a, c = x
        ax.append(FA(x, E.at(x) == E.at((i, o, a, self.o0)), patterns=[E.at(x)]))
        ax.append(FA(x, z3.Implies(E.at(x), self.st(self.alive, i, o)), patterns=[E.at(x)]))
        ax.append(FA([i, o], z3.Implies(self.st(self.alive, i, o), EX([a], E.at((i, o, a, self.o0)))), patterns=[self.st(self.alive, i, o)]))
        for t, vs in ((self.xs(k, L), [k, L]), (self.ys(j, Zt), [j, Zt]), (self.cox(T), [T]), (self.ms(k, L, X), [k, L, X]), (self.rs(k, X), [k, X]), (self.nn(k, X), [k, X]), (self.zs, []), (self.alive, [])):
            ax.append(FA(vs + [i, o, a, c], h(t, *x) == self.st(t, i, o), patterns=[h(t, *x)]))
        ax.append(FA([T, i, o, a, c], h(self.neg(T), *x) == z3.Not(h(T, *x)), patterns=[h(self.neg(T), *x)]))
        ax.append(FA([j, Zt, Y, i, o, a, c], h(self.lts(j, Zt, Y), *x) == z3.Or(z3.And(h(z3.Select(self.G, j), *x), self.st(Zt, a, c)), self.st(Y, a, c)), patterns=[h(self.lts(j, Zt, Y), *x)]))
        ax.append(FA([k, L, X, i, o, a, c], h(self.fxs(k, L, X), *x) == self.stp(k, L, X, self.ms(k, L, X), x), patterns=[h(self.fxs(k, L, X), *x)]))
        ax.append(FA([k, L, i, o], self.st(self.xs(k, L), i, o) == self.st(self.cox(self.fxs(k, L, self.xs(k, L))), i, o), patterns=[self.st(self.xs(k, L), i, o)]))
        ax.append(FA([j, Zt, i, o], self.st(self.ys(j, Zt), i, o) == self.anyX(self.lts(j, Zt, self.ys(j, Zt)), i, o), patterns=[self.st(self.ys(j, Zt), i, o)]))
        ax.append(FA([i, o], self.st(self.zs, i, o) == self.st(self.nn(self.nA, self.zs), i, o), patterns=[self.st(self.zs, i, o)]))
        return ax + [self.nA >= 0, self.nG >= 0]
    def M_least(self, k, L, X, Q): return z3.Implies(self.closed(lambda x: self.stp(k, L, X, Q, x), Q), self.sub(self.ms(k, L, X), Q))
    def M_pre(self, k, L, X):
        m = self.ms(k, L, X); x = self.coords(); i, o, a, c = x; g = self.st(m, i, o)
        return z3.And(FA(x, z3.Implies(z3.And(self.D(x), self.h4(L, x)), g), patterns=[z3.MultiPattern(self.S.at(x), self.h4(L, x))]),
                      FA(x, z3.Implies(z3.And(self.D(x), self.st(X, a, c), self.st(m, a, c), z3.Not(self.holds(z3.Select(self.A, k), *x))), g), patterns=[z3.MultiPattern(self.S.at(x), self.st(m, a, c))]))
    def M_mono(self, m1, m2):
        i, o, _, _ = self.coords(); a, b = self.st(m1, i, o), self.st(m2, i, o)
        return z3.Implies(z3.And(m1.arg(0) == m2.arg(0), self.sub4(m1.arg(1), m2.arg(1)), self.sub(m1.arg(2), m2.arg(2))), FA([i, o], z3.Implies(a, b), patterns=[a, b]))
    def R_least(self, k, N, Q): return z3.Implies(self.closed(lambda x: self.rst(k, N, Q, x), Q), self.sub(self.rs(k, N), Q))
    def R_pre(self, k, N):
        r = self.rs(k, N); x = self.coords(); return FA(x, z3.Implies(self.rst(k, N, r, x), self.st(r, x[0], x[1])), patterns=[self.S.at(x)])
    def R_mono(self, a, b):
        i, o, _, _ = self.coords(); s, t = self.st(a, i, o), self.st(b, i, o)
        return z3.Implies(z3.And(a.arg(0) == b.arg(0), self.sub(a.arg(1), b.arg(1))), FA([i, o], z3.Implies(s, t), patterns=[s, t]))
    def N_unfold(self, k, Z):
        i, o, _, _ = self.coords(); t = self.st(self.nn(k, Z), i, o); p = z3.simplify(k - 1); q = self.nn(p, Z)
        return z3.And(z3.Implies(k == 0, FA([i, o], t == self.allY(Z, i, o), patterns=[t])),
                      z3.Implies(k >= 1, FA([i, o], t == z3.And(self.st(q, i, o), self.st(self.rs(p, q), i, o)), patterns=[t])),
                      z3.Implies(k >= 0, FA([i, o], z3.Implies(t, self.allY(Z, i, o)), patterns=[t])))
    def N_mono(self, Z1, Z2):
        k = z3.Int("k_%d" % self._n()); i, o, _, _ = self.coords(); a, b = self.st(self.nn(k, Z1), i, o), self.st(self.nn(k, Z2), i, o)
        return z3.Implies(self.sub(Z1, Z2), FA([k, i, o], z3.Implies(a, b), patterns=[a, b]))
    def Z_greatest(self, P): return z3.Implies(self.sub(P, self.nn(self.nA, self.tm(P))), self.sub(P, self.zs))
    def schema_instances(self, ob):
        fs = ob.hyps + [ob.goal]; T = Terms(fs); inst = self.indep_axioms(T)
        def add(d, t): d.setdefault(t.get_id(), t)
        Ls, Zs, spec, prog, M, N, R = {}, {}, {}, {}, {}, {}, {}
        xs_t, ys_t = T.ground(self.xs), T.ground(self.ys)
        for t in T.open_args(self.xs, 1): add(Ls, t)
        for t in T.ground(self.lts): add(Ls, t)
        for t in T.ground(self.fxs): add(Ls, t.arg(1)); add(spec, t)
        for t in T.open_args(self.ys, 1): add(Zs, t)
        if T.has(self.zs): add(Zs, self.zs)
        for t in ys_t: add(Ls, self.lts(t.arg(0), t.arg(1), t))
        for t in xs_t: add(spec, self.fxs(t.arg(0), t.arg(1), t))
        for t in ys_t:
            L = self.lts(t.arg(0), t.arg(1), t); x0 = self.xs(z3.IntVal(0), L)
        for t in T.ground(self.ms): add(M, t)
        for t in list(spec.values()): add(M, self.ms(t.arg(0), t.arg(1), t.arg(2)))
        for t in T.ground(self.nn): add(N, t); add(Zs, t.arg(1))
        for t in T.ground(self.rs): add(R, t)
        for t in list(N.values()): p = z3.simplify(t.arg(0) - 1); add(R, self.rs(p, self.nn(p, t.arg(1))))
        if T.has(self.zs): add(N, self.nn(self.nA, self.zs))
        cands = self.candidates(ob, T)
        pairs = lambda d: [(a, b) for a in d.values() for b in d.values() if not a.eq(b)]
        for t in T.ground(self.lts): inst.append(self.Y_least(t.arg(0), t.arg(1), t.arg(2)))
        inst += [self.X_mono(a, b) for a, b in pairs(Ls)] + [self.Y_mono(a, b) for a, b in pairs(Zs)] + [self.N_mono(a, b) for a, b in pairs(Zs)]
        inst += [self.M_mono(a, b) for a, b in pairs(M)] + [self.R_mono(a, b) for a, b in pairs(R)]
        inst += [self.M_pre(*t.children()) for t in M.values()] + [self.R_pre(*t.children()) for t in R.values()] + [self.N_unfold(*t.children()) for t in N.values()]
        for t, exist in self.ops.values():
            if T.has(t): add(prog, t if exist else self.neg(t))
        for p in prog.values(): inst.append(self.cox_unfold(p))
        for a in prog.values():
            for b in spec.values(): inst += [self.cox_mono(a, b, (0,)), self.cox_mono(b, a, (1,))]
        inst += [self.cox_mono(a, b) for a, b in pairs(spec)]
        kl = {}
        for t in list(xs_t) + T.ground(self.fxs): kl[(t.arg(0).get_id(), t.arg(1).get_id())] = (t.arg(0), t.arg(1))
        for p in cands:
            for k, L in kl.values(): inst.append(self.X_greatest(k, L, p))
            for t in ys_t: inst.append(self.Y_least(t.arg(0), t.arg(1), p))
            for t in M.values(): inst.append(self.M_least(*t.children(), p))
            for t in R.values(): inst.append(self.R_least(*t.children(), p))
            if T.has(self.zs): inst += [self.Z_greatest(p), self.N_unfold(self.nA, p)]
        return inst

def loops(th):
    store = {}; S = lambda name, fn: (name, fn)
    def spec(ex, info, st, h):
        R = store.setdefault(id(ex), Roles(ex)); r = R.enter(info, st, h); o = r["outer"]; sig = r["sig"]
        if len(o) < len([p for p in st.loops if p != info["path"]]) or any(x["kind"] == "C" and x["sig"] == "FC" and "goal" not in x for x in o): return []      # (a first pass that only looks for modified variables)
        i = lambda v: num(v, r["int"])
        def sizes(locs):
            return [S("size %s" % n, lambda v, e, t=t: rd(v, t).size == rd(e, t).size) for n, t in enumerate(locs)]
        fixed = lambda: sizes([l for l in info["modified"] if isinstance(st.store.get(l), VecV) and st.store[l].et == ("BF",) and l in st.store and sig in ("F", "FC")])
        rng = lambda hi: [S("range", lambda v, e: z3.And(i(v) >= 0, i(v) <= hi(v)))]
        if sig == "C":
            g = rd(View(ex, st), LG)
            if LG in info["modified"] and z3.eq(z3.simplify(g.size), th.nG):       # appends the assumptions to the goals
                def elems(v, e):
                    q = z3.Int("q%d" % th._n()); x = z3.Select(rd(v, LG).cols[0], q)
                    return z3.And(FA([q], z3.Implies(z3.And(0 <= q, q < th.nG), x == z3.Select(th.G, q)), patterns=[x]),
                                  FA([q], z3.Implies(z3.And(th.nG <= q, q < rd(v, LG).size), x == z3.Select(th.A, q - th.nG)), patterns=[x]))
                return [S("range", lambda v, e: z3.And(i(v) >= 0, i(v) <= th.nA)), S("goals", lambda v, e: rd(v, LG).size == th.nG + i(v)), S("elements", elems)]
            return [S("range", lambda v, e: i(v) >= num(e, r["int"])), S("goals", lambda v, e: rd(v, LG).size == rd(e, LG).size)]
        if sig == "F":
            Z = lambda v: fpval(v, r)
            return fixed() + [S("pre", lambda v, e: th.preonly(Z(v))), S("lower", lambda v, e: th.sub(th.zs, Z(v))),
                    S("flag", lambda v, e: z3.Implies(fpflag(v, r), th.sub(Z(v), th.nn(th.nA, Z(v).t))))]
        if not sig.startswith("F"): return []
        Z = lambda v: fpval(v, o[0])
        if sig == "FC":
            r["goal"] = z3.is_int_value(z3.simplify(num(View(ex, st), r["int"])))
            if r["goal"]:
                c = fixed() + rng(lambda v: th.nG)
                def lower(v, e, b):
                    a, q, _, _ = th.coords(); return FA([a, q], z3.Implies(th.allY(th.zs, a, q, i(v)), bf(v, b).at((a, q, th.i0, th.o0))))
                for n, b in enumerate(r["bfs"]):
                    c += [S("pre%d" % n, lambda v, e, b=b: th.preonly(bf(v, b))), S("lower%d" % n, lambda v, e, b=b: lower(v, e, b)),
                          S("upper%d" % n, lambda v, e, b=b: th.forall_ys(bf(v, b), Z(v), i(v)))]
                return c
            c = fixed() + [S("range", lambda v, e: z3.And(i(v) >= th.nG, i(v) <= th.nG + th.nA))]; k = lambda v: z3.simplify(i(v) - th.nG)
            for n, b in enumerate(r["bfs"]):
                c += [S("pre%d" % n, lambda v, e, b=b: th.preonly(bf(v, b))), S("lower%d" % n, lambda v, e, b=b: th.sub(th.nn(k(v), th.zs), bf(v, b))),
                      S("upper%d" % n, lambda v, e, b=b: th.sub(bf(v, b), th.nn(k(v), Z(v).t)))]
            return c
        j = lambda v: num(v, o[1]["int"])
        if sig == "FCF" and not o[1].get("goal"):
            k = lambda v: z3.simplify(j(v) - th.nG); Y = lambda v: fpval(v, r); c = [S("pre", lambda v, e: th.preonly(Y(v)))]
            for m, nb in enumerate(o[1]["bfs"]):
                N = lambda v, nb=nb: bf(v, nb)
                c += [S("upper%d" % m, lambda v, e, N=N: th.sub(Y(v), th.rs(k(v), N(v).t))),
                      S("flag%d" % m, lambda v, e, N=N: z3.Implies(fpflag(v, r), th.closed(lambda x: th.rst(k(v), N(v), Y(v), x), Y(v))))]
                for n, b in enumerate(r["bfs"]):
                    def form(v, e, b=b, N=N):
                        x = th.coords(); g = bf(v, b).at(x); return FA(x, g == th.rst(k(v), N(v), Y(v), x), patterns=[g])
                    c.append(S("transitions%d-%d" % (m, n), form))
            return c
        if sig == "FCF":
            Y = lambda v: fpval(v, r)
            c = [S("pre", lambda v, e: th.preonly(Y(v))), S("upper", lambda v, e: th.sub(Y(v), th.ys(j(v), Z(v).t))),
                 S("flag", lambda v, e: z3.Implies(fpflag(v, r), th.prefix(j(v), Y(v))))]
            for n, b in enumerate(r["bfs"]):
                c += [S("live-lower%d" % n, lambda v, e, b=b: th.sub4(th.goal_edge(j(v), Z(v)), bf(v, b))),
                      S("live-upper%d" % n, lambda v, e, b=b: th.sub4(bf(v, b), th.lts(j(v), Z(v).t, th.ys(j(v), Z(v).t))))]
            return c
        if len(o) < 3 or not o[1].get("goal"): return []
        Y = lambda v: fpval(v, o[2])
        if sig == "FCFC":
            c = rng(lambda v: th.nA)
            for n, b in enumerate(r["bfs"]):
                c += [S("pre%d" % n, lambda v, e, b=b: th.preonly(bf(v, b))),
                      S("lower%d" % n, lambda v, e, b=b: th.anyX_below(th.lts(j(v), th.zs, th.cap(Y(v))), bf(v, b), i(v))),
                      S("upper%d" % n, lambda v, e, b=b: th.sub(bf(v, b), th.ys(j(v), Z(v).t)))]
            return c
        if sig == "FCFCC":
            def inside(v, e):
                x = rd(v, r["int"]); return z3.And(i(v) >= 0, i(v) <= v.ex.read(v.st, x.lv).size) if isinstance(x, IterV) else i(v) >= 0
            return [S("range", inside)]
        a = lambda v: num(v, o[3]["int"]); L = lambda v: [bf(v, b) for b in o[2]["bfs"]]
        nonneg = [S("size %d" % n, lambda v, e, t=t: rd(v, t).size >= 0) for n, t in enumerate(r["vecs"]) if st.store[t].et == ("BF",)]
        if sig == "FCFCF":
            X = lambda v: fpval(v, r)
            c = nonneg + [S("pre", lambda v, e: th.preonly(X(v))), S("lower", lambda v, e: th.sub(th.xs(a(v), th.lts(j(v), th.zs, th.cap(Y(v)))), X(v)))]
            for n, b in enumerate(o[2]["bfs"]): c.append(S("flag%d" % n, lambda v, e, b=b: z3.Implies(fpflag(v, r), th.postfix(a(v), bf(v, b), X(v)))))
            return c
        if sig == "FCFCFF":
            M = lambda v: fpval(v, r); X = lambda v: fpval(v, o[4]); c = nonneg + [S("pre", lambda v, e: th.preonly(M(v)))]
            for n, b in enumerate(o[2]["bfs"]):
                c += [S("upper%d" % n, lambda v, e, b=b: th.sub(M(v), th.ms(a(v), th.tm(bf(v, b)), X(v).t))),
                      S("flag%d" % n, lambda v, e, b=b: z3.Implies(fpflag(v, r), th.closed(lambda x: th.stp(a(v), bf(v, b), X(v), M(v), x), M(v))))]
                for m, p in enumerate(r["bfs"]):
                    def form(v, e, b=b, p=p):
                        x = th.coords(); g = bf(v, p).at(x); return z3.Implies(fpflag(v, r), FA(x, g == th.stp(a(v), bf(v, b), X(v), M(v), x), patterns=[g]))
                    c.append(S("paths%d-%d" % (n, m), form))
            return c
        return []
    return spec

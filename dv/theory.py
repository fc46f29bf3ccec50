"""Theories: coordinates of Boolean functions, and the GR(1) fixed-point specification symbols with their schemas."""
import z3
from sym import *

PARENT = {"PreInput": "Pre", "PostInput": "Post", "PreOutput": "Pre", "PostOutput": "Post"}
class Theory:
    name_assignments = True
    track_dep = False
    eval_streams = False
    Str = None                       # sort of strings (None: strings are not tracked)
    unroll = 0                       # loops with a decided condition are unrolled completely (at most so often)
    def str_term(self, v):
        if v.t is None:
            if v.s is None: return fresh("str", self.Str)
            v.t = z3.Const("lit:" + v.s, self.Str)
        return v.t
    """dims: list of (name, sort name, variable type); variable types form the hierarchy of variableTypes.hpp"""
    def __init__(self, dims, parents=None):
        self.B = z3.DeclareSort("B")
        self.sorts = {}
        self.dims = []
        for n, s, vt in dims:
            if s not in self.sorts: self.sorts[s] = z3.DeclareSort(s)
            self.dims.append((n, self.sorts[s], vt))
        self.parents = dict(PARENT); self.parents.update(parents or {})
        self._holds = z3.Function("holds", *([self.B] + [d[1] for d in self.dims] + [z3.BoolSort()]))
        self.TRUE = z3.Const("TRUE", self.B); self.FALSE = z3.Const("FALSE", self.B)
        self.n = 0; self.abssyms = {}; self.absinfo = {}; self.indep = {}
    def holds(self, t, *xs): return self._holds(t, *flatten(xs))
    def coords(self, tag=None):
        self.n += 1
        return tuple(z3.Const("%s_%d" % (d[0], self.n), d[1]) for d in self.dims)
    def flat(self): return tuple(flatten(Theory.coords(self)))
    def inherits(self, vt, types):
        while vt is not None:
            if vt in types: return True
            vt = self.parents.get(vt)
        return False
    def dims_of(self, types): return [i for i, d in enumerate(self.dims) if self.inherits(d[2], types)]
    # BF operations (contracts of the Boolean function layer)
    def swap(self, v, a, b):
        da, db = [], []
        # the vectors list, type by type, the dimensions in order
        for t in a.types: da += [i for i, d in enumerate(self.dims) if self.inherits(d[2], (t,))]
        for t in b.types: db += [i for i, d in enumerate(self.dims) if self.inherits(d[2], (t,))]
        if len(da) != len(db) or any(self.dims[i][1] != self.dims[j][1] for i, j in zip(da, db)):
            raise Unsupported("SwapVariables of vectors of different shape")
        perm = list(range(len(self.dims)))
        for i, j in zip(da, db): perm[i], perm[j] = j, i
        return BFV(self, lambda xs: v.at([xs[p] for p in perm]), dep=None if v.dep is None else frozenset(perm[d] for d in v.dep))
    def abs_sym(self, ds, exist):
        """function symbol T -> (exists/forall ds. T); its axioms (with triggers in both directions) are in abs_axioms"""
        key = (tuple(ds), exist)
        if key not in self.abssyms:
            self.abssyms[key] = z3.Function(("ex_" if exist else "al_") + "_".join(self.dims[d][0] for d in ds), self.B, self.B)
            self.absinfo[self.abssyms[key].get_id()] = (tuple(ds), exist)
        return self.abssyms[key]
    def dflt(self, ds, xs):
        ys = list(xs)
        for d in ds: ys[d] = z3.Const(self.dims[d][1].name().lower() + "0", self.dims[d][1])
        return tuple(ys)
    def abs_axioms(self):
        ax = []; h = self.holds
        for (ds, exist), f in self.abssyms.items():
            T = z3.Const("T", self.B); xs = self.flat(); qs = self.flat()
            mix = tuple(qs[d] if d in ds else xs[d] for d in range(len(xs))); q = [qs[d] for d in ds]
            dx = self.dflt(ds, xs)
            if exist:
                ax.append(FA((T,) + xs, z3.Implies(h(f(T), *xs), EX(q, h(T, *mix))), patterns=[h(f(T), *xs)]))
                ax.append(FA((T,) + xs, z3.Implies(h(T, *xs), h(f(T), *dx)), patterns=[z3.MultiPattern(h(T, *xs), f(T))]))
                ax.append(FA((T,) + xs, z3.Implies(h(T, *dx), h(f(T), *xs)), patterns=[h(f(T), *xs)]))
            else:
                ax.append(FA((T,) + xs, z3.Implies(z3.Not(h(f(T), *xs)), EX(q, z3.Not(h(T, *mix)))), patterns=[h(f(T), *xs)]))
                ax.append(FA((T,) + xs, z3.Implies(h(f(T), *dx), h(T, *xs)), patterns=[z3.MultiPattern(h(T, *xs), f(T))]))
                ax.append(FA((T,) + xs, z3.Implies(h(f(T), *xs), h(T, *dx)), patterns=[h(f(T), *xs)]))
            ax.append(FA((T,) + xs, h(f(T), *xs) == h(f(T), *dx), patterns=[h(f(T), *xs)]))
        return ax
    def abstract(self, v, cube, exist):
        ds = self.dims_of(cube.types)
        if not ds: return v
        if v.t is not None:
            # two abstractions of the same kind in a row are one over all their variables
            if v.t.num_args() == 1 and v.t.decl().get_id() in self.absinfo and self.absinfo[v.t.decl().get_id()][1] == exist:
                ds = sorted(set(ds) | set(self.absinfo[v.t.decl().get_id()][0])); v = BFV(self, t=v.t.arg(0), dep=v.dep)
            f = self.abs_sym(ds, exist); t = f(v.t)
            ind = sorted(set(ds) | set(self.indep.get(v.t.get_id(), (None, ()))[1]))
            self.indep[t.get_id()] = (t, ind)
            return BFV(self, lambda xs: self.holds(t, *self.dflt(ind, xs)), t=t, dep=None if v.dep is None else v.dep - set(ds))
        def fn(xs):
            ys = list(xs); q = []
            for i in ds:
                self.n += 1
                c = z3.Const("%s_q%d" % (self.dims[i][0], self.n), self.dims[i][1]); ys[i] = c; q.append(c)
            return (EX if exist else FA)(q, v.at(ys))
        return BFV(self, fn, dep=None if v.dep is None else v.dep - set(ds))
    def note_op(self, ex, st, v, cube, exist): return ex.named(st, v) if v.t is None else v
    def axioms(self):
        xs = self.flat()
        return self.abs_axioms() + [FA(xs, self.holds(self.TRUE, *xs), patterns=[self.holds(self.TRUE, *xs)]),
                FA(xs, z3.Not(self.holds(self.FALSE, *xs)), patterns=[self.holds(self.FALSE, *xs)])]
    def schema_instances(self, ob): return self.indep_axioms(Terms(ob.hyps + [ob.goal]))
    def indep_axioms(self, T):
        """quantified coordinates are irrelevant (follows from the definition of the quantification)"""
        r = []
        for t, ds in self.indep.values():
            if len(ds) > 1 and T.has(t):
                xs = self.flat()
                r.append(FA(xs, self.holds(t, *xs) == self.holds(t, *self.dflt(ds, xs)), patterns=[self.holds(t, *xs)]))
        return r
    # hooks (None = not handled)
    def enum_const(self, name): return z3.IntVal(abs(hash(name)) % 1000003)
    def global_var(self, ex, st, rd): return None
    def index(self, ex, st, v, i): raise Unsupported("index into %s" % type(v).__name__)
    def update_index(self, ex, st, v, i, x): raise Unsupported("update of %s" % type(v).__name__)
    def lv_index(self, ex, st, l, v, i): return None
    def lv_deref(self, ex, st, p): return None
    def step(self, v, d): raise Unsupported("++ on %s" % type(v).__name__)
    def arith(self, ex, op, x, y): return None
    def construct(self, ex, st, ty, args, e): return None
    def init_list(self, ex, st, ty, args): return None
    def operator(self, ex, s, op, vs, e): return None
    def member_call(self, ex, st, name, base, args, e): return None
    def mgr_call(self, ex, st, name, args): return None
    def bf_call(self, ex, s, name, v, vs): return None
    def vec_call(self, ex, s, name, v, l, vs): return None
    def obj_call(self, ex, s, name, v, l, args, e): return None
    def call(self, ex, st, name, args, e):
        if name == "BF_newDumpDot":
            ex.dropped.add("BF_newDumpDot (writes a drawing for debugging)")
            return [(st, None)]
        return None
    def this_call(self, ex, st, name, args): return None
    def stream(self, ex, st, op, args): return None
    def havoc_like(self, ex, v, name): raise Unsupported("havoc of %s" % type(v).__name__)
    def init_state(self, ex, st): pass
    def on_vec(self, ex, s, what, l, val): pass

# ---------------------------------------------------------------- term utilities
def collect(fs, pred, seen=None, out=None):
    """ground (no bound variable) subterms satisfying pred"""
    out = {} if out is None else out
    seen = {} if seen is None else seen
    def rec(e):
        i = e.get_id()
        if i in seen: return seen[i]
        if z3.is_var(e): seen[i] = False; return False
        if z3.is_quantifier(e):
            rec(e.body()); seen[i] = True; return True   # may contain ground terms inside
        g = True
        for c in e.children():
            if not rec(c): g = False
        seen[i] = g
        if g and z3.is_app(e) and pred(e): out[i] = e
        return g
    for f in fs: rec(f)
    return list(out.values())

class GR1Theory(Theory):
    r"""coordinates (pre input, pre output, post input, post output) and the symbols
       cox(T)   = the environment picks an input allowed by the assumptions, the system answers inside T
       fxs(i,L,X) = S /\ (L \/ (X' /\ ~A_i))
       xs(i,L)  = nu X. cox(fxs(i,L,X))
       lts(j,Z,Y) = (G_j /\ Z') \/ Y'
       ys(j,Z)  = mu Y. \/_i xs(i, lts(j,Z,Y))
       zs       = nu Z. /\_j ys(j,Z)                     (the winning positions)
       The one-step meaning of cox is only unfolded for Boolean functions of the program; for the
       specification symbols its monotonicity is used (lemma `cox_mono`, proved in selfcheck)."""
    field_cands = ("winningPositions",)
    track_dump = False
    COV, DZ = ("G", "cover"), ("G", "dumpZ")
    def dump_init(self, st):
        st.store[self.COV] = z3.Const("cover0", z3.ArraySort(z3.IntSort(), self.B)); st.store[self.DZ] = z3.Const("dumpZ0", self.B)
    def is_dump(self, l): return self.track_dump and l == (("F", "strategyDumpingData"), ())
    def on_vec(self, ex, s, what, l, val):
        """ghost state of strategyDumpingData: cover[j] = union of cox(P) of the entries (j,P) so far; every entry is
           certified when it is pushed: each of its transitions satisfies the safety guarantees and reaches goal j inside
           the current outer set, or an earlier entry's positions, or stays in its own positions violating an assumption"""
        if not self.is_dump(l): return
        i, o, _, _ = self.coords()
        if what == "clear":
            c = fresh("cover", z3.ArraySort(z3.IntSort(), self.B)); j = z3.Int("jq%d" % self._n()); t = self.st(z3.Select(c, j), i, o)
            s.pc.append(FA([j, i, o], z3.Not(t), patterns=[t]))
            s.store[self.COV] = c
            s.store[self.DZ] = self.outer_value(ex, s)
        elif what == "push":
            j, P = val.get("first"), ex.term(s, val.get("second"))
            self.ops[P.get_id()] = (P, True)
            cov = z3.Select(s.store[self.COV], j); dz = s.store[self.DZ]
            ex.oblige(s, "dumped goal number in range", z3.And(0 <= j, j < self.nG), "dump")
            x = self.coords()
            def cert(i):
                alt = [z3.And(self.holds(z3.Select(self.G, j), *x), self.st(dz, x[2], x[3])), self.st(cov, x[2], x[3])]
                if i is not None: alt.append(z3.And(z3.Not(self.holds(z3.Select(self.A, i), *x)), self.st(self.cox(P), x[2], x[3])))
                return FA(x, z3.Implies(self.holds(P, *x), z3.And(self.S.at(x), z3.Or(*alt))))
            cs = [z3.And(0 <= n, n < self.nA, cert(n)) for n in self.counters(ex, s)] or [cert(None)]
            ex.oblige(s, "dumped transitions are safe and lead to goal j, to an earlier entry, or stay while an assumption is violated", z3.Or(*cs) if len(cs) > 1 else cs[0], "dump")
            nt = fresh("cov", self.B); a, b, c = self.st(nt, i, o), self.st(cov, i, o), self.st(self.cox(P), i, o)
            s.pc.append(FA([i, o], a == z3.Or(b, c), patterns=[a, b, c]))
            s.store[self.COV] = z3.Store(s.store[self.COV], j, nt)
        else: raise Unsupported("strategyDumpingData: " + what)
    def __init__(self, outs=(("O", "Output"),), parents=None):
        """outs: (sort name, variable type suffix) of the groups of output variables"""
        super().__init__([("pi", "I", "PreInput")] + [("p" + s.lower(), s, "Pre" + t) for s, t in outs] + [("qi", "I", "PostInput")] + [("q" + s.lower(), s, "Post" + t) for s, t in outs], parents)
        self.nO = len(outs)
        I, B = self.sorts["I"], self.B
        self.i0 = z3.Const("i0", I); self.o0 = tuple(z3.Const(s.lower() + "0", self.sorts[s]) for s, t in outs)
        self.QI = [1 + self.nO]; self.QO = list(range(2 + self.nO, 2 + 2 * self.nO))
        Z = z3.IntSort()
        self.S = BFV(self, t=z3.Const("SafetySys", B)); self.E = BFV(self, t=z3.Const("SafetyEnv", B))
        self.A = z3.Array("Assumptions", Z, B); self.G = z3.Array("Guarantees", Z, B)
        self.nA = z3.Int("nA"); self.nG = z3.Int("nG")
        F = z3.Function
        self.xs = F("xs", Z, B, B); self.ys = F("ys", Z, B, B); self.lts = F("lts", Z, B, B, B)
        self.zs = z3.Const("zs", B)
        self.cox = F("cox", B, B); self.fxs = F("fxs", Z, B, B, B); self.neg = F("neg", B, B)
        self.capz = F("capz", B, B)
        self.ops = {}            # operands of quantifications met in the program (terms)
    def coords(self, tag=None):
        """(pre input, pre outputs, post input, post outputs); the outputs are tuples"""
        return self.split(self.flat())
    def split(self, f):
        n = self.nO
        return (f[0], f[1:1+n], f[1+n], f[2+n:])
    def st(self, t, i, o): return self.holds(t, i, o, self.i0, self.o0)
    def state(self, b, i, o):
        """BFV or term as a state predicate"""
        return b.at((i, o, self.i0, self.o0)) if isinstance(b, BFV) else self.st(b, i, o)
    def h4(self, b, xs): return b.at(xs) if isinstance(b, BFV) else self.holds(b, *xs)
    def tm(self, b): return b.t if isinstance(b, BFV) else b
    def preonly(self, b):
        i, o, a, c = self.coords()
        if isinstance(b, BFV) and b.t is None: return FA([i, o, a, c], b.at((i, o, a, c)) == self.state(b, i, o))
        t = self.tm(b)
        return FA([i, o, a, c], self.holds(t, i, o, a, c) == self.st(t, i, o), patterns=[self.holds(t, i, o, a, c)])
    def sub(self, a, b):
        """state-set inclusion"""
        i, o, _, _ = self.coords()
        return FA([i, o], z3.Implies(self.state(a, i, o), self.state(b, i, o)))
    def sub4(self, a, b):
        xs = self.coords()
        return FA(xs, z3.Implies(self.h4(a, xs), self.h4(b, xs)))
    def eq4(self, a, b):
        xs = self.coords()
        return FA(xs, self.h4(a, xs) == self.h4(b, xs))
    def coxdef(self, T, i, o):
        _, _, a, c = self.coords()
        f = self.abs_sym(self.QO, True)
        e, x = self.E.at((i, o, a, self.o0)), self.holds(f(T), i, o, a, self.o0)
        return FA([a], z3.Implies(e, x), patterns=[e, x])
    def anyX(self, L, i, o, upto=None):
        k = z3.Int("k_%d" % self._n())
        return EX([k], z3.And(0 <= k, k < (self.nA if upto is None else upto), self.st(self.xs(k, L), i, o)))
    def allY(self, Zt, i, o, upto=None):
        j = z3.Int("j_%d" % self._n())
        return FA([j], z3.Implies(z3.And(0 <= j, j < (self.nG if upto is None else upto)), self.st(self.ys(j, Zt), i, o)))
    def view_value(self, b):
        """how program values are read by the invariants (complemented in the dual theory)"""
        return b
    # vocabulary of the invariants (gr1.py)
    def cap(self, Y):
        """Y /\\ zs as a term"""
        return self.capz(self.tm(Y))
    def goal_edge(self, j, Zb):
        G = z3.Select(self.G, j)
        return BFV(self, lambda x: z3.And(self.holds(G, *x), self.state(Zb, *self.split(x)[2:])))
    def forall_ys(self, P, Zb, upto=None):
        i, o, _, _ = self.coords(); j = z3.Int("jq%d" % self._n()); ys = self.st(self.ys(j, self.tm(Zb)), i, o)
        return FA([i, o, j], z3.Implies(z3.And(self.state(P, i, o), 0 <= j, j < (self.nG if upto is None else upto)), ys), patterns=[ys])
    def prefix(self, j, Y):
        """\\/_k xs(k, lts(j,zs,Y /\\ zs)) is contained in Y"""
        return self.anyX_below(self.lts(j, self.zs, self.cap(Y)), Y, self.nA)
    def anyX_below(self, L, B, upto):
        i, o, _, _ = self.coords(); k = z3.Int("kq%d" % self._n()); x = self.st(self.xs(k, L), i, o)
        return FA([i, o, k], z3.Implies(z3.And(0 <= k, k < upto, x), self.state(B, i, o)), patterns=[x])
    def postfix(self, k, L, X):
        i, o, _, _ = self.coords()
        return FA([i, o], z3.Implies(self.state(X, i, o), self.st(self.cox(self.fxs(k, self.tm(L), self.tm(X))), i, o)))
    def _n(self):
        self.n += 1; return self.n
    def note_op(self, ex, st, v, cube, exist):
        """operands of output quantifications are named so that cox can be recognised"""
        ds = self.dims_of(cube.types)
        if set(ds) & set(self.QO):
            if v.t is not None and v.t.num_args() == 1 and v.t.decl().get_id() in self.absinfo: return v
            t = ex.term(st, v)
            self.ops[t.get_id()] = (t, exist)
            return BFV(self, v.fn, t)
        return super().note_op(ex, st, v, cube, exist)
    def axioms(self):
        ax = super().axioms()
        I, B, Z = self.sorts["I"], self.B, z3.IntSort()
        k, j = z3.Ints("k j"); L, Zt, Y, X, T = z3.Consts("L Zt Y X T", B)
        i, o, a, c = self.coords()
        h = self.holds; E = self.E
        # safety assumptions do not mention the next output (contract of the parser)
        ax.append(FA([i, o, a, c], E.at((i, o, a, c)) == E.at((i, o, a, self.o0)), patterns=[E.at((i, o, a, c))]))
        for t, vs in ((self.xs(k, L), [k, L]), (self.ys(j, Zt), [j, Zt]), (self.cox(T), [T])):
            ax.append(FA(vs + [i, o, a, c], h(t, i, o, a, c) == self.st(t, i, o), patterns=[h(t, i, o, a, c)]))
        ax.append(FA([i, o, a, c], h(self.zs, i, o, a, c) == self.st(self.zs, i, o), patterns=[h(self.zs, i, o, a, c)]))
        ax.append(FA([T, i, o, a, c], h(self.neg(T), i, o, a, c) == z3.Not(h(T, i, o, a, c)), patterns=[h(self.neg(T), i, o, a, c)]))
        ax.append(FA([j, Zt, Y, i, o, a, c], h(self.lts(j, Zt, Y), i, o, a, c) ==
                            z3.Or(z3.And(h(z3.Select(self.G, j), i, o, a, c), h(Zt, a, c, self.i0, self.o0)), h(Y, a, c, self.i0, self.o0)),
                            patterns=[h(self.lts(j, Zt, Y), i, o, a, c)]))
        ax.append(FA([k, L, X, i, o, a, c], h(self.fxs(k, L, X), i, o, a, c) ==
                            z3.And(self.S.at((i, o, a, c)), z3.Or(h(L, i, o, a, c), z3.And(self.st(X, a, c), z3.Not(h(z3.Select(self.A, k), i, o, a, c))))),
                            patterns=[h(self.fxs(k, L, X), i, o, a, c)]))
        # fixed-point equations
        ax.append(FA([k, L, i, o], self.st(self.xs(k, L), i, o) == self.st(self.cox(self.fxs(k, L, self.xs(k, L))), i, o), patterns=[self.st(self.xs(k, L), i, o)]))
        ax.append(FA([j, Zt, i, o], self.st(self.ys(j, Zt), i, o) == self.anyX(self.lts(j, Zt, self.ys(j, Zt)), i, o), patterns=[self.st(self.ys(j, Zt), i, o)]))
        ax.append(FA([i, o], self.st(self.zs, i, o) == self.allY(self.zs, i, o), patterns=[self.st(self.zs, i, o)]))
        ax.append(FA([T, i, o, a, c], h(self.capz(T), i, o, a, c) == z3.And(self.st(T, i, o), self.st(self.zs, i, o)), patterns=[h(self.capz(T), i, o, a, c)]))
        # lemma zs_inner (proved in the lemma unit): winning only by positions of zs stays in zs
        x = self.st(self.xs(k, self.lts(j, self.zs, self.capz(T))), i, o)
        ax.append(FA([k, j, T, i, o], z3.Implies(z3.And(0 <= k, k < self.nA, 0 <= j, j < self.nG, x), self.st(self.zs, i, o)), patterns=[x]))
        # lemma ys_zs
        y = self.st(self.ys(j, self.zs), i, o)
        ax.append(FA([j, i, o], z3.Implies(z3.And(0 <= j, j < self.nG, y), self.st(self.zs, i, o)), patterns=[y]))
        ax += [self.nA >= 0, self.nG >= 0]
        return ax
    # ---- schemas (true because the sort B contains every predicate over the coordinates)
    def cox_mono(self, T1, T2, trig=(0, 1)):
        xs = self.coords()
        i, o, _, _ = self.coords()
        g = [self.st(self.cox(T), i, o) for T in (T1, T2)]
        return z3.Implies(FA(xs, z3.Implies(z3.And(self.E.at(xs), self.h4(T1, xs)), self.h4(T2, xs))),
                          FA([i, o], z3.Implies(g[0], g[1]), patterns=[g[k] for k in trig]))
    def cox_unfold(self, T):
        i, o, _, _ = self.coords()
        g = self.st(self.cox(T), i, o)
        i4 = (i, o, self.i0, self.o0)
        r = self.holds(self.abs_sym(self.QI, False)(self.abs_sym(self.QO, True)(T)), *i4)
        return FA([i, o], g == self.coxdef(T, i, o), patterns=[g, r])
    def X_greatest(self, k, L, P):
        return z3.Implies(self.sub(P, self.cox(self.fxs(k, L, P))), self.sub(P, self.xs(k, L)))
    def X_greatest_all(self, L, P):
        k = z3.Int("k_%d" % self._n())
        return FA([k], self.X_greatest(k, L, P), patterns=[self.xs(k, L)])
    def X_mono(self, L1, L2):
        k = z3.Int("k_%d" % self._n())
        i, o, _, _ = self.coords()
        a, b = self.st(self.xs(k, L1), i, o), self.st(self.xs(k, L2), i, o)
        return z3.Implies(self.sub4(L1, L2), FA([k, i, o], z3.Implies(a, b), patterns=[a, b]))
    def Y_least(self, j, Zt, Q):
        i, o, _, _ = self.coords()
        return z3.Implies(FA([i, o], z3.Implies(self.anyX(self.lts(j, Zt, Q), i, o), self.state(Q, i, o))), self.sub(self.ys(j, Zt), Q))
    def Y_mono(self, Z1, Z2):
        j = z3.Int("j_%d" % self._n())
        i, o, _, _ = self.coords()
        a, b = self.st(self.ys(j, Z1), i, o), self.st(self.ys(j, Z2), i, o)
        return z3.Implies(self.sub(Z1, Z2), FA([j, i, o], z3.Implies(a, b), patterns=[a, b]))
    def Z_greatest(self, P):
        i, o, _, _ = self.coords()
        return z3.Implies(FA([i, o], z3.Implies(self.state(P, i, o), self.allY(self.tm(P), i, o))), self.sub(P, self.zs))
    # ---- which instances an obligation gets: all pairs of relevant terms occurring in it
    def schema_instances(self, ob):
        fs = ob.hyps + [ob.goal]
        T = Terms(fs)
        inst = self.indep_axioms(T)
        Ls, Zs, cx = {}, {}, {}
        def add(d, t): d.setdefault(t.get_id(), t)
        xs_t, ys_t = T.ground(self.xs), T.ground(self.ys)
        for t in T.open_args(self.xs, 1): add(Ls, t)
        for t in T.ground(self.lts): add(Ls, t)
        for t in T.ground(self.fxs): add(Ls, t.arg(1))
        for t in T.ground(self.lts):
            p = t.arg(2)
            if t.arg(1).eq(self.zs): add(Ls, self.lts(t.arg(0), self.zs, self.capz(self.FALSE)))
            if t.arg(1).eq(self.zs) and p.decl().eq(self.capz): inst.append(self.Y_least(t.arg(0), self.zs, p))
        for t in T.open_args(self.ys, 1): add(Zs, t)
        if T.has(self.zs): add(Zs, self.zs)
        for t in ys_t: add(Ls, self.lts(t.arg(0), t.arg(1), t))
        cands = self.candidates(ob, T)
        for a in Ls.values():
            for b in Ls.values():
                if not a.eq(b): inst.append(self.X_mono(a, b))
        for a in Zs.values():
            for b in Zs.values():
                if not a.eq(b): inst.append(self.Y_mono(a, b))
        # cox: program operands are unfolded; spec operands and operands are compared
        prog = {}
        for t, exist in self.ops.values():
            if T.has(t): add(prog, t if exist else self.neg(t))
        spec = {}
        for t in T.ground(self.fxs): add(spec, t)
        for t in xs_t: add(spec, self.fxs(t.arg(0), t.arg(1), t))
        for t in ys_t:
            L = self.lts(t.arg(0), t.arg(1), t); x0 = self.xs(z3.IntVal(0), L); f = self.fxs(z3.IntVal(0), L, x0)
            spec[f.get_id()] = f
            i, o, _, _ = self.coords(); c = self.st(self.cox(f), i, o)
            # consequence of the fixed-point equations (a first assumption exists)
            inst.append(z3.Implies(self.nA >= 1, FA([i, o], z3.Implies(c, self.st(t, i, o)), patterns=[c])))
        for p in prog.values(): inst.append(self.cox_unfold(p))
        for a in prog.values():
            for b in spec.values(): inst += [self.cox_mono(a, b, (0,)), self.cox_mono(b, a, (1,))]
            if self.track_dump:
                for b in prog.values():
                    if not a.eq(b): inst.append(self.cox_mono(a, b))
        for a in spec.values():
            for b in spec.values():
                if not a.eq(b): inst.append(self.cox_mono(a, b))
        pairs = {}
        for t in xs_t: pairs[(t.arg(0).get_id(), t.arg(1).get_id())] = (t.arg(0), t.arg(1))
        for t in T.ground(self.fxs): pairs[(t.arg(0).get_id(), t.arg(1).get_id())] = (t.arg(0), t.arg(1))
        for p in cands:
            for k, L in pairs.values(): inst.append(self.X_greatest(k, L, p))
            for t in ys_t: inst.append(self.Y_least(t.arg(0), t.arg(1), p))
            if T.has(self.zs): inst.append(self.Z_greatest(p))
        return inst
    def candidates(self, ob, T):
        st = ob.extra[0] if ob.extra else None
        out = {}
        if st is not None:
            for loc, v in st.store.items():
                if isinstance(v, StructV) and v.cls == "BFFixedPoint": v = v.get("currentValue")
                elif not (isinstance(v, BFV) and isinstance(loc, tuple) and loc[0] == "F" and loc[1] in self.field_cands): continue
                if isinstance(v, BFV) and v.t is not None and T.has(v.t): out[v.t.get_id()] = v.t
        return list(out.values())

class DualGR1Theory(GR1Theory):
    """for code that solves the game of the environment: every program value stands for its complement"""
    def view_value(self, b):
        if b.t is None: return BFV(self, lambda xs: z3.Not(b.at(xs)))
        t = self.neg(b.t)
        return BFV(self, lambda xs: z3.Not(b.at(xs)), t=t)
    def axioms(self):
        ax = super().axioms()
        T = z3.Const("T", self.B); xs = self.coords(); h = self.holds
        ax.append(FA((T,) + xs, h(self.neg(T), *xs) == z3.Not(h(T, *xs)), patterns=[z3.MultiPattern(h(T, *xs), self.neg(T))]))
        return ax
    def candidates(self, ob, T): return [self.neg(t) for t in super().candidates(ob, T)]
    def cox_unfold(self, T):
        if not T.decl().eq(self.neg): return super().cox_unfold(T)
        P = T.arg(0)
        i, o, _, _ = self.coords(); _, _, a, _ = self.coords()
        g = self.st(self.cox(T), i, o)
        al = self.abs_sym(self.QO, False)(P)
        r = self.holds(self.abs_sym(self.QI, True)(al), i, o, self.i0, self.o0)
        e, x = self.E.at((i, o, a, self.o0)), self.holds(al, i, o, a, self.o0)
        return FA([i, o], g == FA([a], z3.Implies(e, z3.Not(x)), patterns=[e, x]), patterns=[g, r])

FS_PARENTS = {"PreOutputFast": "PreOutput", "PreOutputSlow": "PreOutput", "PostOutputFast": "PostOutput", "PostOutputSlow": "PostOutput"}
class FastSlowTheory(GR1Theory):
    """XIROSFS: the safety guarantees S of the game are S0 and the two requirements on the intermediate position"""
    def __init__(self):
        super().__init__((("OS", "OutputSlow"), ("OF", "OutputFast")), FS_PARENTS)
        self.S0 = BFV(self, t=z3.Const("SafetySys0", self.B))
    def axioms(self):
        ax = super().axioms(); pre = list(range(1 + self.nO)); post = self.QI + self.QO; x = self.coords(); h = self.holds
        i, o, a, c = x; mid = (a, (o[0], c[1]))           # new inputs, old slow outputs, new fast outputs
        ent = h(self.abs_sym(pre, True)(self.S0.t), self.i0, self.o0, *mid); lv = h(self.abs_sym(post, True)(self.S0.t), *mid, self.i0, self.o0)
        s = h(self.S.t, *x)
        ax.append(FA(x, s == z3.And(h(self.S0.t, *x), ent, lv), patterns=[s]))
        return self.abs_axioms() + ax
IL_PARENTS = {"PreOutputBefore": "PreOutput", "PreOutputAfter": "PreOutput", "PostOutputBefore": "PostOutput", "PostOutputAfter": "PostOutput"}
class InterleaveTheory(GR1Theory):
    """XInterleave: cox(T) = the 'before' outputs are chosen, then the environment picks an allowed input, then the
       'after' outputs are chosen such that T holds"""
    def __init__(self): super().__init__((("OB", "OutputBefore"), ("OA", "OutputAfter")), IL_PARENTS)
    def cox_unfold(self, T):
        i, o, _, _ = self.coords(); x = self.coords()
        g = self.st(self.cox(T), i, o)
        b, a = [self.QO[0]], [self.QO[1]]
        r = self.st(self.abs_sym(b, True)(self.abs_sym(self.QI, False)(self.abs_sym(a, True)(T))), i, o)
        return z3.Implies(FA(x, z3.Or(self.E.at(x), self.holds(T, *x))), FA([i, o], g == r, patterns=[g, r]))

class Terms:
    """index of the subterms of a list of formulas"""
    def __init__(self, fs):
        self.seen = {}; self.g = {}; self.open = {}
        for f in fs: self.rec(f)
    def rec(self, e):
        i = e.get_id()
        if i in self.seen: return self.seen[i]
        if z3.is_var(e): r = False
        elif z3.is_quantifier(e):
            self.rec(e.body()); r = True
        else:
            r = True
            for c in e.children():
                if not self.rec(c): r = False
            if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                d = e.decl().get_id()
                if r: self.g.setdefault(d, {})[i] = e
                self.open.setdefault(d, {})[i] = e
        self.seen[i] = r
        return r
    def ground(self, decl): return list(self.g.get(decl.get_id(), {}).values())
    def open_args(self, decl, pos):
        out = {}
        for e in self.open.get(decl.get_id(), {}).values():
            a = e.arg(pos)
            if self.seen.get(a.get_id()): out[a.get_id()] = a
        return list(out.values())
    def has(self, t): return t.get_id() in self.seen

"""C12: contract of XComputeCNFFormOfTheSpecification::execute.

One coordinate: a valuation of all variables of the specification.  Ghost state follows the text that is printed:
PR_cat  - conjunction of the clauses printed so far for a section;  CL - the literals of the clause being printed;
TD      - the literals of the term being printed;  D - union of the readings of the terms of the liveness line being printed;
LN_kind - number of liveness lines completed;  DECL - variables declared so far."""
import ast as pyast
from gr1 import *
A_EXT = "a Boolean function is a set of valuations of the variables in `variables` (no other BDD variables exist), valuations with equal bits are equal"
CATS = ("SafetyGuarantee:", "SafetyAssumption:", "Init:"); KINDS = ("LivenessGuarantee:", "LivenessAssumption:")
def pieces(e):
    """operands of a chain of << in order (None: not a chain on std::cout)"""
    while e.get("kind") in ("ExprWithCleanups", "ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr"): e = kids(e)[0]
    if e.get("kind") == "CXXOperatorCallExpr":
        a = kids(e)[1:]; f = kids(e)[0]
        while f.get("kind") in ("ImplicitCastExpr", "ParenExpr"): f = kids(f)[0]
        if f.get("referencedDecl", {}).get("name") == "operator<<" and len(a) == 2:
            r = pieces(a[0]); return None if r is None else r + [a[1]]
        return None
    if e.get("kind") == "DeclRefExpr" and e["referencedDecl"].get("name") == "cout": return []
    return None
class PrintTheory(Theory):
    """follows std::cout: subclasses handle token(ex, st, text) / value(ex, st, v) and return a list of states"""
    def stream(self, ex, st, op, args):
        if op != "operator<<": return None
        ps = pieces({"kind": "CXXOperatorCallExpr", "inner": [{"kind": "DeclRefExpr", "referencedDecl": {"name": "operator<<"}}] + list(args)})
        if ps is None: return None
        sts = [st]
        for p in ps:
            nxt = []
            for s in sts:
                for s2, v in ex.ev(p, s): nxt += self.printed(ex, s2.copy(), v)
            sts = nxt
        return [(s, OpaqueV("cout")) for s in sts]
    def printed(self, ex, s, v):
        if isinstance(v, StrV) and v.s is not None: return self.text(ex, s, pyast.literal_eval(v.s) if v.s[:1] == '"' else v.s)
        if isinstance(v, OpaqueV) and v.why == "endl": return self.text(ex, s, "\n")
        if isinstance(v, (StrV, z3.ExprRef)): return self.value(ex, s, v)
        raise Unsupported("printing of %s" % type(v).__name__)
    def text(self, ex, s, t):
        sts = [s]
        for tok in re.findall(r"\n|[^\s]+", t): sts = [r for s in sts for r in self.token(ex, s, tok)]
        return sts
class CnfTheory(PrintTheory):
    unroll = 4
    def __init__(self):
        super().__init__([("v", "V", "None")])
        self.Str = z3.DeclareSort("Str"); V, I = self.sorts["V"], z3.IntSort()
        self.bit = z3.Function("bit", V, I, z3.BoolSort()); self.flip = z3.Function("flip", V, I, V); self.sh = z3.Function("asnext", V, V)
        self.cat = z3.Function("joined", self.Str, self.Str, self.Str)
        self.vars = z3.Array("variables", I, self.B); self.types = z3.Array("variableTypes", I, I); self.names = z3.Array("variableNames", I, self.Str); self.n = 0; self.N = z3.Int("N")
        self.E = {c: z3.Const(n, self.B) for c, n in zip(CATS, ("SafetySys", "SafetyEnv", "Init"))}
        self.iE, self.iS = z3.Const("InitEnv", self.B), z3.Const("InitSys", self.B)
        self.live = {k: (z3.Array("live" + k, I, self.B), z3.Int("n" + k)) for k in KINDS}
    def enum_const(self, name): return z3.IntVal({"PreInput": 0, "PreOutput": 1, "PostInput": 2, "PostOutput": 3}.get(name, 100 + abs(hash(name)) % 1000))
    def is_pre(self, k): return z3.Or(self.types[k] == 0, self.types[k] == 1)
    def is_post(self, k): return z3.Or(self.types[k] == 2, self.types[k] == 3)
    def lit(self, x, v): return z3.If(x > 0, self.bit(v, x - 1), z3.Not(self.bit(v, -x - 1)))
    def axioms(self):
        v, w = z3.Consts("v w", self.sorts["V"]); i, j = z3.Ints("i j"); h = self.holds
        return super().axioms() + [
            FA([v, i, j], self.bit(self.flip(v, i), j) == z3.If(i == j, z3.Not(self.bit(v, j)), self.bit(v, j)), patterns=[self.bit(self.flip(v, i), j)]),
            FA([v, i], h(self.vars[i], v) == self.bit(v, i), patterns=[h(self.vars[i], v)]),
            FA([v, i], self.bit(self.sh(v), i) == z3.If(self.is_pre(i), self.bit(v, i + 1), self.bit(v, i)), patterns=[self.bit(self.sh(v), i)]),
            FA([v], h(self.E["Init:"], v) == z3.And(h(self.iE, v), h(self.iS, v)), patterns=[h(self.E["Init:"], v)]), self.N >= 0]
    def init_state(self, ex, st):
        b = lambda t: BFV(self, t=t)
        F = lambda n: ("F", n)
        st.store[F("safetySys")] = b(self.E["SafetyGuarantee:"]); st.store[F("safetyEnv")] = b(self.E["SafetyAssumption:"]); st.store[F("initEnv")] = b(self.iE); st.store[F("initSys")] = b(self.iS)
        st.store[F("variables")] = VecV(("BF",), self.N, [self.vars]); st.store[F("variableTypes")] = VecV(("int",), self.N, [self.types]); st.store[F("variableNames")] = VecV(("str",), self.N, [self.names])
        for k, f in zip(KINDS, ("livenessGuarantees", "livenessAssumptions")):
            st.store[F(f)] = VecV(("BF",), self.live[k][1], [self.live[k][0]]); st.pc.append(self.live[k][1] >= 0); st.store[("G", "LN" + k)] = z3.IntVal(0)
        for c in CATS: st.store[("G", "PR" + c)] = b(self.TRUE)
        st.store[("G", "CL")] = b(self.FALSE); st.store[("G", "TD")] = b(self.TRUE); st.store[("G", "D")] = b(self.FALSE); st.store[("G", "TPRE")] = z3.BoolVal(True)
        st.store[("G", "DECL")] = z3.K(z3.IntSort(), z3.BoolVal(False)); st.ghost["mode"] = None; st.ghost["fields"] = ()
    # ---- text
    def token(self, ex, s, t):
        G = lambda n: ("G", n); m = s.ghost["mode"]
        named = lambda fn: ex.named(s, BFV(self, fn))
        if t in CATS + KINDS + ("Input:", "Output:"):
            ex.oblige(s, "a line starts only after the previous one has ended", z3.BoolVal(m is None), "print"); s.ghost["mode"] = t; s.ghost["fields"] = ()
            if t in KINDS: s.store[G("D")] = BFV(self, t=self.FALSE)
            return [s]
        if t == "0" and m in CATS:
            pr, cl = s.store[G("PR" + m)], s.store[G("CL")]
            s.store[G("PR" + m)] = named(lambda xs: z3.And(pr.at(xs), cl.at(xs))); s.store[G("CL")] = BFV(self, t=self.FALSE); s.ghost["mode"] = m + "end"; return [s]
        if t == "0" and m in KINDS:
            td, d = s.store[G("TD")], s.store[G("D")]; E = z3.Select(self.live[m][0], s.store[("G", "LN" + m)]); tp = s.store[G("TPRE")]
            v = self.flat(); u = self.flat(); r1, r2 = fresh("now", z3.BoolSort()), fresh("next", z3.BoolSort())
            s.pc.append(r1 == FA(v, z3.Implies(td.at(v), self.holds(E, *v)))); s.pc.append(r2 == z3.And(tp, FA(u, z3.Implies(td.at([self.sh(u[0])]), self.holds(E, *u)), patterns=[self.holds(E, *u)])))
            ex.oblige(s, "the printed term, or its reading over the next step if it only has current variables, implies the liveness condition", z3.Or(r1, r2), "print")
            nd = fresh("b", self.B); x = self.flat(); h = self.holds
            s.pc.append(FA(x, h(nd, *x) == z3.Or(d.at(x), z3.And(r1, td.at(x)), z3.And(r2, td.at([self.sh(x[0])]))), patterns=[h(nd, *x)])); s.store[G("D")] = BFV(self, t=nd)
            s.store[G("TD")] = BFV(self, t=self.TRUE); s.store[G("TPRE")] = z3.BoolVal(True); return [s]
        if t == "\n" and m is not None:
            if m.endswith("end"): pass
            elif m in KINDS:
                ln = s.store[G("LN" + m)]; d = s.store[G("D")]; v = self.flat()
                ex.oblige(s, "a liveness line is printed for an existing condition, in order", z3.And(0 <= ln, ln < self.live[m][1]), "print")
                ex.oblige(s, "the terms of the line together are equivalent to the liveness condition", FA(v, d.at(v) == self.holds(z3.Select(self.live[m][0], ln), *v)), "print")
                s.store[G("LN" + m)] = ln + 1
            elif m in ("Input:", "Output:"):
                f = s.ghost["fields"]
                if len(f) != 3 or not z3.is_select(f[0]): raise Unsupported("declaration line")
                k = f[0].arg(1)
                ex.oblige(s, "a declaration names a variable of its kind and numbers it and its next-step copy", z3.And(f[0].arg(0) == self.names, 0 <= k, k < self.N, self.types[k] == (0 if m == "Input:" else 1), f[1] == k + 1, f[2] == k + 2), "print")
                s.store[G("DECL")] = z3.Store(s.store[G("DECL")], k, z3.BoolVal(True))
            else: ex.oblige(s, "a clause line ends with 0", z3.BoolVal(False), "print")
            s.ghost["mode"] = None; s.ghost["fields"] = (); return [s]
        raise Unsupported("printed text %r in %s" % (t, m))
    def value(self, ex, s, v):
        m = s.ghost["mode"]; G = lambda n: ("G", n)
        if isinstance(v, StrV):
            if m not in ("Input:", "Output:") or v.t is None: raise Unsupported("printed string")
            s.ghost["fields"] += (v.t,); return [s]
        if not z3.is_int(v): raise Unsupported("printed value")
        if m in ("Input:", "Output:"): s.ghost["fields"] += (v,); return [s]
        if z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0: return self.token(ex, s, "0")
        ex.oblige(s, "a printed literal refers to a variable", z3.Or(z3.And(1 <= v, v <= self.N), z3.And(1 <= -v, -v <= self.N)), "print")
        if m in CATS: cl = s.store[G("CL")]; s.store[G("CL")] = ex.named(s, BFV(self, lambda xs: z3.Or(cl.at(xs), self.lit(v, xs[0]))))
        elif m in KINDS:
            td = s.store[G("TD")]; s.store[G("TD")] = ex.named(s, BFV(self, lambda xs: z3.And(td.at(xs), self.lit(v, xs[0]))))
            s.store[G("TPRE")] = z3.And(s.store[G("TPRE")], self.is_pre(z3.If(v > 0, v, -v) - 1))
        else: raise Unsupported("number outside of a line")
        return [s]
    # ---- other
    def var_index(self, ex, s, b):
        if isinstance(b, BFV) and b.t is not None and z3.is_select(b.t) and b.t.arg(0).eq(self.vars): return b.t.arg(1)
        raise Unsupported("not a variable")
    def bf_call(self, ex, s, name, v, vs):
        if name in ("ExistAbstractSingleVar", "UnivAbstractSingleVar"):
            i = self.var_index(ex, s, vs[0]); w = z3.Or if name[0] == "E" else z3.And
            return [(s, BFV(self, lambda xs: w(v.at(xs), v.at([self.flip(xs[0], i)]))))]
    def obj_call(self, ex, s, name, v, l, args, e):
        if isinstance(v, OpaqueV) and name == "flush": return [(s, v)]
    def operator(self, ex, s, op, vs, e):
        if all(isinstance(x, StrV) for x in vs) and len(vs) == 2:
            a, b = (self.str_term(x) for x in vs)
            if op == "operator+": return [(s, StrV(None, self.cat(a, b)))]
            if op in ("operator==", "operator!="): return [(s, a == b if op == "operator==" else a != b)]
    def value_of(self, w, v, n): 
        """v is the valuation w, as far as the variables from number n on are concerned"""
        j = z3.Int("j%d" % next(CNT)); return FA([j], z3.Implies(z3.And(n <= j, j < self.N), self.bit(v, j) == self.bit(w, j)), patterns=[self.bit(v, j)])
CNT = itertools.count()
def det_contract(th):
    """corollary of the postcondition of determinize (unit choice:determinize) and extensionality; obligation det_lemma"""
    def res(ex, st): 
        r = BFV(th, t=fresh("det", th.B)); w = fresh("w", th.sorts["V"]); th.wit[r.t.get_id()] = (r.t, w); return r
    def post(v, old, r):
        x = th.flat(); y = th.flat(); s = v.args[0]; w = th.wit[r.t.get_id()][1]
        ne = fresh("ne", z3.BoolSort()); v.st.ghost["wit"] = w
        return [("", ne == EX(y, s.at(y))), ("", FA(x, z3.Implies(th.holds(r.t, *x), s.at(x)), patterns=[th.holds(r.t, *x)])), ("", z3.Implies(ne, th.holds(r.t, w))),
                ("", z3.Implies(ne, FA(x, th.holds(r.t, *x) == th.value_of(w, x[0], 0), patterns=[th.holds(r.t, *x)])))]
    th.wit = {}
    def pre(v):
        vec = v.args[1]
        return [("all variables are fixed", z3.And(vec.size == th.N, vec.cols[0] == th.vars))]
    return Contract(pre=pre, post=post, result=res)
def det_lemma(th, ex):
    """postcondition of determinize + extensionality |- a non-empty result is exactly one valuation"""
    R = z3.Const("R", th.B); w, v, u = z3.Consts("w v u", th.sorts["V"]); i, j = z3.Ints("i j"); h = th.holds
    co = FA([i], z3.Implies(z3.And(0 <= i, i < th.N), z3.Or(FA([v], z3.Implies(h(R, v), th.bit(v, i))), FA([v], z3.Implies(h(R, v), z3.Not(th.bit(v, i)))))))
    exn = FA([v], z3.Implies(th.value_of(w, v, 0), v == w))
    st = State(); st.pc = [co, exn, h(R, w)]
    ex.oblige(st, "lemma: a non-empty result of determinize over all variables is exactly one valuation", FA([v], h(R, v) == th.value_of(w, v, 0)), "lemma")
def loops(th):
    def spec(ex, info, st, h):
        mods = info["modified"]; out = []; g = lambda n: ("G", n); hold = th.holds
        names = {l: n for fr in h.names for n, l in fr.items()}
        bfs = [l for l in mods if isinstance(h.store.get(l), BFV) and l in names]
        ints = [l for l in mods if isinstance(h.store.get(l), z3.ExprRef) and z3.is_int(h.store[l]) and l in names]; its = [l for l in mods if isinstance(h.store.get(l), IterV)]
        bools = [l for l in mods if isinstance(h.store.get(l), z3.ExprRef) and z3.is_bool(h.store[l]) and l in names]
        vecs = [l for l in mods if isinstance(h.store.get(l), VecV)]
        out.append(("output is at the same place", lambda v, e: z3.BoolVal(v.st.ghost["mode"] == e.st.ghost["mode"] and v.st.ghost["fields"] == e.st.ghost["fields"])))
        rd = lambda v, l: v.st.store[l]
        all_ = lambda f: (lambda x: FA(x, f(x)))(th.flat())
        if g("DECL") in mods and len(ints) == 1:
            i = ints[0]; k = z3.Int("k%d" % next(CNT))
            out += [("range", lambda v, e: z3.And(0 <= rd(v, i), rd(v, i) <= th.N)),
                    ("declared", lambda v, e: FA([k], z3.Implies(z3.And(0 <= k, k < rd(v, i), th.is_pre(k)), z3.Select(rd(v, g("DECL")), k)), patterns=[z3.Select(rd(v, g("DECL")), k)])),
                    ("alternating", lambda v, e: FA([k], z3.Implies(z3.And(0 <= k, k < rd(v, i)), z3.And(z3.Or(th.is_pre(k), z3.And(th.is_post(k), k >= 1, th.is_pre(k - 1))), z3.Implies(th.is_pre(k), th.is_post(k + 1)))), patterns=[th.types[k]]))]
        prs = [c for c in CATS if g("PR" + c) in mods]
        if len(prs) == 1 and len(bfs) == 1:      # one clause per iteration
            X, c = bfs[0], prs[0]
            out += [("clauses printed so far = complement of what has been found", lambda v, e: all_(lambda x: rd(v, g("PR" + c)).at(x) == z3.Not(rd(v, X).at(x)))),
                    ("found cubes avoid the constraint", lambda v, e: all_(lambda x: z3.Not(z3.And(rd(v, X).at(x), hold(th.E[c], *x))))),
                    ("no literals pending", lambda v, e: all_(lambda x: z3.Not(rd(v, g("CL")).at(x))))]
        elif len(ints) == 1 and len(bfs) == 1 and ("wit" in h.ghost) and not prs:      # one variable per iteration
            i, T = ints[0], bfs[0]; w = h.ghost["wit"]; m = h.ghost["mode"]
            out.append(("range", lambda v, e: z3.And(0 <= rd(v, i), rd(v, i) <= th.N)))
            out.append(("witness", lambda v, e: rd(v, T).at([w])))
            if g("CL") in mods:
                out += [("cube = negated literals and the remaining bits", lambda v, e: all_(lambda x: rd(v, T).at(x) == z3.And(z3.Not(rd(v, g("CL")).at(x)), th.value_of(w, x[0], rd(v, i))))),
                        ("literals so far do not mention later variables", lambda v, e: later(th, v, rd(v, g("CL")), rd(v, i)))]
                E = th.E[m]
            elif vecs:
                L = vecs[0]; k = z3.Int("k%d" % next(CNT)); lk = lambda v: z3.Select(rd(v, L).cols[0], k); rng = lambda v: z3.And(0 <= k, k < rd(v, L).size)
                ab = lambda t: z3.If(t > 0, t, -t)
                out += [("size", lambda v, e: rd(v, L).size >= 0),
                        ("literals refer to earlier variables", lambda v, e: FA([k], z3.Implies(rng(v), z3.And(1 <= ab(lk(v)), ab(lk(v)) <= rd(v, i))), patterns=[lk(v)])),
                        ("cube = literals and the remaining bits", lambda v, e: all_(lambda x: rd(v, T).at(x) == z3.And(FA([k], z3.Implies(rng(v), th.lit(lk(v), x[0])), patterns=[lk(v)]), th.value_of(w, x[0], rd(v, i)))))]
                for b in bools: out.append(("only next-step variables", lambda v, e, b=b: rd(v, b) == FA([k], z3.Implies(rng(v), th.is_post(ab(lk(v)) - 1)), patterns=[lk(v)])))
                E = z3.Select(th.live[m][0], h.store[g("LN" + m)])
            else: return out
            neg = m in CATS
            out.append(("cube avoids the constraint" if neg else "cube implies the condition", lambda v, e: all_(lambda x: z3.Implies(rd(v, T).at(x), z3.Not(hold(E, *x)) if neg else hold(E, *x)))))
        elif g("TD") in mods and len(its) == 1 and not bfs and g("D") not in mods:             # printing the literals of one term
            q = its[0]; vec = [l for l, x in h.store.items() if isinstance(x, VecV) and x.et == ("int",) and l in names]
            L = h.store[q].lv[0]; k = z3.Int("k%d" % next(CNT))
            bl = [l for l in names if isinstance(h.store.get(l), z3.ExprRef) and z3.is_bool(h.store[l])]
            lk = lambda v: z3.Select(rd(v, L).cols[0], k); ix = lambda v: rd(v, q).idx; rng = lambda v: z3.And(0 <= k, k < ix(v)); sg = lambda t: z3.If(t > 0, t - 1, t + 1)
            if len(bl) == 1: p = lambda v: z3.If(rd(v, bl[0]), sg(lk(v)), lk(v))
            else: p = lk
            ab = lambda t: z3.If(t > 0, t, -t)
            out += [("range", lambda v, e: z3.And(0 <= ix(v), ix(v) <= rd(v, L).size)),
                    ("term printed so far", lambda v, e: all_(lambda x: rd(v, g("TD")).at(x) == FA([k], z3.Implies(rng(v), th.lit(p(v), x[0])), patterns=[lk(v)]))),
                    ("only current variables printed so far", lambda v, e: rd(v, g("TPRE")) == FA([k], z3.Implies(rng(v), th.is_pre(ab(p(v)) - 1)), patterns=[lk(v)]))]
        elif g("D") in mods and len(bfs) == 1:                                          # one term per iteration
            X, m = bfs[0], h.ghost["mode"]; E = z3.Select(th.live[m][0], h.store[g("LN" + m)])
            out += [("found cubes are covered by the printed terms", lambda v, e: all_(lambda x: z3.Implies(rd(v, X).at(x), rd(v, g("D")).at(x)))),
                    ("printed terms imply the condition", lambda v, e: all_(lambda x: z3.Implies(rd(v, g("D")).at(x), hold(E, *x)))),
                    ("no literals pending", lambda v, e: z3.And(rd(v, g("TPRE")), all_(lambda x: rd(v, g("TD")).at(x))))]
        elif len(its) == 1 and any(g("LN" + k) in mods for k in KINDS):
            kd = [k for k in KINDS if g("LN" + k) in mods]
            if len(kd) == 1:
                q, kd = its[0], kd[0]
                out += [("one line per condition", lambda v, e: z3.And(rd(v, q).idx == rd(v, g("LN" + kd)), 0 <= rd(v, q).idx, rd(v, q).idx <= th.live[kd][1])),
                        ("no literals pending", lambda v, e: z3.And(rd(v, g("TPRE")), all_(lambda x: rd(v, g("TD")).at(x))))]
        return out
    return spec
def later(th, v, cl, i):
    j = z3.Int("j%d" % next(CNT)); x = th.flat()
    return FA([j] + list(x), z3.Implies(z3.And(j >= i, j < th.N), cl.at([th.flip(x[0], j)]) == cl.at(x)), patterns=[cl.at([th.flip(x[0], j)])])
def post(v, old, res):
    th = v.th; r = []; k = z3.Int("k%d" % next(CNT)); x = th.flat(); g = lambda n: v.st.store[("G", n)]
    for c in CATS: r.append(("the clauses printed as %s are equivalent to the constraint" % c, FA(x, g("PR" + c).at(x) == th.holds(th.E[c], *x))))
    for kd in KINDS: r.append(("every %s condition has its line" % kd, g("LN" + kd) == th.live[kd][1]))
    r.append(("every variable is declared", FA([k], z3.Implies(z3.And(0 <= k, k < th.N, th.is_pre(k)), z3.Select(g("DECL"), k)))))
    r.append(("the output ends with a complete line", z3.BoolVal(v.st.ghost["mode"] is None)))
    return r

"""C18: contract of XAnalyzeAssumptions::execute.

The assumptions are numbered 0 .. nS-1 (safety) and nS .. nS+nL-1 (liveness).  W is the winning set of the game, WX(p) the
winning set of the game without assumption p (contract of computeReactiveDistancesAndWinningPositions: the result is the
winning set for the current safetyEnv and livenessAssumptions - unit win:XAnalyzeAssumptions).
Ghost state follows the text that is printed: N - assumptions named so far;  M - assumptions classified so far;  R - the
first line has been printed."""
import ast as pyast
from gr1 import *
from cnf import PrintTheory
A_MSG = "a message is recognised by its fixed text; the details of the message 'makes reaching the system goals ...' (goal numbers) are not judged"
A_DIAG = "the tables of reactive distances and strategies, which only enter those details, are indexed within their bounds (bounded check)"
CNT = itertools.count()
LA, SE = ("F", "livenessAssumptions"), ("F", "safetyEnv")
class ClassifyTheory(PrintTheory):
    track_dep = True
    def __init__(self):
        super().__init__([("pi", "I", "PreInput"), ("po", "O", "PreOutput"), ("qi", "I", "PostInput"), ("qo", "O", "PostOutput")])
        B, I = self.B, z3.IntSort(); self.Str = z3.DeclareSort("Str")
        c = lambda n: z3.Const(n, B)
        self.W, self.iE, self.iS, self.E, self.S = c("W"), c("initEnv"), c("initSys"), c("SafetyEnv"), c("SafetySys")
        self.P = z3.Array("safetyEnvParts", I, B); self.A = z3.Array("livenessAssumptions", I, B); self.G = z3.Array("livenessGuarantees", I, B)
        self.nS, self.nL, self.nG = z3.Ints("nS nL nG"); self.nmS = z3.Array("safetyEnvPartNames", I, self.Str); self.nmL = z3.Array("livenessEnvPartNames", I, self.Str)
        self.WX = z3.Function("winning_without", I, B); self.EX = z3.Function("parts_without", I, I, B)
        self.i0 = z3.Const("i0", self.sorts["I"]); self.o0 = z3.Const("o0", self.sorts["O"]); self.tot = self.nS + self.nL
    def coords(self, tag=None): return self.flat()
    def p(self, t, i, o): return self.holds(t, i, o, self.i0, self.o0)
    def axioms(self):
        x = self.flat(); h = self.holds; i, j, k = z3.Ints("i j k")
        r = [self.nS >= 0, self.nL >= 1, self.nG >= 1]
        # the safety assumption is the conjunction of its parts (parse:file:XAnalyzeAssumptions); parts_without(i,j): the conjunction of the first j parts other than i
        r.append(FA(x, h(self.E, *x) == FA([k], z3.Implies(z3.And(0 <= k, k < self.nS), h(self.P[k], *x)), patterns=[h(self.P[k], *x)]), patterns=[h(self.E, *x)]))
        r.append(FA([i, j] + list(x), h(self.EX(i, j), *x) == FA([k], z3.Implies(z3.And(0 <= k, k < j, k != i), h(self.P[k], *x)), patterns=[h(self.P[k], *x)]), patterns=[h(self.EX(i, j), *x)]))
        for t, vs in ((self.W, []), (self.iS, []), (self.WX(i), [i])): r.append(FA(vs + list(x), h(t, *x) == self.p(t, x[0], x[1]), patterns=[h(t, *x)]))
        r.append(FA(x, h(self.iE, *x) == self.p(self.iE, x[0], self.o0), patterns=[h(self.iE, *x)]))
        return super().axioms() + r
    def init_state(self, ex, st):
        F = lambda n: ("F", n); pre = frozenset([0, 1])
        st.store[F("initEnv")] = BFV(self, t=self.iE, dep=frozenset([0])); st.store[F("initSys")] = BFV(self, t=self.iS, dep=pre)
        st.store[SE] = BFV(self, t=self.E); st.store[F("safetySys")] = BFV(self, t=self.S)
        st.store[LA] = VecV(("BF",), self.nL, [self.A]); st.store[F("livenessGuarantees")] = VecV(("BF",), self.nG, [self.G])
        st.store[F("safetyEnvParts")] = VecV(("BF",), self.nS, [self.P]); st.store[F("safetyEnvPartNames")] = VecV(("str",), self.nS, [self.nmS]); st.store[F("livenessEnvPartNames")] = VecV(("str",), self.nL, [self.nmL])
        for g in "NM": st.store[("G", g)] = z3.IntVal(0)
        st.store[("G", "R")] = z3.IntVal(0); st.ghost["mode"] = None
    # ---- what the classification means
    def real(self, W):
        a, b = self.coords()[:2]
        return FA([a], z3.Implies(self.p(self.iE, a, self.o0), EX([b], z3.And(self.p(W, a, b), self.p(self.iS, a, b)))))
    def sub(self, A, B):
        a, b = self.coords()[:2]; return FA([a, b], z3.Implies(self.p(A, a, b), self.p(B, a, b)))
    def fewer(self, p): return z3.And(self.sub(self.WX(p), self.W), z3.Not(self.sub(self.W, self.WX(p))))
    def implied(self, p):
        x = self.flat(); return FA(x, z3.Implies(self.holds(self.EX(p, self.nS), *x), self.holds(self.P[p], *x)))
    def cls(self, c, p):
        cr, mo, re_ = z3.Not(self.real(self.WX(p))), self.fewer(p), z3.And(p < self.nS, self.implied(p))
        return {"needed": [cr], "more": [z3.Not(cr), mo], "redundant": [z3.Not(cr), z3.Not(mo), re_], "other": [z3.Not(cr), z3.Not(mo), z3.Not(re_)]}[c]
    # ---- text
    def text(self, ex, s, t):
        G = lambda n: ("G", n); m = s.ghost["mode"]
        if t == "\n" and m is not None and m[0] == "msg": return self.done(ex, s, m[1])
        if m is None:
            if "\n" in t and s.store[G("R")] is not None and ("realizable" in t):
                un = "unrealizable" in t
                ex.oblige(s, "the specification is reported as %s only if it is" % ("unrealizable" if un else "realizable"), z3.Not(self.real(self.W)) if un else self.real(self.W), "print")
                s.store[G("R")] = z3.IntVal(2 if un else 1); return [s]
            if t == '"': s.ghost["mode"] = ("quote",); return [s]
        elif m[0] == "named" and t[:1] == '"':
            s.ghost["mode"] = ("msg", ""); return self.text(ex, s, t[1:].lstrip()) if t[1:].strip() else [s]
        elif m[0] == "msg":
            if t.strip(" ") == "": return [s]
            keys = {"needed": ("is crucially needed",), "more": ("makes more positions winning",), "redundant": ("is redundant",), "other": ("is superfluous", "easier for the system")}
            for c, ks in keys.items():
                if any(k in t for k in ks):
                    return self.done(ex, s, c) if t.endswith("\n") else [self.note(s, c)]
            if "\n" not in t and (t.startswith("makes reaching") or t == ", " or "not in most general" in t): return [s]
        raise Unsupported("printed text %r in %s" % (t, m))
    def note(self, s, c): s.ghost["mode"] = ("msg", c); return s
    def done(self, ex, s, c):
        G = lambda n: ("G", n); p = s.store[G("M")]
        ex.oblige(s, "a message belongs to the assumption named before it", s.store[G("N")] == p + 1, "print")
        WHAT = {"needed": ("the specification without the assumption is unrealizable",), "more": ("the specification without it is realizable", "fewer positions are winning without it"),
                "redundant": ("the specification without it is realizable", "no fewer positions are winning without it", "the other safety assumptions imply it"),
                "other": ("the specification without it is realizable", "no fewer positions are winning without it", "it is not a safety assumption implied by the others")}
        for w, g in zip(WHAT[c], self.cls(c, p)): ex.oblige(s, "reported as '%s' only if %s" % (c, w), g, "print")
        s.store[G("M")] = p + 1; s.ghost["mode"] = None; return [s]
    def value(self, ex, s, v):
        G = lambda n: ("G", n); m = s.ghost["mode"]
        if m == ("quote",) and isinstance(v, StrV) and v.t is not None:
            p = s.store[G("N")]
            ex.oblige(s, "an assumption is named after the previous one has been classified", z3.And(p == s.store[G("M")], p < self.tot), "print")
            ex.oblige(s, "assumptions are reported in order and under their own names", z3.And(z3.Implies(p < self.nS, v.t == self.nmS[p]), z3.Implies(p >= self.nS, v.t == self.nmL[p - self.nS])), "print")
            s.store[G("N")] = p + 1; s.ghost["mode"] = ("named",); return [s]
        if m is not None and m[0] == "msg" and z3.is_expr(v): return [s]
        raise Unsupported("printed value in %s" % (m,))
    # ---- the games
    def same(self, b, fn):
        x = self.flat(); return FA(x, b.at(x) == fn(x))
    def game_contract(self):
        def res(ex, st): return BFV(self, t=fresh("win", self.B), dep=frozenset([0, 1]))
        def unchanged(v):
            g = v.fld("livenessGuarantees"); k = z3.Int("k%d" % next(CNT))
            return [("the guarantees are those of the specification", z3.And(self.same(v.fld("safetySys"), lambda x: self.holds(self.S, *x)), g.size == self.nG, FA([k], z3.Implies(z3.And(0 <= k, k < self.nG), g.cols[0][k] == self.G[k])))),
                    ("there is a liveness assumption", v.st.store[LA].size >= 1)]
        def post(v, old, r):
            la, p = v.st.store[LA], v.st.store[("G", "M")]; k = z3.Int("k%d" % next(CNT)); q = p - self.nS; e = v.st.store[SE]; x = self.flat(); c = la.cols[0]
            E = self.same(e, lambda x: self.holds(self.E, *x))
            L = z3.And(la.size == self.nL, FA([k], z3.Implies(z3.And(0 <= k, k < self.nL), c[k] == self.A[k])))
            LX = z3.Or(z3.And(self.nL > 1, la.size == self.nL - 1, FA([k], z3.Implies(z3.And(0 <= k, k < self.nL - 1), c[k] == self.A[z3.If(k < q, k, k + 1)]))),
                       z3.And(self.nL == 1, la.size == 1, FA(x, self.holds(c[0], *x))))
            is_ = lambda t: FA(x, self.holds(r.t, *x) == self.holds(t, *x), patterns=[self.holds(r.t, *x), self.holds(t, *x)])
            return [("", FA(x, self.holds(r.t, *x) == self.p(r.t, x[0], x[1]), patterns=[self.holds(r.t, *x)])), ("", z3.Implies(z3.And(E, L), is_(self.W))),
                    ("", z3.Implies(z3.And(0 <= p, p < self.nS, L, self.same(e, lambda x: self.holds(self.EX(p, self.nS), *x))), is_(self.WX(p)))),
                    ("", z3.Implies(z3.And(self.nS <= p, p < self.tot, E, LX), is_(self.WX(p))))]
        return Contract(pre=unchanged, post=post, result=res, outs=(0,))
def loops(th):
    def spec(ex, info, st, h):
        mods = info["modified"]; rd = lambda v, l: v.st.store[l]; g = lambda n: ("G", n); out = []
        names = {l: n for fr in h.names for n, l in fr.items()}
        ints = [l for l in mods if isinstance(h.store.get(l), z3.ExprRef) and z3.is_int(h.store[l]) and l in names]
        if g("M") in mods and len(ints) == 1:                       # one assumption per iteration
            i = ints[0]; live = LA in mods; n, base = (th.nL, th.nS) if live else (th.nS, z3.IntVal(0))
            out += [("one report per assumption", lambda v, e: z3.And(0 <= rd(v, i), rd(v, i) <= n, rd(v, g("M")) == base + rd(v, i), rd(v, g("N")) == rd(v, g("M")))),
                    ("output is between two reports", lambda v, e: z3.BoolVal(v.st.ghost["mode"] is None))]
            if live: out.append(("size", lambda v, e: rd(v, LA).size >= 0))
        elif (SE in mods or LA in mods) and g("M") not in mods and len(ints) == 1:
            j = ints[0]; x = th.flat(); p = h.store[g("M")]
            if SE in mods:
                out += [("range", lambda v, e: z3.And(0 <= rd(v, j), rd(v, j) <= th.nS)), ("the parts so far except the one left out", lambda v, e: th.same(rd(v, SE), lambda x: th.holds(th.EX(p, rd(v, j)), *x)))]
            if LA in mods:
                k = z3.Int("k%d" % next(CNT)); q = p - th.nS; m = lambda v: z3.If(rd(v, j) > q, rd(v, j) - 1, rd(v, j))
                out += [("range", lambda v, e: z3.And(0 <= rd(v, j), rd(v, j) <= th.nL)), ("number of assumptions kept", lambda v, e: rd(v, LA).size == m(v)),
                        ("the assumptions so far except the one left out", lambda v, e: FA([k], z3.Implies(z3.And(0 <= k, k < m(v)), rd(v, LA).cols[0][k] == th.A[z3.If(k < q, k, k + 1)]), patterns=[rd(v, LA).cols[0][k]]))]
        else: out.append(("output is at the same place", lambda v, e: z3.BoolVal(v.st.ghost["mode"] == e.st.ghost["mode"])))
        for l in ints:
            if not out or out[0][0].startswith("output"): out.append(("counter %s" % l[1] if False else "counter%d" % ints.index(l), lambda v, e, l=l: rd(v, l) >= rd(e, l)))
        return out
    return spec
def post(v, old, res):
    th = v.th; s = v.st.store; R, N, M = (s[("G", n)] for n in "RNM")
    return [("a realizable specification is reported as such", R == z3.If(th.real(th.W), 1, 2)),
            ("every assumption is reported, every report is complete", z3.And(z3.BoolVal(v.st.ghost["mode"] is None), z3.Implies(R == 1, z3.And(N == th.tot, M == th.tot)), z3.Implies(R != 1, N == 0)))]
def tracked(th, o):
    """bounds obligations of the tables that only enter the details of a message are left to the bounded check"""
    if o.kind != "bounds": return True
    fixed = (th.nS, th.nL)
    def rec(e): return any(e.eq(c) for c in fixed) or any(rec(c) for c in e.children())
    return rec(o.goal)

"""C09: contracts of the input parser: parseBooleanFormulaRecurse, parseBooleanFormula and the init functions.

One coordinate: a valuation of all variables.  A line is a sequence of tokens (tok, ntok); specification functions, defined by axioms:
  wf(p,M)  a formula starts at token p when the elements of M are stored in the innermost buffer
  nx(p,M)  the token after it        F(p,M)  its denotation
  start(p,i), mem(p,i)  for a buffer opened by '$' at token p: where its element i starts, and what is stored then
A file is a sequence of lines; the specification functions of FileTheory say for every line which section it is in, how many
variables have been declared before it and what it contributes."""
import ast as pyast, re
from gr1 import *
CNT = itertools.count()
def iv(n="k"): return z3.Int("%s%d" % (n, next(CNT)))
class StrTheory(Theory):
    def __init__(self):
        super().__init__([("v", "V", "None")]); self.Str = z3.DeclareSort("Str"); self.lits = {}
        S, I, Bo = self.Str, z3.IntSort(), z3.BoolSort(); F = z3.Function
        self.len = F("strlength", S, I); self.ch = F("ch", S, I, I); self.trim = F("trim", S, S); self.sub = F("substr", S, I, I, S); self.cat = F("joined", S, S, S)
        self.Set = z3.ArraySort(I, Bo)
        self.lit("")
    def lit(self, s):
        if s not in self.lits: self.lits[s] = z3.Const("lit_" + re.sub(r"[^A-Za-z0-9]", lambda m: "_%x_" % ord(m.group()), s), self.Str)
        return self.lits[s]
    def str_term(self, v):
        if v.t is None:
            if v.s is None: v.t = fresh("str", self.Str)
            else: v.t = self.lit(pyast.literal_eval(v.s) if v.s[:1] == '"' else v.s)
        return v.t
    def enum_const(self, name):
        self.enums = getattr(self, "enums", {}); return z3.IntVal(self.enums.setdefault(name, len(self.enums)))
    def tset(self, names):
        a = z3.K(z3.IntSort(), z3.BoolVal(False))
        for n in names: a = z3.Store(a, self.enum_const(n), z3.BoolVal(True))
        return a
    def axioms(self):
        ls = list(self.lits.values()); s = z3.Const("s", self.Str)
        ax = [z3.Distinct(*ls)] if len(ls) > 1 else []
        for t, c in self.lits.items():
            ax.append(self.len(c) == len(t))
            if t: ax.append(self.ch(c, 0) == ord(t[0]))
        return super().axioms() + ax + [FA([s], z3.And(self.len(s) >= 0, (self.len(s) == 0) == (s == self.lits[""])), patterns=[self.len(s)])]
    def is_stream(self, ty): return ty[0] == "struct" and "stringstream" in ty[1] or ty[0] == "struct" and "istringstream" in ty[1]
    # ---- values
    def construct(self, ex, st, ty, args, e):
        if ty[0] == "struct" and "istringstream" in ty[1].replace("basic_", "").replace("<char>", "") and len(args) >= 1:
            return [(s, StructV("istream", {"text": v, "pos": z3.IntVal(0), "fail": z3.BoolVal(False)})) for s, v in ex.ev(args[0], st)]
        if ty[0] == "struct" and ("ostringstream" in ty[1] or ty[1] == "SlugsException"): return [(st, OpaqueV("message"))]
        if ty[0] == "struct" and "ifstream" in ty[1]: return [(st, StructV("ifstream", {"started": z3.BoolVal(False)}))]
        if ty[0] == "set":
            if ty[1] == ("int",):
                a = z3.K(z3.IntSort(), z3.BoolVal(False))
                for n in (x for g in args for x in walk(g)):
                    if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["kind"] == "EnumConstantDecl": a = z3.Store(a, self.enum_const(n["referencedDecl"]["name"]), z3.BoolVal(True))
                return [(st, StructV("typeset", {"a": a}))]
            if ty[1] == ("str",) and len(args) == 2:
                out = []
                for s, (b, e2) in ex.evs(args, st):
                    if not (isinstance(b, IterV) and isinstance(e2, IterV) and b.lv == e2.lv): raise Unsupported("set of strings")
                    v = ex.read(s, b.lv); s = s.copy(); n = fresh("setsize", z3.IntSort())
                    ex.oblige(s, "the set is built from the whole vector", z3.And(b.idx == 0, e2.idx == v.size), "range")
                    s.pc += [n >= 0, n <= v.size, (n == v.size) == self.distinct(v.cols[0], v.size)]
                    out.append((s, StructV("strset", {"n": n})))
                return out
        if ty[0] == "str" and len(args) == 0: return [(st, StrV("", None))]
        return None
    def distinct(self, col, n):
        i, j = iv(), iv(); return FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), col[i] != col[j]), patterns=[z3.MultiPattern(col[i], col[j])])
    def operator(self, ex, s, op, vs, e):
        if all(isinstance(x, StrV) for x in vs) and len(vs) == 2:
            a, b = (self.str_term(x) for x in vs)
            if op in ("operator==", "operator!="): return [(s, a == b if op == "operator==" else a != b)]
            if op == "operator+": return [(s, StrV(None, self.cat(a, b)))]
    def lv_index(self, ex, s, l, v, i):
        if isinstance(v, StrV):
            ex.oblige(s, "character index in bounds", z3.And(0 <= i, i < self.len(self.str_term(v))), "bounds")
            loc = ("T", next(CNT)); s.store[loc] = self.ch(self.str_term(v), i); return (loc, ())
    def stream(self, ex, st, op, args):
        if op != "operator>>": return None
        out = []
        for s, l in ex.lv(args[0], st):
            v = ex.read(s, l)
            if not (isinstance(v, StructV) and v.cls == "istream"): raise Unsupported("operator>> on %s" % type(v).__name__)
            for s2, l2 in ex.lv(args[1], s):
                ty = parse_type(qt(args[1])); T = self.str_term(v.get("text")); p = v.get("pos"); good = z3.And(z3.Not(v.get("fail")), p < self.ntok(T))
                ok = good if ty[0] == "str" else z3.And(good, self.isnum(self.tok(T, p)))
                if ty[0] not in ("str", "int"): raise Unsupported("operator>> into " + qt(args[1]))
                a = s2.copy(); a.pc.append(ok); b = s2.copy(); b.pc.append(z3.Not(ok))
                ex.write(a, l2, StrV(None, self.tok(T, p)) if ty[0] == "str" else self.num(self.tok(T, p))); ex.write(a, l, v.set("pos", p + 1))
                if ty[0] != "str": ex.write(b, l2, fresh("garbage", z3.IntSort()))
                ex.write(b, l, v.set("fail", z3.BoolVal(True)))
                for x in (a, b): out.append((x, OpaqueV("istream")) if False else (x, StructV("streamref", {"lv": l})))
        return out
    def value_of_member(self, ex, st, base):
        try: return ex.lv(base, st)
        except Unsupported: return None
    def member_call(self, ex, st, name, base, args, e):
        r = self.call_by_name(ex, st, name, args)
        if r is not None: return r
        if base is None or ex.is_this(base): return None
        ty = parse_type(qt(base)); out = []
        if name in ("operator bool", "operator!") :
            rr = []
            for s, v in ex.ev(base, st):
                if isinstance(v, StructV) and v.cls == "streamref": v = z3.Not(ex.read(s, v.get("lv")).get("fail"))
                if isinstance(v, StructV) and v.cls == "istream": v = z3.Not(v.get("fail"))
                if not (isinstance(v, z3.ExprRef) and z3.is_bool(v)): raise Unsupported("stream condition")
                rr.append((s, v if name == "operator bool" else z3.Not(v)))
            return rr
        if ty[0] in ("set",) or (ty[0] == "struct" and re.search("stream|basic_ios", ty[1])):
            for s, l in ex.lv(base, st):
                v = ex.read(s, l)
                if isinstance(v, StructV) and v.cls == "streamref": l = v.get("lv"); v = ex.read(s, l)
                if not isinstance(v, StructV):
                    if isinstance(v, OpaqueV) and name == "str": out.append((s, StrV())); continue
                    raise Unsupported("%s of %s" % (name, qt(base)))
                if v.cls == "istream" and name == "fail": out.append((s, v.get("fail"))); continue
                if v.cls == "istream" and name == "good": out.append((s, z3.Not(v.get("fail")))); continue
                if v.cls == "ifstream" and name in ("fail", "is_open"):
                    o = self.file_fail(ex, s, v); out.append((s, o if name == "fail" else z3.Not(o))); continue
                if v.cls == "ifstream" and name == "bad": out.append((s, self.BAD)); continue
                if v.cls == "ifstream" and name == "close": out.append((s, None)); continue
                if v.cls == "strset" and name == "size": out.append((s, v.get("n"))); continue
                if v.cls == "typeset" and name in ("insert", "count", "erase"):
                    for s2, (x,) in ex.evs(args, s):
                        if name == "count": out.append((s2, z3.If(v.get("a")[x], z3.IntVal(1), z3.IntVal(0))))
                        else: s2 = s2.copy(); ex.write(s2, l, v.set("a", z3.Store(v.get("a"), x, z3.BoolVal(name == "insert")))); out.append((s2, None))
                    continue
                raise Unsupported("%s of %s" % (name, v.cls))
            return out
    def call_by_name(self, ex, st, name, args): return None
    def obj_call(self, ex, s, name, v, l, args, e):
        if isinstance(v, StrV):
            t = self.str_term(v)
            if name in ("length", "size"): return [(s, self.len(t))]
            if name == "empty": return [(s, self.len(t) == 0)]
            if name == "c_str": return [(s, v)]
            if name == "clear": s = s.copy(); ex.write(s, l, StrV("", None)); return [(s, None)]
            if name == "substr":
                args = [a for a in args]
                r = []
                for s2, vs in ex.evs(args, s): r.append((s2, StrV(None, self.sub(t, vs[0], vs[1] if len(vs) > 1 else self.NPOS))))
                return r
            if name == "at" or name == "front":
                return [(s2, self.ch(t, vs[0] if vs else z3.IntVal(0))) for s2, vs in ex.evs(args, s)]
        if isinstance(v, OpaqueV) and name in ("str", "getMessage"): return [(s, StrV())]
    NPOS = z3.Int("npos")
    def global_var(self, ex, st, rd):
        if rd.get("name") == "npos": return self.NPOS
    def havoc_like(self, ex, v, name): return Theory.havoc_like(self, ex, v, name)
    def setup_vars(self, st, n, vars_, types, names):
        F = lambda x: ("F", x); st.store[F("variables")] = VecV(("BF",), n, [vars_]); st.store[F("variableTypes")] = VecV(("int",), n, [types]); st.store[F("variableNames")] = VecV(("str",), n, [names])
class LineTheory(StrTheory):
    """one line T, the allowed types A, the table of variables; rec: name of the recursive function"""
    rec = "parseBooleanFormulaRecurse"
    def __init__(self, top):
        super().__init__(); S, I, Bo, B = self.Str, z3.IntSort(), z3.BoolSort(), self.B; F = z3.Function; self.top = top
        self.ntok = F("ntok", S, I); self.tok = F("tok", S, I, S); self.isnum = F("isnum", S, Bo); self.num = F("num", S, I)
        self.M = z3.DeclareSort("Mem"); M = self.M
        self.msize = F("msize", M, I); self.mval = F("mval", M, I, B)
        self.wf = F("wf", I, M, Bo); self.nx = F("nx", I, M, I); self.F = F("F", I, M, B); self.start = F("start", I, I, I); self.mem = F("mem", I, I, M)
        self.T = z3.Const("T", S); self.A = z3.Const("A", self.Set); self.N = z3.Int("N"); self.agree = F("agree", self.sorts["V"], self.sorts["V"], Bo)
        self.vars = z3.Array("variables", I, B); self.types = z3.Array("variableTypes", I, I); self.names = z3.Array("variableNames", I, S)
        self.M0 = z3.Const("M0", M); self.p0 = z3.Int("p0"); self.empty = z3.Const("noBuffer", M); self.PLAIN = ["|", "^", "&", "!", "1", "0", "$", "?"]
        for s in self.PLAIN: self.lit(s)
        self.memloc = None
        self.isvar = F("namedby", S, I, Bo)
    def tk(self, p): return self.tok(self.T, p)
    def inline_text(self): pass
    def axioms(self):
        p, i, k = z3.Ints("p i k"); M = z3.Const("M", self.M); x = self.flat(); h = self.holds; L = self.lit; nt = self.ntok(self.T); t = self.tk(p); s = z3.Const("s", self.Str)
        wf, nx, F_ = self.wf, self.nx, self.F
        op2 = lambda c: t == L(c); q = nx(p + 1, M); n = self.num(self.tk(p + 1)); elems = FA([i], z3.Implies(z3.And(0 <= i, i < n), wf(self.start(p, i), self.mem(p, i))), patterns=[self.mem(p, i)])
        isv = z3.And(*[t != L(c) for c in self.PLAIN])
        binop = z3.Or(op2("|"), op2("^"), op2("&"))
        def first(body): return EX([k], z3.And(0 <= k, k < self.N, self.names[k] == t, body))
        buf = z3.And(p + 1 < nt, self.isnum(self.tk(p + 1)))
        wfdef = z3.And(p < nt, z3.If(binop, z3.And(wf(p + 1, M), wf(q, M)), z3.If(op2("!"), wf(p + 1, M), z3.If(z3.Or(op2("1"), op2("0")), z3.BoolVal(True),
                 z3.If(op2("$"), z3.And(buf, n > 0, elems), z3.If(op2("?"), z3.And(buf, n < self.msize(M)), first(self.A[self.types[k]])))))))
        nxdef = z3.If(binop, nx(q, M), z3.If(op2("!"), q, z3.If(z3.Or(op2("1"), op2("0")), p + 1, z3.If(op2("$"), self.start(p, n), z3.If(op2("?"), p + 2, p + 1)))))
        a, b = h(F_(p + 1, M), *x), h(F_(q, M), *x)
        den = z3.If(op2("|"), z3.Or(a, b), z3.If(op2("^"), z3.Xor(a, b), z3.If(op2("&"), z3.And(a, b), z3.If(op2("!"), z3.Not(a), z3.If(op2("1"), z3.BoolVal(True), z3.If(op2("0"), z3.BoolVal(False),
              z3.If(op2("$"), h(F_(self.start(p, n - 1), self.mem(p, n - 1)), *x), h(self.mval(M, n), *x))))))))
        ax = [FA([p, M], wf(p, M) == wfdef, patterns=[wf(p, M)]),
              FA([p, M], z3.Implies(wf(p, M), nx(p, M) == nxdef), patterns=[nx(p, M)]),
              FA([p, M] + list(x), z3.Implies(z3.And(wf(p, M), z3.Not(isv)), h(F_(p, M), *x) == den), patterns=[h(F_(p, M), *x)]),
              FA([p, M, k] + list(x), z3.Implies(z3.And(wf(p, M), isv, 0 <= k, k < self.N, self.names[k] == t), h(F_(p, M), *x) == h(self.vars[k], *x)), patterns=[z3.MultiPattern(h(F_(p, M), *x), self.names[k])]),
              FA([p], self.start(p, 0) == p + 2, patterns=[self.start(p, 0)]),
              FA([p, i], z3.Implies(i >= 0, self.start(p, i + 1) == nx(self.start(p, i), self.mem(p, i))), patterns=[nx(self.start(p, i), self.mem(p, i))]),
              FA([p, i], z3.Implies(i >= 0, self.msize(self.mem(p, i)) == i), patterns=[self.mem(p, i)]),
              FA([p, i, k], z3.Implies(z3.And(0 <= k, k < i), self.mval(self.mem(p, i), k) == F_(self.start(p, k), self.mem(p, k))), patterns=[self.mval(self.mem(p, i), k)]),
              self.msize(self.empty) == 0, FA([M], self.msize(M) >= 0, patterns=[self.msize(M)]),
              FA([s], self.num(s) >= 0, patterns=[self.num(s)]), FA([p], z3.Implies(z3.And(0 <= p, p < nt), t != L("")), patterns=[t]), nt >= 0]
        v, w = z3.Consts("v w", self.sorts["V"])
        ax.append(FA([v, w, k], z3.Implies(z3.And(self.agree(v, w), 0 <= k, k < self.N, self.A[self.types[k]]), h(self.vars[k], v) == h(self.vars[k], w)), patterns=[z3.MultiPattern(self.agree(v, w), h(self.vars[k], v))]))
        return StrTheory.axioms(self) + ax
    def scoped(self, b):
        """b only depends on variables of the allowed types"""
        v, w = z3.Consts("v%d w%d" % (next(CNT), next(CNT)), self.sorts["V"]); return FA([v, w], z3.Implies(self.agree(v, w), b.at([v]) == b.at([w])), patterns=[self.agree(v, w)])
    def same(self, b, t):
        x = self.flat(); return FA(x, b.at(x) == self.holds(t, *x))
    def repr_(self, v, M):
        """the vector of Boolean functions v represents the buffer M"""
        k = iv(); x = self.flat(); c = v.cols[0]
        return z3.And(v.size == self.msize(M), FA([k] + list(x), z3.Implies(z3.And(0 <= k, k < v.size), self.holds(c[k], *x) == self.holds(self.mval(M, k), *x)), patterns=[self.holds(c[k], *x)]),
                      FA([k], z3.Implies(z3.And(0 <= k, k < v.size), self.scoped(BFV(self, t=c[k]))), patterns=[c[k]]))
    def call_by_name(self, ex, st, name, args):
        if name != self.rec: return None
        out = []
        for s, ls in self.lvs(ex, args, st):
            iss, al, me = (ex.read(s, l) for l in ls); s = s.copy()
            if not (isinstance(iss, StructV) and iss.cls == "istream" and isinstance(al, StructV) and al.cls == "typeset" and isinstance(me, VecV)): raise Unsupported("arguments of the recursive call")
            if self.top: M = self.empty
            elif ls[2] == self.memloc: M = self.M0
            else: M = self.mem(self.p0, me.size)
            p = iss.get("pos")
            ex.oblige(s, "the recursive call continues the same line", z3.And(self.str_term(iss.get("text")) == self.T, z3.Not(iss.get("fail")), p >= 0), "pre")
            ex.oblige(s, "the recursive call keeps the allowed types", al.get("a") == self.A, "pre")
            ex.oblige(s, "the buffer passed to the recursive call is the innermost buffer with what has been stored so far", self.repr_(me, M), "pre")
            ok = z3.And(self.wf(0, self.empty), self.nx(0, self.empty) == self.ntok(self.T)) if self.top else self.wf(self.p0, self.M0)
            ex.oblige(s, "a rejected sub-formula makes the formula ill-formed", z3.Implies(ok, self.wf(p, M)), "throw")
            s.pc += [self.wf(p, M), self.nx(p, M) > p, self.nx(p, M) <= self.ntok(self.T)]
            r = BFV(self, t=fresh("parsed", self.B)); s.pc += [self.same(r, self.F(p, M)), self.scoped(r)]
            ex.write(s, ls[0], iss.set("pos", self.nx(p, M)))
            ex.functions.add("contract:" + self.rec); out.append((s, r))
        return out
    def lvs(self, ex, args, st):
        res = [(st, [])]
        for a in args: res = [(s2, ls + [l]) for s, ls in res for s2, l in ex.lv(a, s)]
        return res
    def call(self, ex, st, name, args, e):
        r = self.call_by_name(ex, st, name, args)
        return r if r is not None else Theory.call(self, ex, st, name, args, e)
class AnyOrder(Executor):
    """the order in which the operands of an overloaded binary operator are evaluated is unspecified: both orders are explored"""
    def ev_CXXOperatorCallExpr(self, e, st):
        op = self.opname(e); args = kids(e)[1:]
        out = super().ev_CXXOperatorCallExpr(e, st)
        if len(args) == 2 and op in ("operator&", "operator|", "operator^", "operator-", "operator<=", "operator>=", "operator==", "operator!=", "operator<") and all(any(n.get("kind") in ("CXXMemberCallExpr", "CallExpr") for n in walk(a)) for a in args):
            for s, (b, a) in self.evs([args[1], args[0]], st): out += self.operator(s, op, [a, b], e)
        return out
def line_loops(th):
    def spec(ex, info, st, h):
        out = []; mods = info["modified"]; names = {l: n for fr in h.names for n, l in fr.items()}; rd = lambda v, l: v.st.store[l]
        ints = [l for l in mods if isinstance(h.store.get(l), z3.ExprRef) and z3.is_int(h.store[l]) and l in names]; vecs = [l for l in mods if isinstance(h.store.get(l), VecV) and h.store[l].et == ("BF",)]
        sts = [l for l in mods if isinstance(h.store.get(l), StructV) and h.store[l].cls == "istream"]; its = [l for l in mods if isinstance(h.store.get(l), IterV)]
        p0 = th.p0; n = th.num(th.tk(p0 + 1))
        if vecs and sts:
            V, I = vecs[0], sts[0]; k = iv(); x = th.flat()
            sz = lambda v: rd(v, V).size; el = lambda v: z3.Select(rd(v, V).cols[0], k); rng = lambda v: z3.And(0 <= k, k < sz(v))
            out += [("number of elements", lambda v, e: z3.And(0 <= sz(v), sz(v) <= n)),
                    ("place in the line", lambda v, e: z3.And(rd(v, I).get("pos") == th.start(p0, sz(v)), rd(v, I).get("pos") > p0, rd(v, I).get("pos") <= th.ntok(th.T), z3.Not(rd(v, I).get("fail")))),
                    ("same line", lambda v, e: th.str_term(rd(v, I).get("text")) == th.T),
                    ("elements so far are well-formed", lambda v, e: FA([k], z3.Implies(rng(v), th.wf(th.start(p0, k), th.mem(p0, k))), patterns=[th.mem(p0, k)])),
                    ("stored elements", lambda v, e: FA([k] + list(x), z3.Implies(rng(v), th.holds(el(v), *x) == th.holds(th.F(th.start(p0, k), th.mem(p0, k)), *x)), patterns=[th.holds(el(v), *x)])),
                    ("stored elements respect the allowed types", lambda v, e: FA([k], z3.Implies(rng(v), th.scoped(BFV(th, t=el(v)))), patterns=[el(v)]))]
            for l in ints: out.append(("counter " + names[l], lambda v, e, l=l: rd(v, l) == sz(v)))
        elif not vecs and not sts and (ints or its):
            k = iv()
            for l in ints + its:
                ix = lambda v, l=l: rd(v, l).idx if isinstance(rd(v, l), IterV) else rd(v, l)
                out += [("range " + names[l], lambda v, e, ix=ix: z3.And(0 <= ix(v), ix(v) <= th.N)), ("variables seen have other names", lambda v, e, ix=ix: FA([k], z3.Implies(z3.And(0 <= k, k < ix(v)), th.names[k] != th.tk(p0)), patterns=[th.names[k]]))]
        return out
    return spec
TUF = lambda: TU(path="src/synthesisContextBasics.cpp")
A_TOK = "std::istringstream splits a line into white-space separated tokens; a token that starts with a digit where a number is expected is a number as a whole"
def run_line(top):
    th = LineTheory(top); ex = AnyOrder(th, TUF(), ["GR1Context"], loops=line_loops(th)); th.ex = ex
    def init(ex, st):
        th.setup_vars(st, th.N, th.vars, th.types, th.names); st.pc += [th.N >= 0, th.distinct(th.names, th.N)]
    th.init_state = init; aset = StructV("typeset", {"a": th.A})
    if top:
        post = lambda v, old, r: [("the line is accepted only if it is one formula", z3.And(th.wf(0, th.empty), th.nx(0, th.empty) == th.ntok(th.T))), ("the result is the denotation of the formula", th.same(r, th.F(0, th.empty))), ("the result depends on variables of the allowed types only", th.scoped(r))]
        ex.verify("parseBooleanFormula", Contract(post=post), args={"currentLine": StrV(None, th.T), "allowedTypes": aset}); bad = z3.Not(z3.And(th.wf(0, th.empty), th.nx(0, th.empty) == th.ntok(th.T)))
    else:
        ps = [p["name"] for p in params(ex.find_method(None, th.rec)[1])]
        c, m = ex.find_method(None, th.rec)
        vec = ex.fresh_value(("vec", ("BF",)), "memory"); iss = StructV("istream", {"text": StrV(None, th.T), "pos": th.p0, "fail": z3.BoolVal(False)})
        vals = {}; 
        for p in params(m):
            t = qt(p); vals[p["name"]] = aset if "set<" in t else (vec if "vector<" in t else iss)
            if "vector<" in t: th.memloc = (p["id"], ())
        pre = lambda v: [("", th.p0 >= 0), ("", th.repr_(vec, th.M0))]
        def post(v, old, r):
            loc = [p["id"] for p in params(m) if "stream" in qt(p)][0]; s = v.st.store[loc]
            return [("the text is accepted only if a formula starts here", th.wf(th.p0, th.M0)), ("the result is the denotation of the formula", th.same(r, th.F(th.p0, th.M0))), ("exactly the tokens of the formula are read", z3.And(s.get("pos") == th.nx(th.p0, th.M0), z3.Not(s.get("fail")))),
                    ("the place in the line advances and stays in the line", z3.And(th.nx(th.p0, th.M0) > th.p0, th.nx(th.p0, th.M0) <= th.ntok(th.T))), ("the result depends on variables of the allowed types only", th.scoped(r))]
        ex.verify(th.rec, Contract(pre=pre, post=post), args=vals); bad = z3.Not(th.wf(th.p0, th.M0))
    for s, node in ex.throws: ex.oblige(s, "an error is reported only for an ill-formed line", bad, "throw")
    return th, ex

# ------------------------------------------------------------------ whole files
STD_H = {"[INPUT]": "in", "[OUTPUT]": "out", "[ENV_INIT]": "ei", "[SYS_INIT]": "si", "[ENV_TRANS]": "et", "[SYS_TRANS]": "st", "[ENV_LIVENESS]": "el", "[SYS_LIVENESS]": "sl"}
def sections(pre_out, post_out):
    pi, qi = ("PreInput",), ("PostInput",); allv = pi + pre_out + qi + post_out
    return {"ei": (pi, [("and", "initEnv")]), "si": (pi + pre_out, [("and", "initSys")]), "et": (pi + pre_out + qi, [("and", "safetyEnv")]), "st": (allv, [("and", "safetySys")]), "el": (allv, [("live", "livenessAssumptions")]), "sl": (allv, [("live", "livenessGuarantees")])}
STD = dict(headers=STD_H, vars={"in": ("PreInput", "PostInput"), "out": ("PreOutput", "PostOutput")}, secs=sections(("PreOutput",), ("PostOutput",)), names={})
IROS = dict(headers=dict({k: v for k, v in STD_H.items() if v != "out"}, **{"[OUTPUT_F]": "of", "[OUTPUT_S]": "os"}), vars={"in": ("PreInput", "PostInput"), "of": ("PreOutputFast", "PostOutputFast"), "os": ("PreOutputSlow", "PostOutputSlow")},
            secs=sections(("PreOutputFast", "PreOutputSlow"), ("PostOutputFast", "PostOutputSlow")), names={})
AA = dict(STD, secs=dict(STD["secs"], et=(STD["secs"]["et"][0], [("and", "safetyEnv"), ("push", "safetyEnvParts"), ("name", "safetyEnvPartNames")]), el=(STD["secs"]["el"][0], [("live", "livenessAssumptions"), ("name+", "livenessEnvPartNames")])), names=True)
class FileTheory(StrTheory):
    def __init__(self, cfg):
        super().__init__(); S, I, Bo, B = self.Str, z3.IntSort(), z3.BoolSort(), self.B; F = z3.Function; self.cfg = cfg
        self.line = F("line", I, S); self.NL = z3.Int("NL"); self.sec = F("section", I, I); self.nv = F("nvars", I, I); self.okl = F("lineok", I, Bo); self.pname = F("pname", I, S)
        self.cnt = {s: F("count_" + s, I, I) for s in cfg["secs"]}
        self.FL = F("FL", S, self.Set, I, B); self.OK = F("OK", S, self.Set, I, Bo); self.agree = F("agree", self.Set, self.sorts["V"], self.sorts["V"], Bo)
        self.NAME = z3.Array("NAME", I, S); self.TYPE = z3.Array("TYPE", I, I); self.VARB = z3.Array("VARB", I, B)
        self.OPEN, self.BAD, self.ACC, self.DALL = z3.Bools("fileopen filebad accepted distinctnames"); self.code = {s: i for i, s in enumerate(cfg["headers"].values())}
        self.none = -1; self.aset = {s: z3.Const("allowed_" + s, self.Set) for s in cfg["secs"]}
        for h in cfg["headers"]: self.lit(h)
        self.lit("'"); self.lit("##")
    def codes_from(self, fn):
        """the numbers the program uses for the sections (any distinct numbers do): the integer assigned in the branch that compares with the section's header"""
        got = {}
        for n in walk(fn):
            if n.get("kind") == "IfStmt":
                ks = kids(n); lits = [x["value"] for x in walk(ks[0]) if x.get("kind") == "StringLiteral"]
                if len(lits) == 1 and pyast.literal_eval(lits[0]) in self.cfg["headers"]:
                    for a in walk(ks[1]):
                        if a.get("kind") == "BinaryOperator" and a.get("opcode") == "=":
                            v = [x for x in walk(kids(a)[1]) if x.get("kind") == "IntegerLiteral"]
                            if v: got.setdefault(self.cfg["headers"][pyast.literal_eval(lits[0])], int(v[0]["value"]))
        if set(got) == set(self.code) and len(set(got.values())) == len(got): self.code = got
    def t(self, l): return self.trim(self.line(l))
    def isname(self, t): return self.sub(t, 0, 2) == self.lit("##") if self.cfg["names"] else z3.BoolVal(False)
    def plain(self, t): return z3.And(self.len(t) > 0, self.ch(t, 0) != 35)
    def hdr(self, t): return z3.And(self.plain(t), self.ch(t, 0) == 91)
    def content(self, t): return z3.And(self.plain(t), self.ch(t, 0) != 91)
    def inS(self, l, s): return z3.And(self.content(self.t(l)), self.sec(l) == self.code[s])
    def den(self, l, s): return self.FL(self.t(l), self.aset[s], self.nv(l))
    def axioms(self):
        l = z3.Int("l"); t = self.t(l); cfg = self.cfg; q = z3.Const("s", self.Str); C = self.code
        nsec = self.sec(l)
        for h, s in cfg["headers"].items(): nsec = z3.If(z3.And(self.hdr(t), t == self.lit(h)), z3.IntVal(C[s]), nsec)
        isv = z3.And(self.content(t), z3.Or(*[self.sec(l) == C[s] for s in cfg["vars"]]))
        d = [self.sec(l + 1) == nsec, self.nv(l + 1) == z3.If(isv, self.nv(l) + 2, self.nv(l))]
        for s in cfg["secs"]: d.append(self.cnt[s](l + 1) == z3.If(self.inS(l, s), self.cnt[s](l) + 1, self.cnt[s](l)))
        for s, (a, b) in cfg["vars"].items():
            n = self.nv(l); d.append(z3.Implies(self.inS(l, s), z3.And(self.NAME[n] == t, self.NAME[n + 1] == self.cat(t, self.lit("'")), self.TYPE[n] == self.enum_const(a), self.TYPE[n + 1] == self.enum_const(b))))
        if cfg["names"]: d.append(self.pname(l + 1) == z3.If(self.isname(t), self.trim(self.sub(t, 2, self.NPOS)), z3.If(self.content(t), self.lit(""), self.pname(l))))
        d.append(self.okl(l) == z3.Or(z3.Not(self.plain(t)), z3.And(self.hdr(t), z3.Or(*[t == self.lit(h) for h in cfg["headers"]])), isv, *[z3.And(self.inS(l, s), self.OK(t, self.aset[s], self.nv(l))) for s in cfg["secs"]]))
        ax = [FA([l], z3.Implies(z3.And(0 <= l, l < self.NL), z3.And(*d)), patterns=[self.line(l)]), self.sec(0) == self.none, self.nv(0) == 0, self.NL >= 0]
        # consequences by induction on l of the definitions above (the induction steps are obligations)
        ax += [FA([l], z3.Implies(z3.And(0 <= l, l <= self.NL), z3.And(0 <= self.nv(l), self.nv(l) <= self.nv(self.NL))), patterns=[self.nv(l)])]
        for s in cfg["secs"]: ax += [self.cnt[s](0) == 0, FA([l], z3.Implies(z3.And(0 <= l, l <= self.NL), 0 <= self.cnt[s](l)), patterns=[self.cnt[s](l)])]
        if cfg["names"]: ax += [self.pname(0) == self.lit(""), FA([q], z3.Implies(self.sub(q, 0, 2) == self.lit("##"), z3.And(self.len(q) >= 2, self.ch(q, 0) == 35)), patterns=[self.sub(q, 0, 2)])]
        ax += [self.aset[s] == self.tset(cfg["secs"][s][0]) for s in cfg["secs"]]
        ax += [self.DALL == self.distinct(self.NAME, self.nv(self.NL)), self.ACC == z3.And(self.OPEN, z3.Not(self.BAD), self.DALL, FA([l], z3.Implies(z3.And(0 <= l, l < self.NL), self.okl(l)), patterns=[self.okl(l)], qid="acc"))]
        ax.append(FA([l], z3.Implies(z3.And(self.ACC, 0 <= l, l < self.NL), self.okl(l)), patterns=[self.line(l)]))
        v, w = z3.Consts("v w", self.sorts["V"]); A = z3.Const("A", self.Set); n = z3.Int("n")
        ax.append(FA([q, A, n, v, w], z3.Implies(z3.And(self.agree(A, v, w), self.OK(q, A, n)), self.holds(self.FL(q, A, n), v) == self.holds(self.FL(q, A, n), w)), patterns=[z3.MultiPattern(self.agree(A, v, w), self.holds(self.FL(q, A, n), v))]))
        return StrTheory.axioms(self) + ax
    def lemmas(self, ex):
        st = State(); ex.curfn = "lemma"; l = z3.Int("lq"); d = lambda: None
        st.pc = [0 <= l, l < self.NL, self.line(l) == self.line(l)]
        base = [a for a in []]
        ex.oblige(st, "lemma: the number of variables does not decrease", z3.Or(self.nv(l + 1) == self.nv(l), self.nv(l + 1) == self.nv(l) + 2), "lemma")
        for s in self.cnt: ex.oblige(st, "lemma: counts do not decrease (%s)" % s, z3.Or(self.cnt[s](l + 1) == self.cnt[s](l), self.cnt[s](l + 1) == self.cnt[s](l) + 1), "lemma")
    def table(self, v):
        """the variables declared so far: size n, contents as the specification says"""
        k = iv(); x = self.flat(); va, na, ty = v.fld("variables"), v.fld("variableNames"), v.fld("variableTypes"); n = self.nv(v.st.store[("G", "ln")])
        rng = z3.And(0 <= k, k < n)
        return [("number of variables", z3.And(va.size == n, na.size == n, ty.size == n)), ("names", FA([k], z3.Implies(rng, na.cols[0][k] == self.NAME[k]), patterns=[na.cols[0][k], self.NAME[k]])),
                ("types", FA([k], z3.Implies(rng, ty.cols[0][k] == self.TYPE[k]), patterns=[ty.cols[0][k]])), ("variables", FA([k], z3.Implies(rng, va.cols[0][k] == self.VARB[k]), patterns=[va.cols[0][k]]))]
    def call_by_name(self, ex, st, name, args):
        if name != "parseBooleanFormula": return None
        out = []
        for s, tx in ex.ev(args[0], st):
            for s2, al in ex.lv(args[1], s):
                s2 = s2.copy(); T = self.str_term(tx); a = ex.read(s2, al)
                if not (isinstance(a, StructV) and a.cls == "typeset"): raise Unsupported("allowed types")
                A = a.get("a"); vw = View(ex, s2); n = vw.fld("variables").size
                for nm, g in self.table(vw): ex.oblige(s2, "precondition of parseBooleanFormula: " + nm, g, "pre")
                ex.oblige(s2, "precondition of parseBooleanFormula: names declared so far are distinct if all are", z3.Implies(self.DALL, self.distinct(vw.fld("variableNames").cols[0], n)), "pre")
                # the allowed types are those of some section: its name is used instead of the expression
                ex.oblige(s2, "a line that is rejected makes the file invalid", z3.Implies(self.ACC, self.OK(T, A, n)), "throw")
                r = BFV(self, t=fresh("parsed", self.B)); x = self.flat(); s2.pc += [z3.Implies(self.DALL, self.OK(T, A, n)), z3.Implies(self.DALL, FA(x, r.at(x) == self.holds(self.FL(T, A, n), *x)))]
                ex.functions.add("contract:parseBooleanFormula"); out.append((s2, r))
        return out
    def file_fail(self, ex, s, v):
        return z3.Not(self.OPEN) if z3.is_false(v.get("started")) else fresh("filestate", z3.BoolSort())
    def mgr_call(self, ex, st, name, args):
        if name == "newVariable":
            s = st.copy(); c = s.store[("G", "bdd")]; s.store[("G", "bdd")] = c + 1; return [(s, BFV(self, t=self.VARB[c]))]
    def call(self, ex, st, name, args, e):
        r = self.call_by_name(ex, st, name, args)
        if r is not None: return r
        if name == "getline":
            out = []
            for s, l in ex.lv(args[0], st):
                f = ex.read(s, l)
                if not (isinstance(f, StructV) and f.cls == "ifstream"): raise Unsupported("getline")
                for s2, l2 in ex.lv(args[1], s):
                    self.linevar = l2[0]
                    n = s2.store[("G", "ln")]; a = s2.copy(); a.pc += [n < self.NL]; a.store[("G", "ln")] = n + 1; ex.write(a, l2, StrV(None, self.line(n)))
                    b = s2.copy(); b.pc.append(n >= self.NL); ex.write(b, l2, StrV("", None))
                    out += [(a, z3.BoolVal(True)), (b, z3.BoolVal(False))]
            return out
        if name in ("trim", "trim_copy"):
            out = []
            for s, l in ex.lv(args[0], st):
                v = ex.read(s, l); nv = StrV(None, self.trim(self.str_term(v)))
                if name == "trim": s = s.copy(); ex.write(s, l, nv); out.append((s, None))
                else: out.append((s, nv))
            return out
        return Theory.call(self, ex, st, name, args, e)
    def vec_call(self, ex, s, name, v, l, vs):
        if name == "pop_front":
            s = s.copy(); ex.oblige(s, "pop_front on a non-empty list", v.size > 0, "bounds"); ex.write(s, l, VecV(v.et, v.size - 1, [fresh("popped", c.sort()) for c in v.cols])); return [(s, None)]
def conj(th, v, sec, f, n):
    """f = conjunction of the lines of the section before line n"""
    l = iv("l"); x = th.flat(); h = th.holds; rng = z3.And(0 <= l, l < n, th.inS(l, sec)); fx = h(f.t, *x) if f.t is not None else f.at(x); d = h(th.den(l, sec), *x)
    return z3.And(FA([l] + list(x), z3.Implies(z3.And(fx, rng), d), patterns=[z3.MultiPattern(fx, th.line(l)), d]), FA(x, z3.Implies(z3.Not(fx), EX([l], z3.And(rng, z3.Not(d)))), patterns=[fx]))
def listed(th, sec, vec, n):
    l = iv("l"); x = th.flat(); e = z3.Select(vec.cols[0], th.cnt[sec](l))
    return FA([l] + list(x), z3.Implies(z3.And(0 <= l, l < n, th.inS(l, sec)), z3.And(th.cnt[sec](l) < th.cnt[sec](n), th.holds(e, *x) == th.holds(th.den(l, sec), *x))), patterns=[th.holds(e, *x), z3.MultiPattern(th.line(l), th.holds(th.den(l, sec), *x))])
def named(th, sec, vec, n):
    l = iv("l"); e = z3.Select(vec.cols[0], th.cnt[sec](l)); return FA([l], z3.Implies(z3.And(0 <= l, l < n, th.inS(l, sec), th.len(th.pname(l)) > 0), z3.And(th.cnt[sec](l) < th.cnt[sec](n), e == th.pname(l))), patterns=[th.line(l)])
def facts(th, v, n):
    r = []
    for s, (al, tg) in th.cfg["secs"].items():
        for kd, f in tg:
            val = v.fld(f); g = lambda x: z3.Implies(th.DALL, x)
            if kd == "and": r.append((f + " is the conjunction of its lines", g(conj(th, v, s, val, n))))
            elif kd in ("live", "push"): r += [(f + ": number of entries", val.size == th.cnt[s](n)), (f + ": entries in the order of the lines", g(listed(th, s, val, n)))]
            else: r += [(f + ": number of names", val.size == th.cnt[s](n)), (f + ": names of the properties", named(th, s, val, n))]
    return r
def file_loops(th):
    def spec(ex, info, st, h):
        mods = info["modified"]; names = {l: n for fr in h.names for n, l in fr.items()}; rd = lambda v, l: v.st.store[l]; out = []
        if ("G", "ln") not in mods: return out
        ln = lambda v: v.st.store[("G", "ln")]; l = iv("l")
        ints = [x for x in mods if isinstance(h.store.get(x), z3.ExprRef) and z3.is_int(h.store[x]) and x in names and not isinstance(x, tuple)]; strs = [x for x in mods if isinstance(h.store.get(x), StrV) and x in names]
        out += [("line number", lambda v, e: z3.And(0 <= ln(v), ln(v) <= th.NL)), ("variables created", lambda v, e: v.st.store[("G", "bdd")] == th.nv(ln(v))),
                ("lines so far are valid", lambda v, e: z3.Implies(th.DALL, FA([l], z3.Implies(z3.And(0 <= l, l < ln(v)), th.okl(l)), patterns=[th.okl(l)])))]
        for i in ints: out.append(("section " + names[i], lambda v, e, i=i: rd(v, i) == th.sec(ln(v))))
        for k in range(4): out.append(("table %d" % k, lambda v, e, k=k: th.table(v)[k][1]))
        if th.cfg["names"]:
            for s_ in [q for q in strs if q != th.linevar]: out.append(("property name " + names[s_], lambda v, e, s_=s_: th.str_term(rd(v, s_)) == th.pname(ln(v))))
        n = len(facts(th, View(ex, h), th.NL))
        for k in range(n): out.append(("fact %d" % k, lambda v, e, k=k: facts(th, v, ln(v))[k][1]))
        return out
    return spec
def run_file(cfg, mk, chain):
    th = FileTheory(cfg); ex = AnyOrder(th, mk(), chain, loops=file_loops(th)); th.ex = ex
    c, m = ex.find_method(None, "init")
    if m is None: raise Unsupported("init not found")
    th.codes_from(m)
    def init(ex, st):
        th.setup_vars(st, z3.IntVal(0), fresh("v", z3.ArraySort(z3.IntSort(), th.B)), fresh("ty", z3.ArraySort(z3.IntSort(), z3.IntSort())), fresh("nm", z3.ArraySort(z3.IntSort(), th.Str)))
        st.store[("G", "ln")] = z3.IntVal(0); st.store[("G", "bdd")] = z3.IntVal(0)
        for s, (al, tg) in cfg["secs"].items():
            for kd, f in tg:
                if kd != "and": st.store[("F", f)] = ex.default_value(st, ("vec", ("BF",) if kd in ("live", "push") else ("str",)), f)
    th.init_state = init
    def post(v, old, r):
        out = [("only valid files are accepted", th.ACC), ("all lines have been read", v.st.store[("G", "ln")] == th.NL)] + [("variable table: " + n, g) for n, g in th.table(v)]
        for s, (al, tg) in cfg["secs"].items():
            A = th.aset[s]; V1, V2 = z3.Consts("v%d w%d" % (next(CNT), next(CNT)), th.sorts["V"]); l = iv("l"); x = th.flat()
            for kd, f in tg:
                val = v.fld(f); c = th.cnt[s](th.NL)
                if kd == "and":
                    out += [(f + " is the conjunction of its lines", conj(th, v, s, val, th.NL)), (f + " depends on allowed variables only", FA([V1, V2], z3.Implies(th.agree(A, V1, V2), z3.Implies(val.at([V1]), val.at([V2])))))]
                elif kd == "live":
                    out += [(f + " has one entry per line, or one if there is no line", val.size == z3.If(c == 0, 1, c)), (f + ": an added entry is true", z3.Implies(c == 0, FA(x, th.holds(val.cols[0][0], *x)))), (f + ": entries in the order of the lines", listed(th, s, val, th.NL))]
                elif kd == "push": out += [(f + " has one entry per line", val.size == c), (f + ": entries in the order of the lines", listed(th, s, val, th.NL))]
                else: out += [(f + " has one name per entry", val.size == (z3.If(c == 0, 1, c) if kd == "name+" else c)), (f + ": named properties keep their names", named(th, s, val, th.NL))]
        return out
    fl = ex.fresh_value(("vec", ("str",)), "filenames")
    ex.verify("init", Contract(post=post), args={"filenames": fl})
    for s, node in ex.throws: ex.oblige(s, "an error is reported only for an invalid file", z3.Or(z3.Not(th.ACC), fl.size == 0), "throw")
    th.lemmas(ex)
    return th, ex
TUM = lambda: TU(text='#include "synthesisContextBasics.cpp"\n#include "variableManager.cpp"\n')
def tum_tmpl(h, c): return lambda: TU(text='#include <fstream>\n#include <cstring>\n#include <sstream>\n#include <boost/algorithm/string.hpp>\n#include "variableManager.cpp"\n#include "%s"\ntemplate class %s;\n' % (h, c))

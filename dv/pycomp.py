"""C10: contracts for the translation functions of tools/StructuredSlugsParser/compiler.py.

The functions are taken from the file's own syntax tree (module ast) on every run and executed symbolically, path by
path; loops are cut by invariants, recursive calls are replaced by the contract.  Abstraction of the data:
  U       parse trees, names and strings; tag(t) is t[0], child(t,k) is t[k], v(p) the truth value of the formula a
          string denotes (for the fixed valuation under consideration), prime(s) is s+"'"
  tokens  a token list is read as prefix formulas; emitting one that is not exactly one formula is an error
  memory  memoryStructureParts; M(k) is the value of its k-th element, known from the moment it is appended; an element
          may refer only to elements before it (dep)
  S(a,n)  sum of 2^i over the set bits i < n of the sequence a;  pw(i) = 2^i."""
import ast, itertools, os, sys, time, z3
from astload import ExtractionError, REPO
import discharge as D
U = z3.DeclareSort("U"); I, B = z3.IntSort(), z3.BoolSort(); AR = z3.ArraySort(I, U)
def fn(n, *s): return z3.Function(n, *s)
tag, child, nch, intval = fn("tag", U, I), fn("child", U, I, U), fn("nchild", U, I), fn("intval", U, I)
v, dep, prime, strip, ends, strint, mp = fn("v", U, B), fn("dep", U, I), fn("prime", U, U), fn("strip", U, U), fn("endsprime", U, B), fn("strint", I, U), fn("memref", I, U)
isname = fn("isname", U, B)
M, pw, S = fn("M", I, B), fn("pw", I, I), fn("S", AR, I, I)
bits, nb, lo, hi, mapprime = fn("bits", U, AR), fn("nbits", U, I), fn("lo", U, I), fn("hi", U, I), fn("mapprime", AR, AR)
memarr, diff = fn("memarr", I, AR), fn("diff", AR, AR, I, I)
val, aval, arith = fn("val", U, B, I), fn("aval", U, B, I), fn("arith", U, B)
sem, conjS, disjS, xorS, wf = fn("sem", U, B, B), fn("conjS", U, I, B, B), fn("disjS", U, I, B, B), fn("xorS", U, I, B, B), fn("wf", U, B)
other = fn("otherop", I, I, I, I)     # subtraction and LEASTSIGNIFICANTBITOVERWRITES: rejected or out of scope, left open
bit, L = fn("bit", I, I, B), fn("low", I, I, I)
cnt = itertools.count()
def fresh(s, n="h"): return z3.Const("%s!%d" % (n, next(cnt)), s)
CODES = {}
def code(s): return CODES.setdefault(s, len(CODES) + 1)
STR = {}
def const_u(s):
    if s not in STR: STR[s] = z3.Const("str_%d" % len(STR), U)
    return STR[s]

class Unsup(ExtractionError): pass
class Seq:       # immutable value of a list of strings
    def __init__(self, n, a): self.n, self.a = n, a
class TL:        # a token list denoting exactly one formula
    def __init__(self, den, d): self.den, self.dep = den, d
class Items:     # concrete list of items
    def __init__(self, it): self.it = list(it)
class Mem:
    def __init__(self, n): self.n = n
class Ref:
    def __init__(self, k): self.k = k
class Flat:
    def __init__(self, n): self.n = n
class StrInt:
    def __init__(self, e): self.e = e
class Cat:       # concatenation of strings, only its first constant part is known
    def __init__(self, parts): self.parts = parts
class Tail:      # tree[k:]
    def __init__(self, t, k): self.t, self.k = t, k
class Last:
    def __init__(self, t): self.t = t
class Opaque:
    def __init__(self, u): self.u = u
class Strv:      # a string known exactly
    def __init__(self, s): self.s = s
class Ob:
    def __init__(self, name, fnm, line, hyps, goal, trees, kind="post"):
        self.name, self.fn, self.where, self.hyps, self.goal, self.trees, self.kind = name, fnm, line, list(hyps), goal, trees, kind; self.status = None; self.solver = None; self.time = 0.0; self.model = None; self.cand = None; self.extra = ()
class St:
    def __init__(self): self.env, self.heap, self.pc, self.trees, self.ev = {}, {}, [], [], []
    def copy(self):
        s = St(); s.env, s.heap, s.pc, s.trees, s.ev = dict(self.env), dict(self.heap), list(self.pc), list(self.trees), list(self.ev); return s

def pat(a, j): return [z3.Select(a, j)] if z3.is_const(a) or all(not z3.is_app_of(e, z3.Z3_OP_ITE) for e in subterms([a])) else []
def subterms(es):
    seen = set(); st = list(es); out = []
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): continue
        out.append(e); st += list(e.children())
    return out
TD = {}
def tdef(t):
    if t.get_id() not in TD: TD[t.get_id()] = (t, tdef0(t))
    return TD[t.get_id()][1]
def tdef0(t):
    """the meaning of one tree node, in terms of its children"""
    r = []; c = lambda k: child(t, k); T = lambda s: tag(t) == code(s)
    nm = c(1); base = z3.If(ends(nm), strip(nm), nm)
    for p in (z3.BoolVal(False), z3.BoolVal(True)):
        nxt = z3.Or(ends(nm), p); raw = z3.If(nxt, S(mapprime(bits(base)), nb(base)), S(bits(base), nb(base)))
        for f, off in ((val, 0), (aval, lo(base))):
            r += [z3.Implies(z3.And(T("NumberExpression"), tag(c(2)) == code("AdditionOperator")), f(t, p) == f(c(1), p) + f(c(3), p)), z3.Implies(z3.And(T("NumberExpression"), tag(c(2)) != code("AdditionOperator")), f(t, p) == other(tag(c(2)), f(c(1), p), f(c(3), p))),
                  z3.Implies(T("NumberBrackets"), f(t, p) == f(c(2), p)), z3.Implies(T("numeral"), f(t, p) == intval(nm)), z3.Implies(T("numID"), f(t, p) == raw + off)]
        op = tag(child(c(2), 1)); x, y = aval(c(1), p), aval(c(3), p)
        for k, g in (("GreaterOperator", x > y), ("GreaterEqualOperator", x >= y), ("SmallerOperator", x < y), ("SmallerEqualOperator", x <= y), ("EqualOperator", x == y), ("UnequalOperator", x != y)):
            r.append(z3.Implies(z3.And(T("CalculationSubformula"), op == code(k)), sem(t, p) == g))
        r += [z3.Implies(T("Formula"), sem(t, p) == sem(c(1), p)), z3.Implies(T("Biimplication"), sem(t, p) == (sem(c(1), p) == sem(c(2), p))), z3.Implies(T("Implication"), sem(t, p) == z3.Implies(sem(c(1), p), sem(c(2), p))),
              z3.Implies(T("Conjunction"), sem(t, p) == conjS(t, nch(t), p)), z3.Implies(T("Disjunction"), sem(t, p) == disjS(t, nch(t), p)), z3.Implies(T("Xor"), sem(t, p) == xorS(t, nch(t), p)),
              z3.Implies(z3.And(T("UnaryFormula"), tag(c(1)) == code("NotOperator")), sem(t, p) == z3.Not(sem(c(2), p))), z3.Implies(z3.And(T("UnaryFormula"), tag(c(1)) == code("NextOperator")), sem(t, p) == sem(c(2), z3.BoolVal(True))),
              z3.Implies(T("TRUE"), sem(t, p)), z3.Implies(T("FALSE"), z3.Not(sem(t, p))), z3.Implies(T("Assignment"), sem(t, p) == v(z3.If(p, prime(nm), nm)))]
    r.append(z3.Implies(z3.Or([T(x) for x in ("Conjunction", "Disjunction", "Xor")]), nch(t) >= 2))
    r.append(arith(t) == z3.Or(z3.And(T("NumberExpression"), arith(c(1)), arith(c(3)), tag(c(2)) != code("numID"), nch(t) == 4), z3.And(T("NumberBrackets"), arith(c(2)), nch(t) == 4), z3.And(T("numeral"), nch(t) == 2), z3.And(T("numID"), isname(nm), nch(t) == 2)))
    k = z3.Int("k"); w = z3.Or([T(x) for x in ("Conjunction", "Disjunction", "Xor", "Biimplication", "Implication", "Formula")])
    r.append(z3.Implies(z3.And(wf(t), w), z3.ForAll([k], z3.Implies(z3.And(1 <= k, k < nch(t)), wf(child(t, k))), patterns=[child(t, k)])))
    r += [z3.Implies(z3.And(wf(t), z3.Or(T("Biimplication"), T("Implication"))), nch(t) == 3), z3.Implies(z3.And(wf(t), T("Formula")), nch(t) == 2)]
    r += [z3.Implies(z3.And(wf(t), T("UnaryFormula")), wf(c(2))), z3.Implies(z3.And(wf(t), T("CalculationSubformula")), z3.And(arith(c(1)), arith(c(3)))), z3.Implies(z3.And(wf(t), T("Assignment")), isname(nm))]
    return r
class Th:
    def axioms(self):
        x, y, i, j, a = z3.Const("x", U), z3.Const("y", U), z3.Int("i"), z3.Int("j"), z3.Const("a", AR)
        Q = lambda vs, e, p: z3.ForAll(vs, e, patterns=[p])
        r = [Q([i], v(mp(i)) == M(i), mp(i)), Q([i], dep(mp(i)) == i + 1, mp(i)), Q([i], intval(strint(i)) == i, strint(i)),
             Q([a, i], z3.Select(mapprime(a), i) == prime(z3.Select(a, i)), z3.Select(mapprime(a), i)), Q([x, i], isname(z3.Select(bits(x), i)), z3.Select(bits(x), i)),
             Q([x], z3.Implies(isname(x), dep(x) == 0), dep(x)), Q([x], z3.Implies(isname(x), isname(prime(x))), prime(x)), Q([x], z3.Implies(isname(x), isname(strip(x))), strip(x)),
             Q([j, i], z3.Select(memarr(j), i) == mp(j + 2 * i), z3.Select(memarr(j), i)), Q([x], nb(x) >= 0, nb(x)), pw(0) == 1]
        for s, u in STR.items():
            if s == "1": r += [v(u), dep(u) == 0]
            elif s == "0": r += [z3.Not(v(u)), dep(u) == 0]
        return r
    def schema_instances(self, ob):
        ts = list({t.get_id(): t for t in ob.trees}.values())
        r = [d for t in ts for d in tdef(t)]
        sub = subterms(list(ob.hyps) + [ob.goal] + r)
        own = {e.get_id() for e in subterms(list(ob.hyps) + [ob.goal])}
        idx, arrs, pws, cs, ls = {}, {}, {}, {}, {}
        add = lambda d, e: d.setdefault(e.get_id(), e)
        Z = z3.IntVal(0)
        for e in sub:
            if not z3.is_app(e): continue
            n = e.decl().name()
            if n == "S" and e.get_id() in own: add(arrs, e.arg(0)); add(idx, z3.simplify(e.arg(1))); add(idx, z3.simplify(e.arg(1) - 1))
            elif n == "pw": add(pws, z3.simplify(e.arg(0))); add(pws, z3.simplify(e.arg(0) - 1))
            elif n in ("conjS", "disjS", "xorS"): add(cs, e)
            elif n == "low": add(ls, e)
        for e in ls.values(): add(idx, z3.simplify(e.arg(1))); add(idx, z3.simplify(e.arg(1) - 1))
        for e in list(idx.values()): add(pws, e)
        for t in list(pws.values()): r += [z3.Implies(t >= 0, z3.And(pw(t) >= 1, pw(t + 1) == 2 * pw(t)))]
        pl = list(pws.values())
        for a in pl: r += [z3.Implies(z3.And(0 <= a, a <= b), pw(a) <= pw(b)) for b in pl if b is not a]
        for a in arrs.values():
            r.append(S(a, Z) == 0)
            for t in idx.values(): r += [z3.Implies(t >= 0, z3.And(S(a, t + 1) == S(a, t) + z3.If(v(z3.Select(a, t)), pw(t), 0), S(a, t) >= 0, S(a, t) < pw(t)))]
        al = list(arrs.values())
        for a in range(len(al)):
            for b in range(a):
                if al[a].decl().name() in ("bits", "mapprime") and al[b].decl().name() in ("bits", "mapprime"): continue
                for t in idx.values():
                    k = diff(al[a], al[b], t); r.append(z3.Implies(t >= 0, z3.Or(S(al[a], t) == S(al[b], t), z3.And(0 <= k, k < t, v(z3.Select(al[a], k)) != v(z3.Select(al[b], k))))))
        done = set()
        for e in cs.values():
            t, k, p = e.arg(0), e.arg(1), e.arg(2); f = e.decl(); two = z3.IntVal(2)
            r.append(f(t, two, p) == sem(child(t, 1), p))
            for q in (z3.simplify(k - 1), z3.simplify(k)):
                if (f.name(), t.get_id(), q.get_id(), p.get_id()) in done: continue
                done.add((f.name(), t.get_id(), q.get_id(), p.get_id())); c = sem(child(t, q), p); o = f(t, q, p)
                r.append(z3.Implies(q >= 2, f(t, q + 1, p) == (z3.And(o, c) if f.name() == "conjS" else z3.Or(o, c) if f.name() == "disjS" else z3.Xor(o, c))))
        for e in {e.arg(0).get_id(): e.arg(0) for e in ls.values()}.values():
            r.append(L(e, Z) == 0)
            for t in idx.values(): r += [z3.Implies(t >= 0, z3.And(L(e, t + 1) == L(e, t) + z3.If(bit(e, t), pw(t), 0), L(e, t) >= 0, L(e, t) < pw(t))), z3.Implies(z3.And(t >= 0, 0 <= e, e < pw(t)), L(e, t) == e)]
        return r
TH = Th()
def lemmas():
    """the facts about S, pw and low used above, by induction on the index (one step each)"""
    a, b, t, x = z3.Const("a", AR), z3.Const("b", AR), z3.Int("t"), z3.Int("x"); out = []
    def lem(name, hyps, goal): out.append(Ob("lemma: " + name, "lemma", None, hyps, goal, [], "lemma"))
    rec = lambda a: S(a, t + 1) == S(a, t) + z3.If(v(z3.Select(a, t)), pw(t), 0)
    lem("pw(t) >= 1, step", [t >= 0, pw(t) >= 1, pw(t + 1) == 2 * pw(t)], pw(t + 1) >= 1)
    lem("pw is monotone, step", [t >= 0, x <= t, pw(x) <= pw(t), pw(t) >= 1, pw(t + 1) == 2 * pw(t)], pw(x) <= pw(t + 1))
    lem("0 <= S(a,t) < pw(t), start", [S(a, 0) == 0, pw(0) == 1], z3.And(S(a, 0) >= 0, S(a, 0) < pw(0)))
    lem("0 <= S(a,t) < pw(t), step", [t >= 0, pw(t) >= 1, S(a, t) >= 0, S(a, t) < pw(t), rec(a), pw(t + 1) == 2 * pw(t)], z3.And(S(a, t + 1) >= 0, S(a, t + 1) < pw(t + 1)))
    lem("sequences with equal values have equal sums, step", [t >= 0, S(a, t) == S(b, t), v(z3.Select(a, t)) == v(z3.Select(b, t)), rec(a), rec(b)], S(a, t + 1) == S(b, t + 1))
    for i in out: i.bare = True
    return out

class PyExec:
    def __init__(self, path):
        self.src = open(path).read(); self.mod = ast.parse(self.src)
        self.fns = {n.name: n for n in self.mod.body if isinstance(n, ast.FunctionDef)}
        self.obls = []; self.fn = None; self.contracts = {}; self.paths = 0; self.opaque_ok = False; self.exits = []; self.smokes = []
        sys.path.insert(0, os.path.dirname(path)); 
        import importlib.util
        sp = importlib.util.spec_from_file_location("structured_parser_under_proof", os.path.dirname(path) + "/Parser.py"); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        self.terminals = set(m.Parser().terminals); sys.path.pop(0)
    # ---- obligations
    def oblige(self, st, name, goal, node=None, kind="post"):
        self.obls.append(Ob("%s: %s" % (self.fn, name), self.fn, getattr(node, "lineno", None), st.pc, goal, st.trees, kind))
    def feasible(self, st):
        o = Ob("f", "", None, st.pc, z3.BoolVal(False), st.trees)
        s = z3.Solver(); s.set("timeout", 150)
        for h in list(st.pc) + [d for t in st.trees for d in tdef(t) if not z3.is_quantifier(d)]: s.add(h)
        return s.check() != z3.unsat
    def holds(self, st, goal, T=3):
        return D.solve(D.to_smt(TH, Ob("h", "", None, st.pc, goal, st.trees)), T, T, D.STRATEGIES[:2])[0] == "proved"
    def all_hold(self, sg, T):
        texts = [D.to_smt(TH, Ob("h", "", None, s.pc, g, s.trees)) for s, g in sg]     # z3 terms are built in this thread only
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as tp: return list(tp.map(lambda t: D.solve(t, T, T, D.STRATEGIES[:1])[0] == "proved", texts))
    def tree(self, st, t):
        if not any(t.eq(x) for x in st.trees): st.trees.append(t)
        return t
    # ---- expressions: return list of (state, value)
    def ev1(self, st, e):
        r = self.ev(st, e)
        if len(r) != 1 or r[0][0] is not st: raise Unsup("branching expression")
        return r[0][1]
    def evs(self, st, es):
        out = [(st, [])]
        for e in es: out = [(s2, vs + [x]) for s, vs in out for s2, x in self.ev(s, e)]
        return out
    def deref(self, st, x): return st.heap[x.k] if isinstance(x, Ref) else x
    def alloc(self, st, o): k = next(cnt); st.heap[k] = o; return Ref(k)
    def truth(self, st, x):
        x = self.deref(st, x)
        if isinstance(x, z3.BoolRef): return x
        if isinstance(x, z3.ArithRef): return x != 0
        if isinstance(x, Opaque): return fresh(B, "opaque")
        raise Unsup("truth value of " + type(x).__name__)
    def const(self, c):
        if isinstance(c, bool): return z3.BoolVal(c)
        if isinstance(c, int): return z3.IntVal(c)
        if isinstance(c, str): return Strv(c)
        if c is None: return Opaque(fresh(U, "none"))
        raise Unsup("constant")
    def as_u(self, st, x):
        if isinstance(x, z3.ExprRef) and x.sort() == U: return x
        if isinstance(x, Strv): return const_u(x.s)
        if isinstance(x, StrInt): return strint(x.e)
        if isinstance(x, Opaque): return x.u
        if isinstance(x, Cat) and len(x.parts) == 2 and isinstance(x.parts[0], Strv) and x.parts[0].s == "? " and isinstance(x.parts[1], StrInt): return mp(x.parts[1].e)
        raise Unsup("value of type " + type(x).__name__ + " used as a string or tree")
    def ev(self, st, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            if self.opaque_ok: return [(st, Opaque(fresh(U, "opaque")))]
            raise Unsup("expression " + type(e).__name__)
        return m(st, e)
    def e_Constant(self, st, e): return [(st, self.const(e.value))]
    def e_Name(self, st, e):
        if e.id in st.env: return [(st, st.env[e.id])]
        if e.id in ("numberAPLimits", "translatedNames", "numberAPNofBits", "booleanAPs", "numberAPs"): return [(st, ("global", e.id))]
        if e.id in self.fns: return [(st, ("fn", e.id))]
        if self.opaque_ok: return [(st, Opaque(fresh(U, e.id)))]
        raise Unsup("name " + e.id)
    def e_Attribute(self, st, e):
        if isinstance(e.value, ast.Name) and e.attr == "terminals": return [(st, ("terminals",))]
        if self.opaque_ok: return [(st, Opaque(fresh(U, "attr")))]
        raise Unsup("attribute " + e.attr)
    def e_List(self, st, e): return [(s, self.alloc(s, Items(vs))) for s, vs in self.evs(st, e.elts)]
    def e_Tuple(self, st, e):
        out = []
        for s, vs in self.evs(st, e.elts):
            if vs and isinstance(vs[0], Strv) and isinstance(e.elts[0], ast.Constant) and not self.opaque_ok:
                t = fresh(U, "tuple"); s.pc += [tag(t) == code(vs[0].s), nch(t) == len(vs)] + [child(t, k) == self.as_u(s, x) for k, x in enumerate(vs) if k]; self.tree(s, t); out.append((s, t))
            else: out.append((s, tuple(["tuple"] + vs)))
        return out
    def e_UnaryOp(self, st, e):
        out = []
        for s, x in self.ev(st, e.operand):
            if isinstance(e.op, ast.Not): out.append((s, z3.Not(self.truth(s, x))))
            elif isinstance(e.op, ast.USub): out.append((s, -x))
            else: raise Unsup("unary operator")
        return out
    def e_BoolOp(self, st, e):
        out = [(st, None)]
        for x in e.values:
            nx = []
            for s, c in out:
                for s2, w in self.ev(s, x): t = self.truth(s2, w); nx.append((s2, t if c is None else z3.And(c, t) if isinstance(e.op, ast.And) else z3.Or(c, t)))
            out = nx
        return out
    def e_IfExp(self, st, e):
        out = []
        for s, c in self.ev(st, e.test):
            for s2 in self.split(s, self.truth(s, c)): out += self.ev(s2[0], e.body if s2[1] else e.orelse)
        return out
    def split(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        a, b = st.copy(), st; a.pc.append(c); b.pc.append(z3.Not(c)); out = []
        if self.feasible(a): out.append((a, True))
        if self.feasible(b): out.append((b, False))
        return out
    def e_Compare(self, st, e):
        if len(e.ops) != 1: raise Unsup("chained comparison")
        return [(s, self.compare(s, e.ops[0], a, b)) for s, (a, b) in self.evs(st, [e.left, e.comparators[0]])]
    def compare(self, st, op, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        neg = isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)); r = None
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, tuple) and a[0] == "tag" and isinstance(b, Strv): r = tag(a[1]) == code(b.s)
            elif isinstance(b, tuple) and b[0] == "tag" and isinstance(a, Strv): r = tag(b[1]) == code(a.s)
            elif isinstance(a, Last) and isinstance(b, Strv) and b.s == "'": r = ends(a.t)
            elif isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef): r = a == b
            elif isinstance(a, Strv) and isinstance(b, Strv): r = z3.BoolVal(a.s == b.s)
        elif isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, tuple) and b[0] == "terminals" and isinstance(a, tuple) and a[0] == "tag": r = z3.Or([tag(a[1]) == code(x) for x in sorted(self.terminals)])
            elif isinstance(b, (Items,)) and isinstance(a, tuple) and a[0] == "tag": r = z3.Or([tag(a[1]) == code(x.s) for x in b.it])
            elif isinstance(a, Strv) and a.s == "'" and isinstance(b, z3.ExprRef) and b.sort() == U: r = ends(b)
        elif isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef):
            r = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        if r is None: r = fresh(B, "opaque")
        return z3.Not(r) if neg else r
    def e_BinOp(self, st, e): return [(s, self.binop(s, e.op, a, b)) for s, (a, b) in self.evs(st, [e.left, e.right])]
    def binop(self, st, op, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef):
            if isinstance(op, ast.Add): return a + b
            if isinstance(op, ast.Sub): return a - b
            if isinstance(op, ast.Mult): return a * b
            if isinstance(op, ast.FloorDiv) and z3.is_int_value(b) and b.as_long() > 0: return a / b
            if isinstance(op, ast.Mod) and z3.is_int_value(b) and b.as_long() > 0: return a % b
            if isinstance(op, ast.Pow) and z3.is_int_value(a) and a.as_long() == 2: self.oblige(st, "the exponent is not negative", b >= 0); return pw(b)
            if isinstance(op, ast.LShift) and z3.is_int_value(a) and a.as_long() == 1: return pw(b)
            if isinstance(op, ast.BitAnd):
                for x, y in ((a, b), (b, a)):
                    if z3.is_app(x) and x.decl().name() == "pw": return bit(y, x.arg(0))      # (used as a condition)
                if z3.is_int_value(b) and b.as_long() == 1: return a % 2
            raise Unsup("arithmetic operator")
        if isinstance(op, ast.Add):
            if isinstance(a, Items) and isinstance(b, Items): return self.alloc(st, Items(a.it + b.it))
            if isinstance(a, (Items, TL, Flat)) and isinstance(b, (Items, TL, Flat)):
                it = lambda x: x.it if isinstance(x, Items) else [x]
                return self.alloc(st, Items(it(a) + it(b)))
            if isinstance(a, Seq) and isinstance(b, Items):
                n, r = a.n, a.a
                for x in b.it: r = z3.Store(r, n, self.as_u(st, x)); n = n + 1
                return Seq(n, r)
            if isinstance(a, Strv) and isinstance(b, Strv): return Strv(a.s + b.s)
            if isinstance(b, Strv) and b.s == "'": return prime(self.as_u(st, a))
            if isinstance(a, (Strv, Cat, StrInt, Opaque)) and isinstance(b, (Strv, Cat, StrInt, Opaque)) or self.opaque_ok:
                p = lambda x: x.parts if isinstance(x, Cat) else [x]
                return Cat(p(a) + p(b))
        if self.opaque_ok: return Opaque(fresh(U, "opaque"))
        raise Unsup("operator %s on %s, %s" % (type(op).__name__, type(a).__name__, type(b).__name__))
    def e_Subscript(self, st, e):
        out = []
        for s, x in self.ev(st, e.value):
            x = self.deref(s, x); sl = e.slice
            if isinstance(sl, ast.Slice):
                if isinstance(x, z3.ExprRef) and x.sort() == U:
                    if sl.upper is None and isinstance(sl.lower, ast.Constant): out.append((s, Tail(x, sl.lower.value))); continue
                    low0 = sl.lower is None or (isinstance(sl.lower, ast.Constant) and sl.lower.value == 0)
                    if low0 and self.is_last(sl.upper, e.value): out.append((s, strip(x))); continue
                raise Unsup("slice")
            if isinstance(x, z3.ExprRef) and x.sort() == U and self.is_last(sl, e.value): out.append((s, Last(x))); continue
            for s2, k in self.ev(s, sl):
                out.append((s2, self.index(s2, x, k)))
        return out
    def is_last(self, n, base):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and n.operand.value == 1: return True
        return isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and isinstance(n.right, ast.Constant) and n.right.value == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and ast.dump(n.left.args[0]) == ast.dump(base)
    def index(self, st, x, k):
        k = self.deref(st, k)
        if isinstance(x, z3.ExprRef) and x.sort() == U and isinstance(k, z3.ArithRef):
            if z3.is_int_value(k) and k.as_long() == 0: return ("tag", x)
            return self.tree(st, child(x, k))
        if isinstance(x, Seq) and isinstance(k, z3.ArithRef):
            self.oblige(st, "the index lies within the list", z3.And(0 <= k, k < x.n)); return z3.Select(x.a, k)
        if isinstance(x, tuple) and x[0] == "global":
            u = self.as_u(st, k) if not isinstance(k, Opaque) else k.u
            for kind, g, key, w in reversed(st.ev):
                if kind == "set" and g == x[1] and key.eq(u): return w
            if x[1] == "translatedNames": return Seq(nb(u), bits(u))
            if x[1] == "numberAPLimits": return ("tuple", lo(u), hi(u))
            if x[1] == "numberAPNofBits": return nb(u)
        if isinstance(x, tuple) and x[0] == "tuple" and z3.is_int_value(k): return x[1 + k.as_long()]
        if self.opaque_ok:
            if isinstance(k, Strv) and k.s.startswith("["): return ("item", x, k)
            if isinstance(x, Opaque): return Opaque(z3.Function("idx", U, U, U)(x.u, self.keyof(st, k)))
            return ("item", x, k)
        raise Unsup("subscript")
    def keyof(self, st, k):
        if isinstance(k, z3.ArithRef): return strint(z3.simplify(k))
        try: return self.as_u(st, k)
        except Unsup: return fresh(U, "key")
    def e_Call(self, st, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ("print", "range"):
            if f.id == "print": return [(st, Opaque(fresh(U)))]
            return [(s, tuple(["range"] + ([z3.IntVal(0)] + a if len(a) == 1 else a))) for s, a in self.evs(st, e.args) if len(a) <= 2]
        if isinstance(f, ast.Name) and f.id in ("len", "str", "int", "min", "max", "tuple", "list"):
            if f.id in ("tuple", "list") and len(e.args) == 1:
                r = self.maptree(st, e.args[0])
                if r is not None: return r
            return [(s, self.builtin(s, f.id, a)) for s, a in self.evs(st, e.args)]
        if isinstance(f, ast.Name) and f.id in self.fns:
            if f.id in self.contracts: return [r for s, a in self.evs(st, e.args) for r in self.contracts[f.id].call(self, s, [self.deref_arg(s, x) for x in a], e)]
            return [r for s, a in self.evs(st, e.args) for r in self.inline(s, f.id, a)]
        if isinstance(f, ast.Attribute):
            out = []
            for s, o in self.ev(st, f.value):
                for s2, a in self.evs(s, e.args): out += self.method(s2, o, f.attr, a, e)
            return out
        if self.opaque_ok: return [(s, Opaque(fresh(U, "call"))) for s, _ in self.evs(st, e.args)]
        raise Unsup("call")
    def deref_arg(self, st, x): return x
    def inline(self, st, name, args):
        d = self.fns[name]
        if len(self.stack) > 6 or name in self.stack: raise Unsup("recursive function %s without contract" % name)
        saved = dict(st.env); st.env = {a.arg: x for a, x in zip(d.args.args, args)}; self.stack.append(name); out = []
        for s, sig in self.block(st, d.body):
            if sig[0] == "raise": continue
            s.env = dict(saved); out.append((s, sig[1] if sig[0] == "return" else Opaque(fresh(U))))
        self.stack.pop(); return out
    def builtin(self, st, n, a):
        x = self.deref(st, a[0]) if a else None
        if n == "len":
            if isinstance(x, (Seq, Mem)): return x.n
            if isinstance(x, Items) and all(not isinstance(i, (TL, Flat)) for i in x.it): return z3.IntVal(len(x.it))
            if isinstance(x, z3.ExprRef) and x.sort() == U: return nch(x)
            if self.opaque_ok: return fresh(I, "len")
            raise Unsup("len of " + type(x).__name__)
        if n == "str":
            if isinstance(x, z3.ArithRef): return StrInt(x)
            raise Unsup("str")
        if n == "int":
            if isinstance(x, Opaque): return intval(x.u)
            if isinstance(x, z3.ExprRef) and x.sort() == U: return intval(x)
            if self.opaque_ok: return fresh(I, "int")
        if n in ("min", "max") and len(a) == 2: p, q = a; return z3.If(p <= q, p, q) if n == "min" else z3.If(p >= q, p, q)
        if self.opaque_ok: return Opaque(fresh(U))
        raise Unsup(n)
    def method(self, st, o, m, a, e):
        x = self.deref(st, o)
        if m == "append" and len(a) == 1:
            y = self.deref(st, a[0])
            if isinstance(x, Mem) or (isinstance(x, Items) and not x.it and isinstance(y, (Items, TL))):
                if not isinstance(x, Mem): x = Mem(z3.IntVal(0))
                t = self.tokens(st, y, e)
                self.oblige(st, "an element of the buffer refers only to earlier elements", t.dep <= x.n, e)
                st.pc.append(M(x.n) == t.den); st.heap[o.k] = Mem(x.n + 1); return [(st, Opaque(fresh(U)))]
            if isinstance(x, Items) and isinstance(o, Ref): st.heap[o.k] = Items(x.it + [y]); return [(st, Opaque(fresh(U)))]
            if isinstance(x, Seq) and isinstance(o, Ref): st.heap[o.k] = Seq(x.n + 1, z3.Store(x.a, x.n, self.as_u(st, y))); return [(st, Opaque(fresh(U)))]
            if isinstance(x, Opaque): raise Unsup("append to an unknown list")
            if isinstance(x, tuple) and x[0] == "item": st.ev.append(("append", x, y, None)); return [(st, Opaque(fresh(U)))]
        if m == "join" and isinstance(x, Strv) and x.s == " " and len(a) == 1:
            y = self.deref(st, a[0]); return [(st, self.tokens(st, y, e))]
        if self.opaque_ok:
            if m == "endswith" and isinstance(a[0], Strv): return [(st, z3.Bool("endswith_%s_%s" % (x.u if isinstance(x, Opaque) else "x", a[0].s)))]
            return [(st, Opaque(fresh(U, m)))]
        raise Unsup("method " + m)
    def e_ListComp(self, st, e):
        gs = e.generators
        if len(gs) == 2 and not gs[0].ifs and not gs[1].ifs and isinstance(gs[1].iter, ast.Name) and isinstance(gs[0].target, ast.Name) and gs[1].iter.id == gs[0].target.id and isinstance(e.elt, ast.Name) and e.elt.id == getattr(gs[1].target, "id", None):
            x = self.deref(st, self.ev1(st, gs[0].iter))
            if isinstance(x, Mem): return [(st, Flat(x.n))]
            raise Unsup("flattening")
        if len(gs) != 1 or gs[0].ifs or not isinstance(gs[0].target, ast.Name): raise Unsup("comprehension")
        x = self.deref(st, self.ev1(st, gs[0].iter)); i = fresh(I, "i"); saved = st.env
        if isinstance(x, Items) and not x.it: return [(st, self.alloc(st, Items([])))]
        if self.opaque_ok and isinstance(x, Opaque): return [(st, Opaque(fresh(U, "list")))]
        sub = st.copy(); nm = gs[0].target.id
        if isinstance(x, Seq): sub.env[nm] = z3.Select(x.a, i); n = x.n; sub.pc.append(z3.And(0 <= i, i < n))
        elif isinstance(x, tuple) and x[0] == "range":
            n = z3.simplify(x[2] - x[1]); n = z3.If(n >= 0, n, 0); sub.env[nm] = i + x[1]; sub.pc.append(z3.And(0 <= i, i < n))
        else: raise Unsup("comprehension over " + type(x).__name__)
        if isinstance(x, Seq) and isinstance(e.elt, ast.BinOp) and isinstance(e.elt.right, ast.Constant) and e.elt.right.value == "'" and isinstance(e.elt.left, ast.Name) and e.elt.left.id == nm: return [(st, Seq(n, mapprime(x.a)))]
        k0 = len(self.obls)
        try:
            r = self.ev(sub, e.elt); u = self.as_u(sub, r[0][1])
            if len(r) != 1: raise Unsup("branching comprehension")
        except Unsup:
            if not self.opaque_ok: raise
            del self.obls[k0:]; return [(st, Seq(n, bits(fresh(U, "names"))))]
        a = fresh(AR, "list"); st.pc.append(z3.ForAll([i], z3.Select(a, i) == u, patterns=[z3.Select(a, i)])); return [(st, Seq(n, a))]
    def maptree(self, st, e):
        """tuple([t[0]] + [f(a) for a in t[1:]])"""
        if not (isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and isinstance(e.left, ast.List) and len(e.left.elts) == 1 and isinstance(e.right, ast.ListComp)): return None
        g = e.right.generators
        if len(g) != 1 or g[0].ifs: return None
        hd = self.ev1(st, e.left.elts[0]); it = self.ev1(st, g[0].iter)
        if not (isinstance(hd, tuple) and hd[0] == "tag" and isinstance(it, Tail) and it.k == 1 and it.t.eq(hd[1])): return None
        c = e.right.elt
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in self.contracts and len(c.args) == 1 and isinstance(c.args[0], ast.Name) and c.args[0].id == g[0].target.id): return None
        t = it.t; r = fresh(U, "tree"); st.pc += [tag(r) == tag(t), nch(r) == nch(t)]; self.tree(st, r)
        for k in (1, 2, 3):
            s2, x = self.contracts[c.func.id].call(self, st, [self.tree(st, child(t, z3.IntVal(k)))], c)[0]
            st.pc.append(z3.Implies(k < nch(t), child(r, z3.IntVal(k)) == x)); self.tree(st, child(r, z3.IntVal(k)))
        return [(st, r)]
    # ---- reading token lists
    def tokens(self, st, x, node):
        if isinstance(x, TL): return x
        if not isinstance(x, Items): raise Unsup("token list expected, found " + type(x).__name__)
        ts = []
        for i in x.it:
            i = self.deref(st, i)
            if isinstance(i, Strv): ts += i.s.split()
            elif isinstance(i, Items): raise Unsup("nested list")
            else: ts.append(i)
        p = [0]; Z = z3.IntVal(0); deps = []
        def bad(): self.oblige(st, "the emitted tokens are exactly one formula", z3.BoolVal(False), node); return z3.BoolVal(True)
        def rec():
            if p[0] >= len(ts): return bad()
            t = ts[p[0]]; p[0] += 1
            if isinstance(t, str):
                if t in "&|^" and len(t) == 1: a = rec(); b = rec(); return z3.And(a, b) if t == "&" else z3.Or(a, b) if t == "|" else z3.Xor(a, b)
                if t == "!": return z3.Not(rec())
                if t == "1": return z3.BoolVal(True)
                if t == "0": return z3.BoolVal(False)
                if t == "?" and p[0] < len(ts):
                    k = ts[p[0]]; p[0] += 1
                    if isinstance(k, StrInt): k = k.e
                    elif isinstance(k, str) and k.isdigit(): k = z3.IntVal(int(k))
                    else: return bad()
                    self.oblige(st, "the referenced element exists", k >= 0, node); deps.append(k + 1); return M(k)
                if t == "$" and p[0] + 1 < len(ts) and isinstance(ts[p[0]], StrInt) and isinstance(ts[p[0] + 1], Flat):
                    n, f = ts[p[0]].e, ts[p[0] + 1]; p[0] += 2
                    self.oblige(st, "the announced size of the buffer is its size", z3.And(n == f.n, n >= 1), node); return M(f.n - 1)
                return bad()
            if isinstance(t, TL): deps.append(t.dep); return t.den
            if isinstance(t, (StrInt, Flat)): return bad()
            u = self.as_u(st, t); deps.append(dep(u)); return v(u)
        d = rec()
        if p[0] != len(ts): bad()
        m = Z
        for k in deps: m = z3.If(k > m, k, m)
        return TL(d, m)
    # ---- statements: list of (state, signal)
    def block(self, st, body):
        cur = [st]; out = []
        for n in body:
            nxt = []
            for s in cur:
                for s2, sig in self.stmt(s, n):
                    if sig is None: nxt.append(s2)
                    else: out.append((s2, sig))
            cur = nxt
            self.paths += len(cur)
            if self.paths > 40000: raise Unsup("too many paths")
        return out + [(s, ("end",)) for s in cur]
    def stmt(self, st, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None: raise Unsup("statement " + type(n).__name__)
        return m(st, n)
    def s_Pass(self, st, n): return [(st, None)]
    def s_Expr(self, st, n):
        if isinstance(n.value, ast.Constant): return [(st, None)]
        return [(s, None) for s, _ in self.ev(st, n.value)]
    def s_Raise(self, st, n): return [(st, ("raise",))]
    def s_Continue(self, st, n): return [(st, ("continue",))]
    def s_Assert(self, st, n):
        out = []
        for s, c in self.ev(st, n.test): s.pc.append(self.truth(s, c)); out.append((s, None))
        return [(s, x) for s, x in out if self.feasible(s)]
    def s_Return(self, st, n):
        if n.value is None: return [(st, ("return", Opaque(fresh(U))))]
        return [(s, ("return", x)) for s, x in self.ev(st, n.value)]
    def s_Try(self, st, n): return [(s, None if sig == ("end",) else sig) for s, sig in self.block(st, n.body)]
    def s_If(self, st, n):
        out = []
        for s, c in self.ev(st, n.test):
            for s2, b in self.split(s, self.truth(s, c)):
                out += [(s3, None if sig == ("end",) else sig) for s3, sig in self.block(s2, n.body if b else n.orelse)]
        return out
    def bind(self, st, t, x):
        if isinstance(t, ast.Name): st.env[t.id] = x; return
        if isinstance(t, ast.Tuple):
            x = self.deref(st, x)
            if isinstance(x, tuple) and x[0] == "tuple":
                for a, b in zip(t.elts, x[1:]): self.bind(st, a, b)
                return
        if isinstance(t, ast.Subscript):
            o = self.ev1(st, t.value); k = self.ev1(st, t.slice)
            if isinstance(o, tuple) and o[0] == "global": st.ev.append(("set", o[1], self.as_u(st, k), x)); return
            if self.opaque_ok: return
        raise Unsup("assignment target")
    def s_Assign(self, st, n):
        if len(n.targets) != 1: raise Unsup("multiple assignment")
        if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple):
            out = []
            for s, vs in self.evs(st, n.value.elts): self.bind(s, n.targets[0], tuple(["tuple"] + vs)); out.append((s, None))
            return out
        out = []
        for s, x in self.ev(st, n.value): self.bind(s, n.targets[0], x); out.append((s, None))
        return out
    def s_AugAssign(self, st, n):
        out = []
        l = ast.parse(ast.unparse(n.target), mode="eval").body
        for s, (a, b) in self.evs(st, [l, n.value]): self.bind(s, n.target, self.binop(s, n.op, a, b)); out.append((s, None))
        return out
    # ---- loops
    def modified(self, st, n):
        assigned, appended = set(), set()
        for x in ast.walk(ast.Module(body=n.body, type_ignores=[])):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.For)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): assigned.add(y.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Name): appended.add(x.func.value.id)
            if isinstance(x, ast.Call):
                for a in x.args:
                    if isinstance(a, ast.Name) and isinstance(st.env.get(a.id), Ref) and isinstance(st.heap[st.env[a.id].k], Mem): appended.add(a.id)
        return assigned, appended
    def s_For(self, st, n):
        if n.orelse: raise Unsup("for-else")
        it = self.deref(st, self.ev1(st, n.iter))
        if isinstance(it, tuple) and it[0] == "range": a, b = it[1], it[2]; bind = lambda s, i: i
        elif isinstance(it, Tail): a, b = z3.IntVal(it.k), nch(it.t); bind = lambda s, i: self.tree(s, child(it.t, i))
        elif isinstance(it, Seq): a, b = z3.IntVal(0), it.n; bind = lambda s, i: z3.Select(it.a, i)
        else: raise Unsup("loop over " + type(it).__name__)
        end = b
        def step(s, i):
            self.bind(s, n.target, bind(s, i)); r = self.block(s, n.body)
            return [(x, None if sig in (("end",), ("continue",)) else sig) for x, sig in r]
        out = []
        for s, run_ in self.split(st, b > a):      # an empty loop changes nothing
            out += self.loop(s, n, a, end, lambda s, i: z3.And(a <= i, i < end), step, lambda s, i: z3.And(a <= i, i <= end), lambda s, i: i >= end, it) if run_ else [(s, None)]
        return out
    def s_While(self, st, n):
        if n.orelse: raise Unsup("while-else")
        def cond(s, i): return self.truth(s, self.ev1(s, n.test))
        def step(s, i):
            t = n.test; var = None
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                l, r = self.ev1(s, t.left), self.ev1(s, t.comparators[0])
                if isinstance(l, z3.ArithRef) and isinstance(r, z3.ArithRef): var = {ast.NotEq: lambda l, r: l - r, ast.Gt: lambda l, r: l - r, ast.GtE: lambda l, r: l - r, ast.Lt: lambda l, r: r - l, ast.LtE: lambda l, r: r - l}.get(type(t.ops[0]))
                v0 = var(l, r) if var else None
            out = []
            for x, sig in self.block(s, n.body):
                if sig in (("end",), ("continue",)):
                    if var:
                        v1 = var(self.ev1(x, t.left), self.ev1(x, t.comparators[0])); self.oblige(x, "the loop terminates", z3.And(v0 >= 0, v1 < v0), n)
                    out.append((x, None))
                else: out.append((x, sig))
            return out
        return self.loop(st, n, None, None, cond, step, None, None)
    def loop(self, st, n, lo_, hi_, cond, step, rng, done, over=None):
        assigned, appended = self.modified(st, n); entry = st.copy()
        roles = {}
        def havoc(s):
            i = fresh(I, "iter") if lo_ is not None else None
            for x in assigned:
                w = self.deref(s, s.env.get(x)) if x in s.env else None
                if w is None: continue
                if isinstance(w, z3.ArithRef): s.env[x] = fresh(I, x)
                elif isinstance(w, z3.BoolRef): s.env[x] = fresh(B, x)
                elif isinstance(w, (Items, TL)): s.env[x] = self.alloc(s, TL(fresh(B, x), fresh(I, x + "dep")))
                elif isinstance(w, Seq): s.env[x] = Seq(fresh(I, x), fresh(AR, x))
                elif isinstance(w, z3.ExprRef): s.env[x] = fresh(U, x)
                else: s.env.pop(x)
            for x in appended:
                if x not in s.env: continue
                w = self.deref(s, s.env[x])
                if isinstance(w, Mem): s.heap[s.env[x].k] = Mem(fresh(I, "memlen"))
                elif isinstance(w, (Items, Seq)): s.heap[s.env[x].k] = Seq(fresh(I, x), fresh(AR, x))
                else: raise Unsup("list modified by a loop: " + type(w).__name__)
            return i
        cands = self.candidates(entry, n, assigned, appended, lo_, over)
        # entry
        def inst(s, c, i): return c[1](s, i)
        e0 = entry.copy(); gs = []
        for c in cands:
            try: g = inst(e0, c, lo_)
            except Unsup: continue
            if g is not None: gs.append((c, g))
        ok = self.all_hold([(e0, g) for _, g in gs], 1)
        live = [c for (c, _), b in zip(gs, ok) if b]
        # preservation (those that fail are dropped, until nothing changes)
        while True:
            k0 = len(self.obls); h = entry.copy(); i = havoc(h)
            if rng: h.pc.append(rng(h, i))
            for c in live: h.pc.append(inst(h, c, i))
            base = h.copy(); bodyst = h.copy(); bodyst.pc.append(cond(bodyst, i)); out = []; failed = set()
            res = step(bodyst, i)
            ends_ = [x for x, sig in res if sig is None]
            jobs = []
            for s in ends_:
                for ci, c in enumerate(live):
                    if ci in failed: continue
                    try: g = inst(s, c, i + 1 if i is not None else None)
                    except Unsup: failed.add(ci); continue
                    jobs.append((ci, s, g))
            rs = self.all_hold([(s, g) for _, s, g in jobs], 3)
            for (ci, s, g), ok in zip(jobs, rs):
                if not ok: failed.add(ci)
            if not failed: break
            live = [c for k, c in enumerate(live) if k not in failed]; del self.obls[k0:]
        for c in live: self.oblige(entry, "loop invariant '%s' holds initially" % c[0], inst(entry.copy(), c, lo_), n, "init")
        for ci, s, g in jobs: self.oblige(s, "loop invariant '%s' is preserved" % live[ci][0], g, n, "preserve")
        self.smokes += [(n.lineno, s) for s in ends_]
        out = [(x, sig) for x, sig in res if sig is not None]
        ex = base
        if done: ex.pc.append(done(ex, i))
        else: ex.pc.append(z3.Not(cond(ex, i)))
        out.append((ex, None)); return out
    def candidates(self, e, n, assigned, appended, lo_, over=None):
        out = []
        seqs = []
        for x, w in e.env.items():
            w = self.deref(e, w)
            if isinstance(w, Seq) and x not in appended and not any(q.a.eq(w.a) for q in seqs): seqs.append(w)
        for _, g, key, w in e.ev:
            if _ == "set" and g == "translatedNames" and isinstance(w, Seq) and not any(q.a.eq(w.a) for q in seqs): seqs.append(w)
        if self.opaque_ok: seqs += [Seq(q.n, mapprime(q.a)) for q in seqs]
        smin = lambda q, i: z3.If(i <= q.n, S(q.a, i), S(q.a, q.n))
        ints = [(x, w) for x, w in e.env.items() if isinstance(w, z3.ArithRef)]
        mem = [w for w in e.env.values() if isinstance(w, Ref) and isinstance(e.heap[w.k], Mem)]
        for x in sorted(assigned):
            w = self.deref(e, e.env[x]) if x in e.env else None
            if isinstance(w, (Items, TL)) and lo_ is not None:
                den = lambda s, x=x: self.tokens(s, self.deref(s, s.env[x]), n)
                for a in range(len(seqs)):
                    for b in range(len(seqs)):
                        if a == b: continue
                        A, Bq = seqs[a], seqs[b]
                        for op, g in ((">", lambda p, q: p > q), (">=", lambda p, q: p >= q), ("=", lambda p, q: p == q)):
                            if op == "=" and a > b: continue
                            out.append(("the tokens say a %s b on the bits so far" % op, lambda s, i, A=A, Bq=Bq, g=g, den=den: den(s).den == g(smin(A, i), smin(Bq, i))))
                    for nm, c in ints:
                        if self.opaque_ok and nm not in assigned: out.append(("the tokens say bits < %s on the bits so far" % nm, lambda s, i, A=seqs[a], c=c, den=den: den(s).den == (S(A.a, i) < L(c, i))))
                for t in ([over.t] if isinstance(over, Tail) else []):
                    for nm, f in (("conjunction", conjS), ("disjunction", disjS), ("exclusive or", xorS)):
                        for p in [w for w in e.env.values() if isinstance(w, z3.BoolRef)]: out.append(("the tokens are the %s so far" % nm, lambda s, i, t=t, f=f, p=p, den=den: den(s).den == f(t, i, p)))
                if mem: out.append(("the tokens refer to stored elements only", lambda s, i, den=den: den(s).dep <= s.heap[mem[0].k].n))
                else: out.append(("the tokens have no open references", lambda s, i, den=den: den(s).dep <= 0))
            if isinstance(w, z3.ArithRef): out.append(("%s is not negative" % x, lambda s, i, x=x: s.env[x] >= 0))
        for x in sorted(appended):
            w = e.env.get(x)
            if not isinstance(w, Ref): continue
            o = e.heap[w.k]
            if isinstance(o, Mem) and lo_ is not None:
                sp = o.n - 2 * lo_
                out.append(("two elements per bit", lambda s, i, w=w: s.heap[w.k].n == sp + 2 * i))
                out.append(("the buffer grows", lambda s, i, w=w, n0=o.n: s.heap[w.k].n >= n0))
                for a in range(len(seqs)):
                    for b in range(a):
                        A, Bq = seqs[a], seqs[b]
                        out.append(("sum and carry of the bits so far", lambda s, i, A=A, Bq=Bq, w=w: S(memarr(sp), i) + z3.If(M(s.heap[w.k].n - 1), pw(i), 0) == smin(A, i) + smin(Bq, i)))
            elif lo_ is None:
                def sq(s, w=w):
                    y = s.heap[w.k]
                    if isinstance(y, Items):
                        a, k = const_arr, z3.IntVal(0)
                        for q in y.it: a = z3.Store(a, k, self.as_u(s, q)); k = k + 1
                        y = Seq(z3.simplify(k), a)
                    return y
                const_arr = fresh(AR, "empty"); j = z3.Int("j")
                out.append(("length", lambda s, i, sq=sq: sq(s).n >= 0))
                out.append(("only constants", lambda s, i, sq=sq: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sq(s).n), dep(z3.Select(sq(s).a, j)) == 0), patterns=pat(sq(s).a, j))))
                for nm, c in ints: out.append(("digits so far and the rest make up %s" % nm, lambda s, i, sq=sq, nm=nm, c=c: S(sq(s).a, sq(s).n) + s.env[nm] * pw(sq(s).n) == c))
        return out

# ------------------------------------------------------------------ contracts
class C_recurse:
    """result: pointers whose weighted sum is the value of the tree; the buffer only grows"""
    def pre(self, a): return z3.And(arith(a[0]))
    def call(self, ex, st, a, e):
        t, w, p = a[0], a[1], a[2]; m = st.heap[w.k]
        if isinstance(m, Items) and not m.it: m = Mem(z3.IntVal(0))
        ex.oblige(st, "precondition of recurseCalculationSubformula", arith(t), e)
        n2, r = fresh(I, "memlen"), Seq(fresh(I, "n"), fresh(AR, "ptrs")); st.heap[w.k] = Mem(n2); st.pc += [n2 >= m.n] + self.result(r, n2, t, p); return [(st, r)]
    def result(self, r, n, t, p):
        j = z3.Int("j"); return [r.n >= 0, S(r.a, r.n) == val(t, p), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n), dep(z3.Select(r.a, j)) <= n), patterns=pat(r.a, j))]
    def verify(self, ex, name):
        st = St(); t, p = ex.tree(st, z3.Const("tree", U)), z3.Bool("isPrimed"); m0 = z3.Int("mem0"); w = ex.alloc(st, Mem(m0)); st.pc += [arith(t), m0 >= 0]
        def post(s, r):
            r = ex.deref(s, r)
            if isinstance(r, Items):
                a, k = fresh(AR, "empty"), 0
                for q in r.it: a = z3.Store(a, k, ex.as_u(s, q)); k += 1
                r = Seq(z3.IntVal(k), a)
            n = s.heap[w.k].n; x = self.result(r, n, t, p); j = z3.Int("jj")
            return [("the buffer only grows", n >= m0), ("the result is a list", x[0]), ("the weighted sum of the bits is the value of the expression", x[1]),
                    ("the bits refer to stored elements only", z3.Implies(z3.And(0 <= j, j < r.n), dep(z3.Select(r.a, j)) <= n))]
        run(ex, name, st, [t, w, p], post)
Fadd = fn("addMinimum", U, U)
class C_addmin:
    def call(self, ex, st, a, e):
        t = a[0]; r = ex.tree(st, Fadd(t)); st.pc += self.result(t, r); return [(st, r)]
    def result(self, t, r):
        return [z3.Implies(tag(t) != code("numID"), tag(r) == tag(t)), z3.Implies(tag(t) != code("numID"), tag(r) != code("numID")), z3.Implies(arith(t), z3.And(arith(r), val(r, z3.BoolVal(False)) == aval(t, z3.BoolVal(False)), val(r, z3.BoolVal(True)) == aval(t, z3.BoolVal(True))))]
    def verify(self, ex, name):
        st = St(); t = ex.tree(st, z3.Const("tree", U))
        for k in (1, 2, 3): ex.tree(st, child(t, z3.IntVal(k)))
        def post(s, r):
            ex.tree(s, r); x = self.result(t, r)
            return [("operators keep their kind", z3.And(x[0], x[1])), ("the value with offsets becomes the value without", x[2])]
        run(ex, name, st, [t], post)
class C_cmp:
    def call(self, ex, st, a, e):
        t, p = a; ex.oblige(st, "precondition of computeCalculationSubformula", z3.And(tag(t) == code("CalculationSubformula"), arith(child(t, 1)), arith(child(t, 3))), e)
        return [(st, TL(sem(t, p), z3.IntVal(0)))]
    def verify(self, ex, name):
        st = St(); t, p = ex.tree(st, z3.Const("tree", U)), z3.Bool("isPrimed"); st.pc += [tag(t) == code("CalculationSubformula"), arith(child(t, 1)), arith(child(t, 3))]
        def post(s, r):
            x = ex.tokens(s, ex.deref(s, r), None); return [("the tokens denote the comparison", x.den == sem(t, p)), ("no open references", x.dep <= 0)]
        run(ex, name, st, [t, p], post)
class C_simple:
    def call(self, ex, st, a, e):
        t, p = a; ex.oblige(st, "precondition of parseSimpleFormula", wf(t), e); return [(st, TL(sem(t, p), z3.IntVal(0)))]
    def verify(self, ex, name):
        st = St(); t, p = ex.tree(st, z3.Const("tree", U)), z3.Bool("isPrimed"); st.pc.append(wf(t))
        def post(s, r):
            x = ex.tokens(s, ex.deref(s, r), None); return [("the tokens denote the formula", x.den == sem(t, p)), ("no open references", x.dep <= 0)]
        run(ex, name, st, [t, p], post)
def run(ex, name, st, args, post):
    d = ex.fns[name]; ex.fn = name; ex.stack = [name]; k = 0
    st.env = {a.arg: x for a, x in zip(d.args.args, args)}
    for s, sig in ex.block(st, d.body):
        if sig[0] == "raise": continue
        if sig[0] != "return": ex.oblige(s, "the function returns a value", z3.BoolVal(False), d); continue
        k += 1; ex.exits.append((name, s))
        for n, g in post(s, sig[1]): ex.oblige(s, "postcondition: " + n, g, d)
    if not k: raise Unsup("no returning path in " + name)
def limits(ex):
    """performConversion: the declaration of a bounded integer variable"""
    d = ex.fns["performConversion"]; ex.fn = "performConversion"; ex.stack = ["performConversion"]
    hit = [x.body for x in ast.walk(d) if isinstance(x, ast.If) and any(isinstance(y, ast.BinOp) and isinstance(y.op, ast.BitAnd) for z in x.body for y in ast.walk(z)) and any(isinstance(y, ast.Subscript) and getattr(y.value, "id", None) == "numberAPLimits" for z in x.body for y in ast.walk(z))]
    if not hit: raise Unsup("declaration of integer variables not found")
    body = min(hit, key=lambda b: sum(1 for z in b for _ in ast.walk(z))); st = St(); ex.opaque_ok = True; th = z3.Bool("thoroughly")
    for a in d.args.args: st.env[a.arg] = Opaque(fresh(U, a.arg))
    st.env["thoroughly"] = th; st.env["variableType"] = Opaque(z3.Const("variableType", U)); st.env["line"] = Opaque(z3.Const("line", U)); k = 0
    for s, sig in ex.block(st, body):
        if sig[0] == "raise": continue
        k += 1; ex.exits.append(("performConversion", s))
        lim = [w for kd, g, key, w in s.ev if kd == "set" and g == "numberAPLimits"]; tr = [w for kd, g, key, w in s.ev if kd == "set" and g == "translatedNames"]
        if len(lim) != 1 or len(tr) != 1: raise Unsup("tables of the variables")
        a, b, q = lim[0][1], lim[0][2], tr[0]; isin = z3.Bool("endswith_variableType_INPUT]")
        got = {}
        for kd, x, y, _ in s.ev:
            if kd != "append": continue
            key = x[2]
            if not isinstance(key, Strv): raise Unsup("section name")
            if isinstance(y, TL): got[key.s] = z3.And(got.get(key.s, z3.BoolVal(True)), y.den); ex.oblige(s, "a limit line has no open references", y.dep <= 0, body[0])
            elif not ((isinstance(y, Cat) and isinstance(y.parts[0], Strv) and y.parts[0].s.startswith("#")) or (isinstance(y, Strv) and y.s.startswith("#"))): ex.oblige(s, "only limits and comments are added", z3.BoolVal(False), body[0])
        cur = S(q.a, q.n) + a <= b; nx = S(mapprime(q.a), q.n) + a <= b; T = z3.BoolVal(True)
        for side, c in (("ENV", isin), ("SYS", z3.Not(isin))):
            o = "SYS" if side == "ENV" else "ENV"
            ex.oblige(s, "the initial %s constraint confines the variable to its range exactly" % side, z3.Implies(c, got.get("[%s_INIT]" % side, T) == cur), body[0])
            ex.oblige(s, "the %s transition constraint confines the next value to its range exactly" % side, z3.Implies(c, z3.And(z3.Implies(z3.Not(th), got.get("[%s_TRANS]" % side, T) == nx), z3.Implies(z3.And(th, cur), got.get("[%s_TRANS]" % side, T) == nx))), body[0])
            ex.oblige(s, "the other player is not constrained", z3.Implies(c, z3.And(got.get("[%s_INIT]" % o, T), got.get("[%s_TRANS]" % o, T))), body[0])
        for x in got:
            if x not in ("[ENV_INIT]", "[SYS_INIT]", "[ENV_TRANS]", "[SYS_TRANS]"): ex.oblige(s, "no other section is changed", z3.BoolVal(False), body[0])
    if not k: raise Unsup("no path")
    ex.opaque_ok = False
FUNCS = [("recurseCalculationSubformula", C_recurse), ("addMinimumValueToAllVariables", C_addmin), ("computeCalculationSubformula", C_cmp), ("parseSimpleFormula", C_simple)]
ASSUME = ["2**i & n (as a condition) is the i-th binary digit of n, and a number below 2**k is the sum of its first k digits", "the tree handed to parseSimpleFormula is one the grammar can produce (tokenizer, Parser.py, clean_tree and flatten_as_much_as_possible are only covered by the bounded search)", "LEASTSIGNIFICANTBITOVERWRITES is not ordinary arithmetic and excluded", "Python's semantics of lists, strings and integers as encoded in dv/pycomp.py; the list memoryStructureParts is not aliased"]
def build():
    ex = PyExec(REPO + "/tools/StructuredSlugsParser/compiler.py")
    for n, c in FUNCS:
        if n not in ex.fns: raise Unsup("function %s not found" % n)
        ex.contracts[n] = c()
    for n, _ in FUNCS: ex.contracts[n].verify(ex, n)
    limits(ex); return ex
def run_unit_py(jobs=8, gate=None):
    t0 = time.time()
    r = {"unit": "compiler:translate", "says": "for every expression, any number of bits: the emitted prefix formula denotes the comparison of the values; Boolean connectives denote themselves; declared limits are enforced exactly on the right player", "assumes": ASSUME, "functions": [n for n, _ in FUNCS] + ["performConversion (declaration of an integer variable)"], "obligations": 0, "discharged": 0, "by": {}, "failed": [], "status": "ok", "solver_s": 0.0, "names": []}
    try:
        ex = build()
        for n, g in (("conjunction", 0),): pass
    except (ExtractionError, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError, SyntaxError, OSError, z3.Z3Exception) as e:
        r["status"] = "unsupported"; r["why"] = "%s: %s" % (type(e).__name__, str(e)[:300]); r["wall_s"] = round(time.time() - t0, 1); return r
    lem = lemmas(); obls = ex.obls
    class Bare:
        def axioms(self): return []
        def schema_instances(self, ob): return []
    D.discharge(Bare(), lem, 5, 5, jobs); D.discharge(TH, obls, 4, 4, jobs)
    bad = [o for o in lem + obls if o.status != "proved"]
    if bad and (gate is None or gate()):
        for o in bad: o.status = None
        D.discharge(TH, [o for o in bad if o.kind != "lemma"], 30, 30, max(1, jobs // 2)); D.discharge(Bare(), [o for o in bad if o.kind == "lemma"], 30, 30, jobs)
        bad = [o for o in lem + obls if o.status != "proved"]
    al = lem + obls; r["obligations"] = len(al); r["discharged"] = len(al) - len(bad)
    for o in al:
        if o.status == "proved": r["by"][o.solver] = r["by"].get(o.solver, 0) + 1
    r["solver_s"] = round(sum(o.time for o in al), 1); r["names"] = sorted({o.name for o in al})[:60]
    r["failed"] = [{"obligation": o.name, "kind": o.kind, "function": o.fn, "line": o.where, "solver": [list(x) for x in (o.model or [])] if isinstance(o.model, list) else str(o.model), "goal": str(o.goal)[:1500]} for o in bad]
    if bad: r["status"] = "failed"
    else:
        sm = {}
        for n, s in ex.exits + ex.smokes: sm.setdefault(str(n), []).append(s)
        from concurrent.futures import ThreadPoolExecutor
        txt = {n: [D.to_smt(TH, Ob("smoke", "", None, s.pc, z3.BoolVal(False), s.trees)) for s in ss] for n, ss in sm.items()}
        def live(ts): return any(D.solve(t, 1, 1, D.STRATEGIES[:2])[0] != "proved" for t in ts)
        with ThreadPoolExecutor(jobs) as tp: res = dict(zip(txt, tp.map(live, txt.values())))
        r["smoke"] = res
        if not all(res.values()): r["status"] = "vacuous"; r["why"] = "false is derivable at: " + ", ".join(k for k, x in res.items() if not x)
    r["wall_s"] = round(time.time() - t0, 1); return r
if __name__ == "__main__":
    r = run_unit_py(); print(r["status"], r.get("why"), r["obligations"], r["discharged"], r["by"], r.get("wall_s"), r.get("smoke"))
    for f in r["failed"]: print("  ", f["obligation"], f["line"])

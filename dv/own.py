"""Ownership contracts for the Boolean function layer (BFBdd, BFBddVarCube, BFBddVarVector, BFBddManager).

A second, small executor for the pointer-level subset in which src/BFAbstractionLibrary is written: raw DdNode*
values, heap arrays, constructors/destructors/temporaries/copies/moves, and calls into CUDD.  CUDD is described by
contracts over ghost state:

* RC[n]    number of external references to (the regular version of) node n
* alive(n) RC[n] >= 1, or n is the constant, or n was returned by CUDD (or released by Cudd_Deref) and no operation
           that may collect garbage or reorder has run since
* every operation that may create nodes requires its arguments alive and ends the life of other unreferenced results
* Cudd_Ref requires alive, Cudd_RecursiveDeref requires RC[n] >= 1
* each operation's result denotes what its name says; two nodes denoting the same function are the same node

Every function is checked against: (1) for every node, RC after - RC before = handles after - handles before, over all
objects it is given, returns or destroys (no reference lost or leaked), and heap arrays likewise; (2) the invariants of
all objects hold again; (3) the returned function is the one its name denotes; (4) the preconditions of every CUDD call.
Loops are cut with invariants found by a candidate/drop procedure; the surviving ones become ordinary obligations.
Member functions called by other member functions are executed, not assumed.
"""
import z3, itertools, os
from astload import *
from sym import Unsupported, Obligation, line_of, FA, EX

Ptr = z3.DeclareSort("DdNode_p"); Arr = z3.DeclareSort("heap_array"); Mgr = z3.DeclareSort("DdManager_p"); BMp = z3.DeclareSort("BFBddManager_p")
Fn = z3.DeclareSort("Fn"); X = z3.DeclareSort("Assignment")
I, Bo = z3.IntSort(), z3.BoolSort()
PA, IA = z3.ArraySort(I, Ptr), z3.ArraySort(I, I)
NUL = {s.name(): z3.Const("NULL_" + s.name(), s) for s in (Ptr, Arr, Mgr, BMp)}
nnot = z3.Function("cudd_not", Ptr, Ptr); reg = z3.Function("cudd_regular", Ptr, Ptr); one = z3.Const("cudd_one", Ptr)
D = z3.Function("D", Ptr, Fn); h = z3.Function("h", Fn, X, Bo); wit = z3.Function("differ_at", Fn, Fn, X)
qe = z3.Function("exists_over", Fn, Fn, X, Bo)          # qe(f, cube, x)
fand = z3.Function("fand", Fn, Fn, Fn); fnot = z3.Function("fnot", Fn, Fn)
sw = z3.Function("swapped", Fn, PA, PA, I, X, Bo)
isvar = z3.Function("isvar", Ptr, Bo)
cnt = z3.Function("cnt", PA, I, Ptr, I); kdiff = z3.Function("kdiff", PA, PA, I, I)
mgrof = z3.Function("mgrof", BMp, Mgr); MGR = z3.Const("the_manager", Mgr); BM = z3.Const("the_bfmanager", BMp)
RCS = z3.ArraySort(Ptr, I)
_n = itertools.count()
def fr(name, s): return z3.Const("%s!%d" % (name, next(_n)), s)
def ite(c): return z3.If(c, z3.IntVal(1), z3.IntVal(0))
NULLP = NUL["DdNode_p"]; NULLA = NUL["heap_array"]

class Th:
    def __init__(self):
        p, q, n = z3.Consts("p q n", Ptr); f, g, c = z3.Consts("f g c", Fn); x = z3.Const("x", X)
        A, B = z3.Consts("A B", PA); i, j, k = z3.Ints("i j k")
        self.ax = [
            FA([p], z3.Implies(p != NULLP, nnot(nnot(p)) == p), patterns=[nnot(p)]), FA([p], reg(nnot(p)) == reg(p), patterns=[nnot(p)]),
            FA([p], reg(reg(p)) == reg(p), patterns=[reg(p)]), FA([p], nnot(p) != p, patterns=[nnot(p)]), FA([p], z3.Or(reg(p) == p, reg(p) == nnot(p)), patterns=[reg(p)]),
            FA([p], z3.Implies(p != NULLP, nnot(p) != NULLP), patterns=[nnot(p)]),
            FA([p], z3.Implies(p != NULLP, reg(p) != NULLP), patterns=[reg(p)]), one != NULLP, reg(one) == one,
            FA([p, x], h(D(nnot(p)), x) == z3.Not(h(D(p), x)), patterns=[h(D(nnot(p)), x)]),
            FA([x], h(D(one), x), patterns=[h(D(one), x)]),
            FA([f, g, x], h(fand(f, g), x) == z3.And(h(f, x), h(g, x)), patterns=[h(fand(f, g), x)]),
            FA([f, x], h(fnot(f), x) == z3.Not(h(f, x)), patterns=[h(fnot(f), x)]),
            FA([p, q], z3.Implies(h(D(p), wit(D(p), D(q))) == h(D(q), wit(D(p), D(q))), z3.Or(p == q, p == NULLP, q == NULLP)), patterns=[z3.MultiPattern(D(p), D(q))]),
            FA([A, n], cnt(A, 0, n) == 0, patterns=[cnt(A, 0, n)]),
            FA([A, i, n], z3.Implies(i >= 0, cnt(A, i + 1, n) == cnt(A, i, n) + ite(reg(A[i]) == n)), patterns=[cnt(A, i + 1, n)]),
            FA([A, i, n], z3.Implies(i >= 0, cnt(A, i, n) >= 0), patterns=[cnt(A, i, n)]),
            FA([A, B, i, n], z3.Or(i < 0, cnt(A, i, n) == cnt(B, i, n), z3.And(0 <= kdiff(A, B, i), kdiff(A, B, i) < i, A[kdiff(A, B, i)] != B[kdiff(A, B, i)])), patterns=[z3.MultiPattern(cnt(A, i, n), cnt(B, i, n))]),
            FA([A, i, j, n], z3.Implies(z3.And(0 <= i, i <= j), cnt(A, i, n) <= cnt(A, j, n)), patterns=[z3.MultiPattern(cnt(A, i, n), cnt(A, j, n))]),
            mgrof(BM) == MGR, MGR != NUL["DdManager_p"], BM != NUL["BFBddManager_p"]]
    def axioms(self): return self.ax
    def schema_instances(self, ob):
        """cnt step instances for every array read and every counted prefix"""
        out = []; seen = set(); sel = []; cn = []
        def rec(e):
            if e.get_id() in seen or z3.is_quantifier(e): return
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_SELECT and e.sort() == Ptr: sel.append((e.arg(0), e.arg(1)))
                if e.decl().eq(cnt): cn.append((e.arg(0), e.arg(1)))
                for c in e.children(): rec(c)
            return
        for f in ob.hyps + [ob.goal]: rec(f)
        for A, i in sel:
            n = reg(A[i])
            out.append(z3.Implies(i >= 0, cnt(A, i + 1, n) == cnt(A, i, n) + 1))
            q = z3.Const("n", Ptr)
            out.append(z3.Implies(i >= 0, FA([q], cnt(A, i + 1, q) == cnt(A, i, q) + ite(reg(A[i]) == q), patterns=[cnt(A, i, q)])))
            for B, j in cn:
                if A.eq(B) or True: out.append(z3.Implies(z3.And(i >= 0, i + 1 <= j), cnt(A, i + 1, n) <= cnt(A, j, n)))
        return out

class Obj:
    __slots__ = ("id",)
    def __init__(self, i): self.id = i
class VecEl:
    def __init__(self, vec, idx): self.vec, self.idx = vec, idx
class It:
    def __init__(self, vec, idx): self.vec, self.idx = vec, idx
class Addr:                                   # pointer to an object
    def __init__(self, o): self.o = o
class Opq: pass

class St:
    F = ("RC", "born", "epoch", "A", "I", "LEN", "LIVE", "PHASEDUMMY")
    def __init__(self):
        self.vars = {}; self.objs = {}; self.own = [[]]; self.temps = []; self.pc = []; self.this = None; self.g = {}
    def copy(self):
        r = St(); r.vars = dict(self.vars); r.objs = {k: dict(v) for k, v in self.objs.items()}; r.own = [list(x) for x in self.own]
        r.temps = list(self.temps); r.pc = list(self.pc); r.this = self.this; r.g = dict(self.g); return r
    def assume(self, f): self.pc.append(f)
CLASSES = ("BFBdd", "BFBddVarCube", "BFBddVarVector", "BFBddManager")
FIELDS = {}
def cls_of(t):
    t = t.replace("const ", "").replace(" const", "").replace("class ", "").strip()
    while t.endswith("&"): t = t[:-1].strip()
    return t
def sort_of(t):
    t = cls_of(t)
    return {"DdNode *": Ptr, "DdNode *const": Ptr, "DdManager *": Mgr, "BFBddManager *": BMp, "DdNode **": Arr, "int *": Arr, "int": I, "unsigned int": I, "size_t": I, "unsigned long": I, "bool": Bo, "size_type": I, "long": I,
            "std::vector::size_type": I, "DdConstManager *": Mgr}.get(t.replace("struct ", "").replace("*const", "*"))

GC = z3.BoolVal(True)
class Exec:
    def __init__(self, tu, th):
        self.tu, self.th = tu, th; self.obls = []; self.functions = set(); self.dropped = set(); self.exit_states = []; self.throws = []; self.fn = None; self.line = None; self.quiet = 0
        self.m = {}; self.fields = {}; self.loopn = 0
        for c in CLASSES:
            self.m[c] = []; self.fields[c] = {}
            for top in tu.load(c):
                for n in walk(top):
                    if n.get("kind") == "CXXRecordDecl" and n.get("name") == c:
                        for f in kids(n):
                            if f.get("kind") == "FieldDecl": self.fields[c][f["name"]] = qt(f)
                            if f.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"): f["_cls"] = c; self.m[c].append(f)
            ids = {x.get("id"): x for x in self.m[c]}
            for top in tu.load(c):
                if top.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and has_body(top) and top.get("previousDecl") in ids:
                    top["_cls"] = c; self.m[c].append(top)
            self.m[c] = [x for x in self.m[c] if has_body(x)]
            seen = {}
            for x in self.m[c]: seen.setdefault((x.get("name"), qt(x)), x)
            self.m[c] = list(seen.values())
    # ---- obligations
    def oblige(self, st, name, goal, kind="assert", cand=None):
        if self.quiet: return
        self.obls.append(Obligation(self.fn + ": " + name, st.pc, goal, kind, self.line, self.fn, cand, extra=[st]))
    def feasible(self, st, c):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        s = z3.Solver(); s.set("timeout", 300); s.set("auto_config", False); s.set("smt.mbqi", False)
        for a in self.th.axioms(): s.add(a)
        for a in st.pc: s.add(a)
        s.add(c); return s.check() != z3.unsat
    def branch(self, st, c):
        c = z3.simplify(c); out = []
        for val, f in ((True, c), (False, z3.Not(c))):
            if self.feasible(st, f):
                s = st.copy(); s.assume(f); out.append((s, val))
        return out
    # ---- memory
    def alive(self, st, p): return z3.Or(st.g["RC"][reg(p)] >= 1, st.g["born"][reg(p)] == st.g["epoch"], reg(p) == one)
    def read(self, st, lv):
        k = lv[0]
        if k == "v": return st.vars[lv[1]]
        if k == "f":
            o = st.objs[lv[1]]
            if o.get("dead"): raise Unsupported("use of a destroyed object")
            return o[lv[2]]
        if k == "e":
            self.oblige(st, "array access inside a live array", z3.And(st.g["LIVE"][lv[1]], 0 <= lv[2], lv[2] < st.g["LEN"][lv[1]]), "bounds")
            return z3.Select(st.g["I" if lv[3] else "A"][lv[1]], lv[2])
        if k == "vf":
            v = st.objs[lv[1]]
            self.oblige(st, "vector access in range", z3.And(0 <= lv[2], lv[2] < v["size"]), "bounds")
            if lv[3] == "node": return z3.Select(v["nodes"], lv[2])
            if lv[3] == "mgr": return MGR
            if lv[3] == "bfmanager": return BM
        raise Unsupported("read " + str(lv))
    def write(self, st, lv, v):
        k = lv[0]
        if k == "v":
            if lv[1] in st.vars and isinstance(st.vars[lv[1]], z3.ExprRef): v = self.coerce(v, st.vars[lv[1]].sort())
            st.vars[lv[1]] = v
        elif k == "f": 
            old = st.objs[lv[1]][lv[2]]; st.objs[lv[1]][lv[2]] = self.coerce(v, old.sort())
        elif k == "e":
            self.oblige(st, "array write inside a live array", z3.And(st.g["LIVE"][lv[1]], 0 <= lv[2], lv[2] < st.g["LEN"][lv[1]]), "bounds")
            m = "I" if lv[3] else "A"
            st.g[m] = z3.Store(st.g[m], lv[1], z3.Store(st.g[m][lv[1]], lv[2], v))
        else: raise Unsupported("write " + str(lv))
    def coerce(self, v, s):
        if isinstance(v, int) and v == 0: return NUL[s.name()] if s.name() in NUL else z3.IntVal(0)
        if isinstance(v, z3.ExprRef) and v.sort() != s:
            if s == Bo and v.sort() == I: return v != 0
            if s == Bo and v.sort().name() in NUL: return v != NUL[v.sort().name()]
            if s == I and v.sort() == Bo: return ite(v)
            if v.eq(z3.IntVal(0)) and s.name() in NUL: return NUL[s.name()]
            raise Unsupported("conversion %s -> %s" % (v.sort(), s))
        return v
    # ---- methods
    def find(self, cls, name, nargs=None, type_=None, kind=None):
        c = [m for m in self.m[cls] if (name is None or m.get("name") == name) and (kind is None or m["kind"] == kind) and (nargs is None or len(params(m)) == nargs)]
        if type_:
            norm = lambda t: t.replace("noexcept", "").replace(" ", "")
            c2 = [m for m in c if norm(m["type"]["qualType"]) == norm(type_)]
            if c2: c = c2
        return c
    def new_obj(self, st, cls):
        o = "o%d" % next(_n); st.objs[o] = {"cls": cls}
        for f, t in self.fields[cls].items():
            s = sort_of(t)
            if s is None: raise Unsupported("field %s %s" % (f, t))
            st.objs[o][f] = fr(f, s)
        return o
    def bind_params(self, st, m, args):
        for p, a in zip(params(m), args):
            t = qt(p)
            if isinstance(a, (Obj, VecEl)): st.vars["id" + p["id"]] = ("alias", a)
            elif t.rstrip().endswith("&") and isinstance(a, tuple): st.vars["id" + p["id"]] = ("ref", a)
            else:
                loc = "L%d" % next(_n); s = sort_of(t)
                st.vars[loc] = self.coerce(a, s) if s is not None and not isinstance(a, (Addr, It, VecEl, Opq)) else a
                st.vars["id" + p["id"]] = ("ref", ("v", loc))
    def call(self, st, m, this, args):
        """-> [(st, value)]"""
        self.functions.add(m["_cls"] + "::" + m.get("name", "?"))
        st = st.copy(); saved = st.this; st.this = this; self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 8: raise Unsupported("recursion")
        self.bind_params(st, m, args); st.own.append([]); out = []
        for s, how, v in self.stmt(body(m), st):
            for s2 in self.leave(s, len(st.own) - 1):
                s2.this = saved; out.append((s2, v))
        self.depth -= 1
        return out
    def leave(self, st, depth):
        """destroy the locals of all scopes from `depth` on"""
        sts = [st]
        while any(len(s.own) > depth for s in sts):
            nxt = []
            for s in sts:
                if not s.own[-1]: s = s.copy(); s.own.pop(); nxt.append(s)
                else:
                    s = s.copy(); o = s.own[-1].pop(); nxt += self.destroy(s, o)
            sts = nxt
        return sts
    def destroy(self, st, oid):
        o = st.objs[oid]
        if o.get("dead"): raise Unsupported("double destruction")
        if o["cls"] in ("vec", "opq"): return [st]
        d = self.find(o["cls"], None, kind="CXXDestructorDecl")
        sts = [st] if not d else [s for s, _ in self.call(st, d[0], Addr(Obj(oid)), [])]
        for s in sts: s.objs[oid]["dead"] = True
        return sts
    def construct(self, st, cls, ctype, args):
        cs = self.find(cls, None, nargs=len(args), type_=ctype, kind="CXXConstructorDecl")
        if not cs: raise Unsupported("no constructor %s %s" % (cls, ctype))
        m = cs[0]
        st = st.copy(); oid = self.new_obj(st, cls); saved = st.this; st.this = Addr(Obj(oid))
        self.functions.add(cls + "::" + m.get("name", "?")); self.bind_params(st, m, args)
        sts = [st]
        for c in kids(m):
            if c.get("kind") == "CXXCtorInitializer":
                f = c["anyInit"]["name"]; nxt = []
                for s in sts:
                    for s2, v in self.ev(kids(c)[0], s):
                        self.write(s2, ("f", oid, f), v); nxt.append(s2)
                sts = nxt
        out = []
        for s in sts:
            s.own.append([])
            for s2, how, v in self.stmt(body(m), s):
                for s3 in self.leave(s2, len(s.own) - 1): s3.this = saved; out.append((s3, Obj(oid)))
        return out
    # ---- statements: [(st, how, value)], how in fall/return/break/continue
    def stmt(self, n, st):
        k = n.get("kind"); self.line = line_of(n) or self.line
        if k == "CompoundStmt":
            cur = [(self._push(st), "fall", None)]; out = []
            for c in kids(n):
                nxt = []
                for s, hw, v in cur:
                    for r in self.stmt(c, s):
                        (nxt if r[1] == "fall" else out).append(r)
                cur = nxt
            res = []
            for s, hw, v in cur:
                for s2 in self.leave(s, len(st.own)): res.append((s2, hw, v))
            for s, hw, v in out:
                if hw == "return": res.append((s, hw, v))
                else: raise Unsupported("break/continue")
            return res
        if k == "DeclStmt":
            sts = [st]
            for d in kids(n):
                if d.get("kind") != "VarDecl": raise Unsupported("decl " + d.get("kind"))
                sts = [x for s in sts for x in self.decl(d, s)]
            return [(s, "fall", None) for s in sts]
        if k == "ReturnStmt":
            c = kids(n)
            if not c: return [(st, "return", None)]
            return [(s, "return", v) for s, v in self.ev(c[0], st)]
        if k == "IfStmt":
            c = kids(n); out = []
            for s, v in self.ev(c[0], st):
                for s2, val in self.branch(s, self.truth(v)):
                    if val: out += self.stmt(c[1], s2)
                    elif len(c) > 2: out += self.stmt(c[2], s2)
                    else: out.append((s2, "fall", None))
            return out
        if k in ("ForStmt", "WhileStmt"): return self.loop(n, st)
        if k in ("NullStmt",) or not k: return [(st, "fall", None)]
        return [(s, "fall", None) for s, _ in self.ev(n, st)]
    def _push(self, st): s = st.copy(); s.own.append([]); return s
    def decl(self, d, st):
        t = qt(d); c = [x for x in kids(d) if x.get("kind") not in ("FullComment",)]
        st = st.copy(); cls = cls_of(t)
        if cls in CLASSES and t.rstrip().endswith("&"):
            return [self._alias(s, d, v) for s, v in self.ev(c[0], st)]
        if cls in CLASSES:
            out = []
            for s, v in self.ev(c[0], st):
                if not isinstance(v, Obj): raise Unsupported("object initialiser")
                s.vars["id" + d["id"]] = ("alias", v); s.own[-1].append(v.id); out.append(s)
            return out
        out = []
        for s, v in (self.ev(c[0], st) if c else [(st, None)]):
            loc = "L%d" % next(_n); srt = sort_of(t)
            if v is None:
                if srt is None: raise Unsupported("declaration " + t)
                v = fr(d.get("name", "v"), srt)
            s.vars[loc] = self.coerce(v, srt) if srt is not None and (isinstance(v, z3.ExprRef) or isinstance(v, int)) else v
            s.vars["id" + d["id"]] = ("ref", ("v", loc)); s.vars["name" + loc] = d.get("name"); out.append(s)
        return out
    def _alias(self, s, d, v): s.vars["id" + d["id"]] = ("alias", v); return s
    def truth(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        return self.coerce(v, Bo)
    # ---- loops
    def loop(self, n, st):
        c = n.get("inner") or []
        if n["kind"] == "ForStmt": init, _, cond, inc, bd = c
        else: init, cond, inc, bd = {}, c[0], {}, c[-1]
        st = self._push(st); res = []
        lid = "%s:%s" % (self.fn, line_of(n))
        for s0, hw, _ in (self.stmt(init, st) if init.get("kind") else [(st, "fall", None)]):
            # what may change
            vs = set(); mem = set()
            for x in walk(n):
                kk = x.get("kind")
                tgt = None
                if kk in ("BinaryOperator", "CompoundAssignOperator") and x.get("opcode", "").endswith("=") and x["opcode"] not in ("==", "!=", "<=", ">="): tgt = kids(x)[0]
                if kk == "UnaryOperator" and x.get("opcode") in ("++", "--"): tgt = kids(x)[0]
                if kk == "CXXOperatorCallExpr" and kids(kids(x)[0])[0].get("referencedDecl", {}).get("name") in ("operator++", "operator--", "operator="): tgt = kids(x)[1]
                if tgt is not None:
                    while tgt.get("kind") in ("ParenExpr", "ImplicitCastExpr"): tgt = kids(tgt)[0]
                    if tgt["kind"] == "DeclRefExpr": vs.add(tgt["referencedDecl"]["id"])
                    elif tgt["kind"] == "ArraySubscriptExpr": mem.add("I" if "int" in qt(tgt) else "A")
                    else: raise Unsupported("loop assigns " + tgt["kind"])
                if kk in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                    nm = ""
                    for y in walk(kids(x)[0] if kids(x) else {}):
                        if y.get("kind") == "DeclRefExpr": nm = y["referencedDecl"].get("name", "")
                    if nm in ("Cudd_Ref", "Cudd_RecursiveDeref", "Cudd_Deref", "Cudd_IterDerefBdd"): mem |= {"RC", "born"}
                    elif nm.startswith("Cudd_bdd"): mem |= {"born", "epoch"}
                    elif kk == "CallExpr" or "BFBdd" in qt(x): mem |= {"RC", "born", "epoch"}
                if kk in ("CXXNewExpr", "CXXDeleteExpr"): raise Unsupported("allocation in a loop")
            locs = []
            for i in vs:
                b = s0.vars.get("id" + i)
                if b is None: continue                                   # declared inside
                if b[0] != "ref" or b[1][0] != "v": raise Unsupported("loop variable")
                locs.append(b[1][1])
            def hav(s):
                s = s.copy()
                for l in locs:
                    v = s.vars[l]
                    s.vars[l] = It(v.vec, fr("it", I)) if isinstance(v, It) else fr("h", v.sort())
                for mname in mem: s.g[mname] = fr(mname, s.g[mname].sort())
                return s
            cands = self.candidates(s0, locs, mem)
            H = hav(s0)
            def inst(s): return [(nm, f(s)) for nm, f in cands]
            def prove(hyps, goal):
                sol = z3.Solver(); sol.set("timeout", 1500); sol.set("auto_config", False); sol.set("smt.mbqi", False)
                ob = Obligation("", hyps, goal, "", None, None)
                for a in self.th.axioms() + hyps + self.th.schema_instances(ob): sol.add(a)
                sol.add(z3.Not(goal)); return sol.check() == z3.unsat
            if os.environ.get("OWDBG"): print("candidates", [c[0] for c in cands])
            cands = [c for c in cands if prove(s0.pc, c[1](s0))]
            if os.environ.get("OWDBG"): print("initially", [c[0] for c in cands])
            def survivors(cs):
                for rnd in range(8):
                    h0 = H.copy()
                    for nm, f in cs: h0.assume(f(h0))
                    self.quiet += 1
                    ends = self.once(h0, cond, inc, bd)[0]
                    self.quiet -= 1
                    bad = {nm for e in ends for nm, f in cs if not prove(e.pc, f(e))}
                    if not bad: break
                    cs = [c for c in cs if c[0] not in bad]
                return cs
            rcs = [c for c in cands if c[0].startswith("RC ")]; base = survivors([c for c in cands if c not in rcs])
            keep = []                                                     # the candidates about RC exclude each other: one at a time
            for c in rcs:
                if c in survivors(base + [c]): keep.append(c)
            cands = base + keep
            if keep: cands = survivors(base + keep)
            if os.environ.get("OWDBG"): print("invariant", [c[0] for c in cands])
            for nm, f in inst(s0): self.oblige(s0, "loop %s invariant %s holds initially" % (lid, nm), f, "init", (lid, nm))
            h0 = H.copy()
            for nm, f in inst(h0): h0.assume(f)
            ends, exits = self.once(h0, cond, inc, bd)
            for e in ends:
                for nm, f in inst(e): self.oblige(e, "loop %s invariant %s is preserved" % (lid, nm), f, "preserve", (lid, nm))
            for e in exits:
                for s2 in self.leave(e, len(st.own) - 1): res.append((s2, "fall", None))
        return res
    def once(self, s, cond, inc, bd):
        ends, exits = [], []
        for s1, v in (self.ev(cond, s) if cond.get("kind") else [(s, z3.BoolVal(True))]):
            for s2, val in self.branch(s1, self.truth(v)):
                if not val: exits.append(s2); continue
                for s3, hw, _ in self.stmt(bd, s2):
                    if hw != "fall": raise Unsupported("jump out of a loop")
                    for s4, hw2, _ in (self.stmt(inc, s3) if inc.get("kind") else [(s3, "fall", None)]): ends.append(s4)
        return ends, exits
    def candidates(self, s0, locs, mem):
        """invariant candidates over the counters, arrays and vectors in scope"""
        C = []; g0 = dict(s0.g); n = z3.Const("n", Ptr); x = z3.Const("x", X); k = z3.Int("k")
        ctr = [l for l in locs if isinstance(s0.vars[l], It) or (isinstance(s0.vars[l], z3.ExprRef) and s0.vars[l].sort() == I)]
        val = lambda s, l: s.vars[l].idx if isinstance(s.vars[l], It) else s.vars[l]
        nodesp = [l for l in locs if isinstance(s0.vars[l], z3.ExprRef) and s0.vars[l].sort() == Ptr]
        arrs = []; vecs = []; bounds = []
        for oid, o in s0.objs.items():
            if o.get("dead"): continue
            if o["cls"] == "vec": vecs.append(oid); bounds.append((oid + ".size", o["size"]))
            for f, v in o.items():
                if isinstance(v, z3.ExprRef) and v.sort() == Arr: arrs.append((oid + "." + f, v))
                if isinstance(v, z3.ExprRef) and v.sort() == I and o["cls"] != "vec": bounds.append((oid + "." + f, v))
        for l, v in s0.vars.items():
            if isinstance(v, z3.ExprRef) and v.sort() == Arr: arrs.append((str(s0.vars.get("name" + l, l)), v))
            if isinstance(v, z3.ExprRef) and v.sort() == I and l not in locs: bounds.append((str(s0.vars.get("name" + l, l)), v))
        uniq = {}
        for nm, v in arrs: uniq.setdefault(v.get_id(), (nm, v))
        arrs = list(uniq.values())
        rows = [(nm, (lambda s, v=v: s.g["A"][v])) for nm, v in arrs] + [(o + "[]", (lambda s, o=o: s.objs[o]["nodes"])) for o in vecs]
        rows = [(nm, f) for nm, f in rows]
        for l in ctr:
            C.append(("%s >= 0" % l, lambda s, l=l: val(s, l) >= 0))
            for bn, b in bounds: C.append(("%s <= %s" % (l, bn), lambda s, l=l, b=b: val(s, l) <= b))
            if "RC" in mem:
                for rn, r in rows:
                    C.append(("RC = RC0 + count(%s,%s)" % (rn, l), lambda s, l=l, r=r: FA([n], s.g["RC"][n] == g0["RC"][n] + cnt(r(s), val(s, l), n), patterns=[s.g["RC"][n]])))
                    C.append(("RC = RC0 - count(%s,%s)" % (rn, l), lambda s, l=l, r=r: FA([n], s.g["RC"][n] == g0["RC"][n] - cnt(r(s), val(s, l), n), patterns=[s.g["RC"][n]])))
            for m in ("A", "I"):
                if m not in mem: continue
                for an, a in arrs:
                    if m == "A":
                        for rn, r in rows:
                            if rn != an: C.append(("%s[k] = %s[k] for k < %s" % (an, rn, l), lambda s, l=l, a=a, r=r: FA([k], z3.Implies(z3.And(0 <= k, k < val(s, l)), s.g["A"][a][k] == r(s)[k]))))
                    else: C.append(("%s[k] = 1 for k < %s" % (an, l), lambda s, l=l, a=a: FA([k], z3.Implies(z3.And(0 <= k, k < val(s, l)), s.g["I"][a][k] == 1))))
            for p in nodesp:
                for o in vecs:
                    C.append(("%s is the conjunction of %s[k], k < %s" % (p, o, l), lambda s, p=p, o=o, l=l: FA([x], h(D(s.vars[p]), x) == FA([k], z3.Implies(z3.And(0 <= k, k < val(s, l)), h(D(s.objs[o]["nodes"][k]), x))))))
                    C.append(("%s is the disjunction of %s[k], k < %s" % (p, o, l), lambda s, p=p, o=o, l=l: FA([x], h(D(s.vars[p]), x) == EX([k], z3.And(0 <= k, k < val(s, l), h(D(s.objs[o]["nodes"][k]), x))))))
        for m in ("A", "I"):
            if m in mem:
                for an, a in arrs: C.append(("%s(%s) unchanged" % (m, an), lambda s, a=a, m=m: s.g[m][a] == g0[m][a]))
        if "RC" in mem:
            C.append(("RC unchanged", lambda s: s.g["RC"] == g0["RC"]))
            for p in nodesp: C.append(("RC accounts for %s" % p, lambda s, p=p: FA([n], s.g["RC"][n] == g0["RC"][n] - ite(reg(s0.vars[p]) == n) + ite(reg(s.vars[p]) == n), patterns=[s.g["RC"][n]])))
        for p in nodesp: C.append(("%s is a node" % p, lambda s, p=p: s.vars[p] != NULLP))
        return C
    # ---- expressions
    def lv(self, e, st):
        k = e.get("kind")
        if k in ("ParenExpr",) or (k == "ImplicitCastExpr" and e.get("castKind") == "NoOp"): return self.lv(kids(e)[0], st)
        if k == "DeclRefExpr":
            b = st.vars.get("id" + e["referencedDecl"]["id"])
            if b is None: raise Unsupported("variable " + e["referencedDecl"].get("name", "?"))
            return [(st, b[1])]
        if k == "MemberExpr":
            out = []
            for s, b in self.ev(kids(e)[0], st):
                if isinstance(b, Addr): b = b.o
                if isinstance(b, It): b = VecEl(b.vec, b.idx)
                if isinstance(b, Obj): out.append((s, ("f", b.id, e["name"])))
                elif isinstance(b, VecEl): out.append((s, ("vf", b.vec, b.idx, e["name"])))
                elif isinstance(b, z3.ExprRef) and b.sort() == BMp and e["name"] == "mgr":
                    self.oblige(s, "manager pointer is valid", b != NUL["BFBddManager_p"]); loc = "L%d" % next(_n); s.vars[loc] = mgrof(b); out.append((s, ("v", loc)))
                else: raise Unsupported("member %s of %s" % (e["name"], type(b).__name__))
            return out
        if k == "ArraySubscriptExpr":
            out = []
            for s, (b, i) in self.evs(kids(e), st):
                if isinstance(b, Addr) and isinstance(b.o, VecEl): out.append((s, VecEl(b.o.vec, b.o.idx + i)))
                elif isinstance(b, z3.ExprRef) and b.sort() == Arr: out.append((s, ("e", b, i, "int" in qt(e))))
                else: raise Unsupported("subscript")
            return out
        if k == "UnaryOperator" and e.get("opcode") == "*":
            return [(s, v.o if isinstance(v, Addr) else VecEl(v.vec, v.idx) if isinstance(v, It) else self._bad("deref")) for s, v in self.ev(kids(e)[0], st)]
        if k in ("BinaryOperator",) and e.get("opcode") == "=":
            out = []
            for s, v in self.ev(kids(e)[1], st):
                for s2, l in self.lv(kids(e)[0], s):
                    s2 = s2.copy()
                    self.write(s2, l, v); out.append((s2, l))
            return out
        raise Unsupported("lvalue " + str(k))
    def _bad(self, m): raise Unsupported(m)
    def evs(self, es, st):
        out = [(st, [])]
        for e in es: out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(e, s)]
        return out
    def ev(self, e, st):
        k = e.get("kind"); self.line = line_of(e) or self.line
        c = kids(e)
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "CXXFunctionalCastExpr", "ConstantExpr", "CXXDefaultArgExpr", "CXXConstCastExpr", "CXXStaticCastExpr") : return self.ev(c[0], st)
        if k == "ExprWithCleanups":
            n0 = len(st.temps); out = []
            for s, v in self.ev(c[0], st):
                sts = [s]
                while any(len(x.temps) > n0 for x in sts):
                    nxt = []
                    for x in sts:
                        if len(x.temps) > n0: x = x.copy(); nxt += self.destroy(x, x.temps.pop())
                        else: nxt.append(x)
                    sts = nxt
                out += [(x, v) for x in sts]
            return out
        if k == "CXXBindTemporaryExpr":
            out = []
            for s, v in self.ev(c[0], st):
                if not isinstance(v, Obj): raise Unsupported("temporary")
                s = s.copy(); s.temps.append(v.id); out.append((s, v))
            return out
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = e.get("castKind")
            if ck == "LValueToRValue":
                out = []
                for s, l in self.lv(c[0], st):
                    out.append((s, self.read(s, l) if isinstance(l, tuple) else l))
                return out
            if ck in ("NullToPointer",):
                t = sort_of(qt(e)); return [(st, NUL[t.name()] if t is not None and t.name() in NUL else 0)]
            if ck in ("IntegralToBoolean", "PointerToBoolean"): return [(s, self.truth(v)) for s, v in self.ev(c[0], st)]
            if ck in ("NoOp", "IntegralCast", "FunctionToPointerDecay", "ArrayToPointerDecay", "PointerToIntegral", "IntegralToPointer", "BitCast", "ConstructorConversion", "ToVoid", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase"):
                return [(s, v if not isinstance(v, z3.BoolRef) or "int" not in qt(e) and "long" not in qt(e) else ite(v)) for s, v in self.ev(c[0], st)]
            raise Unsupported("cast " + str(ck))
        if k == "IntegerLiteral": return [(st, z3.IntVal(int(e["value"])))]
        if k == "CXXBoolLiteralExpr": return [(st, z3.BoolVal(bool(e["value"])))]
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return [(st, 0)]
        if k == "CXXThisExpr": return [(st, st.this)]
        if k == "DeclRefExpr":
            b = st.vars.get("id" + e["referencedDecl"]["id"])
            if b is None: raise Unsupported("name " + e["referencedDecl"].get("name", "?"))
            return [(st, b[1])] if b[0] == "alias" else [(st, self.read(st, b[1]))] if cls_of(qt(e)) not in CLASSES else [(st, b[1])]
        if k == "MemberExpr" or k == "ArraySubscriptExpr":
            return [(s, self.read(s, l) if isinstance(l, tuple) else l) for s, l in self.lv(e, st)]
        if k == "UnaryOperator":
            op = e["opcode"]
            if op == "*": return self.lv(e, st)
            if op == "&":
                a = c[0]
                while a.get("kind") == "ParenExpr": a = kids(a)[0]
                return [(s, Addr(v)) for s, v in self.ev(a, st) if isinstance(v, (Obj, VecEl))] or self._bad("address")
            if op == "!": return [(s, z3.Not(self.truth(v))) for s, v in self.ev(c[0], st)]
            if op in ("++", "--"):
                out = []
                for s, l in self.lv(c[0], st):
                    s = s.copy(); v = self.read(s, l); d = 1 if op == "++" else -1
                    self.write(s, l, v + d); out.append((s, v if e.get("isPostfix") else v + d))
                return out
            if op == "-": return [(s, -v) for s, v in self.ev(c[0], st)]
            raise Unsupported("unary " + op)
        if k == "BinaryOperator":
            op = e["opcode"]
            if op == "=": return [(s, self.read(s, l) if isinstance(l, tuple) else l) for s, l in self.lv(e, st)]
            if op in ("&&", "||"):
                out = []
                for s, a in self.ev(c[0], st):
                    for s2, val in self.branch(s, self.truth(a)):
                        if val == (op == "||"): out.append((s2, z3.BoolVal(val)))
                        else: out += [(s3, self.truth(b)) for s3, b in self.ev(c[1], s2)]
                return out
            return [(s, self.binop(op, a, b)) for s, (a, b) in self.evs(c, st)]
        if k == "ConditionalOperator":
            out = []
            for s, v in self.ev(c[0], st):
                for s2, val in self.branch(s, self.truth(v)): out += self.ev(c[1] if val else c[2], s2)
            return out
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            cls = cls_of(qt(e))
            out = []
            for s, a in self.evs([x for x in c], st):
                if cls in CLASSES: out += self.construct(s, cls, e.get("ctorType", {}).get("qualType"), a)
                elif len(a) == 1: out.append((s, a[0]))
                else: raise Unsupported("construct " + cls)
            return out
        if k == "CXXMemberCallExpr":
            me = c[0]
            while me.get("kind") in ("ParenExpr",): me = kids(me)[0]
            if me.get("kind") != "MemberExpr": raise Unsupported("member call")
            out = []
            for s, vs in self.evs([kids(me)[0]] + c[1:], st): out += self.method(s, me["name"], vs[0], vs[1:])
            return out
        if k == "CXXOperatorCallExpr":
            nm = None
            for y in walk(c[0]):
                if y.get("kind") == "DeclRefExpr": nm = y["referencedDecl"]["name"]; ty = qt(y)
            if nm in ("operator++", "operator--"):
                out = []
                for s, l in self.lv(c[1], st):
                    s = s.copy(); v = self.read(s, l); nv = It(v.vec, v.idx + (1 if nm == "operator++" else -1)); self.write(s, l, nv); out.append((s, v if len(c) > 2 else nv))
                return out
            out = []
            for s, vs in self.evs(c[1:], st):
                a = vs[0]
                if isinstance(a, It):
                    if nm in ("operator->", "operator*"): out.append((s, a if nm == "operator->" else VecEl(a.vec, a.idx)))
                    elif nm in ("operator!=", "operator=="): out.append((s, (a.idx != vs[1].idx) if nm == "operator!=" else (a.idx == vs[1].idx)))
                    else: raise Unsupported("iterator " + nm)
                elif isinstance(a, Obj) and s.objs[a.id]["cls"] == "vec" and nm == "operator[]": out.append((s, VecEl(a.id, vs[1])))
                else: out += self.method(s, nm, a, vs[1:], ty)
            return out
        if k == "CXXNewExpr":
            out = []
            for s, n in self.ev(c[0], st):
                self.oblige(s, "array size is not negative", n >= 0)
                s = s.copy(); a = fr("new", Arr); s.assume(z3.Not(s.g["LIVE"][a])); s.assume(a != NULLA); s.assume(s.g["LEN"][a] == n)
                s.g["LIVE"] = z3.Store(s.g["LIVE"], a, True); out.append((s, a))
            return out
        if k == "CXXDeleteExpr":
            out = []
            for s, a in self.ev(c[0], st):
                s = s.copy(); self.oblige(s, "delete[] of a live array", z3.Or(a == NULLA, s.g["LIVE"][a])); s.g["LIVE"] = z3.Store(s.g["LIVE"], a, False); out.append((s, None))
            return out
        if k == "CallExpr":
            nm = None
            for y in walk(c[0]):
                if y.get("kind") == "DeclRefExpr": nm = y["referencedDecl"]["name"]
            out = []
            for s, a in self.evs(c[1:], st): out += self.cudd(s, nm, a)
            return out
        raise Unsupported("expression " + str(k))
    def binop(self, op, a, b):
        if isinstance(a, Addr) or isinstance(b, Addr):
            same = isinstance(a, Addr) and isinstance(b, Addr) and isinstance(a.o, Obj) and isinstance(b.o, Obj) and a.o.id == b.o.id
            if op in ("==", "!="): return z3.BoolVal(same == (op == "=="))
            raise Unsupported("pointer " + op)
        if isinstance(a, int): a = z3.IntVal(a)
        if isinstance(b, int): b = z3.IntVal(b)
        if a.sort() == Ptr and op in ("^",) and z3.is_int_value(b) and b.as_long() == 1: return nnot(a)
        if a.sort() == Ptr and op == "&" and z3.is_int_value(b): 
            raise Unsupported("pointer bits")
        if op in ("==", "!="):
            if a.sort() != b.sort():
                if b.sort() == I: b = self.coerce(b, a.sort())
                else: a = self.coerce(a, b.sort())
            return a == b if op == "==" else a != b
        f = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}.get(op)
        if f is None: raise Unsupported("operator " + op)
        return f()
    def method(self, s, name, b, args, ty=None):
        if isinstance(b, Addr): b = b.o
        if isinstance(b, z3.ExprRef) and b.sort() == BMp:
            ms = self.find("BFBddManager", name, len(args)); return self.call(s, ms[0], b, args) if ms else self._bad("method " + name)
        if isinstance(b, It): b = VecEl(b.vec, b.idx)
        if isinstance(b, Obj):
            o = s.objs[b.id]
            if o["cls"] == "vec":
                if name == "size": return [(s, o["size"])]
                if name in ("begin", "cbegin"): return [(s, It(b.id, z3.IntVal(0)))]
                if name in ("end", "cend"): return [(s, It(b.id, o["size"]))]
                if name in ("at",): return [(s, VecEl(b.id, args[0]))]
                raise Unsupported("vector " + name)
            t = ty[:-1].replace("(*)", "") if False else None
            ms = self.find(o["cls"], name, len(args), ty)
            if len(ms) > 1 and not ty: pass
            if not ms: raise Unsupported("method %s::%s" % (o["cls"], name))
            return self.call(s, ms[0], Addr(b), args)
        if isinstance(b, VecEl):
            ms = self.find("BFBdd", name, len(args), ty)
            if not ms: raise Unsupported("method " + name)
            return self.call(s, ms[0], Addr(b), args)
        raise Unsupported("method %s on %s" % (name, type(b).__name__))
    # ---- contracts of CUDD
    def cudd(self, s, nm, a):
        s = s.copy(); g = s.g; x = z3.Const("x", X)
        def node(p):
            self.oblige(s, nm + ": argument is a node", p != NULLP); self.oblige(s, nm + ": argument is referenced or fresh", self.alive(s, p))
        def mgr(m): self.oblige(s, nm + ": manager is the manager of the nodes", m == MGR)
        def fresh_node(den, gc=True):
            if gc: g["epoch"] = g["epoch"] + 1; g["born"] = g["born"]
            r = fr("res", Ptr); s.assume(r != NULLP); g["born"] = z3.Store(g["born"], reg(r), g["epoch"])
            if den is not None: s.assume(FA([x], h(D(r), x) == den(x), patterns=[h(D(r), x)]))
            return [(s, r)]
        H = lambda p: (lambda y: h(D(p), y))
        two = {"Cudd_bddAnd": lambda f, k: z3.And(f, k), "Cudd_bddOr": lambda f, k: z3.Or(f, k), "Cudd_bddXor": lambda f, k: f != k, "Cudd_bddXnor": lambda f, k: f == k, "Cudd_bddNand": lambda f, k: z3.Not(z3.And(f, k)), "Cudd_bddNor": lambda f, k: z3.Not(z3.Or(f, k))}
        if nm in two:
            mgr(a[0]); node(a[1]); node(a[2]); return fresh_node(lambda y: two[nm](H(a[1])(y), H(a[2])(y)))
        if nm == "Cudd_bddIte": mgr(a[0]); [node(p) for p in a[1:4]]; return fresh_node(lambda y: z3.If(H(a[1])(y), H(a[2])(y), H(a[3])(y)))
        if nm in ("Cudd_bddRestrict", "Cudd_bddLICompaction", "Cudd_bddConstrain", "Cudd_bddMinimize", "Cudd_bddSqueeze"):
            mgr(a[0]); node(a[1]); node(a[2])
            r = fresh_node(None)
            r[0][0].assume(FA([x], z3.Implies(H(a[2])(x), H(r[0][1])(x) == H(a[1])(x)), patterns=[H(r[0][1])(x)])); return r
        if nm == "Cudd_bddExistAbstract": mgr(a[0]); node(a[1]); node(a[2]); return fresh_node(lambda y: qe(D(a[1]), D(a[2]), y))
        if nm == "Cudd_bddUnivAbstract":
            mgr(a[0]); node(a[1]); node(a[2]); return fresh_node(lambda y: z3.Not(qe(fnot(D(a[1])), D(a[2]), y)))
        if nm == "Cudd_bddAndAbstract": mgr(a[0]); [node(p) for p in a[1:4]]; return fresh_node(lambda y: qe(fand(D(a[1]), D(a[2])), D(a[3]), y))
        if nm == "Cudd_bddSwapVariables":
            mgr(a[0]); node(a[1])
            self.oblige(s, nm + ": both arrays are live and have at least n elements", z3.And(g["LIVE"][a[2]], g["LIVE"][a[3]], a[4] <= g["LEN"][a[2]], a[4] <= g["LEN"][a[3]]))
            return fresh_node(lambda y: sw(D(a[1]), g["A"][a[2]], g["A"][a[3]], a[4], y))
        if nm == "Cudd_bddComputeCube":
            mgr(a[0]); k = fr("k", I); A = g["A"][a[1]]; n = a[3]
            self.oblige(s, nm + ": the array is live and has n elements", z3.And(g["LIVE"][a[1]], n <= g["LEN"][a[1]], n >= 0))
            self.oblige(s, nm + ": elements are referenced nodes", FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(A[k] != NULLP, self.alive(s, A[k])))))
            ph = None
            if isinstance(a[2], z3.ExprRef) and a[2].sort() == Arr:
                self.oblige(s, nm + ": the phase array is live and has n elements", z3.Or(a[2] == NULLA, z3.And(g["LIVE"][a[2]], n <= g["LEN"][a[2]]))); P = g["I"][a[2]]; ph = lambda j: z3.Or(a[2] == NULLA, P[j] != 0)
            elif isinstance(a[2], int): ph = lambda j: z3.BoolVal(True)
            j = z3.Int("j")
            return fresh_node(lambda y: FA([j], z3.Implies(z3.And(0 <= j, j < n), h(D(A[j]), y) == ph(j))))
        if nm == "Cudd_bddNewVar":
            mgr(a[0]); r = fresh_node(None); r[0][0].assume(isvar(r[0][1])); return r
        if nm in ("Cudd_ReadOne", "Cudd_ReadLogicZero"): mgr(a[0]); return [(s, one if nm == "Cudd_ReadOne" else nnot(one))]
        if nm == "Cudd_bddLeq":
            mgr(a[0]); node(a[1]); node(a[2]); r = fr("leq", I); w = wit(D(a[1]), D(a[2])); y = z3.Const("y_leq", X)
            wx = fr("w", X)
            s.assume(z3.Implies(r != 0, FA([x], z3.Implies(H(a[1])(x), H(a[2])(x)), patterns=[H(a[1])(x), H(a[2])(x)]))); s.assume(z3.Implies(r == 0, z3.And(H(a[1])(wx), z3.Not(H(a[2])(wx)))))
            return [(s, r)]
        if nm == "Cudd_Ref":
            p = a[0]; node(p); g["RC"] = z3.Store(g["RC"], reg(p), g["RC"][reg(p)] + 1); return [(s, None)]
        if nm in ("Cudd_RecursiveDeref", "Cudd_IterDerefBdd", "Cudd_Deref"):
            p = a[-1]
            if len(a) == 2: mgr(a[0])
            self.oblige(s, nm + ": argument is a node", p != NULLP); self.oblige(s, nm + ": a reference is held", z3.Select(g["RC"], reg(p)) >= 1)
            g["RC"] = z3.Store(g["RC"], reg(p), g["RC"][reg(p)] - 1)
            g["born"] = z3.Store(g["born"], reg(p), g["epoch"] if nm == "Cudd_Deref" else g["epoch"] - 1); return [(s, None)]
        if nm in ("Cudd_IsConstant",): node(a[0]); return [(s, ite(z3.Or(a[0] == one, a[0] == nnot(one))))]
        if nm in ("Cudd_DagSize", "Cudd_NodeReadIndex", "Cudd_CountPathsToNonZero"):
            node(a[0]); return [(s, fr("r", I))]
        raise Unsupported("call of " + str(nm))

# ------------------------------------------------------------------ specifications
def BOOL(v): return v != 0 if isinstance(v, z3.ExprRef) and v.sort() == I else v
def handles(ex, st, oid, n):
    """references to node n that object oid accounts for"""
    o = st.objs[oid]
    if o.get("dead"): return z3.IntVal(0)
    if o["cls"] == "BFBdd": return z3.If(z3.And(o["node"] != NULLP, reg(o["node"]) == n), 1, 0)
    if o["cls"] == "BFBddVarCube": return z3.If(z3.And(o["cube"] != NULLP, reg(o["cube"]) == n), 1, 0)
    if o["cls"] == "BFBddVarVector": return z3.If(o["nodes"] == NULLA, 0, cnt(st.g["A"][o["nodes"]], o["nofNodes"], n))
    return z3.IntVal(0)
def owned(st, oid, a):
    o = st.objs[oid]
    return z3.And(o["nodes"] == a, a != NULLA) if o["cls"] == "BFBddVarVector" and not o.get("dead") else z3.BoolVal(False)
def inv(st, oid):
    o = st.objs[oid]; k = z3.Int("k")
    if o["cls"] == "BFBdd": return z3.Implies(o["node"] != NULLP, z3.And(o["mgr"] == MGR, o["bfmanager"] == BM))
    if o["cls"] == "BFBddVarCube": return z3.Implies(o["cube"] != NULLP, o["mgr"] == MGR)
    if o["cls"] == "BFBddVarVector":
        return z3.And(o["nofNodes"] >= 0, z3.Implies(o["nodes"] == NULLA, o["nofNodes"] == 0), z3.Implies(o["nodes"] != NULLA, z3.And(o["mgr"] == MGR, st.g["LIVE"][o["nodes"]], o["nofNodes"] <= st.g["LEN"][o["nodes"]], FA([k], z3.Implies(z3.And(0 <= k, k < o["nofNodes"]), st.g["A"][o["nodes"]][k] != NULLP)))))
    return z3.BoolVal(True)
x_ = z3.Const("x", X)
def same(f, g): return FA([x_], f(x_) == g(x_))
def den(p): return lambda x: h(D(p), x)

def specs():
    """(class, name, kind, param classes) -> dict(valid: which arguments must be valid, post)"""
    S = {}
    def b(name, op, post, valid=True): S[("BFBdd", name)] = dict(valid=valid, post=post)
    def R(f):      # result denotes f(this, other)
        return lambda c: [("the result denotes the function its name says", same(den(c.res("node")), lambda x: f(*[den(p)(x) for p in c.in_nodes])))]
    S["BFBdd::operator&"] = R(lambda a, o: z3.And(a, o)); S["BFBdd::operator|"] = R(lambda a, o: z3.Or(a, o)); S["BFBdd::operator^"] = R(lambda a, o: a != o)
    S["BFBdd::operator-"] = R(lambda a, o: z3.And(a, z3.Not(o))); S["BFBdd::operator!"] = R(lambda a: z3.Not(a)); S["BFBdd::Implies"] = R(lambda a, o: z3.Or(z3.Not(a), o))
    def upd(f): return lambda c: [("the object denotes the function its name says", same(den(c.now("this", "node")), lambda x: f(*[den(p)(x) for p in c.in_nodes]))), ("the returned value equals the object", c.res("node") == c.now("this", "node"))]
    S["BFBdd::operator&="] = upd(lambda a, o: z3.And(a, o)); S["BFBdd::operator|="] = upd(lambda a, o: z3.Or(a, o))
    care = lambda c: [("the result agrees with the object on the care set", FA([x_], z3.Implies(den(c.in_nodes[1])(x_), den(c.res("node"))(x_) == den(c.in_nodes[0])(x_))))]
    S["BFBdd::optimizeRestrict"] = care; S["BFBdd::minimizeUsingCareSet"] = care
    S["BFBdd::ExistAbstract"] = S["BFBdd::ExistAbstractSingleVar"] = lambda c: [("the result is the existential abstraction", same(den(c.res("node")), lambda x: qe(D(c.in_nodes[0]), D(c.in_nodes[1]), x)))]
    S["BFBdd::UnivAbstract"] = S["BFBdd::UnivAbstractSingleVar"] = lambda c: [("the result is the universal abstraction", same(den(c.res("node")), lambda x: z3.Not(qe(fnot(D(c.in_nodes[0])), D(c.in_nodes[1]), x))))]
    S["BFBdd::AndAbstract"] = lambda c: [("the result is the existential abstraction of the conjunction", same(den(c.res("node")), lambda x: qe(fand(D(c.in_nodes[0]), D(c.in_nodes[1])), D(c.in_nodes[2]), x)))]
    S["BFBdd::SwapVariables"] = lambda c: [("the result has the variables of the two vectors exchanged", same(den(c.res("node")), lambda x: sw(D(c.in_nodes[0]), c.arr(1), c.arr(2), c.vlen(1), x)))]
    T = lambda f: (lambda c: [("the answer is right", BOOL(c.ret) == f(c))])
    eqf = lambda c: FA([x_], den(c.in_nodes[0])(x_) == den(c.in_nodes[1])(x_))
    leq = lambda a, o: FA([x_], z3.Implies(den(a)(x_), den(o)(x_)))
    S["BFBdd::operator=="] = T(eqf); S["BFBdd::operator!="] = T(lambda c: z3.Not(eqf(c))); S["BFBdd::ReachedLeastFixedPoint"] = T(eqf); S["BFBdd::ReachedGratestFixedPoint"] = T(eqf)
    S["BFBdd::operator<="] = T(lambda c: leq(c.in_nodes[0], c.in_nodes[1])); S["BFBdd::operator>="] = T(lambda c: leq(c.in_nodes[1], c.in_nodes[0]))
    S["BFBdd::operator<"] = T(lambda c: z3.And(leq(c.in_nodes[0], c.in_nodes[1]), z3.Not(eqf(c)))); S["BFBdd::operator>"] = T(lambda c: z3.And(leq(c.in_nodes[1], c.in_nodes[0]), z3.Not(eqf(c))))
    S["BFBdd::isTrue"] = T(lambda c: FA([x_], den(c.in_nodes[0])(x_))); S["BFBdd::isFalse"] = T(lambda c: FA([x_], z3.Not(den(c.in_nodes[0])(x_))))
    S["BFBdd::isConstant"] = T(lambda c: z3.Or(FA([x_], den(c.in_nodes[0])(x_)), FA([x_], z3.Not(den(c.in_nodes[0])(x_)))))
    S["BFBdd::isValid"] = lambda c: [("the answer is right", BOOL(c.ret) == (c.in_nodes[0] != NULLP))]
    S["BFBdd::getSize"] = S["BFBdd::readNodeIndex"] = S["BFBdd::getNofMinterms"] = lambda c: []
    S["BFBdd::getCuddNode"] = lambda c: [("the node is returned", c.ret == c.in_nodes[0])]
    S["BFBdd::getHashCode"] = lambda c: [("the node is returned", c.ret == c.in_nodes[0])]
    S["BFBdd::manager"] = lambda c: [("the manager is returned", c.ret == BM)]
    S["BFBddVarCube::size"] = lambda c: [("the size is returned", c.ret == c.was("this", "cubeSize"))]
    S["BFBddVarVector::size"] = lambda c: [("the size is returned", c.ret == c.was("this", "nofNodes"))]
    S["BFBddManager::constantTrue"] = lambda c: [("the result is the constant true", FA([x_], den(c.res("node"))(x_)))]
    S["BFBddManager::constantFalse"] = lambda c: [("the result is the constant false", FA([x_], z3.Not(den(c.res("node"))(x_))))]
    S["BFBddManager::newVariable"] = lambda c: [("the result is a fresh variable", isvar(c.res("node")))]
    k = z3.Int("k")
    S["BFBddManager::multiAnd"] = lambda c: [("the result is the conjunction of all parts", FA([x_], den(c.res("node"))(x_) == FA([k], z3.Implies(z3.And(0 <= k, k < c.vsize()), den(c.vnodes()[k])(x_)))))]
    S["BFBddManager::multiOr"] = lambda c: [("the result is the disjunction of all parts", FA([x_], den(c.res("node"))(x_) == EX([k], z3.And(0 <= k, k < c.vsize(), den(c.vnodes()[k])(x_)))))]
    S["BFBddManager::computeCube"] = lambda c: [("the result is the cube of the variables in their phases", FA([x_], den(c.res("cube"))(x_) == FA([k], z3.Implies(z3.And(0 <= k, k < c.vsize()), den(c.vnodes()[k])(x_) == c.phase(k))))), ("its size is the number of variables", c.res("cubeSize") == c.vsize())]
    S["BFBddManager::computeVarVector"] = lambda c: [("the result lists the variables in order", z3.And(c.res("nofNodes") == c.vsize(), FA([k], z3.Implies(z3.And(0 <= k, k < c.vsize()), c.st.g["A"][c.res("nodes")][k] == c.vnodes()[k]))))]
    S["BFBddManager::getMgr"] = lambda c: [("the manager is returned", c.ret == MGR)]
    return S
ANYSTATE = {"BFBdd::isValid", "BFBddVarCube::size", "BFBddVarVector::size", "BFBddManager::getMgr"}
SKIP = {"BFBdd::getNofSatisfyingAssignments": "recursion over the node structure of CUDD with a memo table: bounded check only", "BFBddManager::BFBddManager": "configures CUDD only", "BFBddManager::~BFBddManager": "ends CUDD", "BFBddManager::setAutomaticOptimisation": "configures CUDD only",
        "BFBddManager::setReorderingMaxBlowup": "configures CUDD only", "BFBddManager::printStats": "prints", "BFBddManager::readBDDFromFile": "file format of dddmp: bounded check only", "BFBddManager::writeBDDToFile": "file format of dddmp: bounded check only"}

class Ctx: pass
def check_method(ex, th, m, S, alias=False):
    cls = m["_cls"]; name = m.get("name"); kind = m["kind"]; key = cls + "::" + name
    ex.fn = key + (" [aliased]" if alias else "") + " " + qt(m)
    st = St(); c = Ctx()
    st.g = {"RC": z3.Const("RC0", RCS), "born": fr("born", RCS), "epoch": fr("epoch", I), "A": fr("A", z3.ArraySort(Arr, PA)), "I": fr("Ia", z3.ArraySort(Arr, IA)), "LEN": fr("LEN", z3.ArraySort(Arr, I)), "LIVE": fr("LIVE", z3.ArraySort(Arr, Bo))}
    st.assume(z3.Not(st.g["LIVE"][NULLA])); n = z3.Const("n", Ptr); aa = z3.Const("a", Arr)
    given = []; nodes = []
    def obj(cl):
        o = ex.new_obj(st, cl); given.append(o); st.assume(inv(st, o)); return o
    need = kind == "CXXMethodDecl" and name != "operator=" and key not in ANYSTATE
    def valid(o):
        f = {"BFBdd": "node", "BFBddVarCube": "cube"}.get(st.objs[o]["cls"])
        if f and need: st.assume(st.objs[o][f] != NULLP)
        if st.objs[o]["cls"] == "BFBddVarVector" and need and key not in ANYSTATE: st.assume(st.objs[o]["nodes"] != NULLA)
    this = None
    if kind != "CXXConstructorDecl":
        if cls == "BFBddManager": this = BM
        else:
            o = obj(cls); valid(o); this = Addr(Obj(o))
            if cls == "BFBdd": nodes.append(st.objs[o]["node"])
    args = []; vec = None; phase = None; pv = []
    for p in params(m):
        t = qt(p); cl = cls_of(t)
        if cl in CLASSES and t.rstrip().endswith("&"):
            if alias and this is not None and cl == cls: o = this.o.id
            else: o = obj(cl); valid(o)
            args.append(Obj(o)); nodes.append(st.objs[o].get("node", st.objs[o].get("cube"))); pv.append(o)
        elif cl in ("std::vector<BFBdd>",) or t.replace(" ", "") == "constBFBdd*":
            v = "vec%d" % next(_n); st.objs[v] = {"cls": "vec", "size": fr("size", I), "nodes": fr("vnodes", PA)}; vec = v; kq = z3.Int("k")
            st.assume(st.objs[v]["size"] >= 0)
            args.append(Obj(v) if "vector" in t else Addr(VecEl(v, z3.IntVal(0))))
        elif sort_of(t) is not None:
            s = sort_of(t); a = fr(p.get("name", "arg"), s)
            if s == Mgr: a = MGR
            if s == BMp: a = BM
            if s == I and vec is not None: a = st.objs[vec]["size"]
            if s == Arr: phase = a; 
            if s == Ptr: st.assume(a != NULLP); st.assume(ex.alive(st, a)); nodes.append(a)
            args.append(a)
        else: raise Unsupported("parameter " + t)
    if phase is not None and vec is not None: st.assume(st.g["LIVE"][phase]); st.assume(st.g["LEN"][phase] >= st.objs[vec]["size"])
    rest = z3.Function("rest!%d" % next(_n), Ptr, I)
    total = lambda s, os: (lambda q: sum([handles(ex, s, o, q) for o in os], z3.IntVal(0)))
    before = total(st, given)
    st.assume(FA([n], rest(n) >= 0, patterns=[rest(n)])); st.assume(FA([n], st.g["RC"][n] == rest(n) + before(n), patterns=[st.g["RC"][n]]))
    if vec is not None:
        kq = z3.Int("k"); v = st.objs[vec]
        st.assume(FA([kq], z3.Implies(z3.And(0 <= kq, kq < v["size"]), z3.And(v["nodes"][kq] != NULLP, rest(reg(v["nodes"][kq])) >= 1)), patterns=[v["nodes"][kq]]))
    vv = [o for o in given if st.objs[o]["cls"] == "BFBddVarVector"]
    if name == "SwapVariables" and len(vv) == 2: st.assume(st.objs[vv[0]]["nofNodes"] == st.objs[vv[1]]["nofNodes"])      # precondition: vectors of equal length
    if len(vv) == 2: st.assume(z3.Or(st.objs[vv[0]]["nodes"] == NULLA, st.objs[vv[0]]["nodes"] != st.objs[vv[1]]["nodes"]))
    liverest = lambda s, os, a: z3.And(s.g["LIVE"][a], z3.Not(z3.Or([owned(s, o, a) for o in os] + [z3.BoolVal(False)])))
    old = st.copy(); c.old = old
    if kind == "CXXConstructorDecl":
        ends = ex.construct(st, cls, qt(m), args)
    else: ends = ex.call(st, m, this, args)
    for s, v in ends:
        if s.temps: raise Unsupported("temporaries left")
        os = list(given); out = None
        if kind == "CXXDestructorDecl": s.objs[this.o.id]["dead"] = True
        if isinstance(v, Obj) and v.id not in os: os.append(v.id); out = v.id
        if kind == "CXXConstructorDecl": out = v.id
        live = [o for o in os if not s.objs[o].get("dead")]
        # references and arrays
        nn = fr("n", Ptr); after = total(s, live)
        ex.oblige(s, "no reference lost or leaked", z3.Implies(z3.BoolVal(True), s.g["RC"][nn] == rest(nn) + after(nn)), "post")
        a = fr("a", Arr)
        ex.oblige(s, "no heap array lost, leaked or shared", z3.And(liverest(s, live, a) == liverest(old, given, a), z3.And([z3.Implies(owned(s, o, a), s.g["LIVE"][a]) for o in live] + [z3.Not(z3.And(owned(s, o1, a), owned(s, o2, a))) for o1 in live for o2 in live if o1 < o2] + [z3.BoolVal(True)])), "post")
        for o in live: ex.oblige(s, "the invariant of every object holds", inv(s, o), "post")
        # frame: arguments other than the target keep their value
        for o in given:
            tgt = this is not None and isinstance(this, Addr) and o == this.o.id
            if s.objs[o].get("dead"): continue
            mut = tgt and name in ("operator=", "operator&=", "operator|=") or (any("&&" in qt(p) for p in params(m)) and not tgt)
            if mut: continue
            for f, val in old.objs[o].items():
                if isinstance(val, z3.ExprRef): ex.oblige(s, "the argument keeps its value", s.objs[o][f] == val, "frame")
            if old.objs[o]["cls"] == "BFBddVarVector":
                kk = fr("k", I); ex.oblige(s, "the argument keeps its elements", z3.Implies(z3.And(old.objs[o]["nodes"] != NULLA, 0 <= kk, kk < old.objs[o]["nofNodes"]), s.g["A"][old.objs[o]["nodes"]][kk] == old.g["A"][old.objs[o]["nodes"]][kk]), "frame")
        c.st = s; c.ret = v; c.in_nodes = nodes
        c.res = lambda f, s=s, out=out: s.objs[out][f]
        c.now = lambda o, f, s=s: s.objs[this.o.id][f]
        c.was = lambda o, f: old.objs[this.o.id][f]
        c.arr = lambda i: old.g["A"][old.objs[pv[i-1]]["nodes"]]
        c.vlen = lambda i: old.objs[pv[i-1]]["nofNodes"]
        c.vsize = lambda: old.objs[vec]["size"]; c.vnodes = lambda: old.objs[vec]["nodes"]
        c.phase = lambda k: z3.BoolVal(True) if phase is None else old.g["I"][phase][k] != 0
        posts = []
        def copied(src, dst):
            so, do = old.objs[src], s.objs[dst]
            if so["cls"] == "BFBddVarVector":
                kk = z3.Int("k")
                return z3.And(do["nofNodes"] == so["nofNodes"], (do["nodes"] == NULLA) == (so["nodes"] == NULLA), z3.Implies(so["nodes"] != NULLA, FA([kk], z3.Implies(z3.And(0 <= kk, kk < so["nofNodes"]), s.g["A"][do["nodes"]][kk] == old.g["A"][so["nodes"]][kk]))))
            f = "cube" if so["cls"] == "BFBddVarCube" else "node"
            return z3.And([do[f] == so[f]] + [z3.Implies(so[f] != NULLP, do[g] == so[g]) for g in so if g in ("cubeSize",)])
        if kind == "CXXConstructorDecl" or name == "operator=":
            dst = out if kind == "CXXConstructorDecl" else this.o.id
            if pv and s.objs[dst]["cls"] == old.objs[pv[0]]["cls"]:
                posts.append(("the copy has the value of the source", copied(pv[0], dst)))
            elif pv: posts.append(("the cube is the variable and has one element", z3.And(s.objs[dst]["cube"] == old.objs[pv[0]]["node"], z3.Implies(old.objs[pv[0]]["node"] != NULLP, s.objs[dst]["cubeSize"] == 1))))
            elif not params(m):
                o = s.objs[dst]; posts.append(("the object is empty", (o["nodes"] == NULLA) if cls == "BFBddVarVector" else (o.get("node", o.get("cube")) == NULLP)))
            else:
                o = s.objs[dst]; posts.append(("the object holds the node", o.get("node", o.get("cube")) == nodes[0]))
                if cls == "BFBddVarCube": posts.append(("the cube has the given size", o["cubeSize"] == args[-1]))
        elif kind == "CXXMethodDecl": posts = S[key](c)
        for nm, f in posts: ex.oblige(s, nm, f, "post")
        ex.exit_states.append(s)

def cnt_lemmas(ex):
    """the facts about cnt that are used as axioms, by induction from its recursive definition"""
    A, B = z3.Consts("LA LB", PA); n = z3.Const("Ln", Ptr); i, j = z3.Ints("Li Lj"); k = z3.Int("Lk")
    step = lambda M, q: cnt(M, q + 1, n) == cnt(M, q, n) + ite(reg(M[q]) == n)
    def ob(name, hyps, goal): ex.lem.append(Obligation("lemma: " + name, hyps, goal, "lemma", None, "cnt", None, extra=[]))
    ex.lem = []
    ob("cnt >= 0, base", [cnt(A, 0, n) == 0], cnt(A, 0, n) >= 0)
    ob("cnt >= 0, step", [i >= 0, step(A, i), cnt(A, i, n) >= 0], cnt(A, i + 1, n) >= 0)
    ob("cnt monotone, base", [], cnt(A, i, n) <= cnt(A, i, n))
    ob("cnt monotone, step", [i >= 0, i <= j, step(A, j), cnt(A, i, n) <= cnt(A, j, n)], cnt(A, i, n) <= cnt(A, j + 1, n))
    ob("cnt of equal prefixes, base", [cnt(A, 0, n) == 0, cnt(B, 0, n) == 0], cnt(A, 0, n) == cnt(B, 0, n))
    ob("cnt of equal prefixes, step", [i >= 0, step(A, i), step(B, i), A[i] == B[i], cnt(A, i, n) == cnt(B, i, n)], cnt(A, i + 1, n) == cnt(B, i + 1, n))

def run_class(cls):
    th = Th(); tu = TU(path="src/BFAbstractionLibrary/BFCuddManager.cpp"); ex = Exec(tu, th); S = specs(); seen = set()
    for m in ex.m[cls]:
        key = cls + "::" + m.get("name")
        if m.get("isImplicit") or key in SKIP: continue
        if m["kind"] == "CXXMethodDecl" and m["name"] != "operator=" and key not in S: ex.dropped.add("no contract for " + key + " (executed where it is called)"); continue
        if m["kind"] != "CXXDestructorDecl" and (key, qt(m)) in seen: continue
        seen.add((key, qt(m)))
        check_method(ex, th, m, S)
        if m["kind"] == "CXXMethodDecl" and any(cls_of(qt(p)) == cls for p in params(m)): check_method(ex, th, m, S, alias=True)
    return th, ex
if __name__ == "__main__":
    import sys
    from discharge import *
    for c in sys.argv[1:]:
        th, ex = run_class(c); print(c, len(ex.obls), sorted(ex.functions))
        discharge(th, ex.obls, 4, 10)
        bad = [o for o in ex.obls if o.status != "proved"]
        print(len(ex.obls) - len(bad), "discharged")
        for o in bad: print("  ", o.status, o.name, o.where)

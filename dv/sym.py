"""Contract-based symbolic executor (verification-condition generator) for the C++ subset used by the
synthesis code of /repo.  It works on clang's AST of the real sources (astload.py).

* functions with a contract are checked against it; at call sites only the contract is used
* functions without a contract are inlined (so extracting or merging helpers does not matter)
* every loop is cut by an invariant: init / preservation obligations, havoc of the modified locations
* vector accesses and iterator dereferences give bounds obligations
* Boolean functions (BF) are predicates over the coordinates of a Theory (pre/post input/output ...)

Integers of the program are mathematical integers (assumption, listed in the evidence).
"""
import z3, itertools, re
from astload import *

class Unsupported(ExtractionError): pass

# ------------------------------------------------------------------ values
_fresh = itertools.count()
def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_fresh)), sort)

def flatten(xs):
    out = []
    for x in xs:
        if isinstance(x, (tuple, list)): out += flatten(x)
        else: out.append(x)
    return out
def FA(vs, body, **kw): return z3.ForAll(flatten(vs), body, **kw)
def EX(vs, body, **kw): return z3.Exists(flatten(vs), body, **kw)

class BFV:
    """a Boolean function: denotation closure over coordinates, and (on demand) a term of sort B"""
    __slots__ = ("th", "fn", "t", "dep")
    def __init__(self, th, fn=None, t=None, dep=None):
        """dep: the coordinates it depends on (None: not tracked)"""
        self.th, self.fn, self.t, self.dep = th, fn, t, dep
        if fn is None:
            self.fn = lambda xs, th=th, t=t: th.holds(t, *xs)
    def at(self, xs):
        xs = flatten(xs)
        if self.dep is not None: xs = self.th.dflt([d for d in range(len(xs)) if d not in self.dep], xs)
        return self.fn(tuple(xs))

class StructV:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f): self.cls, self.f = cls, dict(f)
    def get(self, n): return self.f[n]
    def set(self, n, v):
        r = StructV(self.cls, self.f); r.f[n] = v; return r
class VecV:
    """vector/list/set-as-sequence: size and columns (one z3 array per leaf of the element type)"""
    __slots__ = ("et", "size", "cols")
    def __init__(self, et, size, cols): self.et, self.size, self.cols = et, size, cols
class IterV:
    __slots__ = ("lv", "idx")
    def __init__(self, lv, idx): self.lv, self.idx = lv, idx
class PtrV:
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv
class CubeV:
    def __init__(self, types, ordered): self.types, self.ordered = tuple(types), ordered
class StrV:
    """string: literal text s and/or a term t of the theory's sort of strings"""
    def __init__(self, s=None, t=None): self.s = s; self.t = t
class OpaqueV:
    def __init__(self, why="", ty=""): self.why = why; self.ty = ty
class FunV:
    def __init__(self, name): self.name = name

# ------------------------------------------------------------------ types
def split_targs(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
INTS = {"int", "unsigned int", "unsigned", "size_t", "unsigned long", "long", "size_type", "unsigned char", "char", "short", "unsigned short", "long long", "unsigned long long", "uint", "difference_type",
        "std::vector::size_type", "VariableType"}
def parse_type(s):
    s = s.strip()
    s = re.sub(r"\b(const|volatile|struct|class|enum)\b", "", s).strip()
    ref = False
    while s.endswith("&"): s = s[:-1].strip(); ref = True
    s = re.sub(r"\s+", " ", s)
    if s.endswith("*"): return ("ptr", parse_type(s[:-1]))
    if s in ("BF", "BFBdd"): return ("BF",)
    if s in ("bool", "_Bool"): return ("bool",)
    if s in INTS or s.endswith("::size_type"): return ("int",)
    if s in ("double", "float"): return ("real",)
    if s.startswith("std::basic_string") or s in ("std::string", "string"): return ("str",)
    m = re.match(r"^(?:boost::)?(?:std::)?(?:tuples::)?tuple<(.*)>$", s)
    if m: return ("tuple",) + tuple(parse_type(x) for x in split_targs(m.group(1)) if not x.endswith("null_type"))
    m = re.match(r"^(?:std::)?(?:__cxx11::)?(vector|list|pair|set|map)<(.*)>$", s)
    if m:
        a = split_targs(m.group(2))
        if m.group(1) in ("vector", "list"): return ("vec", parse_type(a[0]))
        if m.group(1) == "pair": return ("pair", parse_type(a[0]), parse_type(a[1]))
        return (m.group(1),) + tuple(parse_type(x) for x in a[:2])
    if s in ("value_type",): return ("unknown",)
    if s == "void": return ("void",)
    return ("struct", s)

# ------------------------------------------------------------------ state
class State:
    __slots__ = ("store", "names", "pc", "refs", "ghost", "this", "depth", "loops", "fpc")
    def __init__(self):
        self.store = {}; self.names = [{}]; self.pc = []; self.refs = {}; self.ghost = {}
        self.this = None; self.depth = 0; self.loops = (); self.fpc = ()
    def copy(self):
        r = State(); r.store = dict(self.store); r.names = [dict(x) for x in self.names]; r.pc = list(self.pc)
        r.refs = dict(self.refs); r.ghost = dict(self.ghost); r.this = self.this; r.depth = self.depth; r.loops = self.loops
        return r

class Obligation:
    __slots__ = ("name", "hyps", "goal", "kind", "where", "cand", "extra", "status", "solver", "time", "fn", "model")
    def __init__(self, name, hyps, goal, kind, where, fn, cand=None, extra=()):
        self.name, self.hyps, self.goal, self.kind, self.where, self.fn, self.cand = name, list(hyps), goal, kind, where, fn, cand
        self.extra = list(extra); self.status = None; self.solver = None; self.time = 0.0; self.model = None

class Contract:
    """pre(view) -> [(name, z3)], post(view, old_view, result) -> [(name, z3)], modifies: list of field names,
    result(view) -> fresh result value or None"""
    def __init__(self, pre=None, post=None, modifies=(), result=None, outs=()):
        """outs: positions of the arguments that the function may overwrite"""
        self.pre, self.post, self.modifies, self.result, self.outs = pre, post, tuple(modifies), result, tuple(outs)

class View:
    """what contracts and invariants see of a state"""
    def __init__(self, ex, st): self.ex, self.st, self.th = ex, st, ex.th
    def has(self, name):
        return self.ex.lookup_name(self.st, name) is not None
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        lv = self.ex.lookup_name(self.st, name)
        if lv is None: raise KeyError(name)
        return self.ex.read(self.st, lv)
    def fld(self, name): return self.ex.read(self.st, (("F", name), ()))
    def elem(self, vec, idx): return self.ex.vget(vec, idx)
    def bf_locals(self):
        """all BF-valued locals in scope: [(name, BFV)]"""
        out = []; seen = set()
        for fr in reversed(self.st.names):
            for n, loc in fr.items():
                if n in seen: continue
                seen.add(n)
                lv = self.st.refs.get(loc, (loc, ()))
                try: v = self.ex.read(self.st, lv)
                except Exception: continue
                if isinstance(v, BFV): out.append((n, v))
                elif isinstance(v, StructV) and v.cls == "BFFixedPoint": out.append((n, v.get("currentValue")))
        return out

def line_of(n):
    r = n.get("range", {}).get("begin", {})
    r = r.get("expansionLoc", r)
    return r.get("line")

# ------------------------------------------------------------------ executor
class Executor:
    MAXDEPTH = 12
    def __init__(self, th, tu, cls_chain, contracts=None, loops=None, field_types=None, name=""):
        """cls_chain: list of class names searched for methods and fields (most derived first); each either
        "GR1Context" or "XFoo<...>" (a template specialisation printed as clang does)"""
        self.th, self.tu, self.chain = th, tu, cls_chain
        self.contracts = contracts or {}
        self.loopspec = loops
        self.name = name
        self.obls = []; self.quiet = 0
        self.classes = {}; self.fields = {}
        self.curline = None
        self.functions = set()
        self.assume_hooks = []
        self.trusted = set()
        self.dropped = set()
        self.enums = {}
        self._lazyfn = {}; self.dropcands = set(); self.exit_states = []; self.throws = []; self.curfn = None; self.lpaths = {}; self.loopids = {}
        self.lastline = None
        for c in cls_chain: self.load_class(c)

    # -------- AST lookup
    def load_class(self, cname):
        if cname in self.classes: return self.classes[cname]
        base = cname.split("<")[0]
        nodes = self.tu.load(base)
        cand = []
        for top in nodes:
            for n in walk_decls(top):
                k = n.get("kind")
                if k == "CXXRecordDecl" and "<" not in cname and n.get("name") == base and kids(n): cand.append(n)
                if k == "ClassTemplateSpecializationDecl" and n.get("name") == base and "<" in cname and kids(n):
                    args = []
                    for c in kids(n):
                        if c.get("kind") == "TemplateArgument":
                            if "type" in c: args.append(c["type"]["qualType"])
                            elif "value" in c: args.append(str(c["value"]))
                    want = split_targs(cname[len(base)+1:-1])
                    want = [{"true": "1", "false": "0"}.get(w, w) for w in want]
                    if [a.replace(" ", "") for a in args] == [w.replace(" ", "") for w in want]: cand.append(n)
        # prefer the specialisation with bodies
        cand.sort(key=lambda n: -sum(1 for m in kids(n) if has_body(m)))
        d = {"node": cand[0] if cand else None, "methods": {}, "fields": {}, "inits": {}}
        if cand:
            for m in kids(cand[0]):
                if m.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl") and has_body(m):
                    d["methods"].setdefault(m.get("name"), []).append(m)
                if m.get("kind") == "FieldDecl": d["fields"][m.get("name")] = m
                if m.get("kind") == "FunctionTemplateDecl":
                    for mm in kids(m):
                        if mm.get("kind") == "CXXMethodDecl" and has_body(mm) and any(x.get("kind") == "TemplateArgument" for x in kids(mm)):
                            d["methods"].setdefault(mm.get("name"), []).append(mm)
        # out-of-class definitions
        for top in nodes:
            if top.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl") and has_body(top) and "parentDeclContextId" in top:
                if cand and top["parentDeclContextId"] in [c.get("id") for c in cand]:
                    d["methods"].setdefault(top.get("name"), []).append(top)
        self.classes[cname] = d
        return d

    def find_method(self, cname, name, nargs=None):
        """dynamic dispatch along the class chain when cname is one of the chain"""
        chain = self.chain if cname in self.chain or cname is None else [cname]
        for c in chain:
            for m in self.load_class(c)["methods"].get(name, []):
                if nargs is None or len(params(m)) == nargs: return c, m
        return None, None

    def find_out_of_class(self, cls, name):
        """definition of a method given outside the class in another translation unit"""
        return None

    def find_function(self, name, nargs):
        if name not in self._lazyfn:
            out = []
            for top in self.tu.load(name):
                for n in walk_decls(top):
                    if n.get("kind") == "FunctionDecl" and n.get("name") == name and has_body(n): out.append(n)
            self._lazyfn[name] = out
        for n in self._lazyfn[name]:
            if len(params(n)) == nargs: return n
        return None

    def field_decl(self, name):
        for c in self.chain:
            f = self.load_class(c)["fields"].get(name)
            if f is not None: return f
        return None

    # -------- types/values
    def leaf_sorts(self, ty):
        k = ty[0]
        if k == "BF": return [self.th.B]
        if k == "int": return [z3.IntSort()]
        if k == "bool": return [z3.BoolSort()]
        if k == "str" and self.th.Str is not None: return [self.th.Str]
        if k == "pair": return self.leaf_sorts(ty[1]) + self.leaf_sorts(ty[2])
        if k == "tuple": return [x for t in ty[1:] for x in self.leaf_sorts(t)]
        if k == "vec": return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in self.leaf_sorts(ty[1])]
        if k == "struct": 
            fs = self.struct_fields(ty[1])
            r = []
            for n, t in fs: r += self.leaf_sorts(t)
            return r
        raise Unsupported("no leaf sorts for type %s" % (ty,))
    def struct_fields(self, cname):
        d = self.load_class(cname)
        if d["node"] is None: raise Unsupported("unknown class %s" % cname)
        return [(n, parse_type(qt(f))) for n, f in d["fields"].items()]
    def pack(self, st, ty, v):
        k = ty[0]
        if k == "BF": return [self.term(st, v)]
        if k in ("int", "bool"): return [v]
        if k == "str": return [self.th.str_term(v)]
        if k == "pair": return self.pack(st, ty[1], v.get("first")) + self.pack(st, ty[2], v.get("second"))
        if k == "tuple": return [x for n, t in enumerate(ty[1:]) for x in self.pack(st, t, v.get(str(n)))]
        if k == "vec": return [v.size] + list(v.cols)
        if k == "struct":
            r = []
            for n, t in self.struct_fields(ty[1]): r += self.pack(st, t, v.get(n))
            return r
        raise Unsupported("pack %s" % (ty,))
    def unpack(self, ty, leaves):
        leaves = list(leaves); v, rest = self._unpack(ty, leaves); return v
    def _unpack(self, ty, ls):
        k = ty[0]
        if k == "BF": return BFV(self.th, t=ls[0]), ls[1:]
        if k in ("int", "bool"): return ls[0], ls[1:]
        if k == "str": return StrV(None, ls[0]), ls[1:]
        if k == "pair":
            a, ls = self._unpack(ty[1], ls); b, ls = self._unpack(ty[2], ls)
            return StructV("pair", {"first": a, "second": b}), ls
        if k == "tuple":
            f = {}
            for n, t in enumerate(ty[1:]): f[str(n)], ls = self._unpack(t, ls)
            return StructV("tuple", f), ls
        if k == "vec":
            n = len(self.leaf_sorts(ty[1]))
            return VecV(ty[1], ls[0], ls[1:1+n]), ls[1+n:]
        if k == "struct":
            f = {}
            for n, t in self.struct_fields(ty[1]): f[n], ls = self._unpack(t, ls)
            return StructV(ty[1], f), ls
        raise Unsupported("unpack %s" % (ty,))
    def fresh_value(self, ty, name="v"):
        k = ty[0]
        if k == "real": return fresh(name, z3.RealSort())
        if k in ("str",): return StrV(None, fresh(name, self.th.Str) if self.th.Str is not None else None)
        if k in ("opaque", "unknown", "ptr", "void", "map", "set"): return OpaqueV(name, ty)
        if k == "struct" and self.load_class(ty[1])["node"] is None: return OpaqueV(name, ty)
        return self.unpack(ty, [fresh(name, s) for s in self.leaf_sorts(ty)])
    def default_value(self, st, ty, name="v"):
        if ty[0] == "vec":
            cols = [fresh(name, z3.ArraySort(z3.IntSort(), s)) for s in self.leaf_sorts(ty[1])]
            return VecV(ty[1], z3.IntVal(0), cols)
        return self.fresh_value(ty, name)
    def havoc_like(self, v, name):
        if isinstance(v, BFV): return BFV(self.th, t=fresh(name, self.th.B))
        if isinstance(v, StructV): return StructV(v.cls, {n: self.havoc_like(x, name+"."+n) for n, x in v.f.items()})
        if isinstance(v, VecV):
            return VecV(v.et, fresh(name+".size", z3.IntSort()), [fresh(name, c.sort()) for c in v.cols])
        if isinstance(v, IterV): return IterV(v.lv, fresh(name, z3.IntSort()))
        if isinstance(v, z3.ExprRef): return fresh(name, v.sort())
        if isinstance(v, StrV) and self.th.Str is not None: return StrV(None, fresh(name, self.th.Str))
        if isinstance(v, (OpaqueV, StrV)): return v.__class__()
        if v is None: return None
        if isinstance(v, PtrV): raise Unsupported("pointer modified in a loop: " + name)
        return self.th.havoc_like(self, v, name)
    def term(self, st, b):
        """a term of sort B for the Boolean function b (names it by a definitional axiom if necessary)"""
        if b.t is not None: return b.t
        t = fresh("b", self.th.B)
        xs = self.th.flat()
        if b.dep is not None:
            h = self.th.holds; dx = self.th.dflt([d for d in range(len(xs)) if d not in b.dep], xs)
            vs = [xs[d] for d in sorted(b.dep)]; rhs = b.at(xs); pats = [h(t, *dx)]
            if vs:
                seen = set()
                def rec(e):
                    if e.get_id() in seen or z3.is_quantifier(e): return
                    seen.add(e.get_id())
                    if z3.is_app(e) and e.decl().eq(self.th._holds):
                        if all(any(c.eq(v) for c in e.children()) for v in vs): pats.append(e)
                        return
                    for c in e.children(): rec(c)
                rec(rhs)
                st.pc.append(z3.ForAll(vs, h(t, *dx) == rhs, patterns=pats))
            else: st.pc.append(h(t, *dx) == rhs)
            st.pc.append(z3.ForAll(xs, h(t, *xs) == h(t, *dx), patterns=[h(t, *xs)]))
            b.t = t
            return t
        st.pc.append(z3.ForAll(xs, self.th.holds(t, *xs) == b.at(xs), patterns=[self.th.holds(t, *xs)]))
        b.t = t
        return t
    def named(self, st, b):
        return BFV(self.th, t=self.term(st, b), dep=b.dep)

    # -------- lvalues
    def lookup_name(self, st, name):
        for fr in reversed(st.names):
            if name in fr:
                loc = fr[name]
                return st.refs.get(loc, (loc, ()))
        if ("F", name) in st.store: return (("F", name), ())
        return None
    def read(self, st, lv):
        loc, path = lv
        if loc not in st.store:
            if isinstance(loc, tuple) and loc[0] == "F":
                self.init_field(st, loc[1])
            else: raise Unsupported("read of unknown location %s" % (loc,))
        v = st.store[loc]
        for p in path:
            if p[0] == "f":
                if not isinstance(v, StructV): raise Unsupported("field %s of %s" % (p[1], type(v).__name__))
                v = v.get(p[1])
            else:
                if isinstance(v, VecV): v = self.vget(v, p[1])
                else: v = self.th.index(self, st, v, p[1])
        return v
    def write(self, st, lv, val):
        loc, path = lv
        if not path: st.store[loc] = val; return
        root = self.read(st, (loc, ()))
        st.store[loc] = self._upd(st, root, path, val)
    def _upd(self, st, v, path, val):
        if not path: return val
        p = path[0]
        if p[0] == "f": return v.set(p[1], self._upd(st, v.get(p[1]), path[1:], val))
        if isinstance(v, VecV):
            nv = self._upd(st, self.vget(v, p[1]), path[1:], val)
            leaves = self.pack(st, v.et, nv)
            return VecV(v.et, v.size, [z3.Store(c, p[1], l) for c, l in zip(v.cols, leaves)])
        return self.th.update_index(self, st, v, p[1], self._upd(st, self.th.index(self, st, v, p[1]), path[1:], val) if path[1:] else val)
    def vget(self, v, idx):
        return self.unpack(v.et, [z3.Select(c, idx) for c in v.cols])
    def init_field(self, st, name):
        f = self.field_decl(name)
        ty = None
        if f is not None:
            t = qt(f)
            base = t.split("<")[0].strip()
            if base in ("SlugsVarCube", "SlugsVarVector", "SlugsVectorOfVarBFs"):
                types = [x["referencedDecl"]["name"] for x in walk(f) if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("kind") == "EnumConstantDecl"]
                st.store[("F", name)] = CubeV(types, base); return
            ty = parse_type(t)
        if ty is None: raise Unsupported("unknown field " + name)
        v = self.fresh_value(ty, "this."+name)
        st.store[("F", name)] = v

    # -------- obligations
    def oblige(self, st, name, goal, kind, cand=None):
        if self.quiet: return
        if z3.is_true(goal): 
            pass
        self.obls.append(Obligation(name, st.pc, goal, kind, self.curline, self.curfn, cand, extra=[st]))
    def assume(self, st, f): st.pc.append(f)

    # -------- expressions: list of (state, value-or-lvalue)
    def ev(self, e, st):
        """rvalue"""
        ln = line_of(e)
        if ln: self.curline = ln
        k = e.get("kind")
        m = getattr(self, "ev_" + k, None)
        if m is None: raise Unsupported("expression %s at line %s" % (k, self.curline))
        return m(e, st)
    def lv(self, e, st):
        k = e.get("kind")
        if k in ("ParenExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr"):
            if k == "ImplicitCastExpr" and e.get("castKind") == "UserDefinedConversion":
                return self.tmp_lv(e, st)
            return self.lv(kids(e)[0], st)
        if k == "DeclRefExpr":
            rd = e["referencedDecl"]
            if rd["id"] in st.refs: return [(st, st.refs[rd["id"]])]
            if rd["id"] in st.store: return [(st, (rd["id"], ()))]
            return self.tmp_lv(e, st)
        if k == "MemberExpr":
            b = kids(e)[0]
            if self.is_this(b):
                if st.this is not None:
                    loc, path = st.this
                    return [(st, (loc, path + (("f", e["name"]),)))]
                return [(st, (("F", e["name"]), ()))]
            if e.get("isArrow"):
                out = []
                for s2, p in self.ev(b, st):
                    if isinstance(p, PtrV): out.append((s2, (p.lv[0], p.lv[1] + (("f", e["name"]),))))
                    elif isinstance(p, IterV): 
                        self.deref_check(s2, p)
                        out.append((s2, (p.lv[0], p.lv[1] + (("i", p.idx), ("f", e["name"])))))
                    else: raise Unsupported("-> on %s" % type(p).__name__)
                return out
            return [(s2, (l[0], l[1] + (("f", e["name"]),))) for s2, l in self.lv(b, st)]
        if k == "CXXOperatorCallExpr":
            op = self.opname(e); args = kids(e)[1:]
            if op == "operator[]":
                out = []
                for s2, l in self.lv(args[0], st):
                    for s3, i in self.ev(args[1], s2):
                        v = self.read(s3, l)
                        if isinstance(v, VecV):
                            self.bounds(s3, v, i)
                            out.append((s3, (l[0], l[1] + (("i", i),))))
                        else:
                            r = self.th.lv_index(self, s3, l, v, i)
                            if r is None: raise Unsupported("operator[] on %s at %s" % (type(v).__name__, self.curline))
                            out.append((s3, r))
                return out
            if op in ("operator*", "operator->"):
                out = []
                for s2, p in self.ev(args[0], st):
                    if isinstance(p, IterV):
                        self.deref_check(s2, p)
                        out.append((s2, (p.lv[0], p.lv[1] + (("i", p.idx),))))
                    else:
                        r = self.th.lv_deref(self, s2, p)
                        if r is None: raise Unsupported("dereference of %s" % type(p).__name__)
                        out.append((s2, r))
                return out
            if op in ("operator&=", "operator|=", "operator="):
                out = []
                for s2, v in self.ev(e, st):
                    out += self.lv(args[0], s2)
                return out
            return self.tmp_lv(e, st)
        if k == "CXXMemberCallExpr":
            me = callee_member(e); nm = me.get("name")
            if nm in ("at", "back", "front"):
                out = []
                for s2, l in self.lv(kids(me)[0], st):
                    v = self.read(s2, l)
                    if not isinstance(v, VecV): return self.tmp_lv(e, st)
                    if nm == "at":
                        for s3, i in self.ev(kids(e)[1], s2):
                            self.bounds(s3, v, i); out.append((s3, (l[0], l[1] + (("i", i),))))
                    else:
                        i = z3.IntVal(0) if nm == "front" else v.size - 1
                        self.bounds(s2, v, i); out.append((s2, (l[0], l[1] + (("i", i),))))
                return out
            return self.tmp_lv(e, st)
        if k == "UnaryOperator" and e.get("opcode") == "*":
            out = []
            for s2, p in self.ev(kids(e)[0], st):
                if isinstance(p, PtrV): out.append((s2, p.lv))
                else: raise Unsupported("* on %s" % type(p).__name__)
            return out
        if k == "ArraySubscriptExpr":
            out = []
            for s2, l in self.lv(kids(e)[0], st):
                for s3, i in self.ev(kids(e)[1], s2):
                    v = self.read(s3, l)
                    if isinstance(v, VecV): self.bounds(s3, v, i)
                    out.append((s3, (l[0], l[1] + (("i", i),))))
            return out
        return self.tmp_lv(e, st)
    def tmp_lv(self, e, st):
        out = []
        for s2, v in self.ev(e, st):
            loc = ("T", next(_fresh)); s2.store[loc] = v
            out.append((s2, (loc, ())))
        return out
    def is_this(self, e):
        while e.get("kind") in ("ImplicitCastExpr", "ParenExpr"): e = kids(e)[0]
        return e.get("kind") == "CXXThisExpr"
    def bounds(self, st, v, i):
        self.oblige(st, "index in bounds", z3.And(i >= 0, i < v.size), "bounds")
    def deref_check(self, st, p):
        v = self.read(st, p.lv)
        if isinstance(v, VecV): self.oblige(st, "iterator dereferenceable", z3.And(p.idx >= 0, p.idx < v.size), "bounds")
    def evs(self, es, st):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s): nxt.append((s2, vs + [v]))
            res = nxt
        return res

    # trivial wrappers
    def _pass(self, e, st): return self.ev(kids(e)[0], st)
    ev_ParenExpr = ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_MaterializeTemporaryExpr = ev_CXXDefaultArgExpr = ev_ConstantExpr = _pass
    def ev_SubstNonTypeTemplateParmExpr(self, e, st): return self.ev(kids(e)[-1], st)
    def ev_CXXDefaultInitExpr(self, e, st): return self._pass(e, st)
    def ev_IntegerLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def ev_CXXBoolLiteralExpr(self, e, st): return [(st, z3.BoolVal(bool(e["value"])))]
    def ev_CharacterLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def ev_StringLiteral(self, e, st): return [(st, StrV(e.get("value")))]
    def ev_CXXNullPtrLiteralExpr(self, e, st): return [(st, OpaqueV("nullptr"))]
    def ev_GNUNullExpr(self, e, st): return [(st, OpaqueV("NULL"))]
    def ev_FloatingLiteral(self, e, st): return [(st, z3.RealVal(e["value"]))]
    def ev_CXXThisExpr(self, e, st): return [(st, OpaqueV("this"))]
    def ev_CXXScalarValueInitExpr(self, e, st): return [(st, self.fresh_value(parse_type(qt(e))))]
    def ev_UnaryExprOrTypeTraitExpr(self, e, st): return [(st, fresh("sizeof", z3.IntSort()))]
    def ev_ImplicitCastExpr(self, e, st):
        ck = e.get("castKind"); c = kids(e)[0]
        if ck in ("IntegralToBoolean",):
            out = []
            for s, v in self.ev(c, st):
                out.append((s, v if z3.is_bool(v) else v != 0))
            return out
        if ck in ("IntegralCast", "NoOp", "LValueToRValue", "ConstructorConversion", "UncheckedDerivedToBase", "DerivedToBase", "UserDefinedConversion", "ArrayToPointerDecay", "FunctionToPointerDecay", "IntegralToFloating", "BitCast", "NullToPointer", "FloatingCast", "BuiltinFnToFnPtr"):
            out = []
            for s, v in self.ev(c, st):
                if ck == "IntegralCast" and isinstance(v, z3.ExprRef) and z3.is_bool(v) and parse_type(qt(e))[0] == "int":
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                if ck == "IntegralToFloating" and isinstance(v, z3.ExprRef) and z3.is_int(v): v = z3.ToReal(v)
                out.append((s, v))
            return out
        if ck == "ToVoid": return [(s, None) for s, _ in self.ev(c, st)]
        if ck == "PointerToBoolean":
            return [(s, fresh("ptrbool", z3.BoolSort())) for s, v in self.ev(c, st)]
        raise Unsupported("cast %s" % ck)
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_ImplicitCastExpr
    def ev_CXXFunctionalCastExpr(self, e, st): return self.ev(kids(e)[0], st)
    def ev_CXXStdInitializerListExpr(self, e, st): return self.ev(kids(e)[0], st)
    def ev_DeclRefExpr(self, e, st):
        rd = e["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            return [(st, self.th.enum_const(rd["name"]))]
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"): return [(st, FunV(rd["name"]))]
        if rd["id"] in st.refs: return [(st, self.read(st, st.refs[rd["id"]]))]
        if rd["id"] in st.store: return [(st, st.store[rd["id"]])]
        if rd.get("name") in ("cout", "cerr", "clog", "endl"): return [(st, OpaqueV(rd["name"]))]
        v = self.th.global_var(self, st, rd)
        if v is None: raise Unsupported("reference to %s %s" % (rd["kind"], rd.get("name")))
        return [(st, v)]
    def ev_MemberExpr(self, e, st):
        if self.is_this(kids(e)[0]) and st.this is None and e["name"] == "mgr": return [(st, OpaqueV("mgr"))]
        return [(s, self.read(s, l)) for s, l in self.lv(e, st)]
    def ev_ArraySubscriptExpr(self, e, st): return [(s, self.read(s, l)) for s, l in self.lv(e, st)]
    def ev_ConditionalOperator(self, e, st):
        c, a, b = kids(e)
        out = []
        for s, cv in self.ev(c, st):
            cv = self.tobool(cv)
            if self.th.unroll:
                sc = z3.simplify(cv)
                if z3.is_true(sc) or z3.is_false(sc): out += self.ev(a if z3.is_true(sc) else b, s); continue
            sa = s.copy(); sa.pc.append(cv); sb = s.copy(); sb.pc.append(z3.Not(cv))
            ra = self.ev(a, sa); rb = self.ev(b, sb)
            if len(ra) == 1 and len(rb) == 1 and isinstance(ra[0][1], z3.ExprRef) and isinstance(rb[0][1], z3.ExprRef) and len(ra[0][0].pc) == len(s.pc)+1 and len(rb[0][0].pc) == len(s.pc)+1:
                out.append((s, z3.If(cv, ra[0][1], rb[0][1])))
            else: out += ra + rb
        return out
    def ev_UnaryOperator(self, e, st):
        op = e["opcode"]; c = kids(e)[0]
        if op == "!": return [(s, z3.Not(self.tobool(v))) for s, v in self.ev(c, st)]
        if op == "-": return [(s, -v) for s, v in self.ev(c, st)]
        if op == "+": return self.ev(c, st)
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(c, st):
                v = self.read(s, l); d = 1 if op == "++" else -1
                nv = self.step(v, d)
                s = s.copy(); self.write(s, l, nv)
                out.append((s, v if e.get("isPostfix") else nv))
            return out
        if op == "&": return [(s, PtrV(l)) for s, l in self.lv(c, st)]
        if op == "*": return [(s, self.read(s, l)) for s, l in self.lv(e, st)]
        raise Unsupported("unary " + op)
    def step(self, v, d):
        if isinstance(v, IterV): return IterV(v.lv, z3.simplify(v.idx + d))
        if isinstance(v, z3.ExprRef): return v + d
        return self.th.step(self, v, d)
    def tobool(self, v):
        if isinstance(v, z3.ExprRef):
            return v if z3.is_bool(v) else v != 0
        raise Unsupported("truth value of %s" % type(v).__name__)
    def ev_BinaryOperator(self, e, st):
        op = e["opcode"]; a, b = kids(e)
        if op == "=":
            out = []
            for s, v in self.ev(b, st):
                for s2, l in self.lv(a, s):
                    s3 = s2.copy(); self.write(s3, l, self.coerce(v, a)); out.append((s3, v))
            return out
        if op == ",":
            return [r for s, v in self.ev(a, st) for r in self.ev(b, s)]
        if op in ("&&", "||"):
            out = []
            for s, va in self.ev(a, st):
                va = self.tobool(va)
                s1 = s.copy(); s1.pc.append(va if op == "&&" else z3.Not(va))
                n0 = len(s1.pc)
                rb = self.ev(b, s1)
                if len(rb) == 1 and len(rb[0][0].pc) == n0 and rb[0][0].store == s1.store:
                    vb = self.tobool(rb[0][1])
                    out.append((s, z3.And(va, vb) if op == "&&" else z3.Or(va, vb)))
                else:
                    for s2, vb in rb: out.append((s2, self.tobool(vb)))
                    s3 = s.copy(); s3.pc.append(z3.Not(va) if op == "&&" else va)
                    out.append((s3, z3.BoolVal(op == "||")))
            return out
        out = []
        for s, (x, y) in self.evs([a, b], st): out.append((s, self.arith(op, x, y)))
        return out
    def coerce(self, v, target):
        ty = parse_type(qt(target))
        if isinstance(v, z3.ExprRef):
            if ty[0] == "bool" and z3.is_int(v): return v != 0
            if ty[0] == "int" and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def arith(self, op, x, y):
        if not isinstance(x, z3.ExprRef) or not isinstance(y, z3.ExprRef):
            if isinstance(x, IterV) and isinstance(y, IterV):
                if op == "-": return x.idx - y.idx
                if op == "==": return x.idx == y.idx
                if op == "!=": return x.idx != y.idx
            r = self.th.arith(self, op, x, y)
            if r is None: raise Unsupported("arith %s on %s,%s" % (op, type(x).__name__, type(y).__name__))
            return r
        if op in ("&", "|", "^"):                       # bits that are truth values
            def bl(t):
                if z3.is_bool(t): return t
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(1).eq(z3.IntVal(1)) and t.arg(2).eq(z3.IntVal(0)): return t.arg(0)
            bx, by = bl(x), bl(y)
            if bx is not None and by is not None: return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](bx, by)
        if z3.is_bool(x) and z3.is_int(y): x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(y) and z3.is_int(x): y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(x) and op in ("&", "|", "^"):
            return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](x, y)
        try:
            return {"+": lambda: x+y, "-": lambda: x-y, "*": lambda: x*y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
                    "==": lambda: x == y, "!=": lambda: x != y, "%": lambda: x % y, "/": lambda: x / y}[op]()
        except KeyError:
            r = self.th.arith(self, op, x, y)
            if r is None: raise Unsupported("operator " + op)
            return r
    def ev_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]; a, b = kids(e); out = []
        for s, v in self.ev(b, st):
            for s2, l in self.lv(a, s):
                s3 = s2.copy(); nv = self.arith(op, self.read(s3, l), v)
                self.write(s3, l, self.coerce(nv, a)); out.append((s3, nv))
        return out

    # -------- constructors
    def ev_CXXConstructExpr(self, e, st):
        ty = parse_type(qt(e)); args = [a for a in kids(e) if a.get("kind") != "CXXDefaultArgExpr"]
        if len(args) == 1 and ty[0] in ("BF", "int", "bool", "vec", "pair", "str"):
            a0 = parse_type(qt(args[0]))
            if ty[0] == "vec" and a0[0] == "int":
                out = []
                for s, n in self.ev(args[0], st):
                    v = self.default_value(s, ty); out.append((s, VecV(v.et, n, v.cols)))
                return out
            return self.ev(args[0], st)
        if ty[0] == "pair" and len(args) == 2:
            return [(s, StructV("pair", {"first": a, "second": b})) for s, (a, b) in self.evs(args, st)]
        if ty[0] == "tuple":
            if len(args) == 0: return [(st, self.fresh_value(ty))]
            if len(args) == 1 and len(ty) > 2: return self.ev(args[0], st)
            return [(s, StructV("tuple", {str(n): x for n, x in enumerate(vs)})) for s, vs in self.evs(args, st)]
        if ty[0] == "vec" and len(args) == 0: return [(st, self.default_value(st, ty))]
        if ty[0] == "vec" and len(args) == 2:
            out = []
            for s, (n, x) in self.evs(args, st):
                if isinstance(n, z3.ExprRef) and z3.is_int(n):
                    s = s.copy(); ls = self.pack(s, ty[1], x)
                    out.append((s, VecV(ty[1], n, [z3.K(z3.IntSort(), l) for l in ls])))
                else: raise Unsupported("vector range constructor")
            return out
        if ty[0] == "BF" and len(args) == 0: return [(st, self.fresh_value(ty, "uninit"))]
        if ty[0] == "pair" and len(args) == 0: return [(st, self.fresh_value(ty))]
        if ty[0] == "str":
            r = self.th.construct(self, st, ty, args, e)
            if r is not None: return r
            return [(s, StrV()) for s, _ in self.evs(args, st)] if args else [(st, StrV(""))]
        r = self.th.construct(self, st, ty, args, e)
        if r is not None: return r
        if ty[0] == "struct":
            d = self.load_class(ty[1])
            if d["node"] is not None:
                # copy/move construction
                if len(args) == 1 and parse_type(qt(args[0])) == ty and not any(len(params(m)) == 1 and parse_type(qt(params(m)[0])) == ty for m in d["methods"].get(ty[1].split("<")[0], [])):
                    return self.ev(args[0], st)
                ms = [m for m in d["methods"].get(ty[1].split("<")[0], []) if len(params(m)) == len(args)]
                if ms: return self.construct(ms[0], ty, args, st, d)
                if not args: return [(st, self.fresh_value(ty))]
            if len(args) == 1 and "iterator" in ty[1]: return self.ev(args[0], st)
            return [(s, OpaqueV("obj", ty)) for s, _ in self.evs_safe(args, st)]
        if ty[0] in ("set", "map"): return [(st, OpaqueV(ty[0], ty))]
        raise Unsupported("construct %s with %d args" % (ty, len(args)))
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    def evs_safe(self, es, st):
        try: return self.evs(es, st)
        except Unsupported as ex:
            self.dropped.add("arguments of an untracked object (%s)" % str(ex)[:80])
            return [(st, [])]
    def construct(self, m, ty, args, st, d):
        out = []
        for s, vals in self.evs(args, st):
            s = s.copy(); loc = ("O", next(_fresh))
            f = {}
            for n, fd in d["fields"].items():
                f[n] = self.fresh_value(parse_type(qt(fd)), n)
            s.store[loc] = StructV(ty[1], f)
            saved = (s.names, s.this); s.names = s.names + [{}]; s.this = (loc, ())
            for p, v in zip(params(m), vals): self.bind(s, p, v)
            ss = [s]
            for c in kids(m):
                if c.get("kind") == "CXXCtorInitializer" and "anyInit" in c:
                    nxt = []
                    for s1 in ss:
                        for s2, v in self.ev(kids(c)[0], s1):
                            s2 = s2.copy(); self.write(s2, (loc, (("f", c["anyInit"]["name"]),)), v); nxt.append(s2)
                    ss = nxt
            self.functions.add("%s::%s" % (ty[1], m.get("name")))
            for s1 in ss:
                for kind, s2, val in self.stmt(body(m), s1):
                    if kind == "throw": raise Unsupported("throw in constructor")
                    s2 = s2.copy(); s2.names = saved[0]; s2.this = saved[1]
                    out.append((s2, s2.store[loc]))
        return out
    def bind(self, st, p, v):
        if isinstance(v, BFV) and v.t is None and self.th.name_assignments: v = self.named(st, v)
        st.store[p["id"]] = v; st.refs.pop(p["id"], None)
        if p.get("name"): st.names[-1][p["name"]] = p["id"]
    def ev_InitListExpr(self, e, st):
        ty = parse_type(qt(e)); args = kids(e)
        if len(args) == 1 and ty[0] in ("int", "bool", "BF"): return self.ev(args[0], st)
        if ty[0] == "pair": return [(s, StructV("pair", {"first": a, "second": b})) for s, (a, b) in self.evs(args, st)]
        r = self.th.init_list(self, st, ty, args)
        if r is None: raise Unsupported("initializer list")
        return r
    def ev_CXXThrowExpr(self, e, st): raise Unsupported("throw as expression")

    # -------- calls
    def opname(self, e):
        n = kids(e)[0]
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr"): n = kids(n)[0]
        return n.get("referencedDecl", {}).get("name") or n.get("name")
    def ev_CXXOperatorCallExpr(self, e, st):
        op = self.opname(e); args = kids(e)[1:]
        t0 = parse_type(qt(args[0])) if args else None
        if op in ("operator[]", "operator*", "operator->") :
            return [(s, PtrV(l) if op == "operator->" else self.read(s, l)) for s, l in self.lv(e, st)]
        if op == "operator=":
            out = []
            for s, v in self.ev(args[1], st):
                for s2, l in self.lv(args[0], s):
                    s3 = s2.copy(); self.write(s3, l, v); out.append((s3, v))
            return out
        if op in ("operator&=", "operator|=", "operator^="):
            out = []
            for s, v in self.ev(args[1], st):
                for s2, l in self.lv(args[0], s):
                    cur = self.read(s2, l)
                    if not isinstance(cur, BFV):
                        raise Unsupported(op)
                    s3 = s2.copy(); nv = self.bfop(op[-2], cur, v); self.write(s3, l, self.named(s3, nv) if self.th.name_assignments else nv); out.append((s3, nv))
            return out
        if op in ("operator++", "operator--"):
            out = []
            for s, l in self.lv(args[0], st):
                v = self.read(s, l); nv = self.step(v, 1 if op == "operator++" else -1)
                s = s.copy(); self.write(s, l, nv); out.append((s, nv if len(args) == 1 else v))
            return out
        if op == "operator<<" or op == "operator>>":
            r = self.th.stream(self, st, op, args)
            if r is not None: return r
            self.dropped.add("output/stream operator<<")
            return [(s, OpaqueV("stream")) for s, vs in self.stream_args(args, st)]
        out = []
        for s, vs in self.evs(args, st):
            out += self.operator(s, op, vs, e)
        return out
    def stream_args(self, args, st):
        """arguments of output operators: evaluated only for their side effects on tracked state"""
        if self.th.eval_streams: return self.evs(args, st)
        for a in args:
            for n in walk(a):
                if n.get("kind") in ("CompoundAssignOperator",) or (n.get("kind") == "UnaryOperator" and n.get("opcode") in ("++", "--")) or (n.get("kind") == "BinaryOperator" and n.get("opcode") == "="):
                    return self.evs(args, st)
        return [(st, [])]
    def bfop(self, op, a, b=None):
        th = self.th
        if th.track_dep and a.dep is not None and (b is None or b.dep is not None):
            r = self.bfop0(op, a, b); r.dep = a.dep | (b.dep if b is not None else frozenset()); return r
        return self.bfop0(op, a, b)
    def bfop0(self, op, a, b):
        th = self.th
        if op == "&": return BFV(th, lambda xs: z3.And(a.at(xs), b.at(xs)))
        if op == "|": return BFV(th, lambda xs: z3.Or(a.at(xs), b.at(xs)))
        if op == "^": return BFV(th, lambda xs: z3.Xor(a.at(xs), b.at(xs)))
        if op == "!": return BFV(th, lambda xs: z3.Not(a.at(xs)))
        if op == "-": return BFV(th, lambda xs: z3.And(a.at(xs), z3.Not(b.at(xs))))
        if op == "Implies": return BFV(th, lambda xs: z3.Implies(a.at(xs), b.at(xs)))
    def operator(self, s, op, vs, e):
        a = vs[0]
        if isinstance(a, BFV):
            if op in ("operator&", "operator|", "operator^", "operator-") and len(vs) == 2: return [(s, self.bfop(op[-1], a, vs[1]))]
            if op == "operator!": return [(s, self.bfop("!", a))]
            if op in ("operator==", "operator!="):
                s = s.copy(); r = self.bf_eq(s, a, vs[1])
                return [(s, r if op == "operator==" else z3.Not(r))]
            xs = self.th.flat()
            if op == "operator<=": return [(s, z3.ForAll(xs, z3.Implies(a.at(xs), vs[1].at(xs))))]
            if op == "operator>=": return [(s, z3.ForAll(xs, z3.Implies(vs[1].at(xs), a.at(xs))))]
            if op in ("operator<", "operator>"):
                lo, hi = (a, vs[1]) if op == "operator<" else (vs[1], a)
                return [(s, z3.And(z3.ForAll(xs, z3.Implies(lo.at(xs), hi.at(xs))), z3.Exists(xs, z3.And(hi.at(xs), z3.Not(lo.at(xs))))))]
        if isinstance(a, IterV):
            b = vs[1] if len(vs) > 1 else None
            if op in ("operator==", "operator!=", "operator<"):
                if isinstance(b, IterV):
                    return [(s, {"operator==": a.idx == b.idx, "operator!=": a.idx != b.idx, "operator<": a.idx < b.idx}[op])]
            if op in ("operator+", "operator-") and isinstance(b, z3.ExprRef):
                return [(s, IterV(a.lv, a.idx + b if op == "operator+" else a.idx - b))]
            if op == "operator-" and isinstance(b, IterV): return [(s, a.idx - b.idx)]
        if isinstance(a, z3.ExprRef) and len(vs) == 2 and isinstance(vs[1], z3.ExprRef):
            return [(s, self.arith(op[8:], a, vs[1]))]
        r = self.th.operator(self, s, op, vs, e)
        if r is None: raise Unsupported("%s on %s at %s" % (op, [type(v).__name__ for v in vs], self.curline))
        return r
    def bf_eq(self, st, a, b):
        """canonicity contract of the BDD layer: equal handles iff equal functions"""
        xs = self.th.flat()
        r = fresh("eq", z3.BoolSort())
        st.pc.append(r == z3.ForAll(xs, a.at(xs) == b.at(xs)))
        return r
    def ev_CXXMemberCallExpr(self, e, st):
        me = callee_member(e); name = me.get("name"); args = kids(e)[1:]
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        base = kids(me)[0] if kids(me) else None
        r = self.th.member_call(self, st, name, base, args, e)
        if r is not None: return r
        # call on this
        if base is not None and self.is_this(base):
            if st.this is not None:
                cls = self.read(st, st.this).cls
                c, m = self.find_method(cls, name, len(args))
                if m is None: raise Unsupported("method %s::%s" % (cls, name))
                return self.inline(m, args, st, cls, st.this)
            return self.call_this(name, args, st, me)
        bt = parse_type(qt(base))
        out = []
        if isinstance(bt, tuple) and bt[0] == "struct" and bt[1] in ("SlugsVarCube", "SlugsVarVector", "SlugsVectorOfVarBFs") and name.startswith("operator "):
            return self.ev(base, st)
        if bt[0] == "struct" and bt[1] in ("BFBddManager", "BFManager"):
            return self.mgr_call(name, args, st)
        # evaluate object as lvalue
        if me.get("isArrow"):
            objs = []
            for s, p in self.ev(base, st):
                if isinstance(p, PtrV): objs.append((s, p.lv))
                elif isinstance(p, IterV): self.deref_check(s, p); objs.append((s, (p.lv[0], p.lv[1] + (("i", p.idx),))))
                else:
                    if isinstance(p, OpaqueV): objs.append(self.tmp(s, p))
                    else: raise Unsupported("-> call on %s" % type(p).__name__)
        else: objs = self.lv(base, st)
        for s, l in objs:
            v = self.read(s, l)
            if isinstance(v, BFV): out += self.bf_call(name, v, args, s); continue
            if isinstance(v, VecV): out += self.vec_call(name, v, l, args, s); continue
            if isinstance(v, StructV) and v.cls not in ("pair",):
                c, m = self.find_method(v.cls, name, len(args))
                if m is None: raise Unsupported("method %s::%s" % (v.cls, name))
                out += self.inline(m, args, s, v.cls, l); continue
            r = self.th.obj_call(self, s, name, v, l, args, e)
            if r is None: raise Unsupported("call .%s on %s at %s" % (name, type(v).__name__, self.curline))
            out += r
        return out
    def tmp(self, s, v):
        loc = ("T", next(_fresh)); s.store[loc] = v; return (s, (loc, ()))
    def mgr_call(self, name, args, st):
        th = self.th
        if name == "constantTrue": return [(st, BFV(th, lambda xs: z3.BoolVal(True), t=th.TRUE, dep=frozenset() if th.track_dep else None))]
        if name == "constantFalse": return [(st, BFV(th, lambda xs: z3.BoolVal(False), t=th.FALSE, dep=frozenset() if th.track_dep else None))]
        r = th.mgr_call(self, st, name, args)
        if r is None: raise Unsupported("manager call " + name)
        return r
    def bf_call(self, name, v, args, st):
        th = self.th; out = []
        if name in ("isTrue", "isFalse", "isConstant"):
            xs = th.flat()
            alltrue = z3.ForAll(xs, v.at(xs)); allfalse = z3.ForAll(xs, z3.Not(v.at(xs)))
            return [(st, {"isTrue": alltrue, "isFalse": allfalse, "isConstant": z3.Or(alltrue, allfalse)}[name])]
        for s, vs in self.evs(args, st):
            if name == "Implies": out.append((s, self.bfop("Implies", v, vs[0])))
            elif name == "SwapVariables": out.append((s, th.swap(v, vs[0], vs[1])))
            elif name in ("ExistAbstract", "UnivAbstract"):
                s = s.copy(); w = th.note_op(self, s, v, vs[0], name == "ExistAbstract")
                out.append((s, th.abstract(w, vs[0], name == "ExistAbstract")))
            elif name == "AndAbstract":
                s = s.copy(); w = th.note_op(self, s, self.bfop("&", v, vs[0]), vs[1], True)
                out.append((s, th.abstract(w, vs[1], True)))
            else:
                r = th.bf_call(self, s, name, v, vs)
                if r is None: raise Unsupported("BF method " + name)
                out += r
        return out
    def vec_call(self, name, v, l, args, st):
        out = []
        if name == "size": return [(st, v.size)]
        if name == "empty": return [(st, v.size == 0)]
        if name in ("begin", "cbegin"): return [(st, IterV(l, z3.IntVal(0)))]
        if name in ("end", "cend"): return [(st, IterV(l, v.size))]
        if name in ("at", "back", "front"):
            for s, vs in self.evs(args, st):
                i = vs[0] if name == "at" else (z3.IntVal(0) if name == "front" else v.size - 1)
                self.bounds(s, v, i); out.append((s, self.vget(v, i)))
            return out
        if name == "clear":
            s = st.copy(); self.write(s, l, VecV(v.et, z3.IntVal(0), v.cols)); self.th.on_vec(self, s, "clear", l, None); return [(s, None)]
        if name == "reserve":
            return [(s, None) for s, _ in self.evs(args, st)]
        for s, vs in self.evs(args, st):
            s = s.copy()
            cur = self.read(s, l)
            if name in ("push_back",):
                leaves = self.pack(s, v.et, vs[0])
                self.write(s, l, VecV(v.et, cur.size + 1, [z3.Store(c, cur.size, x) for c, x in zip(cur.cols, leaves)]))
                self.th.on_vec(self, s, "push", l, vs[0])
            elif name == "emplace_back" and v.et[0] == "pair" and len(vs) == 2:
                pv = StructV("pair", {"first": vs[0], "second": vs[1]})
                leaves = self.pack(s, v.et, pv)
                self.write(s, l, VecV(v.et, cur.size + 1, [z3.Store(c, cur.size, x) for c, x in zip(cur.cols, leaves)]))
                self.th.on_vec(self, s, "push", l, pv)
            elif name == "emplace_back" and len(vs) == 1:
                leaves = self.pack(s, v.et, vs[0])
                self.write(s, l, VecV(v.et, cur.size + 1, [z3.Store(c, cur.size, x) for c, x in zip(cur.cols, leaves)]))
                self.th.on_vec(self, s, "push", l, vs[0])
            elif name == "pop_back":
                self.oblige(s, "pop_back on non-empty vector", cur.size > 0, "bounds")
                self.write(s, l, VecV(v.et, cur.size - 1, cur.cols)); self.th.on_vec(self, s, "pop", l, None)
            elif name == "resize":
                # new elements unconstrained
                ncols = []
                for c in cur.cols:
                    nc = fresh("resized", c.sort()); q = fresh("q", z3.IntSort())
                    s.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < cur.size), nc[q] == c[q]), patterns=[nc[q]])); ncols.append(nc)
                self.write(s, l, VecV(v.et, vs[0], ncols)); self.th.on_vec(self, s, "resize", l, None)
            else:
                r = self.th.vec_call(self, s, name, v, l, vs)
                if r is None: raise Unsupported("vector method " + name)
                out += r; continue
            out.append((s, None))
        return out
    def ev_CallExpr(self, e, st):
        name = self.opname(e); args = [a for a in kids(e)[1:] if a.get("kind") != "CXXDefaultArgExpr"]
        c0 = kids(e)[0]
        r = self.th.call(self, st, name, args, e)
        if r is not None: return r
        # static member function of the class?
        if name in self.contracts and self.curfn != name: return self.use_contract(name, args, st)
        c, m = self.find_method(None, name, len(args))
        if m is not None: return self.call_this(name, args, st, c0)
        if name in ("make_tuple", "make_pair"):
            keys = ("first", "second") if name == "make_pair" else [str(n) for n in range(len(args))]
            return [(s, StructV(name[5:], dict(zip(keys, vs)))) for s, vs in self.evs(args, st)]
        if name in ("move", "forward"): return self.ev(args[0], st)
        f = self.find_function(name, len(args))
        if f is None: raise Unsupported("call of %s at %s" % (name, self.curline))
        return self.inline(f, args, st, None, None)
    def call_this(self, name, args, st, me):
        if name in self.contracts and self.curfn != name:
            return self.use_contract(name, args, st)
        c, m = self.find_method(None, name, len(args))
        if m is None:
            r = self.th.this_call(self, st, name, args)
            if r is not None: return r
            raise Unsupported("method %s not found" % name)
        return self.inline(m, args, st, c, None)
    def use_contract(self, name, args, st):
        ct = self.contracts[name]; out = []
        todo = [(s, vs, ()) for s, vs in self.evs(args, st)] if not ct.outs else []
        for n in ct.outs[:1]:
            if len(args) != 1 or len(ct.outs) != 1: raise Unsupported("contract with several overwritten arguments")
            todo += [(s, [self.read(s, l)], (l,)) for s, l in self.lv(args[0], st)]
        for s, vs, outs in todo:
            s = s.copy()
            vw = View(self, s)
            vw.__dict__["args"] = vs
            if ct.pre:
                for n, g in ct.pre(vw): self.oblige(s, "precondition of %s: %s" % (name, n), g, "pre")
            old = View(self, s.copy()); old.__dict__["args"] = vs
            s2 = s.copy()
            for fl in ct.modifies:
                self.read(s2, (("F", fl), ()))
                s2.store[("F", fl)] = self.havoc_like(s2.store[("F", fl)], fl)
            for l in outs: self.write(s2, l, self.havoc_like(self.read(s2, l), "out"))
            res = ct.result(self, s2) if ct.result else None
            nv = View(self, s2); nv.__dict__["args"] = vs
            for n, g in ct.post(nv, old, res): s2.pc.append(g)
            self.trusted_contract_used(name)
            out.append((s2, res))
        return out
    def trusted_contract_used(self, name): self.functions.add("contract:" + name)
    def inline(self, m, args, st, cls, this):
        if st.depth > self.MAXDEPTH: raise Unsupported("recursion without contract: " + m.get("name", "?"))
        ps = params(m); out = []
        res = [(st, [])]
        for p, a in zip(ps, args):
            nxt = []
            isref = qt(p).strip().endswith("&")
            for s, bound in res:
                if isref:
                    for s2, l in self.lv(a, s): nxt.append((s2, bound + [("r", l)]))
                else:
                    for s2, v in self.ev(a, s): nxt.append((s2, bound + [("v", v)]))
            res = nxt
        fname = ("%s::" % cls if cls else "") + m.get("name", "?")
        self.functions.add(fname)
        for s, bound in res:
            s = s.copy(); saved = (s.names, s.this, s.depth)
            s.names = s.names + [{}]; s.this = this; s.depth += 1
            for p, (k, x) in zip(ps, bound):
                if k == "r": s.refs[p["id"]] = x; s.names[-1][p.get("name")] = p["id"]
                else: self.bind(s, p, x)
            if len(ps) > len(bound):
                for p in ps[len(bound):]:
                    d = [c for c in kids(p)]
                    if not d: raise Unsupported("missing argument")
                    v = self.ev(d[-1], s)[0][1]; self.bind(s, p, v)
            for kind, s2, val in self.stmt(body(m), s):
                s2 = s2.copy(); s2.names, s2.this, s2.depth = saved
                if kind == "throw": self.throw_out(s2, val, out); continue
                out.append((s2, val if kind == "return" else None))
        return out
    def throw_out(self, st, val, out):
        """an exception leaves an inlined call: recorded as a separate path end"""
        self.throws.append((st, val))

    # -------- statements: list of (kind, state, value)
    def stmt(self, n, st):
        k = n.get("kind")
        ln = line_of(n)
        if ln: self.curline = ln
        m = getattr(self, "st_" + (k or "None"), None)
        if m is not None: return m(n, st)
        return [("normal", s, None) for s, _ in self.ev(n, st)]
    def seq(self, ns, st):
        res = [("normal", st, None)]
        for n in ns:
            nxt = []
            for kd, s, v in res:
                if kd != "normal": nxt.append((kd, s, v)); continue
                nxt += self.stmt(n, s)
            res = nxt
            if len(res) > 4000: raise Unsupported("too many paths")
        return res
    def st_CompoundStmt(self, n, st):
        st = st.copy(); saved = st.names; st.names = st.names + [{}]
        out = []
        for kd, s, v in self.seq(kids(n), st):
            s = s.copy(); s.names = saved; out.append((kd, s, v))
        return out
    def st_NullStmt(self, n, st): return [("normal", st, None)]
    def st_None(self, n, st): return [("normal", st, None)]
    def st_BreakStmt(self, n, st): return [("break", st, None)]
    def st_ContinueStmt(self, n, st): return [("continue", st, None)]
    def st_AttributedStmt(self, n, st): return self.stmt(kids(n)[-1], st)
    def st_ReturnStmt(self, n, st):
        c = kids(n)
        if not c: return [("return", st, None)]
        return [("return", s, v) for s, v in self.ev(c[0], st)]
    def st_CXXThrowExpr(self, n, st): return [("throw", st, n)]
    def st_ExprWithCleanups(self, n, st):
        c = kids(n)[0]
        if c.get("kind") == "CXXThrowExpr": return [("throw", st, c)]
        return [("normal", s, None) for s, _ in self.ev(n, st)]
    def st_DeclStmt(self, n, st):
        res = [st]
        for d in kids(n):
            if d.get("kind") in ("TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDecl", "CXXRecordDecl"): continue
            if d.get("kind") != "VarDecl": raise Unsupported("declaration %s" % d.get("kind"))
            nxt = []
            for s in res: nxt += self.vardecl(d, s)
            res = nxt
        return [("normal", s, None) for s in res]
    def vardecl(self, d, st):
        t = qt(d); init = [c for c in kids(d) if c.get("kind") not in ("FullComment", "VisibilityAttr", "UnusedAttr")]
        out = []
        if t.strip().endswith("&"):
            for s, l in self.lv(init[0], st):
                s = s.copy(); s.refs[d["id"]] = l; s.names[-1][d["name"]] = d["id"]; out.append(s)
            return out
        if init:
            for s, v in self.ev(init[0], st):
                s = s.copy()
                if isinstance(v, BFV) and self.th.name_assignments: v = self.named(s, v)
                if parse_type(t)[0] == "bool" and isinstance(v, z3.ExprRef) and z3.is_int(v): v = (v != 0)
                self.bind(s, d, v); out.append(s)
        else:
            s = st.copy(); self.bind(s, d, self.fresh_value(parse_type(t), "uninit_"+d["name"])); out.append(s)
        return out
    def feasible(self, cv):
        c = z3.simplify(cv) if isinstance(cv, z3.ExprRef) else cv
        return not z3.is_false(c)
    def st_IfStmt(self, n, st):
        ks = kids(n)
        st = st.copy(); saved = st.names; st.names = st.names + [{}]
        pre = [st]
        i = 0
        if n.get("hasVar") or n.get("hasInit"): 
            if ks[0].get("kind") == "DeclStmt":
                pre = [s for kd, s, v in self.stmt(ks[0], st)]; i = 1
        cond, then = ks[i], ks[i+1]; els = ks[i+2] if len(ks) > i+2 else None
        out = []
        for s0 in pre:
            for s, cv in self.ev(cond, s0):
                cv = self.tobool(cv)
                if self.feasible(cv):
                    a = s.copy(); a.pc.append(cv); out += self.stmt(then, a)
                if self.feasible(z3.Not(cv)):
                    b = s.copy(); b.pc.append(z3.Not(cv)); out += self.stmt(els, b) if els is not None else [("normal", b, None)]
        r = []
        for kd, s, v in out:
            s = s.copy(); s.names = saved; r.append((kd, s, v))
        return r

    # ---- loops
    def st_ForStmt(self, n, st):
        ks = n.get("inner")           # init, condvar, cond, inc, body (with empty placeholders)
        init, _, cond, inc, bod = ks
        st = st.copy(); saved = st.names; st.names = st.names + [{}]
        starts = [st]
        if init and init.get("kind"):
            starts = []
            for kd, s, v in self.stmt(init, st): starts.append(s)
        out = []
        for s in starts: out += self.loop(n, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, bod, s, False)
        r = []
        for kd, s, v in out:
            s = s.copy(); s.names = saved; r.append((kd, s, v))
        return r
    def st_WhileStmt(self, n, st):
        ks = kids(n); return self.loop(n, ks[0], None, ks[-1], st, False)
    def st_DoStmt(self, n, st):
        ks = kids(n); return self.loop(n, ks[1], None, ks[0], st, True)
    def st_CXXForRangeStmt(self, n, st):
        # inner: init?, range decl, begin decl, end decl, cond, inc, loopvar decl, body
        ks = [k for k in n.get("inner") if k.get("kind")]
        rng, beg, end, cond, inc, var, bod = ks[-7:]
        st = st.copy(); saved = st.names; st.names = st.names + [{}]
        starts = [st]
        for d in (rng, beg, end): starts = [s2 for s in starts for kd, s2, v in self.stmt(d, s)]
        out = []
        fake = {"kind": "CompoundStmt", "inner": [var, bod]}
        for s in starts: out += self.loop(n, cond, inc, fake, s, False)
        r = []
        for kd, s, v in out:
            s = s.copy(); s.names = saved; r.append((kd, s, v))
        return r

    def unrolled(self, cond, inc, bod, st, k=0):
        """complete unrolling of a loop whose condition is decided in every iteration (None: not such a loop)"""
        r = self.ev(cond, st)
        if len(r) != 1: return None
        s, cv = r[0]; cv = z3.simplify(self.tobool(cv))
        if z3.is_false(cv): return [("normal", s, None)]
        if not z3.is_true(cv) or k > self.th.unroll: return None
        out = []
        for kd, s2, v in self.stmt(bod, s.copy()):
            if kd in ("normal", "continue"):
                for s3, _ in (self.ev(inc, s2) if inc is not None else [(s2, None)]):
                    s3 = s3.copy(); s3.names = st.names
                    q = self.unrolled(cond, inc, bod, s3, k + 1)
                    if q is None: return None
                    out += q
            elif kd == "break": out.append(("normal", s2, None))
            else: out.append((kd, s2, v))
        return out
    def loop(self, n, cond, inc, bod, st, dowhile):
        st = st.copy()
        if self.th.unroll and cond is not None and not dowhile:
            n0, t0 = len(self.obls), len(self.throws)
            r = self.ev(cond, st)
            if len(r) == 1 and z3.is_true(z3.simplify(self.tobool(r[0][1]))):
                q = self.unrolled(cond, inc, bod, st)
                if q is not None:
                    res = []
                    for kd, s, v in q:
                        s = s.copy(); s.names = st.names; s.loops = st.loops; res.append((kd, s, v))
                    return res
                del self.obls[n0:], self.throws[t0:]
        # loop path: position among the loops met at this nesting level
        key = self.loopids.setdefault(id(n), None)
        lid = self.loop_path(n, st)
        info = {"path": lid, "node": n, "cond": cond, "entry": st}
        mod = self.modified(n, cond, inc, bod, st, dowhile)
        info["modified"] = mod
        # roles, candidates
        h = st.copy()
        h.loops = st.loops + (lid,)
        for loc in mod:
            if loc in h.store: h.store[loc] = self.havoc_like(h.store[loc], self.locname(h, loc))
        cands = self.loopspec(self, info, st, h) if self.loopspec else []
        cands = [c for c in cands if (lid, c[0]) not in self.dropcands]
        entry_view = View(self, st)
        # init
        used = set()
        for cname, fn in cands:
            g = self.cand(fn, View(self, st), entry_view)
            if g is None: continue
            used.add(cname)
            self.oblige(st, "loop %s invariant '%s' holds initially" % (lid, cname), g, "init", (lid, cname))
        # assume
        gs = []
        hv = View(self, h)
        for cname, fn in cands:
            if cname not in used: continue
            g = self.cand(fn, hv, entry_view)
            if g is not None: gs.append(g)
            else: used.discard(cname)
        h.pc += gs
        for hook in self.assume_hooks: hook(self, h, info)
        out = []
        def preserve(s):
            sv = View(self, s)
            for cname, fn in cands:
                if cname not in used: continue
                g = self.cand(fn, sv, entry_view)
                if g is None: raise Unsupported("invariant %s cannot be evaluated after the loop body" % cname)
                self.oblige(s, "loop %s invariant '%s' is preserved" % (lid, cname), g, "preserve", (lid, cname))
        def check_cond(s):
            if cond is None: return [(s, z3.BoolVal(True))]
            return [(a, self.tobool(b)) for a, b in self.ev(cond, s)]
        def run_body(s):
            for kd, s2, v in self.stmt(bod, s):
                if kd in ("normal", "continue"):
                    if inc is not None:
                        for s3, _ in self.ev(inc, s2): yield ("next", s3, None)
                    else: yield ("next", s2, None)
                elif kd == "break": yield ("exit", s2, None)
                else: yield (kd, s2, v)
        names0 = st.names
        def leave(s):
            s = s.copy(); s.names = names0; s.loops = st.loops; out.append(("normal", s, None))
        if not dowhile:
            for s, cv in check_cond(h):
                if self.feasible(cv):
                    a = s.copy(); a.pc.append(cv)
                    for kd, s2, v in run_body(a):
                        if kd == "next": s2 = s2.copy(); s2.names = names0; preserve(s2)
                        elif kd == "exit": leave(s2)
                        else:
                            s2 = s2.copy(); s2.loops = st.loops; out.append((kd, s2, v))
                if self.feasible(z3.Not(cv)):
                    b = s.copy(); b.pc.append(z3.Not(cv)); leave(b)
        else:
            for kd, s2, v in run_body(h):
                if kd == "next":
                    s2 = s2.copy(); s2.names = names0
                    for s3, cv in check_cond(s2):
                        if self.feasible(cv):
                            a = s3.copy(); a.pc.append(cv); preserve(a)
                        if self.feasible(z3.Not(cv)):
                            b = s3.copy(); b.pc.append(z3.Not(cv)); leave(b)
                elif kd == "exit": leave(s2)
                else: out.append((kd, s2, v))
        return out
    def cand(self, fn, view, entry):
        try: return fn(view, entry)
        except (KeyError, AttributeError, Unsupported, z3.Z3Exception): 
            return None
    def locname(self, st, loc):
        for fr in reversed(st.names):
            for nme, l in fr.items():
                if l == loc: return nme
        return loc[1] if isinstance(loc, tuple) and loc[0] == "F" else "loc"
    def loop_path(self, n, st):
        parent = st.loops[-1] if st.loops else ""
        key = (parent, id(n))
        if key not in self.lpaths:
            cnt = sum(1 for (p, _) in self.lpaths if p == parent)
            self.lpaths[key] = (parent + "." if parent else "") + str(cnt)
        return self.lpaths[key]
    def modified(self, n, cond, inc, bod, st, dowhile):
        """locations of the entry state that some path through the loop can change (dry run to a fixed point)"""
        mkey = (id(n), len(st.names), st.depth)
        self.quiet += 1
        saved_lp = self.lpaths
        saved_th = list(self.throws)
        mod = set()
        try:
            while True:
                h = st.copy(); h.loops = st.loops + (self.loop_path(n, st),)
                for loc in mod:
                    if loc in h.store: h.store[loc] = self.havoc_like(h.store[loc], "m")
                base = dict(h.store)
                new = set()
                def diff(s):
                    for loc, v in base.items():
                        if loc in s.store and s.store[loc] is not v: new.add(loc)
                    for loc in s.store:
                        if loc not in base and isinstance(loc, tuple) and loc[0] == "F": new.add(loc)
                conds = [(h, z3.BoolVal(True))] if cond is None or dowhile else self.ev(cond, h)
                for s, cv in conds:
                    diff(s)
                    for kd, s2, v in self.stmt(bod, s.copy()):
                        diff(s2)
                        if kd in ("normal", "continue"):
                            if inc is not None:
                                for s3, _ in self.ev(inc, s2): diff(s3)
                            if dowhile and cond is not None:
                                for s3, _ in self.ev(cond, s2): diff(s3)
                # fields read for the first time are initialised lazily, not modified
                real = set()
                for loc in new:
                    if loc not in base:
                        # lazily initialised field: materialise in entry state, re-run
                        self.read(st, (loc, ()))
                        real.add(("MAT", loc))
                    else: real.add(loc)
                mats = {r for r in real if isinstance(r, tuple) and r[0] == "MAT"}
                new = real - mats
                if not (new - mod) and not mats: return mod
                mod |= new
        finally:
            self.quiet -= 1
            self.throws = saved_th

    # -------- verify a function against its contract
    def verify(self, name, contract, args=None, cls=None, pre_state=None, method=None):
        self.curfn = name; self.loopids = {}; self.lpaths = {}; self.throws = []
        if method is None:
            c, m = self.find_method(cls, name)
            if m is None:
                m = self.find_function(name, len(args or []))
                c = None
        else: c, m = cls, method
        if m is None: raise Unsupported("function %s not found" % name)
        st = pre_state or State()
        self.th.init_state(self, st)
        st.names = [{}]
        for p in params(m):
            v = (args or {}).get(p["name"]) if isinstance(args, dict) else None
            if v is None: v = self.fresh_value(parse_type(qt(p)), p["name"])
            self.bind(st, p, v)
            if isinstance(v, VecV): st.pc.append(v.size >= 0)
        vw = View(self, st)
        if contract.pre:
            for n, g in contract.pre(vw): st.pc.append(g)
        old = View(self, st.copy()); old.__dict__["fn_args"] = [st.store[p["id"]] for p in params(m)]
        self.functions.add(("%s::" % c if c else "") + name)
        exits = 0
        # constructor initialisers are not handled here
        entry_pc = list(st.pc)
        for kd, s, v in self.stmt(body(m), st):
            if kd == "throw": self.throws.append((s, v)); continue
            exits += 1
            for n, g in contract.post(View(self, s), old, v):
                self.oblige(s, "postcondition of %s: %s" % (name, n), g, "post")
            self.exit_states.append(s)
        return exits


def callee_member(e):
    c = kids(e)[0]
    while c.get("kind") in ("ParenExpr", "ImplicitCastExpr"): c = kids(c)[0]
    return c
def walk_decls(n):
    """declarations below n, not descending into function bodies"""
    yield n
    if n.get("kind") in ("ClassTemplateDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "NamespaceDecl", "FunctionTemplateDecl", "LinkageSpecDecl"):
        for c in kids(n): yield from walk_decls(c)

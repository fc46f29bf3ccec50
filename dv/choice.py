"""C21: contracts of GR1Context::determinize / determinizeRandomized over an arbitrary set of valuations."""
from gr1 import *

class SetTheory(Theory):
    """one coordinate: a valuation of all variables"""
    def __init__(self): super().__init__([("v", "V", "None")])
    def call(self, ex, st, name, args, e):
        if name in ("rand", "random") and not args: return [(st, fresh("rand", z3.IntSort()))]
        return Theory.call(self, ex, st, name, args, e)

def const_on(th, b, t):
    """every valuation of b gives t the same value"""
    v = th.flat(); kw = {"patterns": [b.at(v)]} if b.t is not None else {}
    return z3.Or(FA(v, z3.Implies(b.at(v), th.holds(t, *v)), **kw), FA(v, z3.Implies(b.at(v), z3.Not(th.holds(t, *v))), **kw))
def subset(th, a, b):
    v = th.flat(); return FA(v, z3.Implies(a.at(v), b.at(v)))
def nonempty(th, a): v = th.flat(); return EX(v, a.at(v))
def fixed(th, b, vec, n):
    q = z3.Int("q%d" % next(sym_counter)); t = z3.Select(vec.cols[0], q)
    return FA([q], z3.Implies(z3.And(0 <= q, q < n), const_on(th, b, t)), patterns=[t])
import itertools
sym_counter = itertools.count()
def choice_setup(ex, st): pass
def choice_loops(th):
    def loops(ex, info, st, h):
        vecs = [v for v in h.store.values() if isinstance(v, VecV) and v.et == ("BF",)]
        mods = [l for l in info["modified"]]
        out = []
        its = [l for l in mods if isinstance(h.store.get(l), IterV) or (isinstance(h.store.get(l), z3.ExprRef) and z3.is_int(h.store[l]))]
        bfs = [l for l in mods if isinstance(h.store.get(l), BFV) and any(l in fr.values() for fr in h.names)]
        if not vecs or not its: return out
        vec = vecs[0]
        for n, l in enumerate(its): out.append(("range%d" % n, lambda v, e, l=l: z3.And(0 <= num(v, l), num(v, l) <= vec.size)))
        for n, b in enumerate(bfs):
            g = lambda v, b=b: rd(v, b)
            out += [("contained%d" % n, lambda v, e, b=b: subset(th, rd(v, b), rd(e, b))),
                    ("nonempty%d" % n, lambda v, e, b=b: z3.Implies(nonempty(th, rd(e, b)), nonempty(th, rd(v, b)))),
                    ("fixed%d" % n, lambda v, e, b=b: fixed(th, rd(v, b), vec, num(v, its[0])))]
        return out
    return loops
def choice_post(v, old, res):
    th = v.th; i = old.fn_args[0]; vec = old.fn_args[1]
    return [("the result is contained in the set", subset(th, res, i)), ("the result is empty only if the set is empty", z3.Implies(nonempty(th, i), nonempty(th, res))),
            ("the result fixes every variable of the vector", fixed(th, res, vec, vec.size))]

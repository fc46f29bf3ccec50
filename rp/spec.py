"""Specifications: random generation, exact evaluation as tables, and writing in the slugs input format.

A table is a numpy bool array; transition predicates have shape (I,O,I,O) (pre input, pre output, post input,
post output valuations as bit vectors, variable 0 = least significant bit), state predicates shape (I,O)."""
import numpy as np, random

class Spec:
    """inputs, outputs: names; sections: lists of formula trees"""
    SECTIONS = ["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]
    def __init__(self, inputs, outputs):
        self.inputs, self.outputs = list(inputs), list(outputs)
        self.sec = {s: [] for s in self.SECTIONS}
    @property
    def nI(self): return len(self.inputs)
    @property
    def nO(self): return len(self.outputs)
    def copy(self):
        r = Spec(self.inputs, self.outputs)
        for s in self.SECTIONS: r.sec[s] = list(self.sec[s])
        return r
    # ---- text
    def text(self, rng=None):
        out = []
        secs = [("INPUT", self.inputs), ("OUTPUT", self.outputs)] + [(s, [fmt(f, rng) for f in self.sec[s]]) for s in self.SECTIONS]
        if rng is not None and rng.random() < 0.3:
            tail = secs[2:]; rng.shuffle(tail); secs = secs[:2] + tail
        for s, ls in secs:
            out.append("[%s]" % s); out += ls; out.append("")
        return "\n".join(out) + "\n"
    # ---- tables
    def tab(self, f):
        nI, nO = self.nI, self.nO
        return table(f, self.inputs, self.outputs)
    def conj(self, s):
        r = np.ones((1 << self.nI, 1 << self.nO, 1 << self.nI, 1 << self.nO), bool)
        for f in self.sec[s]: r &= self.tab(f)
        return r
    def game(self):
        E, S = self.conj("ENV_TRANS"), self.conj("SYS_TRANS")
        A = [self.tab(f) for f in self.sec["ENV_LIVENESS"]] or [np.ones_like(E)]
        G = [self.tab(f) for f in self.sec["SYS_LIVENESS"]] or [np.ones_like(E)]
        iE = self.conj("ENV_INIT")[:, :, 0, 0]; iS = self.conj("SYS_INIT")[:, :, 0, 0]
        return Game(E, S, A, G, iE, iS)

class Game:
    def __init__(self, E, S, A, G, iE, iS):
        self.E, self.S, self.A, self.G, self.iE, self.iS = E, S, A, G, iE, iS
        self.nI, self.nO = E.shape[0], E.shape[1]

# formula trees: True/False, ("v",name,primed), ("!",f), ("&"|"|"|"^",f,g), ("tab",array,names) tables expanded by Shannon
def table(f, inputs, outputs):
    nI, nO = len(inputs), len(outputs)
    shape = (1 << nI, 1 << nO, 1 << nI, 1 << nO)
    def ev(f):
        if f is True: return np.ones(shape, bool)
        if f is False: return np.zeros(shape, bool)
        if f[0] == "v":
            n, p = f[1], f[2]
            if n in inputs: ax, b = (2 if p else 0), inputs.index(n)
            else: ax, b = (3 if p else 1), outputs.index(n)
            v = ((np.arange(shape[ax]) >> b) & 1).astype(bool)
            sh = [1] * 4; sh[ax] = shape[ax]
            return np.broadcast_to(v.reshape(sh), shape)
        if f[0] == "!": return ~ev(f[1])
        a, b = ev(f[1]), ev(f[2])
        return a & b if f[0] == "&" else a | b if f[0] == "|" else a ^ b
    return ev(f).copy()

def fmt(f, rng=None):
    if f is True: return "1"
    if f is False: return "0"
    if f[0] == "v": return f[1] + ("'" if f[2] else "")
    if f[0] == "!": return "! " + fmt(f[1], rng)
    return "%s %s %s" % (f[0], fmt(f[1], rng), fmt(f[2], rng))

def size(f):
    if isinstance(f, bool) or f[0] == "v": return 1
    return 1 + sum(size(x) for x in f[1:])

def shannon(t, lits):
    """formula for the boolean array t over the literals (name, primed), t indexed by bit 0 = lits[0]"""
    t = np.asarray(t, bool)
    if t.all(): return True
    if not t.any(): return False
    v = ("v",) + lits[-1]
    h = len(t) // 2
    lo, hi = shannon(t[:h], lits[:-1]), shannon(t[h:], lits[:-1])
    if np.array_equal(t[:h], t[h:]): return lo
    if lo is False: return v if hi is True else ("&", v, hi)
    if hi is False: return ("!", v) if lo is True else ("&", ("!", v), lo)
    if lo is True: return ("|", ("!", v), hi)
    if hi is True: return ("|", v, lo)
    return ("|", ("&", v, hi), ("&", ("!", v), lo))

def pick(rng, k): return rng.choice(k)
def rformula(rng, lits, depth):
    if depth == 0 or rng.random() < 0.15:
        if rng.random() < 0.04 or not lits: return rng.random() < 0.7
        v = ("v",) + rng.choice(lits)
        return ("!", v) if rng.random() < 0.5 else v
    op = rng.choice("&&||^!") 
    if op == "!": return ("!", rformula(rng, lits, depth - 1))
    return (op, rformula(rng, lits, depth - 1), rformula(rng, lits, depth - 1))

NAMES_I = ["a", "b", "c", "d"]; NAMES_O = ["x", "y", "z", "w"]
def random_spec(rng, maxI=2, maxO=2, minI=0, minO=0, nlive=3, transitions_live=True, style=None, wide=0.1):
    nI = rng.randint(minI, maxI); nO = rng.randint(minO, maxO)
    if nI + nO == 0: nO = 1
    s = Spec(NAMES_I[:nI], NAMES_O[:nO])
    if rng.random() < 0.2: rng.shuffle(s.inputs); rng.shuffle(s.outputs)
    preI = [(n, False) for n in s.inputs]; postI = [(n, True) for n in s.inputs]
    preO = [(n, False) for n in s.outputs]; postO = [(n, True) for n in s.outputs]
    pre, alls = preI + preO, preI + preO + postI + postO
    style = style or rng.choice(["graph", "graph", "graph", "formula", "mixed", "sparse", "chain"])
    nprng = np.random.RandomState(rng.getrandbits(32)); chain = style == "chain"
    if chain:
        # nearly deterministic games: one or two answers per position and input (long ways to the goals, many rounds)
        nO = 1 << len(s.outputs); deg = rng.choice([1, 1.3, 1.6, 2]); rows = 1 << len(pre + postI); t = np.zeros((nO, rows), bool)
        for r in range(rows):
            for _ in range(1 + (nprng.rand() < deg - 1)): t[nprng.randint(nO), r] = True
        if rng.random() < 0.3: t &= nprng.rand(nO, rows) < 0.9
        s.sec["SYS_TRANS"].append(shannon(t.reshape(-1), alls))
        if rng.random() < 0.7: s.sec["ENV_TRANS"].append(shannon(nprng.rand(rows) < rng.choice([0.6, 0.8, 0.95]), pre + postI))
    if style in ("graph", "sparse", "mixed"):
        # random table: per (position, input) a random set of outputs, per position a set of inputs
        ds = rng.choice([0.2, 0.35, 0.5, 0.7]) if style != "sparse" else rng.choice([0.1, 0.2])
        t = nprng.rand(1 << len(alls)) < ds
        s.sec["SYS_TRANS"].append(shannon(t, alls))
        if rng.random() < 0.7:
            l = pre + postI
            de = rng.choice([0.3, 0.5, 0.8])
            s.sec["ENV_TRANS"].append(shannon(nprng.rand(1 << len(l)) < de, l))
    if style in ("formula", "mixed"):
        for _ in range(rng.randint(0, 3)): s.sec["SYS_TRANS"].append(rformula(rng, alls, rng.randint(1, 3)))
        for _ in range(rng.randint(0, 2)): s.sec["ENV_TRANS"].append(rformula(rng, pre + postI, rng.randint(1, 3)))
    lv = alls if transitions_live and rng.random() < 0.5 else pre
    many = rng.choice([("ENV_LIVENESS",), ("SYS_LIVENESS",), ("ENV_LIVENESS", "SYS_LIVENESS")]) if rng.random() < wide else ()
    for sec in ("ENV_LIVENESS", "SYS_LIVENESS"):
        # sometimes many conditions on one side or both (counters with a third and fourth bit, long cascades of rows)
        for _ in range(rng.choice([3, 4, 5, 5, 6, 8, 9]) if sec in many else rng.choice([0, 1, 1, 2, 2, nlive])):
            if chain and sec not in many:
                # few goal positions; assumptions that hold almost always or almost never
                d = rng.choice([0.06, 0.12, 0.2]) if sec == "SYS_LIVENESS" else rng.choice([0.1, 0.2, 0.5, 0.8]); l = lv if sec == "SYS_LIVENESS" else rng.choice([pre, alls])
                s.sec[sec].append(shannon(nprng.rand(1 << len(l)) < d, l))
            elif rng.random() < 0.6 or sec in many:
                d = rng.choice([0.15, 0.3, 0.5, 0.8]) if sec not in many else rng.choice([0.3, 0.5, 0.7, 0.9] if sec == "ENV_LIVENESS" else [0.5, 0.7, 0.9])
                s.sec[sec].append(shannon(nprng.rand(1 << len(lv)) < d, lv))
            else: s.sec[sec].append(rformula(rng, lv, rng.randint(0, 2)))
    return s
def random_init(rng, s):
    preI = [(n, False) for n in s.inputs]; preO = [(n, False) for n in s.outputs]
    for _ in range(rng.choice([0, 0, 1])): s.sec["ENV_INIT"].append(rformula(rng, preI, 1))
    for _ in range(rng.choice([0, 1, 1])): s.sec["SYS_INIT"].append(rformula(rng, preI + preO, rng.randint(0, 2)))
def state_formula(s, mask):
    """formula for a state table (I,O)"""
    lits = [(n, False) for n in s.inputs] + [(n, False) for n in s.outputs]
    flat = np.asarray(mask, bool).T.reshape(-1)   # index = i + o*2^nI
    return shannon(flat, lits)
def input_formula(s, mask):
    return shannon(np.asarray(mask, bool).reshape(-1), [(n, False) for n in s.inputs])

"""Independent explicit-state oracle (numpy).  Winning positions are computed by the fixed-point formula and, on
a sample in every run, compared with a second algorithm (recursive parity-game solving on the GR(1) product)."""
import numpy as np, sys
sys.setrecursionlimit(100000)

def cox(g, T):
    """positions from which for every input allowed by E some output leads into T (T: transition table)"""
    return (~g.E_any(T) if False else np.all(~g.E[:, :, :, 0] | np.any(T, axis=3), axis=2))

def solve(g, stats=None):
    """winning positions of the system: nu Z. /\\_j mu Y. \\/_i nu X. cox(S & (G_j & Z' | Y' | ~A_i & X'))"""
    nI, nO = g.nI, g.nO
    Z = np.ones((nI, nO), bool)
    outer = 0
    while True:
        outer += 1
        nZ = np.ones_like(Z); mx = 0
        for G in g.G:
            Y = np.zeros_like(Z); r = 0
            while True:
                r += 1
                live = (G & Z[None, None]) | Y[None, None]
                nY = Y.copy()
                for A in g.A:
                    X = np.ones_like(Z)
                    while True:
                        nX = cox(g, g.S & (live | (~A & X[None, None])))
                        if (nX == X).all(): break
                        X = nX
                    nY |= X
                if (nY == Y).all(): break
                Y = nY
            mx = max(mx, r)
            nZ &= Y
        if (nZ == Z).all(): break
        Z = nZ
    if stats is not None: stats.update(outer=outer, inner=mx)
    return Z

def solve_coop(g, stats=None):
    """cooperative mode: nu Z. /\\_j mu Y. \\/_i nu X. cox(D & (L | ~A_i & (X & M)')) /\\ /\\_k mu R. pre(A_k & Z' | Z & R')
    with D = E & S into positions that are not dead ends, L = G_j & Z' | Y', M = positions with a path through ~A_i & X to L"""
    nI, nO = g.nI, g.nO; alive = g.E[:, :, :, 0].any(axis=2)
    D = g.E & g.S & alive[None, None]; pre = lambda T: (D & T).any(axis=(2, 3))
    Z = np.ones((nI, nO), bool); mx = outer = deep = 0
    while True:
        outer += 1; nZ = alive.copy(); deep = 0
        for G in g.G:
            Y = np.zeros_like(Z); r = 0
            while True:
                r += 1; live = (G & Z[None, None]) | Y[None, None]; nY = Y.copy()
                for A in g.A:
                    X = np.ones_like(Z); nx = 0
                    while True:
                        M = np.zeros_like(Z); nx += 1; nm = 0
                        while True:
                            nm += 1; nM = pre(live | (~A & (X & M)[None, None]))
                            if (nM == M).all(): break
                            M = nM
                        nX = cox(g, D & (live | (~A & (X & M)[None, None])))
                        if (nX == X).all(): break
                        X = nX
                    nY |= X; deep = max(deep, (nx - 1) * (nm - 1) if X.any() else 0)
                if (nY == Y).all(): break
                Y = nY
            mx = max(mx, r); nZ &= Y
        nZ &= Z
        for A in g.A:
            R = np.zeros_like(Z)
            while True:
                nR = nZ & pre(nZ[None, None] & (A | R[None, None]))
                if (nR == R).all(): break
                R = nR
            nZ &= R
        if (nZ == Z).all(): break
        Z = nZ
    if stats is not None: stats.update(outer=outer, inner=mx, deep=deep)     # deep: rounds of the inner fixed points of the last pass
    return Z

def realizable(g, W=None):
    W = solve(g) if W is None else W
    iE = g.iE[:, 0]
    return bool(np.all(~iE | np.any(W & g.iS, axis=1)))
def realizable_robotics(g, W=None):
    W = solve(g) if W is None else W
    return bool(np.all(~(g.iE & g.iS) | W))

# ------------------------------------------------------------ second opinion: parity game by attractors (Zielonka)
def solve_parity(g):
    """product with a goal counter and an assumption counter; priorities: 2 = goal counter wraps, 1 = assumption counter
    wraps, 0 otherwise (max priority seen infinitely often, even wins for the system)"""
    nI, nO, m, n = g.nI, g.nO, len(g.A), len(g.G)
    # nodes: ("p",i,o,ka,kg,prio) system of positions; env moves; ("m",i,o,ka,kg,a) system moves
    idx = {}; owner = []; prio = []; succ = []
    def node(k, own, p):
        if k not in idx:
            idx[k] = len(owner); owner.append(own); prio.append(p); succ.append(None); todo.append(k)
        return idx[k]
    todo = []
    WIN, LOSE = ("W",), ("L",)
    for i in range(nI):
        for o in range(nO): node(("p", i, o, 0, 0, 0), 1, 0)
    while todo:
        k = todo.pop()
        v = idx[k]
        if k == WIN or k == LOSE: succ[v] = [v]; continue
        if k[0] == "p":
            _, i, o, ka, kg, _p = k
            ms = [a for a in range(nI) if g.E[i, o, a, 0]]
            succ[v] = [node(("m", i, o, ka, kg, a), 0, 0) for a in ms] or [node(WIN, 0, 2)]
        else:
            _, i, o, ka, kg, a = k
            out = []
            for c in range(nO):
                if not g.S[i, o, a, c]: continue
                na, ng, p = ka, kg, 0
                if g.A[ka][i, o, a, c]:
                    na = ka + 1
                    if na == m: na = 0; p = 1
                if g.G[kg][i, o, a, c]:
                    ng = kg + 1
                    if ng == n: ng = 0; p = 2
                out.append(node(("p", a, c, na, ng, p), 1, p))
            succ[v] = out or [node(LOSE, 0, 1)]
    N = len(owner)
    pred = [[] for _ in range(N)]
    for v in range(N):
        for w in succ[v]: pred[w].append(v)
    def attr(nodes, target, pl):
        A = set(target); st = list(target); cnt = {}
        while st:
            w = st.pop()
            for v in pred[w]:
                if v not in nodes or v in A: continue
                if owner[v] == pl: A.add(v); st.append(v)
                else:
                    if v not in cnt: cnt[v] = sum(1 for x in succ[v] if x in nodes)
                    cnt[v] -= 1
                    if cnt[v] == 0: A.add(v); st.append(v)
        return A
    def ziel(nodes):
        if not nodes: return set(), set()
        p = max(prio[v] for v in nodes); pl = p % 2
        A = attr(nodes, [v for v in nodes if prio[v] == p], pl)
        w = ziel(nodes - A)
        if not w[1 - pl]:
            r = [set(), set()]; r[pl] = set(nodes); return tuple(r)
        B = attr(nodes, w[1 - pl], 1 - pl)
        u = ziel(nodes - B)
        r = [set(), set()]; r[pl] = u[pl]; r[1 - pl] = u[1 - pl] | B
        return tuple(r)
    w0, w1 = ziel(set(range(N)))
    W = np.zeros((nI, nO), bool)
    for i in range(nI):
        for o in range(nO): W[i, o] = idx[("p", i, o, 0, 0, 0)] in w0
    return W

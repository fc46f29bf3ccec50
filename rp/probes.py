"""Bounded stand-ins and replay search: random and enumerated inputs against the real binary, judged by independent
oracles.  A probe runs one case; its failure (if any) is a concrete input."""
import random, hashlib, numpy as np
from spec import *
from game import *
from cli import Slugs

class Failure(Exception):
    def __init__(self, kind, what, **kw): super().__init__(what); self.d = dict(kind=kind, what=what, **kw)
class Ctx:
    def __init__(self, sl, rng): self.sl, self.rng, self.n, self.nontrivial, self.samples, self.counts = sl, rng, 0, set(), [], {}
    def case(self, text, nontrivial, note=None):
        self.n += 1
        if nontrivial: self.nontrivial.add(hashlib.sha1(text.encode() if isinstance(text, str) else text).hexdigest()[:16])
        if len(self.samples) < 2 and nontrivial: self.samples.append({"input": text if len(text) < 1500 else text[:1500], "note": note})
    def tally(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
PROBES = {}
def probe(pid, rule, weight=1):
    def deco(f): PROBES.setdefault(pid, []).append((f, rule, weight)); return f
    return deco
def fail(kind, what, **kw): raise Failure(kind, what, **kw)
def need(cond, kind, what, **kw):
    if not cond: raise Failure(kind, what, **kw)

ROB = "--sysInitRoboticsSemantics"
def rgame(rng, maxI=2, maxO=2, tries=12, deep=False, **kw):
    """a random game whose winning set is preferably neither empty nor everything"""
    if deep: tries = 30
    for _ in range(tries):
        s = random_spec(rng, maxI, maxO, **kw); g = s.game(); st = {}; W = solve(g, st)
        if W.any() and (st["inner"] > 2 and W.sum() > 1 if deep else not W.all()): return s, g, W, st
        if rng.random() < 0.04: break
    return s, g, W, st
def set_init(s, envmask=None, sysmask=None):
    s.sec["ENV_INIT"] = [] if envmask is None else [input_formula(s, envmask)]
    s.sec["SYS_INIT"] = [] if sysmask is None else [state_formula(s, sysmask)]
def one(rng, mask):
    idx = np.argwhere(mask); k = idx[rng.randrange(len(idx))]; m = np.zeros_like(mask); m[tuple(k)] = True; return m
def sizes(rng):
    r = rng.random()
    if r < 0.012: return rng.choice([(3, 3), (4, 2), (2, 4), (4, 1), (1, 4), (3, 3)])
    if r < 0.08: return 3, 2
    if r < 0.14: return 2, 3
    if r < 0.5: return 1, 2
    return 2, 2
def initial_variants(rng, s, g, W):
    """initial conditions that put the verdict on the border of the winning set: [(envmask, sysmask)]"""
    out = []
    if W.any():
        m = one(rng, W); out.append((m.any(axis=1), m)); out.append((W.any(axis=1), W))
    if not W.all():
        m = one(rng, ~W); out.append((m.any(axis=1), m)); out.append(((~W).any(axis=1), ~W))
        if W.any(): out.append((None, W | one(rng, ~W)))
    out.append((None, None))
    nr = np.random.RandomState(rng.getrandbits(32)); nI, nO = W.shape
    out.append((nr.rand(nI) < 0.5, nr.rand(nI, nO) < rng.choice([0.3, 0.6])))      # independent of each other (also: one or both unsatisfiable)
    i = rng.randrange(nI); e = np.zeros(nI, bool); e[i] = True; m = np.broadcast_to(~e[:, None], W.shape)
    out.append((e, m & W if rng.random() < 0.5 else m.copy()))                     # no position satisfies both
    if rng.random() < 0.3: out.append((np.zeros(nI, bool), W if rng.random() < 0.5 else ~W))
    return out
def verdict_of(ctx, s, opts, expect, kind, **kw):
    t = s.text(ctx.rng); r = ctx.sl.run(t, opts, **kw)
    need(not r.timeout, kind, "the tool does not terminate", input=t, opts=list(opts), expected=expect)
    need(r.rc == 0 and r.verdict is not None, kind, "the tool fails: exit %s, %s" % (r.rc, r.err[-300:]), input=t, opts=list(opts), expected=expect)
    need(r.verdict == expect, kind, "verdict %s, the game says %s" % (r.verdict, expect), input=t, opts=list(opts), expected=expect, observed=r.verdict)
    return t, r
def free_init(rng, s):
    set_init(s); random_init(rng, s)

def verdict_probe(ctx, options, semantics):
    rng = ctx.rng; s, g, W, st = rgame(rng, *sizes(rng))
    if rng.random() < 0.02:
        need((solve_parity(g) == W).all(), "oracle", "the two oracles disagree", input=s.text()); ctx.tally("second oracle")
    vs = initial_variants(rng, s, g, W); rng.shuffle(vs)
    for e, m in vs[:3] + [("free", None)]:
        if isinstance(e, str): free_init(rng, s)
        else: set_init(s, e, m)
        g2 = s.game()
        for opts in options if len(options) == 1 else rng.sample(options, min(3, len(options))):
            rob = ROB in opts
            exp = realizable_robotics(g2, W) if rob else realizable(g2, W)
            t, r = verdict_of(ctx, s, opts, exp, "verdict " + " ".join(opts))
            ctx.case(t + " ".join(opts), W.any() and not W.all() and st["inner"] > 2, {"opts": list(opts), "verdict": exp}); ctx.tally(" ".join(opts) or "(default)")
def shuffled(rng, s):
    """same specification, written differently: conjuncts split/merged/permuted, variables declared in another order"""
    r = s.copy(); rng.shuffle(r.inputs); rng.shuffle(r.outputs)
    for sec in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS"):
        fs = []
        for f in r.sec[sec]:
            if not isinstance(f, bool) and f[0] == "&" and rng.random() < 0.6: fs += [f[1], f[2]]
            else: fs.append(f)
        if len(fs) > 1 and rng.random() < 0.4: fs = [("&", fs[0], fs[1])] + fs[2:]
        if rng.random() < 0.2: fs.append(True)
        rng.shuffle(fs); r.sec[sec] = fs
    for sec in ("ENV_LIVENESS", "SYS_LIVENESS"): rng.shuffle(r.sec[sec])
    return r

RULE = "random GR(1) games (<=3 inputs, <=3 outputs, <=3 liveness conditions per side over transitions), initial conditions on the border of the winning set; non-trivial: winning set neither empty nor full and a goal needs more than two rounds"
@probe("C01", RULE)
def c01(ctx): verdict_probe(ctx, [()], 0)
@probe("C01", "the same specification written in another order", 0.2)
def c01b(ctx):
    rng = ctx.rng; s, g, W, st = rgame(rng, 2, 2); free_init(rng, s); exp = realizable(s.game(), W)
    for _ in range(2):
        t, r = verdict_of(ctx, shuffled(rng, s), (), exp, "verdict reordered"); ctx.case(t, W.any() and not W.all())
VARIANTS = [("--fixedPointRecycling",), ("--biasForAction", "--explicitStrategy"), ("--simpleRecovery", "--explicitStrategy"), ("--biasForAction", "--symbolicStrategy"), ("--simpleRecovery", "--symbolicStrategy"),
            ("--explicitStrategy",), ("--explicitStrategy", "--jsonOutput"), ("--symbolicStrategy",), ("--simpleSymbolicStrategy",), ("--biasForAction", "--simpleSymbolicStrategy"),
            ("--fixedPointRecycling", "--explicitStrategy"), ("--fixedPointRecycling", "--symbolicStrategy"), ("--extractExplicitPermissiveStrategy",),
            ("--explicitStrategy", "--biasForAction", "--simpleRecovery"), ("--biasForAction",), ("--biasForAction", "--extractExplicitPermissiveStrategy"), ("--fixedPointRecycling", "--extractExplicitPermissiveStrategy")]
@probe("C02", RULE + "; every option combination that only changes the algorithm or the output")
def c02(ctx):
    rng = ctx.rng; s, g, W, st = rgame(rng, *sizes(rng)); vs = initial_variants(rng, s, g, W); rng.shuffle(vs)
    for e, m in vs[:2]:
        set_init(s, e, m); g2 = s.game()
        for o in rng.sample(VARIANTS, 3):
            rob = rng.random() < 0.3 and "x" not in o
            opts = o + ((ROB,) if rob else ())
            exp = realizable_robotics(g2, W) if rob else realizable(g2, W)
            t, r = verdict_of(ctx, s, opts, exp, "verdict " + " ".join(opts), outfile="out" if any("Strategy" in x for x in o) else None)
            ctx.case(t + " ".join(opts), W.any() and not W.all() and st["inner"] > 2, {"opts": opts}); ctx.tally(" ".join(opts))
@probe("C03", RULE)
def c03(ctx): verdict_probe(ctx, [(ROB,)], 1)
@probe("C03", "no admissible initial position", 0.1)
def c03b(ctx):
    rng = ctx.rng; s, g, W, st = rgame(rng, 2, 2); set_init(s, None, np.zeros_like(W)); t, r = verdict_of(ctx, s, (ROB,), True, "verdict empty init"); ctx.case(t, True)
@probe("C04", RULE)
def c04(ctx): verdict_probe(ctx, [("--counterStrategy",), ("--counterStrategy", ROB), (ROB, "--counterStrategy")], 0)

# ------------------------------------------------------------------ strategies
import autom
from autom import Bad
def judged(kind, t, opts, f, *a, **kw):
    try: return f(*a, **kw)
    except Bad as e: fail(kind + e.kind, e.what, input=t, opts=list(opts), output=kw.get("_out"))
def strat_init(rng, s, g, W, rob):
    """initial conditions under which the specification is realizable (mostly)"""
    if not W.any(): set_init(s); return
    r = rng.random()
    if r < 0.35:
        m = W & (np.random.RandomState(rng.getrandbits(32)).rand(*W.shape) < rng.choice([0.3, 0.7]))
        if not m.any(): m = one(rng, W)
        set_init(s, m.any(axis=1), m)
    elif r < 0.7: set_init(s, W.any(axis=1), W)
    elif r < 0.85: set_init(s, W.any(axis=1), None)
    else: free_init(rng, s)
STRULE = "random GR(1) games with initial conditions that make them realizable; the output is parsed and judged against explicit tables of the game; non-trivial: at least one liveness condition needs more than two rounds"
def get_output(ctx, s, opts, text, where):
    if where: r = ctx.sl.run(text, opts, outfile="out"); data = r.files.get("out")
    else: r = ctx.sl.run(text, opts); data = r.out.encode("latin1")
    return r, data
def explicit_case(ctx, base, kind, rec):
    rng = ctx.rng; rob = rng.random() < 0.4; s, g, W, st = rgame(rng, *sizes(rng), deep=True); strat_init(rng, s, g, W, rob); g = s.game()
    js = rng.random() < 0.35; opts = base + (("--jsonOutput",) if js else ()) + ((ROB,) if rob else ())
    exp = (realizable_robotics if rob else realizable)(g, W)
    t = s.text(ctx.rng); r, data = get_output(ctx, s, opts, t, rng.random() < 0.5)
    need(not r.timeout and r.rc == 0 and r.verdict is not None, kind + "run", "the tool fails: exit %s %s" % (r.rc, r.err[-200:]), input=t, opts=list(opts))
    if r.verdict != exp: return          # (judged by C01-C03)
    if not r.verdict:
        need(not data, kind + "unrealizable", "a strategy is written for an unrealizable specification", input=t, opts=list(opts)); ctx.case(t, False); return
    need(data is not None, kind + "run", "no output file", input=t, opts=list(opts))
    out = data.decode("latin1")
    try: aut = autom.parse_json(out) if js else autom.parse_text(out)
    except Bad as e: fail(kind + e.kind, e.what, input=t, opts=list(opts), output=out[:3000])
    except (ValueError, KeyError) as e: fail(kind + "format", "unreadable output: %s" % e, input=t, opts=list(opts), output=out[:3000])
    try: autom.check_explicit(s, g, W, aut, rob, rec)
    except Bad as e: fail(kind + e.kind, e.what, input=t, opts=list(opts), output=out[:4000])
    if rec:
        pos = autom.positions(s, aut); ctx.tally("recovery transitions", sum(1 for n in aut for x in aut[n].succ if not g.E[pos[n][0], pos[n][1], pos[x][0], 0]))
    if rng.random() < 0.3:
        o2 = tuple(o for o in opts if o != "--jsonOutput") + (() if js else ("--jsonOutput",))
        r2 = ctx.sl.run(t, o2)
        try: b = autom.parse_text(r2.out) if js else autom.parse_json(r2.out)
        except (Bad, ValueError, KeyError) as e: fail(kind + "format", "unreadable output: %s" % e, input=t, opts=list(o2), output=r2.out[:3000])
        ka = {n: (x.rank, x.val, x.succ) for n, x in aut.items()}; kb = {n: (x.rank, x.val, x.succ) for n, x in b.items()}
        need(ka == kb, kind + "formats", "the text and the JSON output describe different automata", input=t, opts=list(opts), output=out[:1500] + "\n----\n" + r2.out[:1500]); ctx.tally("text = JSON")
    ctx.case(t + " ".join(opts), st["inner"] > 2, {"opts": list(opts), "states": len(aut)}); ctx.tally(" ".join(opts))
@probe("C05", STRULE)
def c05(ctx): explicit_case(ctx, ctx.rng.choice([("--explicitStrategy",), ("--explicitStrategy",), ("--explicitStrategy", "--fixedPointRecycling"), ("--explicitStrategy", "--biasForAction")]), "explicit ", False)
def symbolic_case(ctx, base, full, kind, rec):
    rng = ctx.rng; rob = rng.random() < 0.4; s, g, W, st = rgame(rng, *sizes(rng), deep=True); strat_init(rng, s, g, W, rob); g = s.game()
    opts = base + ((ROB,) if rob else ()); exp = (realizable_robotics if rob else realizable)(g, W)
    t = s.text(ctx.rng); r = ctx.sl.run(t, opts, outfile="out"); data = r.files.get("out")
    need(not r.timeout and r.rc == 0 and r.verdict is not None, kind + "run", "the tool fails: exit %s %s" % (r.rc, r.err[-200:]), input=t, opts=list(opts))
    if r.verdict != exp: return
    if not r.verdict:
        need(not data, kind + "unrealizable", "a strategy is written for an unrealizable specification", input=t, opts=list(opts)); ctx.case(t, False); return
    need(data, kind + "run", "no output file", input=t, opts=list(opts))
    try: autom.check_symbolic(s, g, W, data, full, rec)
    except Bad as e: fail(kind + e.kind, e.what, input=t, opts=list(opts), output=data.decode("latin1")[:4000])
    except (ValueError, KeyError, IndexError) as e: fail(kind + "format", "unreadable output: %r" % e, input=t, opts=list(opts), output=data.decode("latin1")[:3000])
    ctx.case(t + " ".join(opts), st["inner"] > 2, {"opts": list(opts)}); ctx.tally(" ".join(opts))
@probe("C06", STRULE)
def c06(ctx):
    full = ctx.rng.random() < 0.5; b = ("--simpleSymbolicStrategy",) if full else ("--symbolicStrategy",)
    symbolic_case(ctx, b + ctx.rng.choice([(), (), ("--fixedPointRecycling",), ("--biasForAction",)]), full, "symbolic ", False)
@probe("C16", STRULE)
def c16(ctx):
    extra = ctx.rng.choice([(), (), ("--fixedPointRecycling",), ("--biasForAction",)])
    if ctx.rng.random() < 0.6: explicit_case(ctx, ("--explicitStrategy", "--simpleRecovery") + extra, "recovery explicit ", True)
    else:
        full = ctx.rng.random() < 0.5
        symbolic_case(ctx, (("--simpleSymbolicStrategy",) if full else ("--symbolicStrategy",)) + ("--simpleRecovery",) + extra, full, "recovery symbolic ", True)
@probe("C07", "random unrealizable GR(1) games; the automaton printed is parsed and judged against explicit tables of the game; non-trivial: more than two rounds")
def c07(ctx):
    rng = ctx.rng; rob = rng.random() < 0.5; s, g, W, st = rgame(rng, *sizes(rng))
    if not W.all():
        r = rng.random()
        if r < 0.4: set_init(s, (~W).any(axis=1), ~W)
        elif r < 0.6: m = one(rng, ~W); set_init(s, m.any(axis=1), m)
        elif r < 0.8: set_init(s)
        else: free_init(rng, s)
    g = s.game(); opts = ("--counterStrategy",) + ((ROB,) if rob else ())
    if (realizable_robotics if rob else realizable)(g, W): return
    t = s.text(rng); r = ctx.sl.run(t, opts)
    need(not r.timeout and r.rc == 0 and r.verdict is not None, "counter run", "the tool fails: exit %s %s" % (r.rc, r.err[-200:]), input=t, opts=list(opts))
    if r.verdict: return
    try: st2 = autom.parse_text(r.out); autom.check_counter(s, g, W, st2, rob)
    except Bad as e: fail("counter " + e.kind, e.what, input=t, opts=list(opts), output=r.out[:4000])
    ctx.case(t, st["inner"] > 1 and st["outer"] > 1, {"states": len(st2)}); ctx.tally(" ".join(opts))
@probe("C08", STRULE)
def c08(ctx):
    rng = ctx.rng; rob = rng.random() < 0.4; s, g, W, st = rgame(rng, *sizes(rng)); strat_init(rng, s, g, W, rob); g = s.game()
    opts = ("--extractExplicitPermissiveStrategy",) + rng.choice([(), (), ("--fixedPointRecycling",), ("--biasForAction",)]) + ((ROB,) if rob else ())
    t = s.text(rng); r, data = get_output(ctx, s, opts, t, rng.random() < 0.5)
    need(not r.timeout and r.rc == 0 and r.verdict is not None, "permissive run", "the tool fails: exit %s %s" % (r.rc, r.err[-200:]), input=t, opts=list(opts))
    if r.verdict != (realizable_robotics if rob else realizable)(g, W): return
    if not r.verdict: need(not data, "permissive unrealizable", "a strategy is written for an unrealizable specification", input=t, opts=list(opts)); return
    out = data.decode("latin1")
    try: aut = autom.parse_permissive(out); autom.check_permissive(s, g, W, aut, rob)
    except Bad as e: fail("permissive " + e.kind, e.what, input=t, opts=list(opts), output=out[:4000])
    except (ValueError, KeyError, IndexError) as e: fail("permissive format", "unreadable output: %r" % e, input=t, opts=list(opts), output=out[:3000])
    ctx.case(t + " ".join(opts), st["inner"] > 2, {"opts": list(opts), "states": len(aut)}); ctx.tally(" ".join(opts))

COOP = "--cooperativeGR1Strategy"
def cgame(rng):
    """games in which the cooperative winning set is preferably non-trivial and differs from the standard one"""
    for _ in range(25):
        s = random_spec(rng, *sizes(rng)); g = s.game(); st = {}; W = solve_coop(g, st)
        if W.any() and (st["inner"] > 2 or not W.all()) and (not (W == solve(g)).all() or rng.random() < 0.2): return s, g, W, st
        if rng.random() < 0.04: break
    return s, g, W, st
def cdeep(rng, n=40):
    """nearly deterministic games, the one whose inner fixed points of the cooperative computation take longest"""
    best = None; z = rng.choice([(1, 2), (1, 3), (1, 3), (1, 3), (2, 2)])
    for _ in range(n):
        s = random_spec(rng, *z, minI=z[0], minO=z[1], style="chain", wide=0); g = s.game(); st = {}; W = solve_coop(g, st)
        if W.any() and (best is None or st["deep"] > best[3]["deep"]): best = (s, g, W, st)
        if best and best[3]["deep"] > 5: break
    return best or cgame(rng)
@probe("C20", "random games; the verdict is compared with an explicit fixed point; non-trivial: the cooperative winning set differs from the standard one")
def c20v(ctx):
    rng = ctx.rng; s, g, W, st = cgame(rng); dif = not (W == solve(g)).all()
    for e, m in initial_variants(rng, s, g, W):
        set_init(s, e, m); g = s.game(); rob = rng.random() < 0.4; ex = (realizable_robotics if rob else realizable)(g, W)
        t, r = verdict_of(ctx, s, (COOP,) + ((ROB,) if rob else ()), ex, "cooperative verdict"); ctx.case(t, dif); ctx.tally("verdict %s" % ex)
@probe("C20", "random games; the automaton is judged: safe, complete, winning, and from every state a run satisfies assumptions and guarantees; non-trivial: the cooperative winning set differs from the standard one", 6)
def c20s(ctx):
    rng = ctx.rng; rob = rng.random() < 0.4; s, g, W, st = cgame(rng) if rng.random() < 0.4 else cdeep(rng); dif = not (W == solve(g)).all(); strat_init(rng, s, g, W, rob); g = s.game()
    js = rng.random() < 0.35; rec = rng.random() < 0.15; opts = (COOP, "--explicitStrategy") + (("--jsonOutput",) if js else ()) + ((ROB,) if rob else ()) + (("--simpleRecovery",) if rec else ())
    exp = (realizable_robotics if rob else realizable)(g, W); t = s.text(rng); r, data = get_output(ctx, s, opts, t, rng.random() < 0.3)
    need(not r.timeout and r.rc == 0 and r.verdict is not None, "cooperative run", "the tool fails: exit %s %s" % (r.rc, r.err[-200:]), input=t, opts=list(opts))
    need(r.verdict == exp, "cooperative verdict", "verdict %s, expected %s" % (r.verdict, exp), input=t, opts=list(opts))
    if not exp: need(not data, "cooperative unrealizable", "a strategy is written for an unrealizable specification", input=t, opts=list(opts)); ctx.case(t, False); return
    out = data.decode("latin1")
    try: aut = autom.parse_json(out) if js else autom.parse_text(out); autom.check_explicit(s, g, W, aut, rob, rec, True)
    except Bad as e: fail("cooperative " + e.kind, e.what, input=t, opts=list(opts), output=out[:4000])
    except (ValueError, KeyError, IndexError) as e: fail("cooperative format", "unreadable output: %r" % e, input=t, opts=list(opts), output=out[:3000])
    ctx.case(t + " ".join(opts), dif, {"opts": list(opts), "states": len(aut)}); ctx.tally(" ".join(opts))

# ------------------------------------------------------------------ the input format
import slugsin, re
def write_shared(rng, f, lits_ok=True):
    """one of many ways to write a formula: buffers with back references, redundant double negation, constants"""
    subs = {}
    def collect(g):
        if isinstance(g, bool): return
        k = repr(g); subs[k] = (subs.get(k, (0, g))[0] + 1, g)
        for x in g[1:]:
            if isinstance(x, (tuple, bool)) and g[0] != "v": collect(x)
    collect(f)
    # a buffer: chosen sub-formulas in order of size
    ch = sorted((g for c, g in subs.values() if g[0] != "v" and (c > 1 or rng.random() < 0.3)), key=size)[:rng.randint(0, 6)]
    if not ch or rng.random() < 0.2: return wr(rng, f, [], True)
    mem = []; parts = []
    for g in ch: parts.append(wr(rng, g, mem, True)); mem.append(g)
    if rng.random() < 0.25:
        inner = write_shared(rng, f); parts.append(inner)
        return "$ %d %s" % (len(parts), " ".join(parts))
    parts.append(wr(rng, f, mem, False)); return "$ %d %s" % (len(parts), " ".join(parts))
def wr(rng, f, mem, self_ok):
    if not isinstance(f, bool):
        for k, g in enumerate(mem):
            if g == f and rng.random() < 0.9: return "? %d" % k
    if rng.random() < 0.05: return "! ! " + wr(rng, f, mem, self_ok)
    if rng.random() < 0.03: return rng.choice(["& 1 ", "| 0 ", "^ 0 "]) + wr(rng, f, mem, self_ok)
    if f is True: return "1"
    if f is False: return "0"
    if f[0] == "v": return f[1] + ("'" if f[2] else "")
    if f[0] == "!": return "! " + wr(rng, f[1], mem, self_ok)
    a, b = wr(rng, f[1], mem, self_ok), wr(rng, f[2], mem, self_ok)
    return "%s %s %s" % ((f[0], b, a) if rng.random() < 0.3 else (f[0], a, b))
def write_spec(rng, s):
    out = []
    secs = [("INPUT", s.inputs), ("OUTPUT", s.outputs)]
    if rng.random() < 0.3: secs.reverse()
    body = [(q, [write_shared(rng, f) for f in s.sec[q]]) for q in s.SECTIONS]; rng.shuffle(body)
    for q, ls in secs + body:
        if not ls and rng.random() < 0.3: continue
        if len(ls) > 1 and q not in ("INPUT", "OUTPUT") and rng.random() < 0.3:      # a section may be continued later
            k = rng.randint(1, len(ls) - 1); blocks = [ls[:k], ls[k:]]
        else: blocks = [ls]
        for b in blocks:
            out.append(rng.choice(["", "  ", "\t"]) + "[%s]" % q + rng.choice(["", " ", "\r"]))
            for l in b:
                if rng.random() < 0.1: out.append(rng.choice(["# comment | & x", "", "   ", "#"]))
                out.append(rng.choice(["", "", " ", "\t"]) + re.sub(" ", lambda m: rng.choice([" ", " ", "  ", "\t"]), l) + rng.choice(["", "", " ", "\r"]))
    return "\n".join(out) + rng.choice(["\n", "", "\n\n"])
def judge_text(ctx, t, opts=(), note=None):
    """the tool on text t against the reference reading"""
    try: s = slugsin.read(t)
    except slugsin.Reject as e:
        r = ctx.sl.run(t, opts)
        need(not r.timeout and r.rc is not None and r.rc >= 0, "format crash", "the tool crashes (signal %s) on malformed input (%s)" % (r.rc, e), input=t, opts=list(opts))
        need(r.rc == 1 and r.verdict is None and r.err.replace("SLUGS:", "").strip(), "format accepted", "malformed input (%s) is accepted: exit %s, %s" % (e, r.rc, r.err[-200:]), input=t, opts=list(opts))
        need("Error" in r.err, "format message", "no error message", input=t, opts=list(opts)); ctx.tally("rejected: %s" % e); return None
    except slugsin.Grey: return False
    if len(s.inputs) + len(s.outputs) > 6: return False
    g = s.game(); W = solve(g); exp = realizable_robotics(g, W) if ROB in opts else realizable(g, W)
    r = ctx.sl.run(t, opts)
    need(not r.timeout and r.rc is not None and r.rc >= 0, "format crash", "the tool crashes (signal %s)" % r.rc, input=t, opts=list(opts))
    need(r.rc == 0 and r.verdict is not None, "format rejected", "well-formed input is rejected: %s" % r.err[-300:], input=t, opts=list(opts))
    need(r.verdict == exp, "format meaning", "the specification is read with another meaning: verdict %s, expected %s" % (r.verdict, exp), input=t, opts=list(opts))
    ctx.tally("accepted"); return s, g, W
@probe("C09", "random specifications written with buffers, back references, comments, odd spacing; verdict against the reference reading")
def c09(ctx):
    rng = ctx.rng; s, g, W, st = rgame(rng, *sizes(rng)); vs = initial_variants(rng, s, g, W)
    e, m = rng.choice(vs); set_init(s, e, m)
    t = write_spec(rng, s); judge_text(ctx, t, (ROB,) if rng.random() < 0.3 else ()); ctx.case(t, "$" in t)
@probe("C09", "equivalence of one formula with its truth table, through the verdict of a game without choices; and of the table with one bit flipped", 1.5)
def c09b(ctx):
    rng = ctx.rng; n = rng.randint(1, 3); names = rng.sample(["a", "b", "c", "ab", "x1", "_q", "a.b"], n)
    lits = [(v, False) for v in names] + [(v, True) for v in names]
    f = rformula(rng, lits, rng.randint(1, 4)); txt = write_shared(rng, f)
    tab = table(f, names, [])[:, 0, :, 0]; flat = tab.T.reshape(-1).copy(); flip = rng.random() < 0.6
    if flip: k = rng.randrange(len(flat)); flat[k] = not flat[k]
    ref = fmt(shannon(flat, lits)); sec = rng.choice(["SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS", "ENV_TRANS"])
    head = "[INPUT]\n%s\n" % "\n".join(names)
    if sec == "SYS_TRANS": t = head + "[SYS_TRANS]\n! ^ %s %s\n" % (txt, ref); exp = not flip
    elif sec == "SYS_LIVENESS":          # ! ^ must hold infinitely often on every run: fails iff a cycle avoids it; all transitions are possible, so one violated self loop or two-cycle decides
        t = head + "[SYS_LIVENESS]\n%s\n" % txt; s = slugsin.read(t); exp = realizable(s.game())
    elif sec == "ENV_LIVENESS": t = head + "[ENV_LIVENESS]\n%s\n[SYS_LIVENESS]\n0\n" % txt; s = slugsin.read(t); exp = realizable(s.game())
    else:
        one_ = np.zeros(len(flat), bool); k = rng.randrange(len(flat)); one_[k] = True
        t = head + "[ENV_TRANS]\n%s\n[SYS_TRANS]\n! %s\n" % (txt, fmt(shannon(one_, lits))); s = slugsin.read(t); exp = realizable(s.game())
    r = ctx.sl.run(t, ())
    need(r.verdict == exp and r.rc == 0, "formula meaning", "formula read with another meaning: verdict %s, expected %s (%s)" % (r.verdict, exp, r.err[-150:]), input=t, opts=[])
    ctx.case(t, "$" in txt and size(f) > 4); ctx.tally("equivalence " + sec)
@probe("C09", "malformed variants: tokens deleted, inserted, replaced, lines moved, bytes flipped; the reference reading says whether they are well-formed", 1.5)
def c09c(ctx):
    rng = ctx.rng; s, g, W, st = rgame(rng, 2, 2, 1); t = write_spec(rng, s)
    r = rng.random()
    if r < 0.6:
        lines = t.split("\n"); idx = [k for k, l in enumerate(lines) if l.strip() and l.strip()[0] not in "[#"]
        if not idx: return
        k = rng.choice(idx); tk = lines[k].split()
        for _ in range(rng.choice([1, 1, 2])):
            q = rng.randrange(len(tk) + 1) if tk else 0; w = rng.random()
            pool = ["|", "&", "^", "!", "0", "1", "$", "?", "$ 0", "$ 1", "$ 2", "? 0", "? 1", "? 7", "$ 3", "? -1", "$ -1", "$ 99999", "? x", "zz", "a", "x", "a'", "x'", "b'", "x''", "A", "||", "[", "#", "$ 1 ? 0", "$ 2 ? 1 a", "$ 999999999 1"]
            if w < 0.35 and q < len(tk): del tk[q]
            elif w < 0.75: tk.insert(q, rng.choice(pool))
            elif q < len(tk): tk[q] = rng.choice(pool)
        lines[k] = " ".join(tk); t = "\n".join(lines)
    elif r < 0.75:
        lines = t.split("\n"); k = rng.randrange(len(lines)); l = lines.pop(k); lines.insert(rng.randrange(len(lines) + 1), l); t = "\n".join(lines)
    elif r < 0.85: t = t.replace(rng.choice(["[INPUT]", "[OUTPUT]", "[SYS_TRANS]", "[ENV_INIT]", "[SYS_LIVENESS]"]), rng.choice(["[INPUTS]", "[OUTPUT]", "[SYS_INIT]", "[env_init]", "[SYS_LIVENESS", "INPUT", "[ENV_LIVENESS]", "[ SYS_INIT]", "[]", "["]), 1)
    elif r < 0.93: t = t.replace("\n", "\n" + rng.choice(["a", "x", "a'", "y\n y", "u u", "w"]) + "\n", 1)
    else:
        b = bytearray(t.encode()); 
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(len(b)); b[k] = rng.choice([0, 10, 32, 255, 33, 36, 63, 39, rng.randrange(256)])
        t = b.decode("latin1")
    x = judge_text(ctx, t.encode("latin1") if any(ord(c) > 127 for c in t) else t)
    ctx.case(t, x is None)

# ------------------------------------------------------------------ analyses
def run_ok(ctx, t, opts, kind, rcs=(0,), **kw):
    r = ctx.sl.run(t, opts, **kw)
    need(not r.timeout, kind, "the tool does not terminate", input=t, opts=list(opts))
    need(r.rc in rcs, kind, "the tool fails: exit %s, %s" % (r.rc, r.err[-300:]), input=t, opts=list(opts))
    return r
def cube_table(s, lits, shift=None):
    """product of literals (name, primed, sign); shift: read all literals as unprimed/primed"""
    f = True
    for n, p, sg in lits:
        v = ("v", n, p if shift is None else shift); v = v if sg else ("!", v); f = v if f is True else ("&", f, v)
    return s.tab(f)
@probe("C12", "random specifications; the printed clauses are evaluated as tables and compared with the sections of the input; non-trivial: at least three clauses in one section")
def c12(ctx):
    rng = ctx.rng; s = random_spec(rng, *sizes(rng)); random_init(rng, s); opts = ("--computeCNFFormOfTheSpecification",); t = s.text(rng)
    r = run_ok(ctx, t, opts, "cnf run"); F = lambda what: fail("cnf " + what.split(":")[0], what, input=t, opts=list(opts), output=r.out[:3000])
    num = {}; sec = {"SafetyGuarantee:": [], "SafetyAssumption:": [], "Init:": [], "LivenessGuarantee:": [], "LivenessAssumption:": []}; decl = []
    def lits(ws):
        out = []
        for w in ws:
            if not w.lstrip("-").isdigit() or abs(int(w)) not in num: F("format: literal %s" % w)
            out.append(num[abs(int(w))] + (int(w) > 0,))
        return out
    for l in r.out.splitlines():
        w = l.split()
        if not w: continue
        if w[0] in ("Input:", "Output:"):
            if len(w) != 4: F("format: " + l)
            decl.append((w[0], w[1])); num[int(w[2])] = (w[1], False); num[int(w[3])] = (w[1], True)
        elif w[0] in ("SafetyGuarantee:", "SafetyAssumption:", "Init:"):
            if w[-1] != "0" or "0" in w[:-1]: F("format: " + l)
            sec[w[0]].append(lits(w[1:-1]))
        elif w[0] in sec:
            cs = []; c = []
            for x in w[1:]:
                if x == "0": cs.append(lits(c)); c = []
                else: c.append(x)
            if c: F("format: " + l)
            sec[w[0]].append(cs)
        else: F("format: " + l)
    if sorted(decl) != sorted([("Input:", n) for n in s.inputs] + [("Output:", n) for n in s.outputs]) or len(num) != 2 * len(decl): F("variables: declared variables differ")
    big = 0
    for k, tab in (("SafetyGuarantee:", s.conj("SYS_TRANS")), ("SafetyAssumption:", s.conj("ENV_TRANS")), ("Init:", s.conj("ENV_INIT") & s.conj("SYS_INIT"))):
        x = np.ones_like(tab)
        for c in sec[k]: x &= ~cube_table(s, [(n, p, not sg) for n, p, sg in c])
        big = max(big, len(sec[k]))
        if (x != tab).any(): F("safety: the %s clauses are not equivalent to the section" % k)
    for k, tabs in (("LivenessGuarantee:", s.game().G), ("LivenessAssumption:", s.game().A)):
        if len(tabs) != len(sec[k]): F("count: %d %s lines for %d properties" % (len(sec[k]), k, len(tabs)))
        for cs, tab in zip(sec[k], tabs):
            u = np.zeros_like(tab); big = max(big, len(cs))
            for c in cs:
                v = [cube_table(s, c)]
                if not any(p for _, p, _ in c): v.append(cube_table(s, c, True))
                if all((x & ~tab).any() for x in v): F("liveness: a term of a %s line does not imply the property" % k)
                for x in v: u |= x
            if (tab & ~u).any(): F("liveness: a %s line is stronger than the property" % k)
    ctx.case(t, big >= 3)
class FSSpec(Spec):
    fast = ()
    def text(self, rng=None):
        t = Spec.text(self, None); b, a = t.split("[OUTPUT]\n", 1); o, a = a.split("\n\n", 1) if self.outputs else ("", a.lstrip("\n"))
        f = [n for n in self.outputs if n in self.fast]; sl = [n for n in self.outputs if n not in self.fast]
        p = ["[OUTPUT_F]\n" + "".join(x + "\n" for x in f), "[OUTPUT_S]\n" + "".join(x + "\n" for x in sl)]
        if rng is not None and rng.random() < 0.5: p.reverse()
        return b + "\n".join(p) + "\n" + a
def fastslow_game(s, g):
    safe = g.S.any(axis=(2, 3)) & g.S.any(axis=(0, 1)); mf = sum(1 << k for k, n in enumerate(s.outputs) if n in s.fast); ms = ((1 << s.nO) - 1) & ~mf
    o = np.arange(g.nO); mid = (o[None, :] & mf) | (o[:, None] & ms)             # [old output, new output]
    ok = safe[:, mid].transpose(1, 0, 2)                                          # [old o, new i, new o]
    return Game(g.E, g.S & ok[None], g.A, g.G, g.iE, g.iS)
@probe("C14", "random games with the outputs split into fast and slow; initial conditions on the border of the winning set; non-trivial: the intermediate step changes the winning set")
def c14(ctx):
    rng = ctx.rng
    for _ in range(25):
        b, _g, W0, _ = rgame(rng, *sizes(rng))
        s = FSSpec(b.inputs, b.outputs); s.sec = b.sec; s.fast = [n for n in s.outputs if rng.random() < 0.5]
        g = fastslow_game(s, s.game()); W = solve(g)
        if (W != W0).any() and W.any() or rng.random() < 0.1: break
    vs = initial_variants(rng, s, g, W); rng.shuffle(vs)
    for e, m in vs[:3]:
        set_init(s, e, m); g2 = s.game(); rob = rng.random() < 0.3; opts = ("--IROSfastslow",) + ((ROB,) if rob else ())
        t, r = verdict_of(ctx, s, opts, (realizable_robotics if rob else realizable)(g2, W), "fastslow verdict")
        ctx.case(t, bool((W != W0).any()), {"fast": list(s.fast)}); ctx.tally("robotics" if rob else "standard")
def solve_before(s, g, before):
    """winning positions when the outputs in `before` are chosen before the next input is known"""
    mb = sum(1 << k for k, n in enumerate(s.outputs) if n in before); groups = {}
    for o in range(g.nO): groups.setdefault(o & mb, []).append(o)
    def cx(T):
        U = ~g.E[:, :, :, :1] | T
        r = np.zeros(T.shape[:2], bool)
        for os_ in groups.values(): r |= U[:, :, :, os_].any(axis=3).all(axis=2)
        return r
    Z = np.ones((g.nI, g.nO), bool)
    while True:
        nZ = np.ones_like(Z)
        for G in g.G:
            Y = np.zeros_like(Z)
            while True:
                nY = Y.copy(); live = (G & Z[None, None]) | Y[None, None]
                for A in g.A:
                    X = np.ones_like(Z)
                    while True:
                        nX = cx(g.S & (live | (~A & X[None, None])))
                        if (nX == X).all(): break
                        X = nX
                    nY |= X
                if (nY == Y).all(): break
                Y = nY
            nZ &= Y
        if (nZ == Z).all(): return Z
        Z = nZ
@probe("C15", "random games; the list printed is compared with the games in which these outputs are chosen before the input is known; non-trivial: some but not all outputs are listed")
def c15(ctx):
    rng = ctx.rng; opts = ("--analyzeInterleaving",)
    for _ in range(12):
        s, g, W, st = rgame(rng, *rng.choice([(1, 2), (2, 2), (1, 3), (1, 3)]), minI=1, minO=1); strat_init(rng, s, g, W, False); g = s.game()
        if rng.random() < 0.6: s.sec["SYS_TRANS"] = [("^", ("v", n, True), ("v", rng.choice(s.inputs), rng.random() < 0.5)) for n in s.outputs if rng.random() < 0.5]; s.sec["SYS_LIVENESS"] = []; g = s.game(); W = solve(g)
        L0 = []; real = realizable(g, W)
        if real:
            for n in s.outputs:
                if realizable(g, solve_before(s, g, L0 + [n])): L0.append(n)
        if 0 < len(L0) < len(s.outputs) or rng.random() < 0.1: break
    t = s.text(rng)
    r = run_ok(ctx, t, opts, "interleaving run"); out = r.out
    F = lambda k, what: fail("interleaving " + k, what, input=t, opts=list(opts), output=out[:2000])
    if ("Starting point is a realizable specification" in out) != real: F("verdict", "the starting point is %s" % ("realizable" if real else "unrealizable"))
    if real:
        L = [l[2:] for l in out.splitlines() if l.startswith("- ")]
        if not set(L) <= set(s.outputs) or len(set(L)) != len(L): F("list", "the list contains something that is no output")
        if L and not realizable(g, solve_before(s, g, L)): F("sound", "the specification is not realizable when %s are set before the inputs are read" % L)
        for n in s.outputs:
            if n not in L and realizable(g, solve_before(s, g, L + [n])): F("maximal", "%s could be set before the inputs are read, too" % n)
        a = "stays realizable when" in out; b = "becomes unrealizable when" in out
        if a == b or a != bool(L): F("message", "the message does not fit the list")
    ctx.case(t, 0 < len(L0) < len(s.outputs)); ctx.tally("realizable" if real else "unrealizable")
@probe("C17", "random realizable specifications with safety assumptions; the printed clauses are evaluated as tables; non-trivial: at least two clauses are printed")
def c17(ctx):
    rng = ctx.rng
    for _ in range(40):
        s, g, W, st = rgame(rng, *sizes(rng)); strat_init(rng, s, g, W, False)
        l = [(n, p) for n in s.inputs for p in (False, True)] + [(n, False) for n in s.outputs]
        if rng.random() < 0.6: s.sec["ENV_TRANS"] = [rformula(rng, l, rng.randint(1, 3)) for _ in range(rng.randint(1, 5))]
        g = s.game()
        if not realizable(g): continue
        g1 = s.game(); g1.E = np.ones_like(g.E)
        if not realizable(g1) or rng.random() < 0.1: break
    else: return
    opts = ("--computeWeakenedSafetyAssumptions",) + ((ROB,) if False else ()); t = s.text(rng); r = run_ok(ctx, t, opts, "weaken run"); out = r.out
    F = lambda k, what: fail("weaken " + k, what, input=t, opts=list(opts), output=out[:2000])
    ls = out.split("\n"); 
    if "# Simplified safety assumption CNF clauses:" not in ls or "# End of list" not in ls: F("format", "no list")
    tabs = []
    for l in ls[ls.index("# Simplified safety assumption CNF clauses:") + 1:ls.index("# End of list")]:
        c = []
        for w in l.split():
            sg = not w.startswith("!"); w = w.lstrip("!"); p = w.endswith("'"); w = w.rstrip("'")
            if w not in s.inputs + s.outputs: F("format", "unknown variable " + w)
            c.append((w, p, not sg))
        tabs.append(~cube_table(s, c))
    def ver(ts):
        g2 = s.game(); g2.E = np.ones_like(g.E)
        for x in ts: g2.E = g2.E & x
        return g2
    w = ver(tabs)
    if (g.E & ~w.E).any(): F("implied", "the printed assumption is not implied by the original one")
    if (w.E != w.E[..., :1]).any(): F("format", "the printed assumption constrains next outputs")
    if not realizable(w): F("sufficient", "the specification is not realizable under the printed assumption")
    for n, ax, k in [(n, 2, k) for k, n in enumerate(s.inputs)] + [(n, 0, k) for k, n in enumerate(s.inputs)] + [(n, 1, k) for k, n in enumerate(s.outputs)]:
        perm = np.arange(w.E.shape[ax]) ^ (1 << k); ab = w.E | np.take(w.E, perm, axis=ax)
        if (ab != w.E).any():
            v = s.game(); v.E = ab
            if realizable(v): F("variable", "variable %s could be abstracted from the printed assumption" % n)
    ctx.case(t, len(tabs) >= 2); ctx.tally("clauses", len(tabs))
@probe("C18", "random realizable specifications with named and unnamed assumptions; non-trivial: some assumptions are needed and some are not")
def c18(ctx):
    rng = ctx.rng
    for _ in range(40):
        s, g, W, st = rgame(rng, *sizes(rng)); strat_init(rng, s, g, W, False)
        l = [(n, p) for n in s.inputs for p in (False, True)] + [(n, False) for n in s.outputs]
        if rng.random() < 0.7: s.sec["ENV_TRANS"] = [rformula(rng, l, rng.randint(1, 2)) for _ in range(rng.randint(1, 3))]
        g = s.game()
        if realizable(g) or rng.random() < 0.02: break
    names = {}; opts = ("--analyzeAssumptions",)
    def sec(k):
        out = ["[%s]" % k]
        for i, f in enumerate(s.sec[k]):
            if rng.random() < (0.3 if k in ("ENV_TRANS", "ENV_LIVENESS") else 0.15): names[k, i] = "prop %s %d" % (k, i); out.append("## " + names[k, i])
            elif rng.random() < 0.1: out.append("# remark")
            out.append(fmt(f))
        return out + [""]
    t = "\n".join(["[INPUT]"] + s.inputs + ["", "[OUTPUT]"] + s.outputs + [""] + sum((sec(k) for k in Spec.SECTIONS), []))
    r = run_ok(ctx, t, opts, "assumptions run"); out = r.out
    F = lambda k, what: fail("assumptions " + k, what, input=t, opts=list(opts), output=out[:2500])
    real = realizable(g); W = solve(g)
    if ("Starting with a realizable specification" in out) != real: F("verdict", "the specification is %s" % ("realizable" if real else "unrealizable"))
    if not real: ctx.case(t, False); return
    exp = []
    for k, dflt in (("ENV_TRANS", "Safety Assumption %d"), ("ENV_LIVENESS", "Liveness Assumption %d")):
        n = len(s.sec[k])
        for i in range(n):
            q = s.copy(); q.sec[k] = s.sec[k][:i] + s.sec[k][i + 1:]; g2 = q.game(); W2 = solve(g2)
            exp.append((names.get((k, i), dflt % (i + 1)), not realizable(g2, W2), bool((W2 != W).any()), k == "ENV_TRANS" and bool((g2.E == g.E).all())))
        if n == 0 and k == "ENV_LIVENESS": exp.append((None, False, False, False))
    got = [l for l in out.splitlines() if l.startswith('"')]
    if len(got) != len(exp): F("count", "%d assumptions are reported, the specification has %d" % (len(got), len(exp)))
    for l, (nm, needed, fewer, red) in zip(got, exp):
        name, rest = l[1:].rsplit('"', 1)
        if nm is not None and name != nm: F("name", "an assumption is reported as %s instead of %s" % (name, nm))
        if ("crucially needed" in rest) != needed: F("needed", "assumption %s is %sneeded for realizability" % (name, "" if needed else "not "))
        if not needed and ("makes more positions winning" in rest) != fewer: F("winning", "assumption %s: wrong statement about the winning positions" % name)
        if not needed and not fewer and ("redundant" in rest) != red: F("redundant", "assumption %s: wrong statement about redundancy" % name)
    ctx.case(t, len({e[1] for e in exp}) == 2); ctx.tally("assumptions", len(exp))
def expand_groups(s):
    """(group name, minimum, [names of the bits]) for variables named like the structured-specification compiler does"""
    gs = {}
    for n in s.inputs + s.outputs:
        if "@" in n:
            b, r = n.split("@", 1)
            if r.startswith("0."): gs[b] = [int(r.split(".")[1]), [n]]
            else: gs[b][1].append(n)
    return gs
@probe("C13", "random games with declared variable limits, with and without restriction to reachable positions, with grouped variables; non-trivial: the winning set restricted to the limits is neither empty nor full")
def c13(ctx):
    rng = ctx.rng; grp = rng.random() < 0.25; s, g, W, st = rgame(rng, *(rng.choice([(3, 1), (2, 2), (1, 3), (2, 3), (1, 2), (3, 2)]) if grp else sizes(rng)))
    if grp:
        ren = {}
        for nm, side in (("n", s.inputs), ("m", s.outputs)):
            if len(side) >= 2 and rng.random() < 0.7:
                k = rng.randint(2, len(side)); lo = rng.randint(0, 3)
                for q in range(k): ren[side[q]] = "%s@0.%d.%d" % (nm, lo, lo + rng.randint(1 << (k - 1), (1 << k) - 1)) if q == 0 else "%s@%d" % (nm, q)
        def sub(f): return f if isinstance(f, bool) else ("v", ren.get(f[1], f[1]), f[2]) if f[0] == "v" else (f[0],) + tuple(sub(x) for x in f[1:])
        s.inputs = [ren.get(n, n) for n in s.inputs]; s.outputs = [ren.get(n, n) for n in s.outputs]
        for k in s.sec: s.sec[k] = [sub(f) for f in s.sec[k]]
    r = rng.random()
    if r < 0.3: set_init(s, None, None)
    elif r < 0.6: set_init(s); random_init(rng, s)
    else: e, m = rng.choice(initial_variants(rng, s, g, W)); set_init(s, e, m)
    lim = {"ENV_INIT": [], "SYS_INIT": []}; li = [(n, False) for n in s.inputs]; lo = li + [(n, False) for n in s.outputs]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])): lim["SYS_INIT"].append(rformula(rng, lo, rng.randint(1, 2)))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        if li: lim["ENV_INIT"].append(rformula(rng, li, 1))
    L = np.ones_like(W)
    for k in lim:
        for f in lim[k]: L &= s.tab(f)[:, :, 0, 0]
    def sec(k):
        fs = [(f, False) for f in s.sec[k]] + [(f, True) for f in lim.get(k, [])]; rng.shuffle(fs)
        return ["[%s]" % k] + sum(((["## Variable limits: something"] if b else []) + ([rng.choice(["", "# a comment"])] if rng.random() < 0.05 else []) + [fmt(f)] for f, b in fs), []) + [""]
    t = "\n".join(["[INPUT]"] + s.inputs + ["", "[OUTPUT]"] + s.outputs + [""] + sum((sec(k) for k in Spec.SECTIONS), []))
    for k in lim: s.sec[k] = s.sec[k] + lim[k]
    g = s.game(); reach = rng.random() < 0.4; opts = ("--analyzeInitialPositions",) + (("--restrictToReachableStates",) if reach else ())
    iE, iS = g.iE, g.iS
    if reach:
        R = iE & iS
        while True:
            N = R | (R[:, :, None, None] & g.E & g.S).any(axis=(0, 1))
            if (N == R).all(): break
            R = N
        L = L & R
    r = run_ok(ctx, t, opts, "initial run"); out = r.out
    F = lambda k, what: fail("initial " + k, what, input=t, opts=list(opts), output=out[:3000])
    Li = L.any(axis=1); ei = iE[:, 0]
    exp = {"winning positions": (W & L, L), "winning positions satisfying the initialization assumptions": (iE & W & L, iE & L),
           "winning positions satisfying the initialization guarantees": (iS & W & L, iS & L), "winning positions satisfying the initialization assumptions and guarantees": (iE & iS & W & L, iE & iS & L),
           "initial input assignments that are allowed for the environment": (ei & Li, Li), "initial input assignments that force the system to move to a losing position": (ei & Li & ~(W & iS).any(axis=1), Li)}
    got = {}
    for l in out.splitlines():
        if l.startswith("Number of "): k, v = l[10:].rsplit(": ", 1); got[k] = v
    for k, (x, y) in exp.items():
        if k not in got: F("format", "no line for: " + k)
        try: a, b = [float(z) for z in got[k].split(" out of ")]
        except ValueError: F("format", "unreadable: " + got[k])
        if a != x.sum() or b != y.sum(): F("count", "number of %s: %s, correct is %d out of %d" % (k, got[k], x.sum(), y.sum()))
    nW = ~W; dead = W & ~g.E.any(axis=(2, 3))
    cats = {"winning positions": W, "non-winning positions": nW, "winning positions satisfying the initialization assumptions": W & iE, "non-winning positions satisfying the initialization assumptions": nW & iE,
            "winning positions satisfying the initialization guarantees": W & iS, "non-winning positions satisfying the initialization guarantees": nW & iS,
            "winning positions satisfying the initialization assumptions & guarantees": W & iE & iS, "non-winning positions satisfying the initialization assumptions & guarantees": nW & iE & iS, "dead": dead}
    seen = {}; cur = None
    for l in out.splitlines():
        if l.startswith("Some "): cur = "dead" if l.startswith("Some positions from which") else l.rstrip().rstrip(":")[len("Some cubes of "):]; seen[cur] = []
        elif cur is not None and l.strip(): seen[cur].append(l)
    gs = expand_groups(s)
    for k, X in cats.items():
        if k not in seen or not seen[k]: F("format", "no cubes for: " + k)
        ls = seen[k]
        if ("- TRUE" in ls) != bool((L & ~X).sum() == 0): F("everything", "%s: '- TRUE' is %s" % (k, "printed wrongly" if "- TRUE" in ls else "missing"))
        if ("--(none)" in ls) != bool((L & X).sum() == 0 and L.any()): F("nothing", "%s: '--(none)' is %s" % (k, "printed wrongly" if "--(none)" in ls else "missing"))
        if "- TRUE" in ls or "--(none)" in ls:
            if len(ls) != 1: F("format", "%s: more lines than one" % k)
            continue
        for l in ls:
            if not l.startswith(" -"): F("format", "%s: %s" % (k, l))
            f = True; isg = False
            for w in l[2:].split():
                if "=" in w:
                    b, v = w.split("="); isg = True
                    if b not in gs: F("format", "unknown variable " + w)
                    v = int(v) - gs[b][0]
                    for q, n in enumerate(gs[b][1]): x = ("v", n, False); f = ("&", f, x if (v >> q) & 1 else ("!", x))
                else:
                    sg = not w.startswith("!"); w = w.lstrip("!")
                    if w not in s.inputs + s.outputs: F("format", "unknown variable " + w)
                    x = ("v", w, False); f = ("&", f, x if sg else ("!", x))
            C = s.tab(f)[:, :, 0, 0]
            if (C & L & ~X).any(): F("cube", "%s: the cube '%s' contains admissible positions that are not in the category" % (k, l.strip()))
            if not isg and not (C & L).any(): F("cube", "%s: the cube '%s' contains no admissible position" % (k, l.strip()))
    ctx.case(t + str(reach), bool((W & L).any() and (L & ~W).any())); ctx.tally("reachable" if reach else "all")
    if gs: ctx.tally("grouped variables")

# ------------------------------------------------------------------ drivers around classes of the program
import re as _re
def harness_probe(ctx, n, kind, timeout=120):
    seed = ctx.rng.getrandbits(40); old = ctx.sl.timeout; ctx.sl.timeout = timeout
    try: r = ctx.sl.run("", raw=[str(seed), str(n)])
    finally: ctx.sl.timeout = old
    need(not r.timeout, kind + "hang", "the operation does not terminate", input="driver arguments: %d %d" % (seed, n))
    need(r.rc == 0, kind + "crash", "the driver crashes (%s) %s" % (r.rc, r.err[-300:]), input="driver arguments: %d %d" % (seed, n))
    l = r.out.strip().splitlines()[-1] if r.out.strip() else ""
    if l.startswith("FAIL "): fail(kind + _re.sub(r"[^A-Za-z/=&| ]", "", l[5:].split(";")[0])[:60], l[:300], input="driver arguments: %d %d" % (seed, n), output=r.out[-6000:])
    m = _re.match(r"OK (\d+) (\d+)", l); need(m, kind + "output", "unexpected output of the driver: " + r.out[-200:] + r.err[-200:], input="driver arguments: %d %d" % (seed, n))
    ctx.n += int(m.group(1)); nt = int(m.group(2)); ctx.tally("cases", int(m.group(1)))
    for k in range(min(nt, 2000)): ctx.nontrivial.add("%d-%d" % (seed, k))
    if len(ctx.samples) < 2: ctx.samples.append({"input": "driver arguments: %d %d" % (seed, n), "note": l})
@probe("C11", "random histories of operations, copies, moves, destructions, garbage collections and reorderings over 2-7 variables, each result compared with its truth table; non-trivial: the history contains a reordering")
def c11(ctx): harness_probe(ctx, 400, "functions ")
@probe("C21", "random sets over 1-6 variables and random vectors of variables; non-trivial: non-empty set and at least two variables in the vector")
def c21(ctx): harness_probe(ctx, 3000, "choice ")
if __name__ != "__main__":
    import probe10, probe19, probe22

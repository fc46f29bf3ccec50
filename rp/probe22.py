"""C22: command lines: permitted and forbidden option sets, order, files; the behaviour of the composed variant."""
import os, itertools
import numpy as np
from probes import *
import options, autom
from autom import Bad
PERM = options.permitted()
def dash(o): return ["--" + x for x in o]
def rejected(ctx, args, what, text, marker=None, **kw):
    r = ctx.sl.run(text, raw=args)
    def F(k, m): fail("command line " + k, "%s: %s" % (what, m), opts=args, input=text, output=(r.out + "\n" + r.err)[:1500])
    if r.timeout or r.rc is None or r.rc < 0: F("crash", "the tool crashes or hangs (%s)" % r.rc)
    if r.rc == 0: F("accepted", "exit status 0")
    if "Error" not in r.err: F("message", "no error message")
    if marker and marker not in r.err: F("message", "the message does not say so")
    if "RESULT:" in r.err: F("accepted", "an analysis was run")
    return r
def mix(rng, opts, files):
    """options in any order, also twice, and mixed with the file names (whose order counts)"""
    o = list(opts); rng.shuffle(o)
    if o and rng.random() < 0.2: o.append(rng.choice(o))
    r = []; f = list(files)
    while o or f:
        if o and (not f or rng.random() < 0.6): r.append(o.pop())
        else: r.append(f.pop(0))
    return r
COST = "1 1 <\n"
@probe("C22", "every permitted option set (in random order) on random games: exit status and the behaviour of the composed variant; non-trivial: at least two options")
def c22(ctx):
    rng = ctx.rng
    if rng.random() < 0.45: return c22bad(ctx)
    o = rng.choice(PERM); so = set(o); names = dash(o)
    rob = "sysInitRoboticsSemantics" in so; d = ctx.sl.dir
    s, g, W, st = rgame(rng, *sizes(rng)); fs = "IROSfastslow" in so
    if fs:
        b = s; s = FSSpec(b.inputs, b.outputs); s.sec = b.sec; s.fast = [n for n in s.outputs if rng.random() < 0.5]; g = fastslow_game(s, s.game()); W = solve(g)
    r = rng.random()
    if r < 0.45 and W.any(): m = W if r < 0.3 else one(rng, W); set_init(s, m.any(axis=1), m)
    elif r < 0.9: e, m = rng.choice(initial_variants(rng, s, g, W)); set_init(s, e, m)
    else: set_init(s)
    g = fastslow_game(s, s.game()) if fs else s.game(); t = s.text(rng)
    p = d + "/s.slugsin"; open(p, "w").write(t); files = [p]
    if "twoDimensionalCost" in so: open(d + "/cost", "w").write(COST); files.append(d + "/cost")
    sym = so & {"symbolicStrategy", "simpleSymbolicStrategy"}; ex = "explicitStrategy" in so; pm = "extractExplicitPermissiveStrategy" in so; ct = "counterStrategy" in so
    out = None
    if sym or ((ex or pm or ct) and rng.random() < 0.5): out = d + "/out"; files.append(out)
    args = mix(rng, names, files)
    for q in ("/out",):
        if os.path.exists(d + q): os.unlink(d + q)
    if so & {"nonDeterministicMotion", "computeIncompleteInformationEstimator"}:      # other input formats: only the rejection of missing files is checked
        rejected(ctx, mix(rng, names, []), "no file name", t); return
    r = ctx.sl.run(t, raw=args, stdin="QUIT\n" if "interactiveStrategy" in so else None)
    what = " ".join(names)
    def F(k, m): fail("composition " + k, "%s: %s" % (what, m), opts=args, input=t, output=(r.out + "\n" + r.err)[:3000])
    if r.timeout: F("hang", "no termination")
    if r.rc != 0:
        F("status", "exit status %s" % r.rc)
    if open(p).read() != t: F("input", "the input file was changed")
    real = (realizable_robotics if rob else realizable)(g, W)
    known = not so & {"cooperativeGR1Strategy", "twoDimensionalCost"}
    verdict_modes = not so & (set(options.ALONE) | {"analyzeInitialPositions"}) or so & {"analyzeInterleaving", "computeWeakenedSafetyAssumptions"}
    if verdict_modes and not so & set(options.ALONE) and r.verdict is None: F("verdict", "no verdict")
    if verdict_modes and known and r.verdict is not None and r.verdict != real: F("verdict", "verdict %s, expected %s" % (r.verdict, real))
    text = r.out
    if out:
        data = open(out, "rb").read() if os.path.exists(out) else None
        if r.verdict is (not ct):
            if data is None or not data and sym: F("output", "the output file was not written")      # an automaton without states is an empty text
            if text.strip(): F("output", "output on the terminal although an output file is given")
            text = data.decode("latin1")
    try:
        if known and r.verdict and ex:
            a = autom.parse_json(text) if "jsonOutput" in so else autom.parse_text(text)
            autom.check_explicit(s, g, W, a, rob, "simpleRecovery" in so)
        elif known and r.verdict and sym: autom.check_symbolic(s, g, W, data, "simpleSymbolicStrategy" in so, "simpleRecovery" in so)
        elif known and r.verdict and pm: autom.check_permissive(s, g, W, autom.parse_permissive(text), rob)
        elif ct and not r.verdict: autom.check_counter(s, g, W, autom.parse_text(text), rob)
        elif r.verdict and ex: (autom.parse_json if "jsonOutput" in so else autom.parse_text)(text)
        elif r.verdict and pm: autom.parse_permissive(text)
        elif r.verdict and sym: autom.Dddmp(data)
    except Bad as e: F(e.kind, e.what)
    except (ValueError, KeyError, IndexError) as e: F("format", "unreadable output: %r" % e)
    mark = {"interactiveStrategy": "> ", "analyzeAssumptions": "ssumption", "analyzeInitialPositions": "Number of winning positions", "analyzeSafetyLivenessInteraction": "Robotics semantics", "computeCNFFormOfTheSpecification": "p "}
    for k, v in mark.items():
        if k in so and k != "computeCNFFormOfTheSpecification" and v not in r.out + r.err and not (k == "analyzeAssumptions"): F("variant", "the output is not that of this option")
    if not (ex or sym or pm or ct or so & set(mark) or so & set(options.ALONE)) and r.out.strip() and known: F("variant", "output on the terminal although only the verdict was requested")
    ctx.case(what + t, len(so) >= 2, {"opts": args}); ctx.tally(what)
def c22bad(ctx):
    rng = ctx.rng; d = ctx.sl.dir; s, g, W, st = rgame(rng, 1, 1); set_init(s); t = s.text(rng); p = d + "/s.slugsin"; k = rng.random(); plain = [o for o in PERM if not set(o) & {"nonDeterministicMotion"}]
    if k < 0.4:
        if rng.random() < 0.5: o = tuple(sorted(rng.sample(options.ALL, rng.randint(1, 4))))
        else:
            o = set(rng.choice(PERM))
            for _ in range(rng.choice([1, 1, 2])): o ^= {rng.choice(options.ALL)}
            o = tuple(sorted(o))
        if options.compose(o): return
        rejected(ctx, mix(rng, dash(o), [p]), "option set that is not permitted", t, "not permissible"); ctx.tally("forbidden set")
    elif k < 0.6:
        o = dash(rng.choice(PERM)); x = rng.choice(["--foo", "-", "-x", "--explicitstrategy", "--explicitStrategy ", "--EXPLICITSTRATEGY", "--explicitStrateg", "--help", "--", "-explicitStrategy", "--jsonOutput=1", "--sysInitRoboticsSemantic"])
        rejected(ctx, mix(rng, o + [x], [p]), "unknown option %r" % x, t, "unknown"); ctx.tally("unknown option"); o = (x,)
    elif k < 0.75:
        o = rng.choice(PERM); f = rng.choice([[], ["/nonexistent/x"], [d + "/no.such"], [d]]) if not set(o) & {"twoDimensionalCost", "nonDeterministicMotion"} else []
        if set(o) & {"symbolicStrategy", "simpleSymbolicStrategy"} and f and rng.random() < 0.7: f = f + [d + "/out"]
        rejected(ctx, mix(rng, dash(o), f), "missing or unreadable input", t); ctx.tally("no readable input"); o = o + tuple(f)
    elif k < 0.9:
        o = rng.choice(plain); n = 1 + ("twoDimensionalCost" in o) + (bool(set(o) & {"explicitStrategy", "symbolicStrategy", "simpleSymbolicStrategy", "extractExplicitPermissiveStrategy", "counterStrategy"}))
        if set(o) & {"IROSfastslow", "computeIncompleteInformationEstimator"}: return
        open(d + "/cost", "w").write(COST); f = [p, d + "/cost"] if "twoDimensionalCost" in o else [p]
        f += [d + "/o%d" % i for i in range(n + 1 + (rng.random() < 0.2) - len(f))]
        rejected(ctx, mix(rng, dash(o), f), "too many files", t); ctx.tally("too many files")
        for x in f[1:]:
            if os.path.exists(x) and not x.endswith("cost"): fail("command line file", "too many files: a file was written nevertheless", opts=list(o), input=t)
    else:
        o = rng.choice([x for x in PERM if set(x) & {"explicitStrategy", "extractExplicitPermissiveStrategy", "symbolicStrategy", "simpleSymbolicStrategy"} and not set(x) & {"twoDimensionalCost", "IROSfastslow", "cooperativeGR1Strategy"}])
        s.sec["SYS_TRANS"] = []; s.sec["SYS_LIVENESS"] = []; set_init(s); t = s.text(rng); open(p, "w").write(t)
        r = ctx.sl.run(t, raw=mix(rng, dash(o), [p, d + "/nodir/out"]))
        if r.timeout or r.rc is None or r.rc <= 0 or "Error" not in r.err: fail("command line output", "output file that cannot be opened: exit status %s" % r.rc, opts=list(o), input=t, output=r.err[:800])
        ctx.tally("output cannot be written")
    ctx.case(str(o) + t, len(o) >= 2)

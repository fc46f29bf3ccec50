"""C19: dialogues with the interactive mode, judged by the game tables."""
import numpy as np
from probes import *
from autom import live_violation
def enc_bits(bits): return sum(int(c) << k for k, c in enumerate(bits))
def bits(v, n): return "".join(str((v >> k) & 1) for k in range(n))
INT = "--interactiveStrategy"
def dialogue(ctx, t, lines, opts, kind):
    r = ctx.sl.run(t, opts, stdin="".join(l + "\n" for l in lines))
    need(not r.timeout, kind + " hang", "the program does not end", input=t, opts=list(opts), history=lines)
    need(r.rc == 0, kind + " crash", "exit status %s: %s" % (r.rc, r.err[-300:]), input=t, opts=list(opts), history=lines)
    return r
@probe("C19", "random games (realizable ones favoured) and dialogues of up to 120 execution requests; the observed moves form a fragment of the strategy in which every cycle is judged; non-trivial: at least 3 different moves were observed and the specification is realizable")
def c19(ctx):
    rng = ctx.rng
    for _ in range(6):
        s, g, W, st = rgame(rng, *sizes(rng))
        if W.any(): break
    r = rng.random(); iE0, iS0 = None, None
    if r < 0.8 and W.any(): m = W if r < 0.5 else one(rng, W); set_init(s, m.any(axis=1), m)
    elif r < 0.85: set_init(s, np.zeros(g.nI, bool), None)
    elif r < 0.93 and (~W).any(): m = one(rng, ~W); set_init(s, m.any(axis=1), m)
    else: set_init(s); random_init(rng, s)
    g = s.game(); t = s.text(rng); real = realizable(g, W); nI, nO, kI, kO = g.nI, g.nO, s.nI, s.nO
    opts = (rng.choice([("--fixedPointRecycling",), ("--biasForAction",)]) + (INT,)) if rng.random() < 0.3 else (INT,)
    init = W & g.iE & g.iS; nG, nA = len(g.G), len(g.A)
    if rng.random() < 0.35 or not real: return other(ctx, s, g, W, t, opts, real)
    # a run: commands are sent one by one only as far as needed: the positions are those of the program itself
    rnd = rng.random() < 0.3; cmd = "XMAKETRANSRANDOM" if rnd else "XMAKETRANS"
    import subprocess
    p = ctx.sl.dir + "/s.slugsin"; open(p, "w").write(t)
    hist = []
    F = lambda k, what: fail("interactive " + k, what, input=t, opts=list(opts), history=hist[-60:])
    import select, os
    pr = subprocess.Popen([ctx.sl.bin] + list(opts) + [p], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=ctx.sl.dir)
    buf = b""
    def prompt():
        nonlocal buf
        while not buf.endswith(b"> "):
            rd, _, _ = select.select([pr.stdout], [], [], 10)
            if not rd: F("hang", "no answer within 10 s")
            x = os.read(pr.stdout.fileno(), 65536)
            if not x: F("exit", "the program ended (exit status %s)" % pr.wait())
            buf += x
        o = buf[:-2].decode("latin1"); buf = b""; return o
    def ask(*ls):
        hist.extend(ls); pr.stdin.write("".join(l + "\n" for l in ls).encode()); pr.stdin.flush(); o = prompt(); hist.append("-> " + o.strip()); return o
    try:
        prompt()
        o = ask(rng.choice(["xprintinputs", "XPRINTINPUTS "])).split(); 
        if o != s.inputs: F("names", "input names %s" % o)
        if ask("XPRINTOUTPUTS").split() != s.outputs: F("names", "output names")
        if ask("XGETNOFLIVENESSPROPERTIES").split() != [str(nA), str(nG)]: F("names", "numbers of liveness properties")
        if rng.random() < 0.3 and kI:
            o = ask(cmd, bits(0, kI))
            if "ERROR" not in o: F("unset", "a move was made without a current position")
        edges = {}; pos = None; goal = 0; moves = set()
        def pars(o):
            o = o.strip()
            x = o.split(",")
            if len(x) != 2 or len(x[0]) != kI + kO or set(x[0]) - set("01") or not x[1].isdigit(): F("format", "answer %r" % o)
            return (enc_bits(x[0][:kI]), enc_bits(x[0][kI:])), int(x[1])
        for step in range(120):
            if pos is None or rng.random() < 0.04:
                o = ask("XGETINIT")
                if not init.any():
                    if "ERROR" not in o: F("initial", "an initial position although none is admissible and winning: %r" % o)
                    break
                pos, goal = pars(o)
                if not init[pos]: F("initial", "the initial position %s is not an admissible winning one" % (pos,))
            ins = [a for a in range(nI) if g.E[pos + (a, 0)]]
            if kI and rng.random() < 0.05:
                bad = [a for a in range(nI) if a not in ins]
                if bad:
                    o = ask(cmd, bits(rng.choice(bad), kI))
                    if o.strip() != "ERROR": F("forbidden input", "an input that the safety assumptions exclude is answered with %r" % o)
            if rng.random() < 0.03:
                o = ask(rng.choice(["NONSENSE", "xmake", "1"]))
                if "Error" not in o: F("unknown command", "answered with %r" % o)
            if not ins:
                if rng.random() < 0.5: break
                pos = None; continue
            a = rng.choice(ins)
            o = ask(*([cmd] + ([bits(a, kI)] if kI else [])))
            if o.strip() == "ERROR": F("refused", "an input that the safety assumptions allow in %s is refused" % (pos,))
            q, ng = pars(o)
            if q[0] != a: F("input", "the successor %s does not carry the input %d" % (q, a))
            if not g.S[pos + q]: F("safety", "the move %s -> %s violates the safety guarantees" % (pos, q))
            if not W[q]: F("winning", "the move %s -> %s leaves the winning positions" % (pos, q))
            if ng >= nG: F("goal", "goal number %d" % ng)
            k = goal; n = 0
            while k != ng or (n == 0 and False):
                if not g.G[k][pos + q] or n >= nG: F("goal", "the goal advances from %d to %d but guarantee %d is not met by %s -> %s" % (goal, ng, k, pos, q))
                k = (k + 1) % nG; n += 1
            if ng == goal and g.G[goal][pos + q] and not all(G[pos + q] for G in g.G): F("goal", "goal %d is met by %s -> %s but kept" % (goal, pos, q))
            e = ((q, ng), pos + q)
            l = edges.setdefault((pos, goal), [])
            if not rnd and any(x[1][2] == a and x != e for x in l): F("determinism", "two answers for input %d in %s" % (a, (pos, goal)))
            if e not in l: l.append(e)
            edges.setdefault((q, ng), []); moves.add((pos, goal, q))
            pos, goal = q, ng
        v = live_violation(list(edges), edges, [lambda k, A=A: A[k] for A in g.A], [lambda k, G=G: G[k] for G in g.G])
        if v is not None: F("liveness", "a run made of the observed moves satisfies all assumptions infinitely often but not guarantee %d" % v[0])
        pr.stdin.write(b"quit\n"); pr.stdin.close()
        if pr.wait(10) != 0: F("exit", "exit status %s after QUIT" % pr.returncode)
    finally:
        if pr.poll() is None: pr.kill()
        pr.wait()
        for x in (pr.stdin, pr.stdout):
            try: x.close()
            except OSError: pass
    ctx.case(t + str(opts), len(moves) >= 3); ctx.tally("moves", len(moves)); ctx.tally("random moves" if rnd else "deterministic moves")

def other(ctx, s, g, W, t, opts, real):
    """single requests: completion of forced values, position checks, malformed input; also unrealizable specifications"""
    rng = ctx.rng; nI, nO, kI, kO = g.nI, g.nO, s.nI, s.nO; nG, nA = len(g.G), len(g.A); ew = ~W
    ask = []; allbits = lambda v: bits(v[0], kI) + bits(v[1], kO)
    P = lambda: (rng.randrange(nI), rng.randrange(nO))
    mask = lambda p: "".join(c if rng.random() < 0.6 else "." for c in p)
    fits = lambda m, i, o: all(c == "." or c == b for c, b in zip(m, bits(i, kI) + bits(o, kO)))
    dec = lambda r: (lambda x: (enc_bits(x[:kI]), enc_bits(x[kI:])))("".join("0" if c in "0ags" else "1" for c in r))
    pts = [p for p in np.ndindex(nI, nO)]
    for _ in range(rng.randint(4, 14)):
        k = rng.choice(["init", "trans", "trans", "trans", "check", "setpos", "unknown", "startpos", "getinit"] + ["badnumber", "range"] * (rng.random() < 0.3))
        p, q = P(), P()
        if rng.random() < 0.6:
            ok = np.argwhere(W if real else ew)
            if len(ok): p = tuple(ok[rng.randrange(len(ok))])
        if k == "init": m = mask(allbits(q)); ask.append((k, (m,), ["XCOMPLETEINIT", m]))
        elif k == "trans":
            m = mask(allbits(q)); a, b = rng.randrange(nA), rng.randrange(nG); ask.append((k, (p, m, a, b), ["XSTRATEGYTRANSITION", allbits(p) + m, "%d %d" % (a, b)]))
        elif k == "range": ask.append((k, (), ["XSTRATEGYTRANSITION", allbits(p) + "." * (kI + kO), "%d %d" % ((rng.randint(nA, nA + 40), rng.randrange(nG)) if rng.random() < .5 else (rng.randrange(nA), rng.randint(nG, 2 ** 31)))]))
        elif k == "check": ask.append((k, (p, q), ["CHECKTRANS"] + list(allbits(p) + allbits(q))))
        elif k == "setpos": ask.append((k, (p,), ["SETPOS"] + list(allbits(p)) + ["MOVE", str(b := rng.randrange(nG))] + [str(rng.randint(0, 2)) for _ in range(kI)]))
        elif k == "unknown": ask.append((k, (), [rng.choice(["hello", "SETPO", "0", "XGETINIT 1"])]))
        elif k == "badnumber": ask.append((k, (), ["SETPOS", "foo"]))
        elif k == "startpos": ask.append((k, (), ["STARTPOS"]))
        else: ask.append((k, (), ["XGETINIT"]))
    # one process per request: a malformed request must not disturb another one (that is checked separately below)
    F = None
    for k, args, lines in ask:
        lines = lines + ["XPRINTOUTPUTS", "QUIT"]
        r = dialogue(ctx, t, lines, opts, "interactive " + k)
        def F(kk, what): fail("interactive " + k + " " + kk, what, input=t, opts=list(opts), history=lines, output=r.out[:2000])
        o = r.out
        if k == "setpos" and not real: continue
        tail = "".join(x + "\n" for x in s.outputs)
        if k in ("badnumber",): 
            if not ("rror" in o and o.rstrip().endswith((tail.strip() + "\n\n>").strip())): F("answer", "no error message, or the following request is not answered")
            continue
        if tail not in o: F("sequel", "the following request is not answered")
        if k == "unknown":
            if "Error" not in o: F("answer", "no error message")
        if k == "range":
            if "error" not in o.lower(): F("answer", "a liveness goal that does not exist is accepted")
            continue
        ls = [x.lstrip("> ") for x in o.split("\n")]; ls = [x for x in ls if x]
        if k == "getinit":
            m = W if real else ew; ini = m & g.iE & g.iS
            a = ls[0]
            if not ini.any():
                if "ERROR" not in a: F("answer", "there is no such position but the answer is %r" % a)
            else:
                if not a.endswith(",0") or not ini[dec(a[:-2])]: F("answer", "%r is not a winning initial position" % a)
        if k == "startpos":
            m = W if real else ew; ini = m & g.iE & g.iS; v = {}
            for x in o.split("\n"):
                if " - " in x: n, b = x.split(" - ")[1].rsplit(": ", 1); v[n] = b
            if not ini.any():
                if v or "rror" not in o: F("answer", "there is no such position but the answer is %s" % v)
            elif set(v) != set(s.inputs + s.outputs) or not ini[enc_bits([v[n] for n in s.inputs]), enc_bits([v[n] for n in s.outputs])]: F("answer", "%s is not a winning initial position" % v)
        if k == "init":
            m, = args; c1 = [p for p in pts if fits(m, *p) and g.iE[p]]; c2 = [p for p in c1 if g.iS[p]]; c3 = [p for p in c2 if W[p]]
            if not c1:
                if ls[0] != "FAILASSUMPTIONS": F("answer", "answer %r, but no completion satisfies the initial assumptions" % ls[0])
            elif ls[0] == "FAILASSUMPTIONS": F("answer", "some completion satisfies the initial assumptions")
            elif real:
                if not c2 and ls[0] != "FAILGUARANTEES": F("answer", "answer %r, but no completion satisfies the initial guarantees" % ls[0])
                elif c2 and not c3 and ls[0] != "FORCEDNONWINNING": F("answer", "answer %r, but no completion is winning" % ls[0])
                elif c3:
                    if len(ls[0]) != kI + kO or dec(ls[0]) not in c3: F("answer", "answer %r is not an admissible winning completion" % ls[0])
                    for x in range(kI + kO):
                        vals = lambda c: {(bits(p[0], kI) + bits(p[1], kO))[x] for p in c}
                        exp = ("a" if vals(c1) == {"0"} else "A" if vals(c1) == {"1"} else "g" if vals(c2) == {"0"} else "G" if vals(c2) == {"1"} else "s" if vals(c3) == {"0"} else "S" if vals(c3) == {"1"} else "01")
                        if ls[0][x] not in exp: F("mustness", "bit %d of answer %r should be %s" % (x, ls[0], exp))
        if k == "trans":
            p, m, a, b = args; c1 = [q for q in pts if fits(m, *q) and g.E[p + q]]; c2 = [q for q in c1 if g.S[p + q]]
            if not c1:
                if ls[0] != "FAILASSUMPTIONS": F("answer", "answer %r, but no completion satisfies the safety assumptions" % ls[0])
            elif ls[0] == "FAILASSUMPTIONS": F("answer", "some completion satisfies the safety assumptions")
            elif real:
                if not c2:
                    if ls[0] != "FAILGUARANTEES": F("answer", "answer %r, but no completion satisfies the safety guarantees" % ls[0])
                    if dec(ls[1]) not in c1: F("answer", "the completion %r violates the assumptions" % ls[1])
                elif ls[0] == "FORCEDNONWINNING":
                    if W[p] and set(m[kI:]) <= {"."}: F("answer", "no move although the position is winning and no output is forced")
                elif ls[0] == "FAILGUARANTEES": F("answer", "some completion satisfies the safety guarantees")
                else:
                    if len(ls[0]) != kI + kO or dec(ls[0]) not in c2: F("answer", "the move to %r is not permitted" % ls[0])
                    q = dec(ls[0])
                    if not W[q]: F("answer", "the move to %r leaves the winning positions" % ls[0])
                    na, nb = ls[1:3]
                    if int(na) != ((a + 1) % nA if g.A[a][p + q] else a): F("goal", "assumption number %s after %d" % (na, a))
                    if int(nb) != ((b + 1) % nG if g.G[b][p + q] else b): F("goal", "guarantee number %s after %d" % (nb, b))
            elif ls[0] not in ("FORCEDNONWINNING", "FAILGUARANTEES"):
                if len(ls[0]) != kI + kO or dec(ls[0]) not in c2: F("answer", "the move to %r is not permitted" % ls[0])
                q = dec(ls[0])
                if W[p] or W[q]: F("answer", "the environment's move starts in or leads to a position won by the system")
        if k == "check":
            p, q = args; w = W[p] if real else ew[p]
            def has(x): return x in o
            if has("The pre-position is winning.") != bool(w): F("answer", "winning status")
            for nm, T in (("SAFETY ASSUMPTIONS", g.E), ("SAFETY GUARANTEES", g.S)):
                if has("The transition SATISFIES the " + nm) != bool(T[p + q]): F("answer", "status of the " + nm.lower())
            for nm, Ts in (("liveness assumptions", g.A), ("liveness guarantees", g.G)):
                exp = ", ".join(str(i) for i, T in enumerate(Ts) if T[p + q]) or "none"
                if not has("goal transition for the following %s: %s\n" % (nm, exp)): F("answer", "goals of the transition (%s): expected %s" % (nm, exp))
            l = o.split("strategy for the following goals: ")[1].split("\n")[0]
            if real and l != "none" and not (W[q] and g.S[p + q]): F("answer", "an impossible transition is said to belong to a strategy")
        if k == "setpos":
            p, = args; b = int(lines[1 + kI + kO + 1]); inp = [min(int(x), 1) for x in lines[1 + kI + kO + 2:][:kI]]; a = enc_bits(inp)
            if not g.E[p].any():
                if "There is no allowed next input" not in o: F("answer", "deadlock of the environment not reported")
                continue
            out = {}
            for x in o.split("\n"):
                if " = " in x: out[x.split(" - ")[-1].split(" = ")[0]] = x.rsplit(" = ", 1)[1]
            allowed = bool(g.E[p + (a, 0)])
            if "- The transition is a goal" not in o:
                if allowed and W[p]: F("answer", "an allowed input in a winning position is refused")
                continue
            c = enc_bits([out[n + "'"] for n in s.outputs])
            if allowed:
                if not g.S[p + (a, c)]: F("safety", "the move to %s violates the safety guarantees" % ((a, c),))
                if not W[a, c]: F("winning", "the move to %s leaves the winning positions" % ((a, c),))
            for nm, Ts in (("liveness assumptions", g.A), ("liveness guarantees", g.G)):
                exp = ", ".join(str(i) for i, T in enumerate(Ts) if T[p + (a, c)]) or "none"
                if not ("goal transition for the following %s: %s\n" % (nm, exp)) in o: F("goal", "goals of the move (%s): expected %s" % (nm, exp))
        ctx.tally("request " + k)
    ctx.case(t + str(ask), real and len(ask) > 4); ctx.tally("single requests, realizable" if real else "single requests, unrealizable")

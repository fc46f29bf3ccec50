"""C10: random structured specifications; the compiler's output, read by the reference reader of the slugs format, is
compared with the arithmetic and Boolean meaning of the source."""
import os, re, subprocess, resource
import numpy as np
from probes import *
import slugsin
from slugsin import Reject, Grey
import build
COMPILER = build.REPO + "/tools/StructuredSlugsParser/compiler.py"
def lim(): resource.setrlimit(resource.RLIMIT_AS, (3 << 29, 3 << 29))
def compile_spec(ctx, text, opts=()):
    p = ctx.sl.dir + "/s.structuredslugs"
    with open(p, "w") as f: f.write(text)
    args = list(opts) + [p]
    if opts and ctx.rng.random() < 0.5: args.reverse()
    try: r = subprocess.run(["python3", "-B", COMPILER] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, cwd=ctx.sl.dir, preexec_fn=lim, text=True)
    except subprocess.TimeoutExpired: return None, "", "timeout"
    return r.returncode, r.stdout, r.stderr

# ---- source language: variables are ("b", name) or ("i", name, lo, hi); formulas and terms are trees
PREC = {"<->": 1, "->": 2, "^": 3, "|": 4, "&": 5}
SYN = {"&": ["&", "&&", "/\\"], "|": ["|", "||", "\\/"], "->": ["->", "-->"], "<->": ["<->", "<-->"], "^": ["^"]}
def sp(rng): return rng.choice(["", " ", " ", "  "])
def show_term(rng, t):
    if t[0] == "n": return str(t[1])
    if t[0] == "iv": return t[1] + ("'" if t[2] else "")
    if t[0] == "par": return "(" + sp(rng) + show_term(rng, t[1]) + sp(rng) + ")"
    return show_term(rng, t[1]) + sp(rng) + "+" + sp(rng) + show_term(rng, t[2])
def show(rng, f, ctxp=0):
    k = f[0]
    if k == "T": return "TRUE"
    if k == "F": return "FALSE"
    if k == "v": return f[1] + ("'" if f[2] else "")
    if k == "cmp": s = show_term(rng, f[2]) + sp(rng) + f[1] + sp(rng) + show_term(rng, f[3]); return s if rng.random() < 0.6 else "(" + s + ")"
    if k == "!": return rng.choice("!~") + sp(rng) + show(rng, f[1], 9)
    if k == "X": return rng.choice(["X ", "next ", "next", "X", "() "]) .rstrip() + " " + show(rng, f[1], 9)
    p = PREC[f[0]]; same = f[0] in "&|^"
    s = show(rng, f[1], p if same else p + 1) + sp(rng) + rng.choice(SYN[f[0]]) + " " * rng.randint(0, 1) + show(rng, f[2], p + 1)
    if p < ctxp or rng.random() < 0.2:
        o, c = rng.choice(["()", "()", "[]"]); s = o + s + c
    return s
def eval_term(t, env, nxt):
    if t[0] == "n": return t[1]
    if t[0] == "iv": return env[(t[1], t[2] or nxt)]
    if t[0] == "par": return eval_term(t[1], env, nxt)
    return eval_term(t[1], env, nxt) + eval_term(t[2], env, nxt)
CMP = {"=": np.equal, "!=": np.not_equal, "<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal}
def ev(f, env, n, nxt=False):
    k = f[0]
    if k == "T": return np.ones(n, bool)
    if k == "F": return np.zeros(n, bool)
    if k == "v": return env[(f[1], f[2] or nxt)]
    if k == "cmp": return np.broadcast_to(CMP[f[1]](np.asarray(eval_term(f[2], env, nxt)), np.asarray(eval_term(f[3], env, nxt))), (n,))
    if k == "!": return ~ev(f[1], env, n, nxt)
    if k == "X": return ev(f[1], env, n, True)
    a, b = ev(f[1], env, n, nxt), ev(f[2], env, n, nxt)
    return {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "->": lambda: ~a | b, "<->": lambda: a == b}[k]()
def ev_slugs(f, env, n, memo):
    k = id(f)
    if f is True: return np.ones(n, bool)
    if f is False: return np.zeros(n, bool)
    if k in memo: return memo[k]
    if f[0] == "v": r = env[(f[1], f[2])]
    elif f[0] == "!": r = ~ev_slugs(f[1], env, n, memo)
    else:
        a, b = ev_slugs(f[1], env, n, memo), ev_slugs(f[2], env, n, memo)
        r = a & b if f[0] == "&" else a | b if f[0] == "|" else a ^ b
    memo[k] = r; return r
def term(rng, ints, primes, depth):
    r = rng.random()
    if depth == 0 or r < 0.45:
        if not ints or rng.random() < 0.35:
            hi = max([i[3] for i in ints], default=3); return ("n", rng.choice([0, 1, rng.randint(0, 2 * hi + 2), rng.randint(0, 300), hi]))
        v = rng.choice(ints); return ("iv", v[1], primes and rng.random() < 0.4)
    if r < 0.55: return ("par", term(rng, ints, primes, depth - 1))
    a = term(rng, ints, primes, depth - 1); b = term(rng, ints, primes, depth - 1)
    if a[0] == "+": a = ("par", a)
    return ("+", a, b)
def formula(rng, bools, ints, primes, depth, inx=False):
    r = rng.random()
    if depth == 0 or r < 0.1:
        r = rng.random()
        if r < 0.06: return (rng.choice("TF"),)
        if bools and (r < 0.45 or not ints): return ("v", rng.choice(bools)[1], primes and not inx and rng.random() < 0.4)
        return ("cmp", rng.choice(list(CMP)), term(rng, ints, primes and not inx, rng.choice([0, 1, 2])), term(rng, ints, primes and not inx, rng.choice([0, 0, 1, 2])))
    if r < 0.25: return ("!", formula(rng, bools, ints, primes, depth - 1, inx))
    if r < 0.35 and primes and not inx: return ("X", formula(rng, bools, ints, primes, depth - 1, True))
    op = rng.choice(["&", "&", "|", "|", "->", "<->", "^"])
    return (op, formula(rng, bools, ints, primes, depth - 1, inx), formula(rng, bools, ints, primes, depth - 1, inx))
def only_pre(f):       # (no next-step output may occur in the environment's transition constraint)
    return f
def rename_ok(f, allowed_next, nxt=False):
    """all next-step variables of f are allowed"""
    k = f[0]
    if k in ("T", "F", "n"): return True
    if k in ("v", "iv"): return not (f[2] or nxt) or f[1] in allowed_next
    if k == "cmp": return rename_ok(f[2], allowed_next, nxt) and rename_ok(f[3], allowed_next, nxt)
    if k == "X": return rename_ok(f[1], allowed_next, True)
    return all(rename_ok(x, allowed_next, nxt) for x in f[1:])
def declare(rng):
    names = ["a", "b1", "x", "yy", "level", "Z", "u.v", "_p", "s7"]; rng.shuffle(names)
    def one(n):
        if rng.random() < 0.35: return ("b", n)
        lo = rng.choice([0, 0, 0, 1, 2, 3, 5, rng.randint(0, 40)]); w = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, rng.randint(0, 40), rng.randint(0, 150)])
        return ("i", n, lo, lo + w)
    k = rng.randint(0, 3); m = rng.randint(0 if k else 1, 3)
    return [one(n) for n in names[:k]], [one(n) for n in names[k:k + m]]
def gen(rng):
    ins, outs = declare(rng); allv = ins + outs
    bl = lambda vs: [v for v in vs if v[0] == "b"]; il = lambda vs: [v for v in vs if v[0] == "i"]
    inn = {v[1] for v in ins}; alln = {v[1] for v in allv}
    sec = {}
    def many(n, vs, primes, allowed, d=None):
        r = []
        while len(r) < n:
            f = formula(rng, bl(vs), il(vs), primes, rng.choice([0, 1, 1, 2, 3]) if d is None else d)
            if rename_ok(f, allowed): r.append(f)
        return r
    sec["ENV_INIT"] = many(rng.choice([0, 1, 1, 2]), ins, False, ()) if ins else []
    sec["SYS_INIT"] = many(rng.choice([0, 1, 1, 2]), allv, False, ())
    sec["ENV_TRANS"] = many(rng.choice([0, 1, 1, 2]), allv, True, inn)
    sec["SYS_TRANS"] = many(rng.choice([0, 1, 1, 2]), allv, True, alln)
    sec["ENV_LIVENESS"] = many(rng.choice([0, 1, 3, 5]), allv, True, alln)
    sec["SYS_LIVENESS"] = many(rng.choice([0, 1, 3, 5]), allv, True, alln)
    return ins, outs, sec
def polish(rng, vs):
    lits = [(v[1], False) for v in vs if v[0] == "b"]
    return rformula(rng, lits, 2) if lits else None
def text_of(rng, ins, outs, sec):
    out = []
    if rng.random() < 0.3: out.append("# a comment before the first section")
    def dec(vs):
        for v in vs:
            if rng.random() < 0.1: out.append(rng.choice(["", "# c", "   "]))
            out.append((rng.choice(["", " "]) + v[1]) if v[0] == "b" else "%s%s:%s%d...%d" % (v[1], rng.choice(["", " "]), rng.choice(["", " "]), v[2], v[3]))
    out.append("[INPUT]"); dec(ins); out.append(""); out.append("[OUTPUT]"); dec(outs); out.append("")
    ss = list(sec.items())
    if rng.random() < 0.3: rng.shuffle(ss)
    for s, fs in ss:
        if not fs and rng.random() < 0.4: continue
        out.append("[%s]" % s)
        for f in fs:
            if rng.random() < 0.1: out.append(rng.choice(["", "## name"]))
            l = f[1] if f[0] == "raw" else show(rng, f)
            out.append(l if not l.startswith("[") else "(" + l + ")")
        out.append("")
    return "\n".join(out) + "\n"
def bits_of(spec_in, spec_out, ins, outs, F):
    """declared variable -> the names of its bits in the compiled specification"""
    m = {}
    for comp, decl, what in ((spec_in, ins, "input"), (spec_out, outs, "output")):
        names = list(comp)
        for v in decl:
            if v[0] == "b":
                if v[1] not in names: F("variable %s is not an %s of the result" % (v[1], what))
                names.remove(v[1])
            else:
                bs = {}
                for n in list(names):
                    q = re.match(re.escape(v[1]) + r"@(\d+)(\.(\d+)\.(\d+))?$", n)
                    if q: bs[int(q.group(1))] = n; names.remove(n)
                if sorted(bs) != list(range(len(bs))): F("the bits of %s are not numbered consecutively" % v[1])
                if 1 << len(bs) < v[3] - v[2] + 1: F("%s has too few bits" % v[1])
                m[v[1]] = [bs[k] for k in range(len(bs))]
        if names: F("undeclared variables in the result: %s" % names)
    return m
@probe("C10", "random structured specifications with Boolean variables and integer variables of random ranges (also one-valued, powers of two, with and without offset), comparisons of sums, primes and the next operator, with and without --thorougly; every section compared with its arithmetic meaning on all valuations (at most 2^13) or 4000 sampled ones; non-trivial: a comparison of a sum with carries across a range limit")
def c10(ctx):
    rng = ctx.rng; ins, outs, sec = gen(rng); thorough = rng.random() < 0.3
    for s in sec:
        if rng.random() < 0.1:
            pf = polish(rng, ins if s == "ENV_INIT" else ins + outs)
            if pf is not None: sec[s].insert(rng.randint(0, len(sec[s])), ("raw", fmt(pf), pf))
    text = text_of(rng, ins, outs, sec); opts = ("--thorougly",) if thorough else ()
    rc, out, err = compile_spec(ctx, text, opts)
    def F(k, m, **kw): fail("compiler " + k, m, input=text, opts=list(opts), output=(out + "\n" + err)[:3000], **kw)
    if rc is None: F("hang", "the compiler does not terminate")
    if rc != 0: F("rejected", "a legal specification is rejected: " + err[-300:])
    try: sp_ = slugsin.read(out)
    except (Reject, Grey) as e: F("unreadable", "the result is not a legal slugs specification: %s" % e)
    bits = bits_of(sp_.inputs, sp_.outputs, ins, outs, lambda m: F("variables", m))
    names = sp_.inputs + sp_.outputs; nb = 2 * len(names); nr = np.random.RandomState(rng.getrandbits(31))
    allvars = [(n, pr) for pr in (False, True) for n in names]
    if nb <= 13: n = 1 << nb; idx = np.arange(n); benv = {v: ((idx >> k) & 1).astype(bool) for k, v in enumerate(allvars)}
    else:
        n = 4000; benv = {v: nr.rand(n) < 0.5 for v in allvars}
        for v in ins + outs:                      # half of the samples near the border of the range
            if v[0] == "i":
                for pr in (False, True):
                    w = v[3] - v[2]; k = np.clip(w + nr.randint(-1, 2, n) if rng.random() < 0.5 else nr.randint(0, w + 1, n), 0, None); use = nr.rand(n) < 0.8
                    for j, b in enumerate(bits[v[1]]): benv[(b, pr)] = np.where(use, (k >> j) & 1 == 1, benv[(b, pr)])
    env = {}; inr = {}
    for v in ins + outs:
        for pr in (False, True):
            if v[0] == "b": env[(v[1], pr)] = benv[(v[1], pr)]; inr[(v[1], pr)] = np.ones(n, bool)
            else:
                x = np.full(n, v[2])
                for j, b in enumerate(bits[v[1]]): x = x + (benv[(b, pr)].astype(int) << j)
                env[(v[1], pr)] = x; inr[(v[1], pr)] = x <= v[3]
    pre = np.logical_and.reduce([inr[(v[1], False)] for v in ins + outs]); post = np.logical_and.reduce([inr[(v[1], True)] for v in ins + outs])
    memo = {}
    def src(f): return ev_slugs(f[2], {(a, b): c for (a, b), c in benv.items()}, n, {}) if f[0] == "raw" else ev(f, env, n)
    def show_at(k): return {v[1] + ("'" if pr else ""): int(env[(v[1], pr)][k]) for v in ins + outs for pr in (False, True)}
    for s in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS"):
        got = np.ones(n, bool); want = np.ones(n, bool)
        for f in sp_.sec[s]: got &= ev_slugs(f, benv, n, memo)
        for f in sec[s]: want &= src(f)
        care = pre & post if s.endswith("TRANS") else pre
        bad = np.flatnonzero((got != want) & care)
        if len(bad): F("meaning " + s[4:], "%s is %s for %s, the source says %s" % (s, bool(got[bad[0]]), show_at(bad[0]), bool(want[bad[0]])))
        mine = ins if s.startswith("ENV") else outs
        for v in mine:
            lim_ = inr[(v[1], s.endswith("TRANS"))]
            bad = np.flatnonzero(got & ~lim_ & (pre if s.endswith("TRANS") else True))
            if len(bad): F("range", "%s allows %s outside its range: %s" % (s, v[1], show_at(bad[0])))
    for s in ("ENV_LIVENESS", "SYS_LIVENESS"):
        if len(sp_.sec[s]) != len(sec[s]): F("liveness count", "%s has %d lines, the source %d" % (s, len(sp_.sec[s]), len(sec[s])))
        for f, g in zip(sec[s], sp_.sec[s]):
            got = ev_slugs(g, benv, n, memo); want = src(f); bad = np.flatnonzero((got != want) & pre & post)
            if len(bad): F("meaning LIVENESS", "a line of %s is %s for %s, the source says %s" % (s, bool(got[bad[0]]), show_at(bad[0]), bool(want[bad[0]])))
    ctx.case(text, "+" in text and any(v[0] == "i" and (v[3] - v[2] + 1) & (v[3] - v[2]) for v in ins + outs), {"thoroughly": thorough}); ctx.tally("thoroughly" if thorough else "standard")
BAD = [("unknown section", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANSS]\na\n"),
       ("property taken for a section", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANS]\n[ a | x = 3 ] & ! a\n"),
       ("unknown variable", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANS]\nx = %s\n" % rng.choice(["q", "x + q", "(q)"])),
       ("unknown Boolean", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANS]\na %s q\n" % rng.choice(["&", "|", "->"])),
       ("temporal operator", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANS]\n%s\n" % rng.choice(["F a", "G a", "a U (x = 3)", "a W a", "<> a", "[] a"])),
       ("next of a next", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANS]\n%s\n" % rng.choice(["X a'", "X X a", "X(x' = 3)", "next(a & next a)"])),
       ("unsupported arithmetic", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANS]\nx' = x %s\n" % rng.choice(["* 2", "- 1", "/ 2"])),
       ("missing operand", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 1...5\n\n[SYS_TRANS]\n%s\n" % rng.choice(["a &", "& a", "x =", "(a", "a)", "x + = 3", "! ", "x", "x + 1", "3"])),
       ("empty range", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: 5...1\n"),
       ("unreadable range", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: %s\n" % rng.choice(["1..5", "a...b", "1...", "3", "1...2...3"])),
       ("negative value", lambda rng: "[INPUT]\na\n\n[OUTPUT]\nx: -%d...%d\n\n[SYS_TRANS]\nx' %s 1\n" % (rng.randint(1, 3), rng.randint(0, 4), rng.choice(["=", "<", ">"]))),
       ("illegal name", lambda rng: "[INPUT]\na%s\n\n[OUTPUT]\nx: 1...5\n" % rng.choice(["'", "@1"]))]
@probe("C10", "input outside the language (unknown sections, variables or operators, missing operands, bad ranges) ends with an error instead of a specification", 0.25)
def c10bad(ctx):
    rng = ctx.rng; what, g = rng.choice(BAD); text = g(rng); rc, out, err = compile_spec(ctx, text)
    if rc is None: fail("compiler hang", "the compiler does not terminate (%s)" % what, input=text)
    if rc == 0: fail("compiler accepts " + what, "%s is accepted" % what, input=text, output=out[:1500])
    ctx.case(text, False); ctx.tally("rejected")

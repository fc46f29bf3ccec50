"""Proof units: each extracts functions of /repo's current sources, attaches contracts and yields obligations."""
import time, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gr1 import *
from discharge import *

UNITS = {}
def unit(name, functions, says, assumes=()):
    def deco(f):
        UNITS[name] = {"fn": f, "functions": functions, "says": says, "assumes": list(assumes)}
        return f
    return deco

def tmpl(headers, inst):
    return lambda: TU(text="#include <fstream>\n#include <cstring>\n#include <sstream>\n#include <boost/algorithm/string.hpp>\n" + "".join('#include "%s"\n' % h for h in headers) + "".join("template class %s;\n" % i for i in inst))

A_PARSER = "safetyEnv mentions current variables and next inputs only, initEnv current inputs only, initSys current variables only; both liveness vectors are non-empty (proved of GR1Context::init in C09, units parse:*)"
A_BF = "the operations of class BF (&, |, !, Implies, ExistAbstract, UnivAbstract, AndAbstract, SwapVariables, isTrue, isConstant) compute what their contracts say (C11)"
A_INT = "integers of the program are mathematical integers (loop counters over std::vector sizes; no overflow)"
A_FIN = "finitely many variables; the fixed points exist (complete lattice of predicates)"

# ------------------------------------------------------------------ winning positions
def win_unit(name, mk, chain, dual=False, functions=("computeWinningPositions",)):
    @unit(name, functions, "postcondition: winningPositions = nu Z. /\\_j mu Y. \\/_i nu X. cox(S & ((G_j & Z') | Y' | (!A_i & X')))" + (" (complement, environment game)" if dual else ""), [A_PARSER, A_BF, A_INT, A_FIN])
    def f():
        th = DualGR1Theory() if dual else GR1Theory()
        ex = Executor(th, mk(), chain, loops=gr1_invariants(th)); th.ex = ex
        th.init_state = setup_spec
        ex.verify("computeWinningPositions", Contract(post=winning_post))
        return th, ex
def dump_unit(name, mk, chain):
    @unit(name, ["computeWinningPositions"], "strategyDumpingData is a certificate: every entry's transitions are safe and reach the goal inside the winning set, or an earlier entry, or stay while an assumption is violated; for every goal the entries cover exactly the winning positions", [A_PARSER, A_BF, A_INT, A_FIN])
    def f():
        th = GR1Theory(); th.track_dump = True
        ex = Executor(th, mk(), chain, loops=gr1_invariants(th)); th.ex = ex
        th.init_state = setup_spec
        ex.verify("computeWinningPositions", Contract(post=dump_post))
        return th, ex
dump_unit("dump:GR1Context", lambda: TU(path="src/synthesisAlgorithm.cpp"), ["GR1Context"])
dump_unit("dump:XFixedPointRecycling", tmpl(["extensionFixedPointRecycling.hpp"], ["XFixedPointRecycling<GR1Context>"]), ["XFixedPointRecycling<GR1Context>", "GR1Context"])
dump_unit("dump:XBiasForAction", tmpl(["extensionBiasForAction.hpp"], ["XBiasForAction<GR1Context>"]), ["XBiasForAction<GR1Context>", "GR1Context"])
win_unit("win:GR1Context", lambda: TU(path="src/synthesisAlgorithm.cpp"), ["GR1Context"])
win_unit("win:XFixedPointRecycling", tmpl(["extensionFixedPointRecycling.hpp"], ["XFixedPointRecycling<GR1Context>"]), ["XFixedPointRecycling<GR1Context>", "GR1Context"])
win_unit("win:XBiasForAction", tmpl(["extensionBiasForAction.hpp"], ["XBiasForAction<GR1Context>"]), ["XBiasForAction<GR1Context>", "GR1Context"])
win_unit("win:XCounterStrategy", tmpl(["extensionCounterstrategy.hpp"], ["XCounterStrategy<GR1Context,false>"]), ["XCounterStrategy<GR1Context, false>", "GR1Context"], dual=True)

def fs_setup(ex, st):
    setup_spec(ex, st); st.store[("F", "safetySys")] = ex.th.S0
C_FS = ["XIROSFS<GR1Context>", "GR1Context"]; C_IL = ["XInterleave<GR1Context>", "GR1Context"]; C_AA = ["XAnalyzeAssumptions<GR1Context>", "GR1Context"]
@unit("win:XIROSFS", ["computeWinningPositions"], "postcondition: winningPositions is the winning set of the GR(1) game whose safety guarantees are S and the two requirements on the intermediate position", [A_PARSER, A_BF, A_INT, A_FIN])
def _():
    th = FastSlowTheory(); ex = Executor(th, tmpl(["extensionIROSfastslow.hpp"], C_FS[:1])(), C_FS, loops=gr1_invariants(th)); th.ex = ex
    th.init_state = fs_setup
    ex.verify("computeWinningPositions", Contract(post=winning_post))
    return th, ex
@unit("win:XInterleave", ["computeWinningPositions"], "postcondition: winningPositions is the winning set of the GR(1) game in which the 'before' outputs are chosen before the next inputs are known", [A_PARSER, A_BF, A_INT, A_FIN])
def _():
    th = InterleaveTheory(); ex = Executor(th, tmpl(["extensionInterleave.hpp"], C_IL[:1])(), C_IL, loops=gr1_invariants(th)); th.ex = ex
    th.init_state = setup_spec
    ex.verify("computeWinningPositions", Contract(post=winning_post))
    return th, ex
@unit("win:XAnalyzeAssumptions", ["computeReactiveDistancesAndWinningPositions"], "postcondition: the result is the winning set for the current safetyEnv and livenessAssumptions", [A_PARSER, A_BF, A_INT, A_FIN])
def _():
    th = GR1Theory(); ex = Executor(th, tmpl(["extensionAnalyzeAssumptions.hpp"], C_AA[:1])(), C_AA, loops=gr1_invariants(th)); th.ex = ex
    th.init_state = setup_spec
    def post(v, old, res):
        w = th.view_value(res)
        return [("the result contains every position of nu Z.../mu Y.../nu X...", th.sub(th.zs, w)), ("the result contains only such positions", th.sub(w, th.zs)), ("the result is a predicate over current variables", th.preonly(w))]
    ex.verify("computeReactiveDistancesAndWinningPositions", Contract(post=post))
    return th, ex

import coop as CO
C_CO = ["XCooperativeGR1Strategy<GR1Context>", "GR1Context"]
@unit("win:XCooperativeGR1Strategy", ["computeWinningPositions"], "postcondition: winningPositions is the winning set of the cooperative game (lean/Coop.lean: zs, equal to the declarative zc)", [A_PARSER, A_BF, A_INT, A_FIN])
def _():
    th = CO.CoopTheory(); ex = Executor(th, tmpl(["extensionCooperativeGR1Strategy.hpp"], C_CO[:1])(), C_CO, loops=CO.loops(th)); th.ex = ex
    th.init_state = setup_spec
    ex.verify("computeWinningPositions", Contract(post=winning_post))
    return th, ex

# ------------------------------------------------------------------ verdicts
class VerdictTheory(Theory):
    """coordinates only; the set of winning positions is an arbitrary predicate W over current variables"""
    def __init__(self, outs=(("O", "Output"),), parents=None):
        super().__init__([("pi", "I", "PreInput")] + [("p" + s.lower(), s, "Pre" + t) for s, t in outs] + [("qi", "I", "PostInput")] + [("q" + s.lower(), s, "Post" + t) for s, t in outs], parents)
        self.nO = len(outs)
        self.W = z3.Const("W", self.B); self.iE = z3.Const("initEnv", self.B); self.iS = z3.Const("initSys", self.B)
        self.i0 = z3.Const("i0", self.sorts["I"]); self.o0 = tuple(z3.Const(s.lower() + "0", self.sorts[s]) for s, t in outs)
        self.PRE = frozenset(range(1 + self.nO))
    def coords(self, tag=None):
        f = self.flat(); n = self.nO
        return (f[0], f[1:1+n], f[1+n], f[2+n:])
    track_dep = True
    def p(self, t, i, o): return self.holds(t, i, o, self.i0, self.o0)
    def init_state(self, ex, st):
        h = self.holds; x = self.coords()
        st.store[("F", "initEnv")] = BFV(self, t=self.iE, dep=frozenset([0])); st.store[("F", "initSys")] = BFV(self, t=self.iS, dep=self.PRE)
        for t in (self.W, self.iS): st.pc.append(FA(x, h(t, *x) == self.p(t, x[0], x[1]), patterns=[h(t, *x)]))
        st.pc.append(FA(x, h(self.iE, *x) == self.p(self.iE, x[0], self.o0), patterns=[h(self.iE, *x)]))
def verdict_unit(name, mk, chain, spec, says, dual=False, outs=(("O", "Output"),), parents=None, fields=("winningPositions", "strategyDumpingData"), callee="computeWinningPositions"):
    @unit(name, ["checkRealizability"], says, [A_PARSER, A_BF])
    def f():
        th = VerdictTheory(outs, parents)
        def post(v, old, res):
            x = th.coords(); w = v.fld("winningPositions"); g = th.holds(th.W, *x)
            v.st.store[("F", "winningPositions")] = BFV(th, t=w.t, dep=th.PRE)     # a predicate over current variables (winning_post)
            return [("W", FA(x, w.at(x) == (z3.Not(g) if dual else g)))]
        ex = Executor(th, mk(), chain, contracts={callee: Contract(post=post, modifies=("winningPositions",))})
        ex.verify("checkRealizability", Contract(post=lambda v, o, r: [(says, v.fld("realizable") == spec(th))]))
        for st, val in ex.throws:
            ex.oblige(st, "no internal error: the throw is unreachable", z3.BoolVal(False), "unreachable")
        return th, ex
def spec_std(th):
    a, b = th.coords()[0], th.coords()[1]
    return FA([a], z3.Implies(th.p(th.iE, a, th.o0), EX([b], z3.And(th.p(th.W, a, b), th.p(th.iS, a, b)))))
def spec_rob(th):
    a, b = th.coords()[0], th.coords()[1]
    return FA([a, b], z3.Implies(z3.And(th.p(th.iE, a, th.o0), th.p(th.iS, a, b)), th.p(th.W, a, b)))
STD = "realizable <=> for all inputs allowed by initEnv some output allowed by initSys gives a winning position"
ROB = "realizable <=> every position allowed by initEnv and initSys is winning"
verdict_unit("verdict:GR1Context", lambda: TU(path="src/synthesisAlgorithm.cpp"), ["GR1Context"], spec_std, STD)
verdict_unit("verdict:XRoboticsSemantics", tmpl(["extensionRoboticsSemantics.hpp"], ["XRoboticsSemantics<GR1Context>"]), ["XRoboticsSemantics<GR1Context>", "GR1Context"], spec_rob, ROB)
verdict_unit("verdict:XCounterStrategy", tmpl(["extensionCounterstrategy.hpp"], ["XCounterStrategy<GR1Context,false>"]), ["XCounterStrategy<GR1Context, false>", "GR1Context"], spec_std, STD, dual=True)
verdict_unit("verdict:XCounterStrategy-robotics", tmpl(["extensionCounterstrategy.hpp"], ["XCounterStrategy<GR1Context,true>"]), ["XCounterStrategy<GR1Context, true>", "GR1Context"], spec_rob, ROB, dual=True)

verdict_unit("verdict:XIROSFS", tmpl(["extensionIROSfastslow.hpp"], C_FS[:1]), C_FS, spec_std, STD, outs=(("OS", "OutputSlow"), ("OF", "OutputFast")), parents=FS_PARENTS)
verdict_unit("verdict:XInterleave", tmpl(["synthesisAlgorithm.cpp", "extensionInterleave.hpp"], C_IL[:1]), C_IL, spec_std, STD, outs=(("OB", "OutputBefore"), ("OA", "OutputAfter")), parents=IL_PARENTS)

# ------------------------------------------------------------------ choice of one valuation
import choice as CH
def choice_unit(fn):
    @unit("choice:" + fn, [fn], "postcondition: the result is contained in the argument, is empty only if the argument is, and gives every variable of the vector one value", [A_BF])
    def f():
        th = CH.SetTheory(); ex = Executor(th, TU(path="src/tools.cpp"), ["GR1Context"], loops=CH.choice_loops(th))
        ex.verify(fn, Contract(post=CH.choice_post))
        return th, ex
choice_unit("determinize"); choice_unit("determinizeRandomized")

# ------------------------------------------------------------------ lemmas about the specification symbols (Lean)
LEAN = {}
def lean_unit(name, file, says): LEAN[name] = (file, says)
lean_unit("lemmas:GR1", "GR1.lean", "every axiom and schema instance that theory.py hands to the solvers about cox, fxs, xs, ys, zs follows from their definitions")
lean_unit("lemmas:Coop", "Coop.lean", "every axiom and schema instance that coop.py hands to the solvers about the cooperative game follows from the definitions; the set computed goal by goal equals its declarative form (zs_clean)")
ALLOWED = {"propext", "Classical.choice", "Quot.sound"}
def run_lean(name):
    file, says = LEAN[name]; t = time.time()
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean")
    r = {"unit": name, "says": says, "assumes": [], "functions": [], "obligations": 0, "discharged": 0, "by": {}, "failed": [], "status": "ok", "solver_s": 0.0, "names": []}
    try: p = subprocess.run(["lean", file], cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except (OSError, subprocess.TimeoutExpired) as e: r["status"] = "unsupported"; r["why"] = str(e)[:300]; return r
    src = open(os.path.join(here, file)).read()
    want = re.findall(r"^#print axioms (\S+)", src, re.M); good = 0
    for m in re.finditer(r"'(\S+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", p.stdout):
        ax = set(x.strip() for x in (m.group(3) or "").split(",") if x.strip())
        if ax <= ALLOWED: good += 1; r["names"].append(m.group(1))
    r["obligations"] = len(want); r["discharged"] = good if p.returncode == 0 else 0; r["by"] = {"lean": r["discharged"]}
    if p.returncode or good != len(want): r["status"] = "unsupported"; r["why"] = p.stdout[-500:]
    r["wall_s"] = r["solver_s"] = round(time.time() - t, 1)
    return r

# ------------------------------------------------------------------ clause form (C12)
import cnf as CN
C_CN = ["XComputeCNFFormOfTheSpecification<GR1Context>", "GR1Context"]
@unit("cnf:execute", ["execute"], "the clauses printed per section are equivalent to the constraint of that section; every liveness line is printed in order and its terms (read over the current or, for terms over current variables only, the next step) are equivalent to the condition; every variable is declared", [A_BF, A_INT, CN.A_EXT, "termination is not proved"])
def _():
    th = CN.CnfTheory()
    ex = Executor(th, tmpl(["extensionComputeCNFFormOfTheSpecification.hpp"], C_CN[:1])(), C_CN, contracts={"determinize": CN.det_contract(th)}, loops=CN.loops(th))
    th.ex = ex
    ex.verify("execute", Contract(post=CN.post))
    for st, val in ex.throws:
        msg = " ".join(x.get("value", "") for x in walk(val)) if isinstance(val, dict) else ""
        if "assumes" not in msg: ex.oblige(st, "no internal error: the throw is unreachable", z3.BoolVal(False), "unreachable")
    CN.det_lemma(th, ex)
    return th, ex
# ------------------------------------------------------------------ the Boolean function layer (C11)
import own as OW
A_CUDD = ["CUDD's functions satisfy their contracts over reference counts and denotations (dv/own.py, cudd()): results of operations denote what the operation's name says, nodes are canonical, only unreferenced nodes are ever reclaimed", "there is one manager; memory does not run out (no NULL result)", A_INT, "termination is not proved"]
def own_unit(cls):
    @unit("own:" + cls, ["all member functions of " + cls + " except " + ", ".join(k.split("::")[1] for k in OW.SKIP if k.startswith(cls + "::"))], "for every member function: references before + handles created = references after + handles destroyed for every node, heap arrays likewise, object invariants, arguments unchanged, the result denotes what the name says, and every call into CUDD meets its precondition", A_CUDD)
    def f():
        th, ex = OW.run_class(cls)
        if cls == "BFBddVarVector": OW.cnt_lemmas(ex); ex.obls += ex.lem
        return th, ex
for _c in OW.CLASSES: own_unit(_c)
# ------------------------------------------------------------------ the input parser (C09)
import parse as PA
A_LINES = "std::getline yields the lines of the file in order, boost::trim and std::string operations are functions of their arguments"
@unit("parse:formula", ["parseBooleanFormulaRecurse"], "for every line, place in it, buffer and variable table: a formula is accepted iff it is well-formed and uses allowed variables only, exactly its tokens are read, the result is its denotation and depends on allowed variables only; every error is justified (both evaluation orders of operands)", [PA.A_TOK, A_BF, A_INT, "the variable names are pairwise distinct (files in which they are not are rejected: parse:file)", "termination is not proved"])
def _(): return PA.run_line(False)
@unit("parse:line", ["parseBooleanFormula"], "a line is accepted iff it is one well-formed formula; the result is its denotation", [PA.A_TOK, A_BF, A_INT])
def _(): return PA.run_line(True)
def file_unit(name, cfg, mk, chain, more=""):
    @unit(name, ["init", "addVariable"], "a file is accepted iff it can be read, every line is valid in its section and all variable names differ; the variable table lists the declared variables and their next-step copies in order; the initialisation and safety constraints are the conjunctions of the lines of their sections and only depend on the variables allowed there; the liveness lists have one entry per line in order, or the single entry true" + more, [A_LINES, A_BF, A_INT, "a manager's variables are distinct and numbered in the order of creation", "the specification is read into empty vectors"])
    def f(): return PA.run_file(cfg, mk, chain)
file_unit("parse:file:GR1Context", PA.STD, PA.TUM, ["GR1Context", "SlugsVariableManager"])
file_unit("parse:file:XIROSFS", PA.IROS, PA.tum_tmpl("extensionIROSfastslow.hpp", C_FS[0]), C_FS + ["SlugsVariableManager"])
file_unit("parse:file:XAnalyzeAssumptions", PA.AA, PA.tum_tmpl("extensionAnalyzeAssumptions.hpp", C_AA[0]), C_AA + ["SlugsVariableManager"], "; the list of safety assumptions has one entry per line in order; a property keeps the name given in the preceding '##' line")
# ------------------------------------------------------------------ assumption analysis (C18)
import classify as CL
@unit("classify:execute", ["execute"], "every safety and liveness assumption is reported once, in order and under its own name; it is reported as crucially needed only if the specification without it is unrealizable, as making more positions winning only if it is not needed and fewer positions are winning without it, as redundant only if neither and the other safety assumptions imply it, and otherwise as something else (these cases exclude each other, so also 'if')", [A_PARSER, A_BF, A_INT, CL.A_MSG, CL.A_DIAG, "the safety assumption is the conjunction of its parts, which all have names (parse:file:XAnalyzeAssumptions)"])
def _():
    th = CL.ClassifyTheory()
    ex = Executor(th, tmpl(["extensionAnalyzeAssumptions.hpp"], C_AA[:1])(), C_AA, contracts={"computeReactiveDistancesAndWinningPositions": th.game_contract()}, loops=CL.loops(th)); th.ex = ex
    ex.verify("execute", Contract(post=CL.post))
    ex.obls = [o for o in ex.obls if CL.tracked(th, o)]
    return th, ex
import optable, pycomp
STATIC = {"options:table": lambda jobs, gate: optable.run(), "compiler:translate": lambda jobs, gate: pycomp.run_unit_py(jobs, gate)}

# ------------------------------------------------------------------ running a unit
def smoke(th, ex, jobs, T=1):
    """vacuity guard: `false` must not follow from what holds at a function exit / at the end of a loop body"""
    pts = []; seen = {}
    for st in ex.exit_states: pts.append(("exit", Obligation("smoke exit", st.pc, z3.BoolVal(False), "smoke", None, None, extra=[st])))
    for o in ex.obls:
        if o.kind == "preserve": seen.setdefault(o.cand[0], {})[id(o.extra[0])] = o
    for lid, d in seen.items():
        for o in d.values(): pts.append((lid, Obligation("smoke loop " + lid, o.hyps, z3.BoolVal(False), "smoke", None, None, extra=o.extra)))
    texts = [to_smt(th, o) for _, o in pts]
    with ThreadPoolExecutor(jobs) as p:
        res = list(p.map(lambda t: solve(t, T, T, STRATEGIES[:2])[0], texts))
    by = {}
    for (k, _), r in zip(pts, res): by.setdefault(k, []).append(r)
    return {k: any(r != "proved" for r in v) for k, v in by.items()}

def run_unit(name, quick=4, full=20, retry=60, jobs=4, do_smoke=True, gate=None):
    """gate(): called when the short time limit left obligations open; answers whether to spend more time on them"""
    if name in LEAN: return run_lean(name)
    if name in STATIC: return STATIC[name](jobs, gate)
    u = UNITS[name]; t = time.time()
    r = {"unit": name, "says": u["says"], "assumes": u["assumes"], "functions": [], "obligations": 0, "discharged": 0, "by": {}, "failed": [], "status": "ok", "solver_s": 0.0}
    try:
        th, ex = u["fn"]()
    except (ExtractionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError, z3.Z3Exception) as e:
        r["status"] = "unsupported"; r["why"] = "%s: %s" % (type(e).__name__, str(e)[:400]); r["wall_s"] = time.time() - t
        return r
    r["dropped"] = sorted(ex.dropped)
    r["functions"] = sorted(ex.functions)
    if not ex.obls:
        r["status"] = "unsupported"; r["why"] = "no obligations generated"; return r
    discharge(th, ex.obls, quick, quick, jobs=jobs)
    bad = [o for o in ex.obls if o.status != "proved"]
    more = not bad or gate is None or gate()
    if bad and more:
        for o in bad:
            if o.status != "refuted": o.status = None
        discharge(th, bad, full, full, jobs=jobs)
        bad = [o for o in ex.obls if o.status != "proved"]
    if bad and more and len(bad) <= 12:                       # once more, one at a time, with a long limit (a loaded machine must not raise an alarm)
        for o in bad: o.status = None
        discharge(th, bad, retry, retry, jobs=2)
        bad = [o for o in ex.obls if o.status != "proved"]
    r["obligations"] = len(ex.obls); r["discharged"] = len(ex.obls) - len(bad)
    for o in ex.obls:
        if o.status == "proved": r["by"][o.solver] = r["by"].get(o.solver, 0) + 1
    r["solver_s"] = round(sum(o.time for o in ex.obls), 1)
    r["failed"] = [{"obligation": o.name, "kind": o.kind, "function": o.fn, "line": o.where, "solver": [list(x) for x in (o.model or [])] if isinstance(o.model, list) else str(o.model), "goal": str(o.goal)[:1500]} for o in bad]
    r["names"] = sorted({o.name for o in ex.obls})[:60]
    if bad: r["status"] = "failed"
    elif do_smoke:
        r["smoke"] = smoke(th, ex, jobs)
        if not all(r["smoke"].values()):
            r["status"] = "vacuous"; r["why"] = "false is derivable at: " + ", ".join(k for k, v in r["smoke"].items() if not v)
    r["wall_s"] = round(time.time() - t, 1)
    return r

if __name__ == "__main__":
    import json
    for n in sys.argv[1:] or list(UNITS) + list(LEAN) + list(STATIC):
        r = run_unit(n, jobs=8)
        print(n, r["status"], r["obligations"], r["discharged"], r["by"], r.get("wall_s"), r.get("why", ""), r.get("smoke"))
        for f in r["failed"]: print("   ", f["obligation"], f["line"])

"""Sends obligations to the SMT solvers (z3 5.3 first, then cvc5, then z3 with other settings), in parallel."""
import subprocess, os, tempfile, time, z3, shutil
from concurrent.futures import ThreadPoolExecutor

Z3 = os.environ.get("DV_Z3", "z3-new")
CVC5 = os.environ.get("DV_CVC5", "cvc5")
JOBS = int(os.environ.get("DV_JOBS", "8"))

def to_smt(th, ob, negate=True, instances=True):
    s = z3.Solver()
    for a in th.axioms(): s.add(a)
    for h in ob.hyps: s.add(h)
    if instances:
        for a in th.schema_instances(ob): s.add(a)
    s.add(z3.Not(ob.goal) if negate else ob.goal)
    return "(set-logic ALL)\n" + s.to_smt2()

def run_solver(cmd, text, timeout):
    t = time.time()
    try:
        p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "error"
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out, time.time() - t

STRATEGIES = [
    ("z3", lambda T: [Z3, "-in", "-T:%d" % T, "auto_config=false", "smt.mbqi=false", "smt.relevancy=0"]),
    ("z3-mbqi", lambda T: [Z3, "-in", "-T:%d" % T]),
    ("cvc5", lambda T: [CVC5, "--lang", "smt2", "--tlimit=%d" % (T*1000)]),
]
def solve(text, quick=3, full=20, strategies=None):
    tot = 0.0; log = []
    for T in (quick, full):
        for name, cmd in (strategies or STRATEGIES):
            r, dt = run_solver(cmd(T), text, T); tot += dt
            log.append((name, T, r, round(dt, 2)))
            if r == "unsat": return "proved", name, tot, log
            if r == "sat" and name != "z3": return "refuted", name, tot, log
        if full <= quick: break
    return "unknown", None, tot, log

def discharge(th, obls, quick=3, full=20, jobs=JOBS, stop_on_fail=False):
    texts = []
    cache = {}
    for ob in obls:
        if z3.is_true(z3.simplify(ob.goal)):
            ob.status, ob.solver, ob.time = "proved", "simplifier", 0.0
        texts.append(None)
    def one(i):
        ob = obls[i]
        if ob.status: return
        ob.status, ob.solver, ob.time, ob.model = solve(texts[i], quick, full)
    for i, ob in enumerate(obls):
        if not ob.status:
            texts[i] = to_smt(th, ob)
            if texts[i] in cache: cache[texts[i]].append(i)
            else: cache[texts[i]] = [i]
    todo = [v[0] for v in cache.values()]
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, todo))
    for v in cache.values():
        for j in v[1:]:
            a, b = obls[v[0]], obls[j]
            b.status, b.solver, b.time, b.model = a.status, a.solver, 0.0, a.model
    return obls

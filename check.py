#!/usr/bin/env python3
"""check.py <property>: proofs of the contracts of the functions the property depends on, generated from /repo's
current sources, plus a labelled bounded stand-in / replay search on the real binary.  Exit 0 or 1 (VIOLATION line)."""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if sys.prefix != "/opt/veriftools/pyvenv" and os.path.exists(VT) and not os.environ.get("DV_INNER"):
    os.environ["DV_INNER"] = "1"; os.execv(VT, [VT, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path[:0] = [HERE + "/dv", HERE + "/rp", HERE]
import json, time, random, tempfile, shutil, traceback, multiprocessing as mp, signal
import properties_map as PM

def work_probe(arg):
    pid, binary, scratch, seed, deadline, stop_first = arg
    import probes
    from cli import Slugs
    rng = random.Random(seed); ctx = probes.Ctx(Slugs(binary, scratch), rng); fails = []
    ps = probes.PROBES[pid]; kinds = set()
    k = 0
    while time.time() < deadline:
        f = rng.choices([p[0] for p in ps], [p[2] for p in ps])[0]; k += 1
        if k <= len(ps): f = ps[(seed + k) % len(ps)][0]
        try: f(ctx)
        except probes.Failure as e:
            fails.append(e.d)
            if e.d["kind"] not in kinds: kinds.add(e.d["kind"])
            if len(fails) >= 40: break
        except Exception as e:
            fails.append({"kind": "probe-error", "what": traceback.format_exc()[-1500:]})
            if len(fails) >= 40: break
    return {"n": ctx.n, "nontrivial": ctx.nontrivial, "samples": ctx.samples, "counts": ctx.counts, "fails": fails}

def work_unit(arg):
    name, jobs = arg
    import units
    def gate():
        with EV["waiting"].get_lock(): EV["waiting"].value += 1
        EV["decided"].wait(); return not EV["found"].is_set()
    try: return units.run_unit(name, jobs=jobs, gate=gate)
    except Exception as e: return {"unit": name, "status": "unsupported", "why": traceback.format_exc()[-800:], "obligations": 0, "discharged": 0, "failed": [], "functions": [], "assumes": [], "says": "", "by": {}}

EV = {}
def known(pid):
    out = []
    for l in open(HERE + "/known_findings.txt"):
        l = l.strip()
        if l.startswith("KNOWN: property=%s " % pid):
            d = l.split(" | "); out.append({"kind": d[0].split("kind=", 1)[1], "what": d[1]})
    return out

def main():
    pid = sys.argv[1]; t0 = time.time()
    if pid == "--setup":
        for tool in ("clang++", "z3-new", "cvc5", "g++"): assert shutil.which(tool), tool
        print("ready"); return
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PM.MAP[pid]; cores = min(8, os.cpu_count() or 4)
    budget = cfg.get("quick_s", 30) if tier == "quick" else cfg.get("thorough_s", 420)
    scratch = tempfile.mkdtemp(prefix="dv_%s_" % pid)
    os.environ["TMPDIR"] = scratch; tempfile.tempdir = scratch
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    rc = 1
    try: rc = run(pid, cfg, tier, seed, budget, cores, scratch, t0)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def run(pid, cfg, tier, seed, budget, cores, scratch, t0):
    import build
    unit_names = list(cfg.get("units", []))
    ctx = mp.get_context("fork")
    EV.update(waiting=ctx.Value("i", 0), decided=ctx.Event(), found=ctx.Event())
    pool = ctx.Pool(max(1, len(unit_names))) if unit_names else None
    ures = [pool.apply_async(work_unit, ((u, max(2, cores // max(1, len(unit_names)))),)) for u in unit_names]
    binary = None; builderr = None
    if cfg.get("probe", True):
        try: binary = build.build(scratch, jobs=cores, harness=cfg.get("harness"))
        except build.BuildError as e: builderr = str(e)
    while sum(u.ready() for u in ures) + EV["waiting"].value < len(ures): time.sleep(0.1)      # (the others wait for the search)
    tot = {"n": 0, "nontrivial": set(), "samples": [], "counts": {}, "fails": []}
    rules = []
    def search(secs, sd):
        import probes
        rules[:] = [p[1] for p in probes.PROBES[pid]]
        dl = time.time() + secs
        with ctx.Pool(cores) as p:
            res = p.map(work_probe, [(pid, binary, scratch, sd * 1000 + i, dl, True) for i in range(cores)], chunksize=1)
        for r in res:
            tot["n"] += r["n"]; tot["nontrivial"] |= r["nontrivial"]; tot["samples"] += r["samples"]; tot["fails"] += r["fails"]
            for k, v in r["counts"].items(): tot["counts"][k] = tot["counts"].get(k, 0) + v
    kn = known(pid); kk = {k["kind"] for k in kn}
    if binary: search(budget, seed)
    if [f for f in tot["fails"] if f["kind"] not in kk and f["kind"] != "probe-error"]: EV["found"].set()
    EV["decided"].set()
    units = [u.get() for u in ures]
    if pool: pool.close()
    failed = [f for u in units for f in u["failed"]]
    vac = [u for u in units if u["status"] == "vacuous"]
    unsup = [u for u in units if u["status"] == "unsupported"]
    if binary:
        if (failed or unsup or vac) and not [f for f in tot["fails"] if f["kind"] not in kk]: search(cfg.get("extra_s", 90), seed + 7919)
    new = [f for f in tot["fails"] if f["kind"] not in kk]
    real = [f for f in new if f["kind"] != "probe-error"]
    hit = {f["kind"] for f in tot["fails"]} & kk
    rc = 0; viol = 0
    def replay(data):
        p = HERE + "/evidence/replay/%s.json" % pid
        with open(p, "w") as f: json.dump(data, f, indent=1, default=str)
        return p
    obs = [{"unit": u["unit"], **f} for u in units for f in u["failed"]]
    for k in kn: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if real:
        b = min(real, key=lambda f: len(str(f.get("input", ""))))
        p = replay({"property": pid, "failing_input": b, "others": sorted({f["kind"] for f in real}), "failed_obligations": obs})
        print("%s: %s (%s)" % (pid, b["what"], b["kind"]))
        print("VIOLATION property=%s replay=%s" % (pid, p)); rc = 1; viol = len(real)
    elif failed:
        p = replay({"property": pid, "failed_obligations": obs, "searched": tot["n"]})
        print("%s: obligation not discharged: %s (%s line %s)" % (pid, failed[0]["obligation"], failed[0]["function"], failed[0]["line"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p)); rc = 1; viol = len(failed)
    elif builderr:
        print("%s: /repo does not compile: %s" % (pid, builderr[:1500])); 
        p = replay({"property": pid, "build_error": builderr}); print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p)); rc = 1; viol = 1
    elif new:
        print("%s: internal error of the check: %s" % (pid, new[0]["what"])); rc = 3
    elif vac:
        print("%s: vacuous proof: %s" % (pid, vac[0]["why"])); rc = 3
    nob = sum(u["obligations"] for u in units); nd = sum(u["discharged"] for u in units)
    by = {}
    for u in units:
        for k, v in u.get("by", {}).items(): by[k] = by.get(k, 0) + v
    ass = sorted({a for u in units for a in u.get("assumes", [])} | set(PM.COMMON_ASSUMPTIONS) | set(cfg.get("assumes", [])))
    level = cfg.get("level", "proof")
    if level == "proof" and (unsup or not units): level = "exploration"
    cov = {"obligations": nob, "discharged": nd, "checker_cmd": "./check.py %s" % pid, "trusted_base": PM.TRUSTED,
           "functions_under_contract": sorted({f for u in units for f in u["functions"]}), "by_backend": by, "solver_s": round(sum(u.get("solver_s", 0) for u in units), 1),
           "units": [{k: u.get(k) for k in ("unit", "status", "says", "obligations", "discharged", "by", "why", "smoke", "dropped", "wall_s", "names")} for u in units],
           "failed_obligations": obs[:10], "not_extracted": [{"unit": u["unit"], "why": u.get("why")} for u in unsup],
           "bounded_stand_in": {"label": "bounded: not counted as proved", "evaluations": tot["n"], "distinct_nontrivial": len(tot["nontrivial"]), "rule": "; ".join(rules), "by_kind": tot["counts"], "samples": tot["samples"][:3], "covers": cfg.get("bounded", "")},
           "evaluations": tot["n"], "distinct_nontrivial": len(tot["nontrivial"]), "rule": "; ".join(rules), "samples": tot["samples"][:3] or ["none"], "known_findings_seen": sorted(hit)}
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 1), "violations": viol}, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged %s, %d units (%d not extracted), bounded search %d cases (%d non-trivial), %.0f s" % (pid, nd, nob, by, len(units), len(unsup), tot["n"], len(tot["nontrivial"]), time.time() - t0))
    return rc
if __name__ == "__main__": main()

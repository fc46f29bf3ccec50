#!/usr/bin/env python3-vt
"""mkseed.py <seed.py>: makes /verif/seeded/<id>/ from a description (edits + property); finds a demonstration by
running the property's oracle on a build with the edits.  Not used by any check."""
import sys, os, json, shutil, subprocess, tempfile, random, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/rp"]
def scratch_repo():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True); return d
def apply(d, edits):
    for f, old, new in edits:
        p = d + "/repo/" + f; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
def diff(d): return subprocess.run(["git", "-C", d + "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
def binary(d):
    import build; build.REPO = d + "/repo"; b = tempfile.mkdtemp(prefix="seedb_", dir=d); return build.build(b)
def find(binp, d, prop, secs=60, want=None, minlen=True):
    import multiprocessing as mp
    with mp.get_context("fork").Pool(8) as p: res = p.map(_find, [(binp, d, prop, i, secs, want) for i in range(8)])
    res = [x for r in res for x in r]
    return sorted(res, key=lambda x: len(str(x.get("input", ""))))
def bool_expected(x): return isinstance(x.get("expected"), bool)
def _find(a):
    binp, d, prop, seed, secs, want = a
    import probes; from cli import Slugs
    rng = random.Random(seed + 4242); ctx = probes.Ctx(Slugs(binp, d), rng); out = []; t = time.time(); ps = probes.PROBES[prop]
    while time.time() - t < secs and len(out) < 10:
        f = rng.choices([p[0] for p in ps], [p[2] for p in ps])[0]
        try: f(ctx)
        except probes.Failure as e:
            if want is None or want(e.d): out.append(e.d)
        except Exception: pass
    return out
VERDICT_DEMO = '''#!/bin/bash
# exit 0 iff the verdict is the one the game semantics prescribes
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$(pwd)"; cd "$T"
timeout 120 "$R/src/slugs" %s "$D/case.slugsin" %s > out.txt 2> err.txt || { echo "slugs failed"; cat err.txt; exit 1; }
grep -q "RESULT: Specification is %s\\." err.txt || { echo "wrong verdict, expected: %s"; cat err.txt; exit 1; }
exit 0
'''
def seed(sid, prop, edits, needs, breaks, demo=None, files=(), opts_filter=None, secs=40):
    d = scratch_repo(); out = HERE + "/seeded/" + sid
    try:
        apply(d, edits); df = diff(d)
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", "-"], input=df, text=True); assert r.returncode == 0
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(df)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        if demo is None:
            b = binary(d)
            c = find(b, d, prop, secs, want=bool_expected)
            print(sid, "failing cases", len(c))
            if not c: print("  NO DEMO FOUND"); return False
            c = c[0]; open(out + "/case.slugsin", "w").write(c["input"])
            word = "realizable" if c["expected"] else "unrealizable"
            demo = VERDICT_DEMO % (" ".join(c["opts"]), "strategy.out" if any("Strategy" in o and "counter" not in o for o in c["opts"]) else "", word, word)
        open(out + "/demo.sh", "w").write(demo); os.chmod(out + "/demo.sh", 0o755)
        for n, t in files: open(out + "/" + n, "w").write(t)
        return True
    finally: shutil.rmtree(d)

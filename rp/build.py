"""Builds slugs from /repo's current working tree in a scratch directory (nothing is written below /repo)."""
import os, subprocess, glob, shutil, hashlib, tempfile
REPO = os.environ.get("DV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
DEFS = "-DUSE_CUDD -DNDEBUG -mtune=native -DHAVE_IEEE_754 -DBSD -DSIZEOF_VOID_P=8 -DSIZEOF_LONG=8 -DCUDD_COMPILER_OPTIONS_SET".split()

class BuildError(Exception): pass

def includes(extra=()):
    C = REPO + "/lib/cudd-3.0.0"
    r = list(extra) + ["-I%s/src" % REPO, "-I" + C]
    r += ["-I%s/%s" % (C, d) for d in ("cudd", "mtr", "epd", "st", "util", "dddmp")]
    return r + ["-I%s/src/BFAbstractionLibrary" % REPO]

def config_dir(scratch):
    """config.h is generated by CUDD's configure; a copy made from the pinned commit stands in when it is absent"""
    if os.path.exists(REPO + "/lib/cudd-3.0.0/config.h"): return []
    d = scratch + "/cfg"; os.makedirs(d, exist_ok=True)
    shutil.copy(HERE + "/cudd_config.h", d + "/config.h")
    return ["-I" + d]

def sources():
    C = REPO + "/lib/cudd-3.0.0"
    s = [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(glob.glob(REPO + "/src/BFAbstractionLibrary/*.cpp"))]
    for d in ("cudd", "mtr", "epd", "st", "util", "dddmp"):
        for f in sorted(glob.glob("%s/%s/*.c" % (C, d))):
            b = os.path.basename(f)
            if b in ("testcudd.c", "testextra.c", "testmtr.c", "testst.c", "testdddmp.c", "cpu_stats.c"): continue
            s.append(f)
    return s

def build(scratch, jobs=8, extra_flags=(), harness=None):
    """compiles and links; returns the path of the binary (harness: a driver of rp/harness instead of src/main.cpp)"""
    out = scratch + ("/" + harness[:-4] if harness else "/slugs")
    ob = scratch + "/ob"; os.makedirs(ob, exist_ok=True)
    inc = includes(config_dir(scratch))
    from concurrent.futures import ThreadPoolExecutor
    objs = []
    def one(f):
        o = ob + "/" + f.replace("/", "_") + ".o"
        if f.endswith(".cpp"):
            opt = "-O0" if os.path.basename(f) == "main.cpp" else "-O1"
            cmd = ["g++", "-std=c++11", "-pipe", "-w", opt, "-fPIC"]
        else: cmd = ["gcc", "-w", "-pipe", "-O1", "-fPIC"]
        p = subprocess.run(cmd + list(extra_flags) + DEFS + inc + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o, p.returncode, p.stdout
    src = sources() + [HERE + "/wrap_init.c"]
    if harness: src = [f for f in src if not f.endswith("/src/main.cpp")] + [HERE + "/harness/" + harness]
    src.sort(key=lambda f: (0 if f.endswith("main.cpp") else 1, f))
    with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(one, src))
    for o, rc, txt in res:
        if rc: raise BuildError(txt[:2000])
    p = subprocess.run(["g++", "-Wl,--wrap=Cudd_Init", "-o", out] + [r[0] for r in res], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(p.stdout[:2000])
    shutil.rmtree(ob)
    return out

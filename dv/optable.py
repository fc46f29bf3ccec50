"""Unit options:table (C22): the option table of src/main.cpp, read from the LLVM IR that clang emits for the current source.

The table is data, so its contract is decided by evaluating it completely (139 entries, no bound): for every set of options
the first matching entry of the table constructs exactly the class that rp/options.py composes for that set, and sets that
are not permitted have no entry."""
import re, subprocess, os, sys, time, tempfile
from astload import REPO, ExtractionError, flags
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rp"))
import options
def norm(c): return re.sub(r"\s+", "", c)
def cstr(s): return re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode("latin1")).decode("latin1")
def demangle(syms):
    p = subprocess.run(["c++filt"], input="\n".join(syms) + "\n", stdout=subprocess.PIPE, text=True); return dict(zip(syms, p.stdout.split("\n")))
def load():
    d = tempfile.mkdtemp(prefix="dvll"); f = os.path.join(d, "main.ll")
    p = subprocess.run(["clang++", "-w", "-S", "-emit-llvm", "-O0", "-o", f] + flags() + [os.path.join(REPO, "src/main.cpp")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise ExtractionError("clang: " + p.stderr[:400])
    t = open(f).read(); os.unlink(f); os.rmdir(d); return t
def functions(t):
    r = {}
    for m in re.finditer(r"^define [^\n]*?@([\w.$]+)\(.*?^}", t, re.M | re.S): r[m.group(1)] = m.group(0)
    return r
def obligations():
    """[(name, holds, detail)]"""
    t = load(); strs = {m.group(1): cstr(m.group(2)) for m in re.finditer(r'^@([\w.]+) = private unnamed_addr constant \[\d+ x i8\] c"(.*?)\\00"', t, re.M)}
    for m in re.finditer(r"^@([\w.]+) = private unnamed_addr constant \[1 x i8\] zeroinitializer", t, re.M): strs[m.group(1)] = ""
    m = re.search(r"^@commandLineArguments = .*?\[(\d+) x ptr\] \[(.*?)\]", t, re.M)
    if not m: raise ExtractionError("commandLineArguments not found")
    args = [strs[x] for x in re.findall(r"ptr @([\w.]+)", m.group(2))]
    if len(args) != int(m.group(1)): raise ExtractionError("commandLineArguments not constant")
    ob = [("the known options are exactly the documented ones", sorted(args[0::2]) == sorted("--" + x for x in options.ALL), str(sorted(set(args[0::2]) ^ {"--" + x for x in options.ALL})))]
    fs = functions(t); tab = []
    m = re.search(r"^@optionCombinations = [^\n]*\[(\d+) x %struct.OptionCombination\]", t, re.M)
    if not m: raise ExtractionError("optionCombinations not found")
    n = int(m.group(1)); init = [b for k, b in fs.items() if k.startswith("__cxx_global_var_init") and "@optionCombinations" in b]
    if len(init) != 1: raise ExtractionError("initialisation of optionCombinations")
    cur = None
    for line in init[0].split("\n"):
        c = re.search(r"@_ZN17OptionCombinationC[12]\w*\(ptr [^@]*@optionCombinations|@_ZN17OptionCombinationC[12]\w*\(ptr [^@]*getelementptr[^@]*@optionCombinations, i64 (\d+)\)", line)
        if c and "OptionCombinationC" in line:
            g = re.search(r"getelementptr[^@]*@optionCombinations, i64 (\d+)", line); k = int(g.group(1)) if g else 0
            f = re.search(r"ptr noundef @([\w$]+)\)", line)
            if k != len(tab) or cur is None or not f: raise ExtractionError("unexpected table initialisation")
            tab.append((cur, f.group(1))); cur = None; continue
        s = re.search(r"basic_string\w*\(.*ptr noundef @([\w.]+),", line)
        if s and s.group(1) in strs: cur = strs[s.group(1)]
    if len(tab) != n: raise ExtractionError("table of %d entries, %d read" % (n, len(tab)))
    dm = demangle(sorted({x for f in fs.values() if "makeInstance" in f.split("(", 1)[0] for x in re.findall(r"@(_ZN[\w$]+)", f)} | {f for _, f in tab}))
    def cls(sym, member):
        k = re.match(r"^(.*)::%s\(" % member, dm.get(sym, "")); return norm(k.group(1)) if k else None
    def constructed(sym):
        b = fs.get(sym)
        if b is None: raise ExtractionError("no body for " + dm[sym])
        ctor = [x for x in re.findall(r"(?:call|invoke) void @(_ZN[\w$]+)\(", b) if re.search(r"C[12]E", x)]
        new = re.findall(r"(%\d+) = (?:call|invoke) [^\n]*@_Znwm", b); ret = re.findall(r"^\s*ret ptr (%\d+)", b, re.M)
        if len(ctor) != 1 or len(new) != 1 or ret != new: raise ExtractionError("makeInstance is not `return new T(..)`: " + dm[sym])
        d = dm[ctor[0]]; depth = 0; cut = d.index("("); k = d[:cut]
        for i in range(len(k) - 1, -1, -1):
            if k[i] == ">": depth += 1
            elif k[i] == "<": depth -= 1
            elif depth == 0 and k[i-1:i+1] == "::": return norm(k[:i-1])
    seen = {}
    for p, f in tab:
        if p in seen: continue                                          # (the first match is taken)
        seen[p] = f; o = [x[2:] if x.startswith("--") else "?" + x for x in p.split(" ")] if p else []
        if o != sorted(set(o)): continue                                # (never equals a sorted list without repetitions)
        want = options.compose(o); c = constructed(f)
        ob.append(("entry '%s' stands for a permitted combination and constructs its composition" % p, want is not None and c == norm(want), "constructs %s, expected %s" % (c, want)))
    for o in options.permitted():
        k = " ".join("--" + x for x in sorted(o)); ob.append(("the permitted combination '%s' has an entry" % k, k in seen, "missing"))
    return ob
def run():
    t0 = time.time()
    r = {"unit": "options:table", "says": "every set of options has an entry in the table exactly if it is permitted, and the entry constructs the class composed of exactly those options", "assumes": [], "functions": ["optionCombinations", "commandLineArguments", "makeInstance (all instantiations in the table)"], "obligations": 0, "discharged": 0, "by": {}, "failed": [], "status": "ok", "solver_s": 0.0, "names": []}
    try: ob = obligations()
    except (ExtractionError, KeyError, ValueError, IndexError, OSError) as e: r["status"] = "unsupported"; r["why"] = str(e)[:300]; return r
    r["obligations"] = len(ob); r["discharged"] = sum(1 for o in ob if o[1]); r["by"] = {"evaluation of the complete table": r["discharged"]}; r["names"] = [o[0] for o in ob][:60]
    r["failed"] = [{"obligation": n, "kind": "table", "function": "optionCombinations", "line": None, "solver": d, "goal": n} for n, g, d in ob if not g]
    if r["failed"]: r["status"] = "failed"
    r["wall_s"] = r["solver_s"] = round(time.time() - t0, 1)
    return r
if __name__ == "__main__":
    r = run(); print(r["status"], r.get("why"), r["obligations"], r["discharged"], r["failed"][:3], r.get("wall_s"))

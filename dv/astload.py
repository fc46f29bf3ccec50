"""Loads the clang AST of the real code of /repo (current working tree).

The AST is produced by clang 18 on every run from the sources in /repo with the flags of src/Makefile
(-std=c++11 -DUSE_CUDD -DNDEBUG and its include path).  A translation unit is either one of the
repository's own .cpp/.c files, or a generated two-line file that includes one of the repository's headers
and explicitly instantiates one of the classes that src/main.cpp instantiates.  What is dropped: `assert`
(the build itself defines NDEBUG), comments, and diagnostics output (see DESIGN.md).
"""
import json, os, subprocess, hashlib, sys, tempfile, threading
sys.setrecursionlimit(200000)
REPO = os.environ.get("DV_REPO", "/repo")
CUDD = "lib/cudd-3.0.0"
INC = ["src", CUDD, CUDD+"/cudd", CUDD+"/mtr", CUDD+"/epd", CUDD+"/st", CUDD+"/util", CUDD+"/dddmp", "src/BFAbstractionLibrary"]

class ExtractionError(Exception):
    """the source left the subset the extractor understands (never reported as a violation by itself)"""

def flags(cxx=True):
    f = ["-I"+os.path.join(REPO, i) for i in INC] + ["-DUSE_CUDD", "-DNDEBUG", "-DHAVE_CONFIG_H", "-DSIZEOF_VOID_P=8", "-DSIZEOF_LONG=8"]
    return (["-std=c++11"] if cxx else ["-std=gnu11"]) + f

_cache = {}
_lock = threading.Lock()
class TU:
    """one translation unit: either a path below the repository or the text of a generated driver"""
    def __init__(self, path=None, text=None):
        self.path, self.text = path, text
        self.tmp = None
        self.mem = {}
        if text is not None:
            d = tempfile.mkdtemp(prefix="dvtu")
            self.tmp = os.path.join(d, "driver.cpp")
            open(self.tmp, "w").write(text)
    def file(self):
        return self.tmp or os.path.join(REPO, self.path)
    def close(self):
        if self.tmp:
            os.unlink(self.tmp); os.rmdir(os.path.dirname(self.tmp)); self.tmp = None
    def load(self, filt):
        if filt in self.mem: return self.mem[filt]
        cxx = not self.file().endswith(".c")
        cmd = [("clang++" if cxx else "clang"), "-fsyntax-only", "-w"] + flags(cxx) + \
              ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter="+filt, self.file()]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        if p.returncode != 0:
            raise ExtractionError("clang failed on %s: %s" % (self.path or self.text, p.stderr[:2000]))
        dec = json.JSONDecoder(); s = p.stdout; i = 0; out = []; n = len(s)
        while True:
            while i < n and s[i].isspace(): i += 1
            if i >= n: break
            obj, i = dec.raw_decode(s, i)
            out.append(obj)
        self.mem[filt] = out
        return out

def kids(n): return [c for c in (n.get("inner") or []) if isinstance(c, dict)]
def walk(n):
    yield n
    for c in kids(n): yield from walk(c)
def body(n):
    for c in kids(n):
        if c.get("kind") == "CompoundStmt": return c
    return None
def has_body(n): return body(n) is not None
def params(n): return [c for c in kids(n) if c.get("kind") == "ParmVarDecl"]
def qt(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""

def brief(n, d=0, out=None):
    """indented dump for debugging"""
    if out is None: out = []
    if n.get("kind") == "FullComment": return out
    s = "  "*d + n.get("kind", "-")
    for k in ("name", "opcode", "value", "castKind"):
        if k in n: s += " %s=%s" % (k, n[k])
    if "type" in n: s += "  :" + n["type"].get("qualType", "")
    if "referencedDecl" in n: s += " -> " + n["referencedDecl"].get("name", "?")
    out.append(s)
    for c in kids(n): brief(c, d+1, out)
    return out

"""Reference reading of the slugs input format (written from its documentation), as tables; Reject for malformed input."""
import numpy as np, re
from spec import *
class Reject(Exception): pass
class Grey(Exception): pass      # the documentation does not say
WS = " \t\n\v\f\r"
SECT = ["INPUT", "OUTPUT", "ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]
ALLOWED = {"ENV_INIT": {(True, False)}, "SYS_INIT": {(True, False), (False, False)}, "ENV_TRANS": {(True, False), (False, False), (True, True)},
           "SYS_TRANS": {(a, b) for a in (True, False) for b in (True, False)}, "ENV_LIVENESS": {(a, b) for a in (True, False) for b in (True, False)}, "SYS_LIVENESS": {(a, b) for a in (True, False) for b in (True, False)}}
def tokens(line): return [t for t in re.split("[ \t\n\v\f\r]+", line) if t]
def number(t):
    if re.fullmatch(r"[0-9]{1,9}", t): return int(t)
    if re.match(r"[0-9+-]", t): raise Grey(t)
    raise Reject("number expected")
def read_formula(line, known, sec):
    """formula tree; memory references are resolved by sharing the trees"""
    toks = tokens(line); p = [0]
    def rec(mem):
        if p[0] >= len(toks): raise Reject("premature end")
        t = toks[p[0]]; p[0] += 1
        if t in "|&^" and len(t) == 1:
            a = rec(mem); b = rec(mem); return (t, a, b)
        if t == "!": return ("!", rec(mem))
        if t == "1": return True
        if t == "0": return False
        if t == "$":
            if p[0] >= len(toks): raise Reject("number")
            n = number(toks[p[0]]); p[0] += 1
            if n == 0: raise Reject("empty buffer")
            new = []
            for _ in range(n): new.append(rec(new))
            return new[-1]
        if t == "?":
            if p[0] >= len(toks): raise Reject("number")
            n = number(toks[p[0]]); p[0] += 1
            if mem is None or n >= len(mem): raise Reject("not stored yet")
            return mem[n]
        if t not in known: raise Reject("unknown variable")
        if known[t][1:] not in ALLOWED[sec]: raise Reject("variable not allowed here")
        n, isin, primed = known[t]; return ("v", n, primed)
    f = rec(None)
    if p[0] != len(toks): raise Reject("stray characters")
    return f
def read(text):
    """-> Spec"""
    if isinstance(text, bytes): text = text.decode("latin1")
    s = Spec([], []); known = {}; mode = None; names = []
    for line in text.split("\n"):
        line = line.strip(WS)
        if not line or line[0] == "#": continue
        if line[0] == "[":
            if not (line[-1] == "]" and line[1:-1] in SECT): raise Reject("section")
            mode = line[1:-1]; continue
        if mode is None: raise Reject("no section")
        if mode in ("INPUT", "OUTPUT"):
            (s.inputs if mode == "INPUT" else s.outputs).append(line); names += [line, line + "'"]
            for pr in (False, True): known.setdefault(line + ("'" if pr else ""), (line, mode == "INPUT", pr))
        else: s.sec[mode].append(read_formula(line, known, mode))
    if len(set(names)) != len(names): raise Reject("name twice")
    return s

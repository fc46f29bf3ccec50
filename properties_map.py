"""Which proof units and which bounded stand-ins decide which property."""
TRUSTED = ["clang 18 (AST of the real sources)", "dv/ (verification-condition generator of this framework: sym.py, theory.py, gr1.py)", "z3 5.3, cvc5 1.1.2", "CUDD (library below class BFBdd)"]
COMMON_ASSUMPTIONS = ["CUDD computes the Boolean operations (bounded: exercised by every replay run)", "the C++ compiler; memory exhaustion does not occur", "diagnostic output to std::cerr / BF_newDumpDot has no effect on the results"]
N = "Unbounded: every obligation generated from the current sources of the functions named in the evidence is discharged. Trusted: clang AST, VC generator, z3/cvc5, contracts of the BF layer (CUDD), contract of the parser (proved: C09). "
NA = {}
B = "Bounded stand-in (not counted as proved): random games run through the real binary, see evidence. "
MAP = {
 "C01": {"units": ["lemmas:GR1", "win:GR1Context", "verdict:GR1Context"], "note": N + B, "bounded": "option parsing, parser and printing of the verdict"},
 "C02": {"units": ["lemmas:GR1", "win:GR1Context", "win:XFixedPointRecycling", "win:XBiasForAction", "verdict:GR1Context", "verdict:XRoboticsSemantics"], "note": N + B, "bounded": "composition of the option classes by main.cpp"},
 "C03": {"units": ["lemmas:GR1", "win:GR1Context", "verdict:XRoboticsSemantics"], "note": N + B, "bounded": "option parsing, parser and printing of the verdict"},
 "C04": {"units": ["lemmas:GR1", "win:XCounterStrategy", "verdict:XCounterStrategy", "verdict:XCounterStrategy-robotics"], "note": N + B, "bounded": "option parsing, parser and printing of the verdict"},
 "C05": {"units": ["lemmas:GR1", "dump:GR1Context", "dump:XBiasForAction"], "note": N + B, "bounded": "construction of the automaton from the certificate (positional choice, goal counter, breadth-first numbering, printing)"},
 "C06": {"units": ["lemmas:GR1", "dump:GR1Context", "dump:XFixedPointRecycling"], "note": N + B, "bounded": "union of the certificate into one relation, counter encoding, dddmp file"},
 "C07": {"units": ["lemmas:GR1", "win:XCounterStrategy"], "note": N + B, "bounded": "certificate of the counterstrategy and printing of the automaton"},
 "C08": {"units": ["lemmas:GR1", "dump:GR1Context"], "note": N + B, "bounded": "construction and printing of the automaton"},
 "C09": {"units": ["parse:formula", "parse:line", "parse:file:GR1Context"], "note": N + B, "bounded": "the standard library's streams and string functions (their behaviour enters the proofs as contracts), error texts, the parsers of the other modes (fast/slow: C14, assumption analysis: C18)"},
 "C10": {"units": ["compiler:translate"], "note": N + B, "bounded": "tokenizer, LR parser, tree cleaning, section handling, rejection of everything else"},
 "C12": {"units": ["cnf:execute", "choice:determinize"], "note": N + B, "bounded": "the parser, option parsing; termination"},
 "C13": {"units": [], "level": "exploration", "note": B, "bounded": "category sets, counts, minterm enumeration, printing"},
 "C14": {"units": ["lemmas:GR1", "win:XIROSFS", "verdict:XIROSFS", "parse:file:XIROSFS"], "note": N + B, "bounded": "option parsing, printing of the verdict"},
 "C15": {"units": ["lemmas:GR1", "win:XInterleave", "verdict:XInterleave"], "note": N + B, "bounded": "the greedy choice of the outputs and printing"},
 "C16": {"units": ["lemmas:GR1", "dump:GR1Context"], "note": N + B, "bounded": "construction of the automaton / relation with recovery transitions"},
 "C17": {"units": [], "level": "exploration", "note": B, "bounded": "weakening of the safety assumptions"},
 "C11": {"units": ["own:BFBdd", "own:BFBddVarCube", "own:BFBddVarVector", "own:BFBddManager"], "harness": "bf.cpp", "note": N + B, "bounded": "CUDD itself (its operations enter the proofs as contracts), counting, BDD files, histories of operations across garbage collections and reorderings"},
 "C21": {"units": ["choice:determinize", "choice:determinizeRandomized"], "harness": "choice.cpp", "quick_s": 6, "note": N + B, "bounded": "the same functions on concrete sets"},
 "C20": {"units": ["lemmas:Coop", "win:XCooperativeGR1Strategy", "verdict:GR1Context", "verdict:XRoboticsSemantics"], "note": N + B, "bounded": "the extracted strategies (certificate, construction of the automaton), option parsing and printing of the verdict"},
 "C19": {"units": [], "level": "exploration", "note": B, "bounded": "the interactive mode"},
 "C22": {"units": ["options:table"], "quick_s": 15, "note": "The option table is evaluated completely (no bound); " + B, "bounded": "main(), the parsers, the exit status of the modes"},
 "C18": {"units": ["lemmas:GR1", "win:XAnalyzeAssumptions", "parse:file:XAnalyzeAssumptions", "classify:execute"], "note": N + B, "bounded": "the details of the message about easier goals (goal numbers, most general strategy)"},
}
for _c in MAP.values(): _c.setdefault("quick_s", 18)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to maintain)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S='src/synthesisAlgorithm.cpp'
p("C01","Realizability verdict equals the GR(1) game semantics",
  "Run without options, the tool reports a specification as realizable exactly if for every input valuation allowed by the environment initialisation there is an output valuation allowed by the system initialisation such that the resulting position is won by the system in the GR(1) game (safety guarantees over pre/post variables, environment transitions restricted by the safety assumptions, every liveness assumption infinitely often implies every liveness guarantee infinitely often, liveness conditions being predicates over transitions). The verdict does not depend on the order or splitting of conjuncts, or on the internal variable order.",
  ["inputs","programs"],"all well-formed specifications: any number of input/output bits, safety constraints, liveness assumptions and guarantees (including none)",
  "The verdict is a triple nested fixed point over an arbitrary game graph; the suite checks about ten example specifications.",
  [S,"src/gr1context.hpp","src/synthesisContextBasics.cpp"],
  [("nested fixed point nu Z. and_j mu Y. or_i nu X",S+" GR1Context::computeWinningPositions"),("initial position quantification",S+" GR1Context::checkRealizability"),("fixed point detection by canonicity","src/gr1context.hpp BFFixedPoint")],
  [("winningPositions","set of positions won by the system","src/gr1context.hpp")],["stderr RESULT line"])
p("C02","Algorithmic options do not change the set of winning positions or the verdict",
  "The options that only change how the game is solved or which of several winning strategies is produced (recycling of innermost fixed points, bias for action, the formats of the output, simple recovery) leave the realizability verdict exactly as it is without that option.",
  ["inputs","configurations"],"all well-formed specifications, with each such option alone and in each permitted combination",
  "Recycled start values are only sound because of monotonicity arguments over all iterations; a wrong one shows only on games with several goals and several outer rounds.",
  ["src/extensionFixedPointRecycling.hpp","src/extensionBiasForAction.hpp",S,"src/extensionOptimisticRecovery.hpp"],
  [("start values bounded below by the true fixed point","src/extensionFixedPointRecycling.hpp computeWinningPositions"),("re-ordered inner fixed point","src/extensionBiasForAction.hpp computeWinningPositions")],None,["stderr RESULT line"])
p("C03","Robotics semantics quantifies over all admissible initial positions",
  "With the robotics initialisation semantics the tool reports realizable exactly if every position allowed jointly by the environment and the system initialisation constraints is won by the system in the GR(1) game (so a specification without any admissible initial position is realizable). The set of won positions is the same as under the standard semantics.",
  ["inputs","configurations"],"all well-formed specifications, with and without the options it may be combined with",
  "Only sampled specifications are run; the difference between the two quantifications shows only when initialisation constraints interact with the winning region.",
  ["src/extensionRoboticsSemantics.hpp",S],[("checkRealizability override","src/extensionRoboticsSemantics.hpp")],None,["stderr RESULT line"])
p("C04","Counterstrategy mode computes the exact dual game",
  "When asked for a counterstrategy the tool solves the game for the environment: its verdict is realizable exactly when the default mode (with the same initialisation semantics) says realizable, and unrealizable otherwise; the set of positions it finds won by the environment is exactly the complement of the set won by the system.",
  ["inputs","configurations"],"all well-formed specifications, standard and robotics initialisation semantics",
  "Determinacy relates two separately coded nested fixed points on every game; the suite compares neither.",
  ["src/extensionCounterstrategy.hpp","src/extensionExtractExplicitCounterstrategy.hpp"],
  [("dual nested fixed point mu Z. or_j nu Y. and_i mu X","src/extensionCounterstrategy.hpp computeWinningPositions"),("dual initial condition","src/extensionCounterstrategy.hpp checkRealizability")],None,["stderr RESULT line"])
p("C05","Extracted explicit strategies are complete, safe and winning",
  "For a realizable specification the explicit strategy written (text or JSON) starts in every initial situation the chosen semantics requires (one admissible initial position per admissible initial input, or every admissible initial position under robotics semantics), has for every state and every next input allowed by the safety assumptions exactly one successor state that carries this input and satisfies the safety guarantees, and refers only to states that are listed. Every infinite run of it that satisfies all liveness assumptions infinitely often satisfies all liveness guarantees infinitely often. Nothing is written as a strategy for an unrealizable specification, and the text and JSON output describe the same automaton.",
  ["inputs","configurations"],"all well-formed realizable specifications, both formats, both initialisation semantics, with and without fixed-point recycling or bias for action",
  "Winning is a property of all infinite runs of the generated automaton; the suite only compares a few verdicts.",
  ["src/extensionExtractExplicitStrategy.hpp",S,"src/tools.cpp"],
  [("prioritised transitions recorded during the last outer iteration",S+" strategyDumpingData"),("positional strategy per goal and goal counter","src/extensionExtractExplicitStrategy.hpp computeAndPrintExplicitStateStrategy"),("single-valuation choice","src/tools.cpp determinize")],
  [("strategyDumpingData","(goal, set of preferred transitions) in decreasing priority","src/gr1context.hpp")],["strategy file / stdout"])
p("C06","Symbolic strategies encode a winning strategy from every winning position",
  "For a realizable specification the symbolic strategy written to the output file is a relation over current variables, next variables and a goal counter such that from every winning position, goal value and next input allowed by the safety assumptions at least one transition is allowed, every allowed transition satisfies the safety guarantees and stays in winning positions, the goal counter changes only when the current goal is reached, and every infinite run within the relation that satisfies all liveness assumptions infinitely often satisfies all guarantees infinitely often. Saving to and reloading from the file preserves the relation.",
  ["inputs","configurations"],"all well-formed realizable specifications, both symbolic output formats",
  "Soundness quantifies over all resolutions of the nondeterministic relation and all infinite runs.",
  ["src/extensionExtractSymbolicStrategy.hpp",S],
  [("goal-counter encoding and prioritised union","src/extensionExtractSymbolicStrategy.hpp computeAndPrintSymbolicStrategy")],None,["dddmp output file"])
p("C07","Explicit counterstrategies are winning for the environment",
  "For an unrealizable specification the explicit counterstrategy starts in the positions won by the environment that are allowed by both initialisation constraints, prescribes in every state at most one next input, allowed by the safety assumptions, and lists a successor for every output reaction permitted by the safety guarantees; a state without successors is one in which the prescribed input leaves the system no permitted reaction. Every infinite run satisfies all liveness assumptions infinitely often and some liveness guarantee only finitely often.",
  ["inputs","configurations"],"all well-formed unrealizable specifications, both initialisation semantics",
  "Winning for the environment quantifies over all system behaviours and infinite runs; only printed examples are inspected today.",
  ["src/extensionExtractExplicitCounterstrategy.hpp","src/extensionCounterstrategy.hpp"],
  [("prioritised transitions per guarantee and assumption","src/extensionCounterstrategy.hpp strategyDumpingData"),("state-by-state printing","src/extensionExtractExplicitCounterstrategy.hpp printExplicitStrategy")],None,["stdout"])
p("C08","Explicit permissive strategies never leave the winning region and never block",
  "For a realizable specification every state of the explicit permissive strategy is a winning position, and for every next input allowed by the safety assumptions it lists at least one successor; every listed successor satisfies the safety guarantees and leads to a listed state. Every admissible initial situation is covered.",
  ["inputs","configurations"],"all well-formed realizable specifications and both initialisation semantics",
  "The claim is for all states, inputs and specifications; the option is not covered by the suite.",
  ["src/extensionPermissiveExplicitStrategy.hpp"],[("permissive extraction","src/extensionPermissiveExplicitStrategy.hpp computePermissiveExplicitStateStrategy")],None,["stdout / output file"])
p("C09","Specification files are read with exactly the documented meaning, or rejected",
  "A specification in the slugs input format denotes exactly the Boolean functions given by its prefix formulas (negation, conjunction, disjunction, exclusive or, constants, variables, memory buffers with back references), the conjunction of all lines per initialisation and safety section, and one liveness property per line, with empty liveness sections standing for a trivially true property. Input that is malformed - unknown sections or variables, a variable not allowed in its section, missing or surplus operands, duplicate variable names, references to buffer entries that do not exist yet - is rejected with an error message and a failing exit status, never by a crash and never by silently reading something else.",
  ["inputs"],"all byte sequences given as input files",
  "The space of formulas and malformed files is unbounded and the suite feeds only well-formed examples.",
  ["src/synthesisContextBasics.cpp","src/variableManager.cpp"],
  [("recursive descent prefix parser","src/synthesisContextBasics.cpp GR1Context::parseBooleanFormulaRecurse"),("section handling","src/synthesisContextBasics.cpp GR1Context::init"),("whole-line check","src/synthesisContextBasics.cpp GR1Context::parseBooleanFormula")],None,["exit status","RESULT line"])
p("C10","The structured-specification compiler preserves the meaning of specifications",
  "The compiler from structured specifications to the slugs input format yields a specification whose constraints hold, for every valuation of the Boolean variables and every in-range value of the bounded integer variables (current and next step), exactly when the structured constraints hold under ordinary arithmetic and Boolean meaning; integer variables never take values outside their declared range, at the initial position or at any later step, and only the player who owns a variable is bound by its range. Whatever the compiler cannot translate (unknown sections, variables or operators, malformed lines and ranges) is rejected with an error; nothing is dropped silently.",
  ["inputs","programs"],"all structured specifications with Boolean and bounded integer variables, comparisons of sums of variables and constants, primed references and next operators, in all sections",
  "Arithmetic is encoded bit by bit for arbitrary ranges; the suite compiles a handful of files and compares verdicts only.",
  ["tools/StructuredSlugsParser/compiler.py"],
  [("binary encoding of ranges, comparisons and sums","tools/StructuredSlugsParser/compiler.py recurseCalculationSubformula, addMinimumValueToAllVariables, computeCalculationSubformula, parseSimpleFormula, performConversion")],None,["stdout slugsin text"])
p("C11","The Boolean-function layer is exact under every sequence of operations",
  "Every operation of the Boolean function layer (constants, conjunction, disjunction, negation, exclusive or, implication, existential and universal abstraction over cubes or single variables, simultaneous quantification, swapping variable vectors, equality and ordering tests, counting) returns exactly the function its name denotes, equal functions compare equal, and held functions never change their meaning - in whatever order operations, copies, assignments, destructions, garbage collections and variable reorderings happen. No reference count is lost or leaked.",
  ["inputs","histories"],"all Boolean functions over any number of variables and all histories of operations, copies and destructions",
  "Correctness depends on reference counts, computed-table hits and reordering across whole histories; unit tests run a few fixed ones.",
  ["src/BFAbstractionLibrary/BFCudd.h","src/BFAbstractionLibrary/BFCudd.cpp","src/BFAbstractionLibrary/BFCuddInlines.h","src/BFAbstractionLibrary/BFCuddManager.cpp","src/BFAbstractionLibrary/BFCuddVarCube.h","src/BFAbstractionLibrary/BFCuddVarVector.h","lib/cudd-3.0.0/cudd"],
  [("reference counting wrapper","src/BFAbstractionLibrary/BFCudd.h BFBdd"),("manager-level batch operations","src/BFAbstractionLibrary/BFCuddManager.cpp"),("recursive apply algorithms","lib/cudd-3.0.0/cudd/cuddBddIte.c, cuddBddAbs.c, cuddAndAbs.c")],
  [("node reference counts","number of live handles on a node","lib/cudd-3.0.0/cudd/cuddInt.h")],["any derived verdict"])
p("C12","The exported clause form is equivalent to the specification",
  "In the clause form the tool prints, every safety and initialisation line is a clause (a disjunction of literals), and the clauses together denote the same Boolean function as the safety guarantees, the safety assumptions and the joint initialisation constraints of the input; every liveness property keeps its position and is printed as a list of terms whose disjunction holds infinitely often in exactly the same runs (terms over next-step variables only may be written over current variables). All variables are declared with distinct numbers.",
  ["inputs"],"all well-formed specifications",
  "Equivalence must hold for all formulas; the option is not exercised by the suite.",
  ["src/extensionComputeCNFFormOfTheSpecification.hpp"],[("clause extraction","src/extensionComputeCNFFormOfTheSpecification.hpp execute")],None,["stdout"])
p("C13","Initial-position analysis reports exact counts and sound cubes",
  "The initial-position analysis prints for each category (winning or not, satisfying the initialisation assumptions and/or guarantees) exactly the number of positions within the declared variable limits (and, on request, within the reachable positions), lists as a cube only partial valuations all of whose admissible completions belong to the category, says that everything belongs to the category exactly if it does, and says that nothing does exactly if nothing does.",
  ["inputs","configurations"],"all well-formed specifications, with and without the restriction to reachable positions",
  "Cubes come from a shortest-path search over a decision diagram in a changing variable order; no test reads them.",
  ["src/extensionAnalyzeInitialPositions.hpp","src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"],
  [("minterm enumeration","src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"),("category sets and counts","src/extensionAnalyzeInitialPositions.hpp execute")],None,["stdout"])
p("C14","Fast/slow semantics follows the two-phase execution model",
  "In the fast/slow mode a specification is realizable exactly if the system wins the GR(1) game in which a transition must satisfy the safety guarantees and its intermediate position - new inputs and new fast outputs together with the old slow outputs - must be one that some transition permitted by the safety guarantees enters and some such transition leaves.",
  ["inputs"],"all well-formed fast/slow specifications, including those without fast or without slow outputs",
  "The intermediate valuation only matters when a guarantee constrains a combination of old slow and new fast values, on arbitrary games.",
  ["src/extensionIROSfastslow.hpp"],[("intermediate-step cox","src/extensionIROSfastslow.hpp computeWinningPositions")],None,["stderr RESULT line"])
p("C15","Interleaving analysis lists a maximal set of outputs that can be set early",
  "The interleaving analysis says correctly whether the specification is realizable, and for a realizable one lists a set of outputs such that the system still wins the GR(1) game in which the next values of the listed outputs must be chosen before the next inputs are known, while it loses when any further output is added; it says that there is no such output exactly if there is none. The answer is a deterministic function of the specification.",
  ["inputs"],"all well-formed specifications for that mode",
  "The answer is a nested fixed point over arbitrary games; the mode is not covered by the suite.",
  ["src/extensionInterleave.hpp"],[("interleaved nested fixed point","src/extensionInterleave.hpp execute/computeWinningPositions")],None,["stdout/stderr"])
p("C16","Recovery strategies add behaviour only for assumption violations",
  "A strategy extracted with simple recovery behaves, as long as the safety assumptions hold, like a complete and winning strategy in the sense of the extraction without recovery; the additional transitions are taken only under inputs that violate the safety assumptions, satisfy the safety guarantees and lead back to winning positions, and (outside the cooperative mode) wherever a violating input admits such a transition there is one.",
  ["inputs","configurations"],"all well-formed realizable specifications and all permitted combinations with other options",
  "The added transitions range over all inputs excluded by the assumptions; no test replays them.",
  ["src/extensionOptimisticRecovery.hpp","src/extensionExtractExplicitStrategy.hpp"],[("recovery transitions appended with least priority","src/extensionExtractExplicitStrategy.hpp, src/extensionExtractSymbolicStrategy.hpp")],None,["strategy file"])
p("C17","Weakened safety assumptions suffice for realizability",
  "For a realizable specification the weakened safety assumption printed is implied by the original safety assumption, the specification stays realizable when the original safety assumption is replaced by it, and this is lost when any variable it depends on is abstracted from it.",
  ["inputs"],"all well-formed realizable specifications",
  "The weakening is found by a greedy search whose result is different for every specification; no test checks it.",
  ["src/extensionWeakenSafetyAssumptions.hpp"],[("greedy clause/literal removal","src/extensionWeakenSafetyAssumptions.hpp execute")],None,["stdout"])
p("C18","Assumption analysis classifies every assumption correctly",
  "The assumption analysis reports a safety or liveness assumption as crucially needed exactly if the specification without that assumption is unrealizable, otherwise as making more positions winning exactly if fewer positions are winning without it, and otherwise a safety assumption as redundant exactly if the other safety assumptions imply it. It reports on every assumption of the specification, in order and under its own name.",
  ["inputs"],"all well-formed realizable specifications",
  "The answer depends on solving one game per assumption; no test compares them.",
  ["src/extensionAnalyzeAssumptions.hpp"],[("one game per left-out assumption","src/extensionAnalyzeAssumptions.hpp execute")],None,["stdout"])
p("C19","Interactive execution answers with a move of a winning strategy",
  "In the interactive mode every answer to an execution request is the successor position of a transition allowed by the safety guarantees inside the winning region for the given input, goals advance only when they are met, and malformed requests are answered with an error message.",
  ["inputs","histories"],"all well-formed realizable specifications and all request sequences",
  "Sessions are unbounded sequences of requests; the suite runs none.",
  ["src/extensionInteractiveStrategy.hpp"],[("XMAKETRANS and related commands","src/extensionInteractiveStrategy.hpp execute")],None,["stdout"])
p("C20","Cooperative strategies keep the assumptions satisfiable",
  "A specification is reported realizable in the cooperative mode exactly if the system can win the GR(1) game while, from every position reached, some behaviour of both players still satisfies the assumptions together with the guarantees; the explicit strategy extracted then is complete, safe and winning and keeps this property in each of its states.",
  ["inputs"],"all well-formed specifications",
  "Branching-time cooperation cannot be judged from single runs.",
  ["src/extensionCooperativeGR1Strategy.hpp"],[("additional fixed point","src/extensionCooperativeGR1Strategy.hpp")],None,["stderr RESULT line"])
p("C21","Single-valuation choice returns one admissible valuation",
  "Whenever the tool picks a concrete move out of a set of moves - deterministically or at random - the result fixes each variable of the chosen vector to one value, is contained in the set, and is empty only if the set is empty.",
  ["inputs"],"all sets of moves over any vector of variables",
  "It must hold for every set and every variable vector; it is only exercised implicitly.",
  ["src/tools.cpp","src/gr1context.hpp"],[("determinize, determinizeRandomized","src/tools.cpp")],None,["strategy output"])
p("C22","Every documented option combination runs the described variant or is rejected",
  "The command line is accepted exactly if all options are known and their combination is permitted, independently of the order in which they are given, and then runs the variant whose behaviour is the composition of the options; anything else, a missing input file, too many files or an unreadable file ends with an error message and a failing exit status, while a completed analysis ends with a successful one.",
  ["configurations","inputs"],"all argument vectors",
  "Several hundred generated combinations exist and the suite runs about three.",
  ["src/main.cpp","src/plugin_combination_enumerator.py"],[("option table lookup","src/main.cpp main")],None,["exit status"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")

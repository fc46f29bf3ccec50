"""Which option combinations are permitted and what they compose (independent statement, from the documentation of the options)."""
import itertools
ALONE = {"analyzeAssumptions": "XAnalyzeAssumptions<GR1Context>", "analyzeInterleaving": "XInterleave<GR1Context>", "analyzeSafetyLivenessInteraction": "XAnalyzeSafetyLivenessInteraction<GR1Context>",
         "computeAbstractWinningTrace": "XAbstractWinningTraceGenerator<GR1Context>", "computeCNFFormOfTheSpecification": "XComputeCNFFormOfTheSpecification<GR1Context>",
         "computeIncompleteInformationEstimator": "XIncompleteInformationEstimatorSynthesis<GR1Context>", "computeInterestingRunOfTheSystem": "XComputeInterestingRunOfTheSystem<GR1Context>",
         "computeWeakenedSafetyAssumptions": "XComputeWeakenedSafetyAssumptions<GR1Context>"}
SOLVERS = {"IROSfastslow": "XIROSFS", "biasForAction": "XBiasForAction", "cooperativeGR1Strategy": "XCooperativeGR1Strategy", "fixedPointRecycling": "XFixedPointRecycling", "twoDimensionalCost": "XTwoDimensionalCost"}
OUTPUTS = ["explicitStrategy", "symbolicStrategy", "simpleSymbolicStrategy", "extractExplicitPermissiveStrategy", "interactiveStrategy"]
ALL = sorted(set(ALONE) | set(SOLVERS) | set(OUTPUTS) | {"jsonOutput", "simpleRecovery", "sysInitRoboticsSemantics", "analyzeInitialPositions", "restrictToReachableStates", "nonDeterministicMotion", "counterStrategy"})
def b(x): return "true" if x else "false"
def compose(opts):
    """class that a set of options stands for (None: not permitted)"""
    o = set(opts); R = "sysInitRoboticsSemantics"; rob = R in o
    if not o <= set(ALL): return None
    if o & set(ALONE): return ALONE[next(iter(o))] if len(o) == 1 else None
    if "analyzeInitialPositions" in o: return "XAnalyzeInitialPositions<GR1Context,%s>" % b(len(o) == 2) if o <= {"analyzeInitialPositions", "restrictToReachableStates"} else None
    if "counterStrategy" in o: return "XExtractExplicitCounterStrategy<XCounterStrategy<GR1Context,%s>>" % b(rob) if o <= {"counterStrategy", R} else None
    if "nonDeterministicMotion" in o:
        if o <= {"nonDeterministicMotion", R}: return "XNonDeterministicMotion<GR1Context,%s>" % b(rob)
        return "XInteractiveStrategy<XNonDeterministicMotion<GR1Context,false>>" if o == {"nonDeterministicMotion", "interactiveStrategy"} else None
    sv = o & set(SOLVERS); out = o & set(OUTPUTS); rest = o - sv - out - {R}; rec = "simpleRecovery" in o; js = "jsonOutput" in o
    if len(sv) > 1 or len(out) > 1 or not rest <= {"jsonOutput", "simpleRecovery"}: return None
    s = next(iter(sv), None); x = next(iter(out), None)
    if js and x != "explicitStrategy" or rec and x not in OUTPUTS[:3]: return None
    if x == "interactiveStrategy" and rob or x == "extractExplicitPermissiveStrategy" and s == "cooperativeGR1Strategy": return None
    c = "GR1Context"
    if s == "twoDimensionalCost": c = "XTwoDimensionalCost<GR1Context,%s,%s>" % (b(rob), b(rec))
    else:
        if s: c = SOLVERS[s] + "<GR1Context>"
        if rob: c = "XRoboticsSemantics<%s>" % c
    if x == "explicitStrategy": c = "XExtractExplicitStrategy<%s,%s,%s>" % (c, b(rec), b(js))
    elif x in ("symbolicStrategy", "simpleSymbolicStrategy"): c = "XExtractSymbolicStrategy<%s,%s,%s>" % (c, b(rec), b(x[1] == "i"))
    elif x == "interactiveStrategy": c = "XInteractiveStrategy<%s>" % c
    elif x: c = "XExtractPermissiveExplicitStrategy<%s,false>" % c
    return c
def permitted():
    r = []
    # (all sets of at most six options; larger ones are never permitted)
    for n in range(7):
        for c in itertools.combinations(ALL, n) if n < 4 else []:
            if compose(c): r.append(c)
    # larger ones extend a smaller one by its modifiers
    mods = ["jsonOutput", "simpleRecovery", "sysInitRoboticsSemantics"]
    for sv in list(SOLVERS) + [None]:
        for x in OUTPUTS:
            for n in range(4):
                for m in itertools.combinations(mods, n):
                    c = tuple(sorted([y for y in (sv, x) if y] + list(m)))
                    if compose(c) and c not in r: r.append(c)
    return sorted(r)
if __name__ == "__main__": print(len(permitted()))

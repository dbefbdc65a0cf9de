NA = {}
TECH = "contract-based deductive verification: symbolic execution of the LLVM IR compiled from /repo against contracts, obligations discharged by z3 and finite automata"
DEFAULT = ("exploration", "bounded comparison with executable contracts (stand-in)", "Bounded: generated inputs only.")
PROVED = ("proof", TECH, "All inputs of the contract; a bounded comparison with the same contract on the compiled code runs beside it.")
PARTLY = lambda what: ("exploration", TECH, what)
LEVEL = {"C%02d" % i: PROVED for i in range(1, 27)}
LEVEL["C05"] = ("proof", TECH, "hasPossibleDates for every state of a result, and every parser's execute reports only possible ones, for every text (scan loop cut at the search, unbounded).")
LEVEL["C06"] = ("proof", TECH, "execute of every parser for every text: the scan loop is cut at the search and its invariant found and checked; extract enters by its contract.")
LEVEL["C07"] = ("proof", TECH, "Every parser's extract, the scan loop and the vocabulary functions, for every text and reference. std::regex enters by a contract; the depth of its recursion is a known finding.")
for _i in (21, 22, 23, 24):
    LEVEL["C%d" % _i] = ("proof", TECH, "refine of a list of any length: its loop is cut at its head, the invariant found and checked, each iteration is one step of the contract.")
LEVEL["C25"] = ("proof", TECH, "Frame conditions of every parser's extract and execute, of the refiners and of the vocabulary functions: none writes to an object that outlives the call.")
LEVEL["C26"] = ("proof", TECH, "argToOrdinalValue, toLowerCase, toUpperCase and extractDateTimeUnitFragments for every text (its loop cut at the search).")
LEVEL["C27"] = ("proof", TECH, "main of an arbitrary text and reference time, composed of the contracts of the scans (C06, C08-C20), the refiners (C21-C24) and the rendering (C04); the order of the results for two arbitrary ones.")

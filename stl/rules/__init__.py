from rules import astrules, effrules, fmtrules, linkrules, parserules, robrules, saferules, sigrules, termrules, viewrules

TABLE = {
    "C01": (astrules.c01, "Boolean connectives keep the logical meaning of their operands"),
    "C02": (astrules.c02, "Formula nodes hold exactly what they were built from"),
    "C03": (astrules.c03, "Ill-formed intervals and connectives cannot be constructed"),
    "C04": (effrules.c04, "Operations never modify their inputs"),
    "C05": (effrules.c05, "Results depend on the arguments only"),
    "C06": (sigrules.c06, "Signals have strictly increasing timestamps"),
    "C07": (sigrules.c07, "Slopes always agree with neighbouring samples"),
    "C08": (sigrules.c08, "Looking up a time in a signal is exact"),
    "C09": (saferules.c09, "No library operation accesses samples out of bounds"),
    "C10": (sigrules.c10, "Synchronising two signals aligns them without altering them"),
    "C11": (robrules.c11, "Robustness of predicates, constants and negation is the signed distance"),
    "C12": (robrules.c12, "Conjunction and disjunction are pointwise minimum and maximum"),
    "C13": (robrules.c13, "Unbounded temporal operators look at the whole remaining signal"),
    "C14": (robrules.c14, "Interval bounds are honoured or refused, never ignored"),
    "C15": (parserules.c15, "Every specification keyword builds the operator it names"),
    "C16": (parserules.c16, "Names in specifications bind once and resolve to their own definition"),
    "C17": (parserules.c17, "The parser accepts whole well-formed specifications or fails"),
    "C18": (fmtrules.c18, "Printed formulas show the operator, operands and bounds they hold"),
    "C19": (sigrules.c19, "Resizing and shifting keep the signal inside the window"),
    "C20": (sigrules.c20, "Constructing a signal keeps every given sample, paired and in order"),
    "C21": (sigrules.c21, "Simplifying a signal drops only redundant samples"),
    "C22": (saferules.c22, "Evaluation never trips over its own timestamps"),
    "C23": (linkrules.c23, "Every declared library function exists"),
    "C29": (termrules.c29, "Every operation finishes"),
    "C30": (viewrules.c30, "Samples and signals answer what they are asked"),
}
TECH = {
    "C01": "abstract interpretation of the AST; truth-table comparison of the abstract results",
    "C02": "abstract interpretation of the AST; value-number comparison of constructed fields",
    "C03": "abstract interpretation of the AST; order-type enumeration over the guard literals",
    "C04": "effect analysis: targets of all stores, container changes and moves found by abstract interpretation of every function, with freshness of returned objects across calls",
    "C05": "storage-duration, callee and address-use analysis over the syntax of every library function; uninitialised-read analysis by abstract interpretation",
    "C06": "abstract interpretation of the append paths (order types), who-may-write analysis of the stored samples",
    "C07": "abstract interpretation; rational normal forms of slopes and interpolation identities",
    "C08": "abstract interpretation with a linear-inequality domain; postconditions of the lookups on every path",
    "C09": "abstract interpretation with a linear-inequality domain and inferred loop invariants; bounds obligations at every dereference",
    "C10": "abstract interpretation with inferred loop invariants over sample positions; times and values of every appended pair compared as normal forms",
    "C11": "abstract interpretation per formula kind; value normal forms of every appended sample, lookup and dispatch",
    "C12": "abstract interpretation with inferred loop invariants; function contracts (min/max) verified bottom-up; crossing points checked as normal forms against the path guards",
    "C13": "abstract interpretation with inferred backward-loop invariants; running-extremum contracts verified bottom-up and matched with the operator dispatch",
    "C14": "abstract interpretation with inferred loop invariants and a ghost counter for the sliding window; contract of the monotonic wedge proved from its source; dispatch obligations over every representation of the interval bounds",
    "C15": "abstract interpretation of the semantic actions along the PEGTL rule types read from the type-checked program, over sentential forms with symbolic words; meanings compared by truth table; induction step per keyword on opaque terms",
    "C16": "abstract interpretation of the semantic actions along the PEGTL rule types; name maps compared with the text; induction steps per command in arbitrary parser states",
    "C17": "grammar analysis: the PEGTL rule types interpreted over ill-formed and well-formed sentential forms; every path must throw, respectively return",
    "C18": "abstract interpretation of the formatters; templates of text and holes per formula kind, compared pairwise",
    "C19": "abstract interpretation with inferred loop invariants; window obligations on every append, common-offset analysis of in-place time changes",
    "C20": "abstract interpretation with inferred loop invariants; position-wise correspondence of arguments and stored samples",
    "C21": "abstract interpretation with inferred loop invariants; guard entailment for every skipped sample",
    "C22": "abstract interpretation with a linear-inequality domain and inferred loop invariants; strict-order obligations at every append",
    "C23": "matching of declarations in public headers with definitions by link name over all translation units",
    "C29": "abstract interpretation with inferred loop invariants and lexicographic ranking measures per loop; structural descent of recursive calls; consumption analysis of the grammar rules",
    "C30": "abstract interpretation of the accessors; positions, counts and normal forms compared per path, comparisons decided per order type, print templates compared with the parts",
}
NA = {
    "C24": "quantifies over real time between samples and over the approximation error of rewriting piecewise-linear minima; it does not hold for windows and is a numerical statement no static rule over the source can bound",
    "C25": "quantifies over floating-point rounding of runtime values; no sound static bound in reach without value ranges",
    "C26": "running time, memory and stack use depend on input size; evaluation and the grammar are recursive by design, no static bound exists (that they finish at all is C29)",
    "C27": "the printer writes infix notation while the parser reads S-expressions, so there is no round trip to decide statically; it is a relation over runtime strings",
    "C28": "the Python bindings are not built here (pybind11 is not installed), so their translation units cannot be type-checked or analysed",
}

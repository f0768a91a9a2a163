#!/usr/bin/env python3
"""Writes properties.jsonl (one object per line)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": None}})
AST = ["src/include/signal_tl/ast.hpp", "src/core/ast.cc"]
SIG = ["src/include/signal_tl/signal.hpp", "src/core/signal.cc"]
ROB = ["src/robust_semantics/classic_robustness.cc", "src/robust_semantics/minmax.cc"]
PAR = ["src/parser/grammar.hpp", "src/parser/actions.hpp", "src/parser/parser.cc"]
FEW = "The suite builds a handful of fixed formulas and traces and mostly checks that nothing throws; "

p("C01", "Boolean connectives keep the logical meaning of their operands",
  "Combining formulas with ~, &, |, >>, Not, And, Or, Implies, Xor or Iff yields a formula that is logically equivalent to that connective applied to exactly those operands, in their order of roles (the premise of an implication stays the premise). Constant folding and the flattening of nested conjunctions and disjunctions drop, duplicate or negate no operand. None of these operations throws for well-formed operands, constants included.",
  ["inputs"], "all operand formulas of every kind (constant, predicate, each composite) in every position",
  FEW + "no test compares the structure or meaning of a combined formula, and operand kinds multiply.",
  AST, [{"name": "operator~ & | >>, AndHelper/OrHelper", "where": "src/core/ast.cc"}, {"name": "Not/And/Or/Implies/Xor/Iff", "where": "src/core/ast.cc"}])
p("C02", "Formula nodes hold exactly what they were built from",
  "A predicate built from a name, comparison and bound carries exactly that name, that comparison and that bound (x > c is built as 'greater', x <= c as 'less or equal', and so on). Always, Eventually and Until carry exactly the given operands, in order, and the given interval, or [0, inf) when none is given; an interval reports the bounds it was given and reports itself unbounded exactly when it is [0, inf). Two predicates (or constants) compare equal exactly when all their parts are equal.",
  ["inputs"], "all names, comparisons, bounds, operands and intervals (integer and real bounds)",
  FEW + "bounds, names and operand order of the built nodes are never read back.",
  AST, [{"name": "Predicate/Interval/Always/Eventually/Until constructors, operator< <= > >=", "where": "src/include/signal_tl/ast.hpp, src/core/ast.cc"}])
p("C03", "Ill-formed intervals and connectives cannot be constructed",
  "Constructing a time interval succeeds exactly when its bounds satisfy 0 <= low < high (high may be infinite) and throws otherwise, NaN bounds included, whether the bounds are integers or reals. Constructing a conjunction or a disjunction succeeds exactly when it has at least two operands and throws otherwise.",
  ["inputs"], "all pairs of integer or floating-point bounds including NaN and infinities; all operand counts",
  "Only one throwing example is tested; the rejected set is defined by comparisons over all doubles including NaN.",
  ["src/include/signal_tl/ast.hpp"], [{"name": "Interval, And and Or constructors", "where": "src/include/signal_tl/ast.hpp"}])
p("C04", "Operations never modify their inputs",
  "Building, combining, printing or evaluating formulas and copying, resizing, shifting, simplifying, looking up or synchronising signals never changes any formula, signal or trace passed in, nor any formula or signal reachable from them. Results may share structure with the inputs but no library operation writes through that sharing.",
  ["inputs", "histories"], "all inputs and all sequences of library operations on shared formulas and signals",
  FEW + "no test inspects its inputs after a call; shared_ptr nodes are mutable, so the type system does not enforce it.",
  SIG + AST + ROB, [{"name": "results are built in fresh objects", "where": "src/core/signal.cc, src/core/ast.cc, src/robust_semantics/*.cc"}])
p("C05", "Results depend on the arguments only",
  "Every library operation is a function of its arguments: no operation reads or writes mutable state that outlives the call (globals, static locals, hidden caches), random numbers, clocks, environment, locale or addresses. Independent calls can therefore run in any order or concurrently and give the same results.",
  ["schedules", "histories"], "all interleavings and orders of library calls on distinct objects",
  "Tests run single calls in one thread; a stale cache or shared buffer only shows under particular histories or schedules.",
  SIG + AST + ROB + PAR, [{"name": "no mutable static storage; state passed explicitly (RobustnessOp, ParserState)", "where": "src/**"}])
p("C06", "Signals have strictly increasing timestamps",
  "A sample can be appended to a signal only if the signal is empty or the sample's time is strictly greater than the signal's end time; every other append (equal, earlier, NaN) throws and leaves the signal unchanged. No other operation can put samples of a signal out of order: there is no way to reach a signal's stored samples for writing from outside, and the library itself changes stored times only by adding one common offset to all samples of a fresh copy.",
  ["inputs", "histories"], "all append histories, all doubles including NaN, all ways of producing a signal",
  "One test appends one duplicate timestamp (and it is not among the tests that run); NaN and every other producer of signals are unexplored.",
  SIG, [{"name": "Signal::push_back guard", "where": "src/core/signal.cc"}, {"name": "private samples", "where": "src/include/signal_tl/signal.hpp"}])
p("C07", "Slopes always agree with neighbouring samples",
  "After any sequence of appends every sample's slope is (next value - value) / (next time - time), 0 if the two values are equal (infinite values included), and 0 for the last sample; a slope supplied by the caller is never trusted. Interpolating from a sample at time t gives value + slope * (t - time), and two sample lines are reported to intersect exactly where their interpolations are equal. Negating a sample negates value and slope and keeps the time.",
  ["inputs", "histories"], "all sequences of appended samples",
  "Slopes are never inspected by the tests.",
  SIG, [{"name": "Signal::push_back, Sample::interpolate/time_intersect/operator-", "where": "src/core/signal.cc, src/include/signal_tl/signal.hpp"}])
p("C08", "Looking up a time in a signal is exact",
  "Looking up time t in a signal throws if the signal is empty or t lies outside [begin, end] (or is NaN); otherwise it returns the stored sample if one is timed t, and else the linear interpolation, at time t, from the last sample before t. The iterator lookups return the first sample timed at or after s, and one past the last sample timed at or before t.",
  ["inputs"], "all signals and all query times, inside, between, on and outside the samples",
  "No test that runs looks up a time.",
  SIG, [{"name": "Signal::at, begin_at, end_at", "where": "src/core/signal.cc, src/include/signal_tl/signal.hpp"}])
p("C09", "No library operation accesses samples out of bounds",
  "For every valid input, empty and single-sample signals included, signal operations and robustness evaluation never dereference an end iterator, step before the beginning, or read the first or last element of an empty sequence.",
  ["inputs"], "all signals (empty, one sample, many), all query times, all formulas",
  "Out-of-bounds reads through iterators need particular relative positions of timestamps and usually do not crash.",
  SIG + ROB, [{"name": "iterator guards", "where": "src/core/signal.cc, src/robust_semantics/minmax.cc"}])
p("C10", "Synchronising two signals aligns them without altering them",
  "Synchronising two signals yields two signals with identical timestamps: exactly the sample times of either input that lie where both inputs are defined. At each of these times each output carries its own input's value (the stored sample, or the linear interpolation from that input's last sample before that time), the first output always following the first input and the second the second.",
  ["inputs"], "all pairs of signals with arbitrary (shared, interleaved, disjoint) timestamps",
  "Every trace in the tests shares one time base, so only the branch for equal timestamps ever runs.",
  SIG, [{"name": "synchronize", "where": "src/core/signal.cc"}])
p("C11", "Robustness of atoms and negation follows the STL sign convention",
  "The robustness of x > c and x >= c at each sample of x is value - c, that of x < c and x <= c is c - value, at the same times and in the same order; the signal used is the trace entry with the predicate's name, and a name missing from the trace is an error. The constant true has robustness +inf and false -inf over the time span of the trace (from the smallest begin time to the largest end time). Negation negates the operand's robustness at every sample and keeps the times.",
  ["inputs"], "all traces, names, comparisons and bounds",
  FEW + "the one evaluated robustness signal is only compared with hand values for one conjunction, if at all.",
  ROB, [{"name": "RobustnessOp for Const, Predicate, Not; compute_robustness", "where": "src/robust_semantics/classic_robustness.cc"}])
p("C12", "And/Or robustness is the pointwise min/max over all operands",
  "The robustness of a conjunction is the pointwise minimum, and of a disjunction the pointwise maximum, of the robustness of all its operands, each operand taken into account exactly once. Operands with different timestamps are aligned first; at every aligned sample the result is the smaller (larger) of the two values, and every extra sample placed where two operands cross lies strictly between its neighbours in time and carries the value both operand lines have there.",
  ["inputs"], "all operand counts and all operand signals (crossing, equal, interleaved timestamps)",
  "Only conjunctions of two predicates over one shared time base are evaluated, without checking crossings.",
  ROB, [{"name": "RobustnessOp for And/Or, compute_minmax_pair", "where": "src/robust_semantics/*.cc"}])
p("C13", "Unbounded temporal operators look at the present and future only",
  "Without an interval, the robustness of Always at a sample is the minimum, of Eventually the maximum, of the operand's values from that sample to the end of the signal, and of phi Until psi the value max(psi now, min(phi now, until at the next sample)), ending with psi at the last sample. There is exactly one result sample per (aligned) operand sample, at its time, in time order; phi and psi are never exchanged.",
  ["inputs"], "all operand signals",
  "The tests only check that such formulas evaluate without throwing.",
  ROB, [{"name": "compute_minmax_seq, compute_until, RobustnessOp for Always/Eventually/Until", "where": "src/robust_semantics/*.cc"}])
p("C14", "Interval bounds are honoured or refused, never ignored",
  "An Always or Eventually with an interval [a, b] other than [0, inf) evaluates, at each operand sample time t, the minimum (Always) or maximum (Eventually) over the window [t + a, t + b], both window ends included by interpolation and cut off at the end of the signal; the unbounded evaluation is used only if the window reaches from t to the end of the signal for every t. A bounded Until is refused with a not-implemented error instead of being evaluated without its bounds.",
  ["inputs"], "all intervals and operand signals",
  "No test evaluates a bounded operator.",
  ROB, [{"name": "RobustnessOp interval dispatch, windowed compute_minmax_seq", "where": "src/robust_semantics/*.cc"}])
p("C15", "Every specification keyword builds the operator it names",
  "In a parsed specification (not a), (and a b ...), (or a b ...), (implies a b), (iff a b), (xor a b), (always a), (eventually a), (until a b), true and false denote exactly the operator and constant they name with all operands in written order, (< x 5), (<= x 5), (> x 5), (>= x 5) the predicate comparing x with 5, and the mirrored form (< 5 x) the predicate 5 < x, i.e. x > 5. Numerals keep their value, integers and reals alike.",
  ["inputs", "programs"], "all specifications in the language",
  "The tests parse a few files and only check success or failure, never what was built.",
  PAR, [{"name": "grammar rules and semantic actions", "where": "src/parser/grammar.hpp, src/parser/actions.hpp"}])
p("C16", "Names in specifications bind once and resolve to their own definition",
  "(define-formula n t) makes n refer to t for all later terms, and (assert n t) records t under n among the assertions; formulas and assertions are separate name spaces and both reach the returned specification. Redefining a name is an error and leaves the first definition in place, and referring to an undefined name is an error, never a silent default. Text of one term never leaks into another: each operand is built from its own text only.",
  ["inputs", "programs", "histories"], "all sequences of commands and references",
  "Two failing files are tested; what names resolve to is never checked.",
  PAR + ["src/include/signal_tl/parser.hpp"], [{"name": "actions for Term, Assertion, DefineFormula; Specification", "where": "src/parser/actions.hpp, src/parser/parser.cc"}])
p("C17", "The parser accepts whole well-formed specifications or fails",
  "Parsing consumes the entire input or throws: it never returns a partial specification, a null pointer, or a result for input with unbalanced parentheses, unknown commands, missing or surplus operands, or more than one expression in a parenthesised term. A keyword is recognised only as a whole word (andx is an identifier, not 'and x') and a two-character comparison is never cut into a one-character one. No parse error is swallowed.",
  ["inputs", "programs"], "all input strings",
  "Three malformed files are tested out of the space of all inputs.",
  PAR + ["src/parser/error_messages.hpp"], [{"name": "if_must/must/eof structure of the grammar; _parse", "where": "src/parser/grammar.hpp, src/parser/parser.cc"}])
p("C18", "Printed formulas show the operator, operands and bounds they hold",
  "Printing a formula shows every part of it: predicates show name, comparison symbol and bound; negation, conjunction, disjunction, Always (G), Eventually (F) and Until (U) each use their own symbol and show all operands in order; bounded temporal operators show both bounds in order, unbounded ones none. Formulas of different kinds, or with different parts, never share a printed template.",
  ["inputs"], "all formulas",
  "Nothing printed is compared with an expectation in the tests that run.",
  ["src/include/signal_tl/fmt.hpp"], [{"name": "fmt::formatter specialisations", "where": "src/include/signal_tl/fmt.hpp"}])
p("C19", "Resizing and shifting keep the signal inside the window",
  "Resizing to [start, end] keeps every sample timed within it with its own value, drops every sample outside, takes the interpolated value at a window end that falls between two samples, and uses the fill value only at a window end where the signal is not defined. Shifting by dt adds dt to every timestamp and changes nothing else, and resize-then-shift is exactly the composition of the two.",
  ["inputs"], "all signals and all windows (inside, overlapping, disjoint, containing)",
  "No test that runs resizes or shifts a signal.",
  SIG, [{"name": "Signal::resize, shift, resize_shift", "where": "src/core/signal.cc"}])
p("C20", "Constructing a signal keeps every given sample, paired and in order",
  "A signal constructed from another signal, a sequence of samples, or lists of values and times holds exactly the given (time, value) pairs, each once and in the given order, the i-th value at the i-th time. Lists of different lengths are rejected with an exception.",
  ["inputs"], "all sequences and lists, of equal and unequal length",
  FEW + "constructed signals are not read back.",
  SIG, [{"name": "Signal constructors", "where": "src/include/signal_tl/signal.hpp"}])
p("C21", "Simplifying a signal drops only redundant samples",
  "Simplification keeps the first and the last sample and drops another sample only if the signal continues through it unchanged: its value is what interpolation from the last kept sample gives and its slope is that sample's slope. Kept samples keep their time and value.",
  ["inputs"], "all signals",
  "No test simplifies a signal.",
  SIG, [{"name": "Signal::simplify", "where": "src/core/signal.cc"}])
p("C22", "Evaluation never trips over its own timestamps",
  "Evaluating a formula, synchronising, resizing or simplifying valid signals only ever appends samples in strictly increasing time order to the signals it builds, so that these operations never fail with the append error whatever the relative position of the inputs' timestamps (exact arithmetic assumed).",
  ["inputs"], "all valid signals, windows with start < end, and formulas",
  "The regression test for this covers three fixed traces; crossings and interleavings are unbounded.",
  SIG + ROB, [{"name": "append sites in synchronize, resize, simplify, compute_minmax_pair, compute_minmax_seq, compute_until", "where": "src/core/signal.cc, src/robust_semantics/*.cc"}])
p("C23", "Every declared library function exists",
  "Every function and operator declared in a public header is defined in the library (or deliberately deleted), so that any program using the public headers links.",
  ["programs"], "all programs using the public headers",
  "A missing definition only shows in a program that uses it; the tests use few of the functions.",
  ["src/include/signal_tl/ast.hpp", "src/include/signal_tl/parser.hpp", "src/include/signal_tl/signal.hpp", "src/include/signal_tl/robustness.hpp"],
  [{"name": "declarations and definitions", "where": "src/include/signal_tl/*.hpp, src/**/*.cc"}])
p("C24", "A robustness value bounds the signal between its samples too",
  "Between two consecutive samples of a robustness result, linear interpolation of the result equals the exact STL robustness of the interpolated input signals, for every formula.",
  ["inputs"], "all formulas, signals and real times between samples",
  "Numerical statement over a continuum of times.",
  ROB, [{"name": "piecewise linear minima with crossing samples", "where": "src/robust_semantics/minmax.cc"}])
p("C25", "Robustness results are numerically accurate",
  "The computed robustness differs from the exact real-valued robustness by no more than accumulated rounding of the documented operations; shifting never merges two timestamps by rounding.",
  ["inputs"], "all doubles", "Rounding behaviour depends on the magnitude of the inputs.",
  SIG + ROB, [{"name": "double arithmetic", "where": "src/core/signal.cc"}])
p("C26", "Evaluation and parsing stay within bounded resources",
  "Parsing and evaluation of every finite input take time polynomial in its size and do not exhaust memory or the stack on deeply nested formulas.",
  ["inputs"], "all formula depths and signal lengths", "Resource use on large inputs is not measured.",
  PAR + ROB, [{"name": "recursion over terms and formulas", "where": "src/parser/actions.hpp, src/robust_semantics/classic_robustness.cc"}])
p("C27", "Printing and parsing are inverse to each other",
  "Writing a formula in the specification language and parsing it yields an equal formula.",
  ["programs"], "all formulas", "No writer for the specification language exists; the printer emits infix notation the parser does not read.",
  ["src/include/signal_tl/fmt.hpp"] + PAR, [{"name": "none today", "where": "src/include/signal_tl/fmt.hpp"}])
p("C28", "The Python bindings expose the same behaviour as the C++ library",
  "Every Python function and attribute forwards to the C++ entity of the same name.",
  ["programs"], "all Python programs", "The bindings are not built here.",
  ["python_bindings/"], [{"name": "pybind11 module", "where": "python_bindings/*.cc"}])
p("C29", "Every operation finishes",
  "No operation of the library hangs, whatever it is given: every loop (synchronising, resizing, building and negating signals, running and windowed extrema, the monotonic wedge, the bounds of a trace) gets ahead in every iteration, also for equal timestamps, single samples and empty signals; evaluation and printing descend to proper parts of the formula in every recursive call; and the grammar never repeats a rule that can match without consuming text, nor tries a rule again before consuming any, so that parsing stops at the end of every text, well-formed or not.",
  ["inputs"], "all signals, formulas, traces and texts",
  "A hang needs one particular input (a tie, a missing sample, an unterminated form); a test suite only shows that its own inputs finish.",
  ["src/core/signal.cc", "src/include/signal_tl/signal.hpp", "src/parser/grammar.hpp", "src/include/signal_tl/fmt.hpp"] + ROB,
  [{"name": "loops of synchronize and resize", "where": "src/core/signal.cc"}, {"name": "sliding window and wedge", "where": "src/robust_semantics/minmax.cc, src/robust_semantics/mono_wedge.h"}, {"name": "recursive evaluation", "where": "src/robust_semantics/classic_robustness.cc"}, {"name": "Skip, until and star rules", "where": "src/parser/grammar.hpp"}])
p("C30", "Samples and signals answer what they are asked",
  "Samples compare by their value alone (<, >, <=, >= are consistent with each other and exact); the area of a sample up to t is the integral of its line from its own time to t, and 0 for times not after it; a signal's begin_time and end_time are the times of its first and last sample, and 0 for an empty signal; front, back, at_idx, begin/end, rbegin/rend, size and empty denote the stored samples - the right one, all of them, in order; at_idx and area by index throw only for an index outside the signal. The text of a sample shows its time and its value, in that order and without loss, and the text of a signal shows every sample, once and in order.",
  ["inputs"], "all samples, signals, indices and times",
  "Every evaluation is built from these answers; the error shows only for a tie, an empty signal, a single sample, the last sample or a time at the border, of which tests try a few.",
  ["src/include/signal_tl/signal.hpp", "src/include/signal_tl/fmt.hpp"],
  [{"name": "Sample comparisons and area", "where": "src/include/signal_tl/signal.hpp"}, {"name": "Signal accessors", "where": "src/include/signal_tl/signal.hpp"}, {"name": "formatter<Sample>, formatter<Signal>", "where": "src/include/signal_tl/fmt.hpp"}])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

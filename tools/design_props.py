# id -> (space explored, oracle, why it reaches what tests cannot)
D = {
"C01": ("all pairs of intervals; number forms for every singleton; all four compound forms; add/sub of two numbers", "min/max of exact rational sums of the bounds, rounded by exact comparison", "every overflow, subnormal and infinite-bound combination"),
"C02": ("as C01 for products", "min/max of the four exact products with 0*inf=0", "all nine sign classes x ties x overflow"),
"C03": ("as C01 for quotients; multiplicative_inverse", "the quotient set computed from the set definition (pieces), its hull", "divisor with zero inside, at an end, or zero only"),
"C04": ("all pairs, both parts", "the pieces of the quotient set", "the flag and both pieces at each sign class"),
"C05": ("all intervals x 68 exponents up to INT_MIN/INT_MAX", "exact rational powers, and repeated outward multiplication as the width limit", "huge and negative exponents, even/odd straddling"),
"C06": ("all intervals x 23 degrees (1..1000), termination by watchdog", "exact integer-power comparison of roots", "termination on every number of the format"),
"C07": ("all pairs, with every encoding of empty; numbers incl. NaN; mixed policies", "sets", "empty and touching cases on every pair"),
"C08": ("all pairs and intervals, four modes", "exact rationals, correctly rounded midpoint", "overflowing midpoints, widths"),
"C09": ("all pairs and interval-number combinations, mixed policies, six relations", "for-all / for-none quantifiers evaluated on the sets", "certainty on every pair"),
"C10": ("as C09 for certain, possible, explicit functions and tribool", "the quantifiers", "as C09"),
"C11": ("as C09 for lexicographic and set orders", "the order on pairs of bounds; set inclusion", "order laws follow from agreement with the model order on every pair"),
"C12": ("corner values of 14 source types, ordered and reversed pairs, interval sources of other base types and policies, four modes", "exact value of the source, rounded by comparison", "double rounding, values not representable, INT_MIN, unsigned"),
"C13": ("every public operation x every combination of ordinary, empty (four encodings) and NaN operands x policies", "outcome kind dictated by the policy; well-formedness", "all operations, all policies"),
"C14": ("every public operation x operands x four modes, including throws", "result and mode equal to those of the to-nearest call", "mode leaks on any path"),
"C15": ("every operation x operands: protected / unprotected once / twice / std / opp; every two rounding functions in one scope", "equality of results, mode upward", "variants the tests never instantiate"),
"C16": ("every operation x operands x every fault point", "exception identity, mode, operands, old value", "crash points inside operations"),
"C17": ("every interval over the alphabets, four modes; mini formats have correctly rounded functions", "MPFR with a bracket at higher precision", "domain edges, poles, infinities"),
"C18": ("every interval around the multiples of pi/4, up to 1e6; formats with library and own pi", "exact quadrant analysis with 20000-bit pi, MPFR", "extrema and poles in every position"),
"C19": ("every bounded x, every y>0", "exact integer quotient and admissible n", "quotients at integers, overflow"),
"C20": ("constants x types x modes x -O0/-O2/x87, during static initialisation", "MPFR pi", "small space, complete"),
"C21": ("schedules: see section 1", "each call's result, mode and operands equal to the call made alone in a fresh process", "interleavings"),
"C22": ("every pair x statements naming the same objects in every way; every program up to depth 3-5; every history of 2-3 calls", "same computation on separate copies / transition table / fresh process", "aliasing and histories"),
"C23": ("numeric_limits members; every interval x stream states x char types", "text composed from the stream's own output of each bound", "stream state"),
"C24": ("every interval x ints exactly representable", "interval operation with the exact singleton", "ints beyond the tests"),
"C25": ("every rounding function x every pair of numbers x entry modes; conversions; programs of scopes", "exact directed rounding", "each strategy directly"),
"C26": ("as C25 through the x87 backends; force_rounding, mode switching and integer rounding also in optimized code", "exact directed rounding", "backends no test builds"),
"C27": ("every operation x every operand combination, the ordinary instantiation and one with an opaque base type and hand-written policies in lockstep (bisimulation)", "equality of outcomes; flags raised by the opaque types on undocumented use", "base types without arithmetic or limits, own infinities and empty encodings"),
}

# Writes properties.jsonl (kept here so that the list stays reviewable).
import json, os
P = []
D = "include/boost/numeric/interval/"
def prop(id, title, stmt, over, text, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [D + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": hook}})

prop("C01", "Sums, differences and negations are tight enclosures",
 "For non-empty intervals (or numbers, which stand for singletons) x and y, x+y, x-y, -x, +x, their compound-assignment forms and the two-number forms add and sub return exactly the smallest representable interval that contains every real sum or difference of members, for every base type and rounding mechanism, whatever the signs, magnitudes, infinite bounds, overflow or subnormals involved.",
 ["inputs", "configurations"], "every pair of intervals/numbers; float, double, long double, exact types and user-defined base types; both rounding strategies; every ambient rounding mode",
 "add.cpp checks a handful of symbolic formulas and det.cpp one matrix; no test compares bounds with exact arithmetic, overflow, subnormals or infinities",
 ["arith.hpp", "arith3.hpp", "rounded_arith.hpp"], [("outward rounding of both bounds", D + "arith.hpp operator+, operator-"), ("*_down/*_up", D + "rounded_arith.hpp")])
prop("C02", "Products are tight enclosures for every sign combination",
 "For non-empty intervals or numbers x and y, x*y, x*=y and the two-number form mul return exactly the smallest representable interval that contains every real product of members; zero times an unbounded interval is zero, and no input makes a bound NaN.",
 ["inputs", "configurations"], "every pair of intervals (all nine sign classes, zero and infinite bounds), every base type and rounding strategy",
 "mul.cpp uses small integer intervals with exact results; rounding, infinities, zero bounds with signs and overflow are not reached",
 ["arith.hpp", "arith3.hpp"], [("case split on the signs of the four bounds", D + "arith.hpp operator*")])
prop("C03", "Quotients are tight enclosures, also when the divisor contains zero",
 "For non-empty x and y, x/y, x/=y, div and multiplicative_inverse return exactly the smallest representable interval that contains every real quotient a/b with a in x, b in y and b nonzero: half-lines or the whole line when y contains zero, zero when x is only zero, and the empty interval (or the policy's error) when y is only zero.",
 ["inputs", "configurations"], "every pair of intervals/numbers, with zero outside, inside, or at either end of the divisor; every base type, rounding and checking policy",
 "tests divide a few finite intervals not containing zero; division by zero-containing intervals and infinite bounds are not tested against the set definition",
 ["arith.hpp", "arith2.hpp", "arith3.hpp", "detail/division.hpp"], [("zero cases", D + "detail/division.hpp div_zero, div_positive, div_negative"), ("sign split", D + "detail/division.hpp div_non_zero")])
prop("C04", "Two-part division yields exactly the two pieces of the quotient set",
 "When the set of quotients of x by y consists of two disjoint pieces, division_part1 returns the tightest enclosure of the negative-side piece and sets its flag, and division_part2 returns the tightest enclosure of the positive-side piece; otherwise division_part1 clears the flag and returns what x/y returns. division_part2 called with a cleared flag returns the empty interval.",
 ["inputs", "configurations"], "every pair of intervals, every base type and policy",
 "only a compile-only example uses these functions",
 ["arith2.hpp", "detail/division.hpp"], [("part split and flag", D + "detail/division.hpp div_zero_part1, div_zero_part2")])
prop("C05", "Squares and integer powers enclose all powers of members",
 "square(x) is the smallest representable interval containing every square of a member of x, and pow(x,n) contains every n-th power of members of x for every positive, zero and negative n (pow(x,0) is 1 for x other than the singleton zero), is exact when the repeated products are exact, is never negative for even n, and is otherwise no wider than repeated outward-rounded multiplication makes it.",
 ["inputs", "configurations"], "every interval, every int exponent including 0, negative and very large ones, all base types and rounding strategies",
 "pow.cpp checks small integer bounds and exponents only",
 ["arith2.hpp"], [("binary powering with directed products", D + "arith2.hpp pow, pow_dn, pow_up"), ("sign split", D + "arith2.hpp square")])
prop("C06", "Square roots are tight and n-th roots enclose, and always terminate",
 "sqrt(x) is the smallest representable interval containing the square root of every non-negative member of x and is empty exactly when x has none; nth_root(x,k) for k>=1 contains every real k-th root of members of x (of non-negative members when k is even; empty when there is none), is accurate to a few units in the last place for ordinary magnitudes, and always terminates.",
 ["inputs", "configurations"], "every interval including zero, subnormal and infinite bounds, every k from 1 up, all base types and rounding strategies",
 "pow.cpp takes roots of a few small exact powers; rounding of roots, ranges below one, and zero-touching intervals are not settled by samples",
 ["arith2.hpp"], [("directed sqrt", D + "arith2.hpp sqrt"), ("interval Newton iteration", D + "arith2.hpp nth_root, root_aux")])
prop("C07", "Set operations and predicates agree with the sets they denote",
 "intersect, hull, in, zero_in, subset, proper_subset, overlap, singleton, equal and empty answer exactly as the corresponding operations on the sets of reals denoted by their arguments, the empty set included; hull (of intervals and numbers in any combination) ignores empty intervals and invalid numbers.",
 ["inputs", "configurations"], "every pair of intervals including empty ones, infinite bounds, signed zeros and NaN numbers; every base type and checking policy",
 "set tests sample a few configurations of two or three intervals; no test enumerates the relative positions with touching, equal, infinite and empty operands",
 ["utility.hpp", "interval.hpp", "detail/test_input.hpp"], [("predicates", D + "utility.hpp"), ("emptiness test", D + "checking.hpp is_empty")])
prop("C08", "min, max, abs, width, median, norm, bisect and widen mean what they say",
 "min, max and abs are the exact images of the set under the function; width is the distance between bounds rounded up, norm the largest magnitude, median a point of the interval that is the correctly rounded midpoint of finite bounds, bisect splits an interval at its median into two intervals whose union is the original, and widen(x,v) for v>=0 is the tightest enclosure of all points within v of x.",
 ["inputs", "configurations"], "every interval and number, including bounds near overflow, subnormals, infinities; every base type, rounding and checking policy",
 "tests touch a few of these on ordinary values; extreme magnitudes, infinite bounds and rounding are not covered",
 ["utility.hpp", "rounded_arith.hpp"], [("median", D + "rounded_arith.hpp median"), ("images", D + "utility.hpp min, max, abs, norm, width, bisect, widen")])
prop("C09", "Default comparisons answer only when certain, otherwise throw",
 "With the default operators <, <=, >, >=, ==, != between two intervals, or between an interval on the left and a number on the right, the result is true only if the relation holds for every pair of members, false only if it holds for no pair, and in every other case (including empty intervals and NaN numbers) comparison_error is thrown.",
 ["inputs", "configurations"], "every pair of intervals/numbers, equal and touching bounds, infinities, signed zeros, empty operands; every base type and pair of policies",
 "cmp.cpp samples a dozen pairs of integer intervals",
 ["interval.hpp"], [("three-way decision", D + "interval.hpp operator<, ... with interval_holder and number_holder")])
prop("C10", "Certain, possible and tribool comparisons follow their quantifiers",
 "The certain comparison operators and cer* functions are true exactly when the relation holds for all pairs of members, the possible operators and pos* functions exactly when it holds for some pair, and the tribool operators return true, false or indeterminate according to whether the relation holds for all, none or only some pairs; the functions take an interval or a number on either side and the operators a number on the right, and the operators throw comparison_error on empty operands.",
 ["inputs", "configurations"], "all six relations and all operand forms, every pair including equal, touching and infinite bounds and empty operands",
 "cmp_exp/cmp_exn/cmp_tribool sample a few integer pairs",
 ["compare/certain.hpp", "compare/possible.hpp", "compare/tribool.hpp", "compare/explicit.hpp"], [("operators", D + "compare/*.hpp")])
prop("C11", "Lexicographic and set comparisons match their orders",
 "The lexicographic operators compare lower bounds first and upper bounds second, forming a total order on non-empty intervals in which a number stands for its singleton; the set operators < and <= are proper inclusion and inclusion with > and >= their converses, == and != set equality.",
 ["inputs", "configurations"], "all six operators and operand forms, every pair and triple, including equal bounds, infinite bounds and empty operands",
 "cmp_lex.cpp and cmp_set.cpp sample a few integer pairs",
 ["compare/lexicographic.hpp", "compare/set.hpp"], [("operators", D + "compare/lexicographic.hpp, compare/set.hpp")])
prop("C12", "Construction, assignment and conversion enclose the source value",
 "Constructing or assigning an interval from numbers of the same or another arithmetic type, from two bounds, or from an interval with another base type or policies yields the smallest representable interval containing the exact source value or set (any integer or floating type, any magnitude); invalid numbers, reversed bounds and empty sources yield the empty interval or the policy's error, and default construction yields zero.",
 ["inputs", "configurations"], "every source type and value, every target base type, rounding strategy and policy pair",
 "no test converts values that are not exactly representable in the target, extreme or unsigned integers, or between interval types",
 ["interval.hpp", "rounded_arith.hpp"], [("conv_down / conv_up", D + "rounded_arith.hpp"), ("constructors and assignments", D + "interval.hpp")])
prop("C13", "Checking policies: invalid inputs propagate, results stay well formed",
 "Every operation given an empty interval or (with a checking policy that detects it) an invalid number yields an empty interval or the documented neutral value, every result is a well-formed interval (no NaN bound and lower<=upper) or the empty interval, and the only exceptions are the ones the checking policy dictates: none with checking_base, runtime_error when an empty interval would be created with the no-empty/strict policies, invalid_argument on NaN with the catching policy.",
 ["inputs", "configurations"], "every public operation, every combination of empty/NaN/ordinary operands, every documented composition of checking policies",
 "no test feeds empty intervals or NaN to the operations or checks which exception a policy raises",
 ["checking.hpp", "detail/test_input.hpp", "arith.hpp", "arith2.hpp", "utility.hpp", "transc.hpp", "interval.hpp"], [("policies", D + "checking.hpp"), ("input test", D + "detail/test_input.hpp")])
prop("C14", "Every operation restores the caller's rounding mode and ignores it",
 "With protecting rounding policies, every public operation leaves the floating-point rounding mode as it found it, on normal return and when it throws, and its result does not depend on which mode was in force.",
 ["inputs", "configurations", "histories"], "every public operation, every argument class, all four ambient modes, nested and failing calls",
 "tests always run in round-to-nearest and never look at the mode after a call",
 ["rounding.hpp", "arith.hpp", "arith2.hpp", "transc.hpp", "utility.hpp", "interval.hpp"], [("save_state", D + "rounding.hpp"), ("rounding object in every operation", D + "arith*.hpp, transc.hpp, utility.hpp")])
prop("C15", "Protected, unprotected, std and opp variants compute the same results",
 "For the same arguments an operation returns the same bounds whether intervals are protected, or unprotected inside the scope of a rounding object of the same policy, and whether the rounding policy switches modes (std) or uses the opposite trick (opp); unprotected operations under the opp policy leave the mode upward so that any sequence of them stays valid.",
 ["inputs", "configurations", "histories"], "every operation and argument, sequences of unprotected operations within one rounding scope, unprotect applied once or repeatedly",
 "one example computes an unprotected Horner sum; no test compares variants",
 ["rounding.hpp", "rounded_arith.hpp", "rounded_transc.hpp", "policies.hpp", "arith2.hpp", "transc.hpp"], [("unprotect", D + "policies.hpp"), ("BOOST_DN/BOOST_UP_NEG", D + "rounded_arith.hpp")])
prop("C16", "A throwing base type or policy leaves operands and rounding mode intact",
 "If an operation of the base number type or a checking policy throws in the middle of an interval operation, the exception reaches the caller unchanged, the rounding mode is restored, the operands that are only read are unmodified, and for the compound forms x op= y the left operand keeps its old value.",
 ["fault_sequences", "inputs", "configurations"], "an exception injected at every base-type operation, and at every policy action, of every interval operation",
 "no test uses a throwing base type",
 ["arith.hpp", "arith2.hpp", "interval.hpp", "rounding.hpp"], [("compute into temporaries before assigning", D + "arith.hpp compound operators"), ("save_state destructor", D + "rounding.hpp")])
prop("C17", "Monotone elementary functions enclose the image",
 "exp, log, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh of an interval contain the function's value at every member inside the domain and are the tightest such interval when the rounding policy supplies correctly rounded functions (except that the exact values at the domain edges -1 and 1 of asin and acos may come from the library's constants), with infinite bounds where the function is unbounded; they are empty only if the interval lies outside the domain.",
 ["inputs", "configurations"], "every interval, including ones crossing domain edges, infinite and zero bounds; both transcendental rounding strategies and user-supplied ones",
 "no test calls the transcendental functions except in a compile-only example",
 ["transc.hpp", "rounded_transc.hpp"], [("domain clipping", D + "transc.hpp"), ("*_down/*_up functions", D + "rounded_transc.hpp")])
prop("C18", "sin, cos and tan enclose the image over any argument range",
 "sin, cos and tan of any bounded interval contain the function's value at every member (tan is the whole line when the interval may contain a pole), the bounds of sin and cos stay within [-1,1], and for arguments of moderate size the enclosure is not needlessly wide: it is close to the true range when the interval is narrow.",
 ["inputs", "configurations"], "every bounded interval: any offset of quadrants, spanning extrema, poles or whole periods, negative arguments; float, double and user-defined types; both rounding strategies",
 "no test calls these functions",
 ["transc.hpp", "constants.hpp", "arith2.hpp"], [("argument reduction by interval fmod", D + "transc.hpp cos, sin, tan"), ("pi bounds", D + "constants.hpp")])
prop("C19", "Interval fmod is an exact-multiple reduction into the divisor's range",
 "For y with positive lower bound (interval or number) and bounded x (interval or number), fmod(x,y) contains x-n*y for a single integer n, chosen so that the lower bound of the result lies at or above zero (up to rounding of one operation) and below the upper bound of y whenever the integer quotient is representable.",
 ["inputs", "configurations"], "every x, y with y>0: signs, magnitudes, exact multiples, fractional quotients; all base types and rounding strategies",
 "fmod.cpp samples a few integer pairs",
 ["arith2.hpp", "rounded_arith.hpp"], [("int_down of the quotient", D + "arith2.hpp fmod"), ("to_int", D + "detail/c99sub_rounding_control.hpp")])
prop("C20", "The constants pi, pi/2 and 2*pi are enclosures of the true values",
 "pi, pi_half and pi_twice return, for float, double, long double, int and user-defined base types, an interval that strictly contains the true constant, as narrow as two adjacent numbers of at most double precision for the built-in floating types, consistently scaled from one another, in every rounding mode.",
 ["configurations", "inputs"], "all base types and policies, all ambient modes, evaluated at run time or compile time",
 "pi.cpp checks containment of a 21-digit decimal for int, float and double only in the default mode",
 ["constants.hpp"], [("exactly representable literals", D + "constants.hpp")])
prop("C21", "Concurrent use from several threads does not interfere",
 "Threads that work on their own intervals obtain, under every interleaving, the results they would obtain alone and end with their own rounding mode unchanged; concurrent reads of shared intervals are safe.",
 ["schedules"], "every interleaving of two or three threads' base-type operations and rounding-mode switches up to a preemption bound",
 "all tests are single-threaded",
 ["rounding.hpp", "interval.hpp", "arith.hpp", "arith2.hpp", "transc.hpp", "constants.hpp"], [("no shared mutable state; per-thread rounding mode", D + "rounding.hpp save_state")])
prop("C22", "Intervals are values: aliasing, in-place updates and history do not matter",
 "An interval behaves as a value: x op= y equals x = x op y for every operator even when the operand is x itself or one of its own bounds, copies are independent, arguments passed by reference are not modified, assign with a bound of the same object works, and the result of any sequence of operations depends only on the values involved, not on earlier calls.",
 ["histories", "inputs"], "all operation sequences up to a depth over a small set of live intervals, with every aliasing pattern",
 "tests never pass an object's own bounds or check independence from history",
 ["interval.hpp", "arith.hpp", "utility.hpp"], [("assignments", D + "interval.hpp set, assign, operator="), ("compound operators", D + "arith.hpp")])
prop("C23", "Numeric limits and stream output describe the interval faithfully",
 "numeric_limits of an interval type report singletons of the base type's min, max, epsilon, denorm_min, the whole line for infinity and the empty interval for quiet_NaN (or the exception the checking policy dictates for it), and claim neither iec559 nor a round style; streaming an interval prints [] for an empty interval and [lower,upper] otherwise, printing each bound exactly as the stream prints that number, for every character type and stream state (a field width applies once and is then reset).",
 ["inputs", "configurations"], "every interval including empty and infinite ones, every base type, stream formatting state",
 "no test uses the header limits.hpp or checks printed text",
 ["limits.hpp", "io.hpp"], [("specialisation", D + "limits.hpp"), ("operator<<", D + "io.hpp")])
prop("C24", "Mixed interval/int arithmetic encloses with the int taken exactly",
 "With the integer extension header, x+n, n+x, x-n, n-x, x*n, n*x, x/n and n/x, for an int n whose value the base type can represent, are the smallest representable intervals containing every exact sum, difference, product or quotient of n and a member of x (as the interval operation with the singleton n); empty intervals stay empty. (Ints the base type cannot represent are converted first and are outside this guarantee.)",
 ["inputs", "configurations"], "every interval and every representable int, including extreme ints, zero and float base types; all rounding strategies and checking policies",
 "integer.cpp uses it with double and small ints only",
 ["ext/integer.hpp"], [("conversion of the int operand", D + "ext/integer.hpp")])
prop("C25", "Rounding policies: directed operations bracket the exact value",
 "For every supported rounding policy and base type, each *_down (*_up) operation returns the largest (smallest) number not above (below) the exact result, conversions likewise, the integer roundings return the adjacent integers, median returns the correctly rounded midpoint, and the policy classes leave the mode their strategy prescribes.",
 ["inputs", "configurations"], "every operand pair incl. subnormal/overflow/signed zero; std, opp and exact strategies; float, double, long double and user-defined types; every starting mode the strategy permits",
 "no test calls the rounding policies directly",
 ["rounded_arith.hpp", "rounded_transc.hpp", "hw_rounding.hpp", "rounding.hpp", "detail/c99_rounding_control.hpp", "detail/c99sub_rounding_control.hpp"], [("mode switching and negation tricks", D + "rounded_arith.hpp")])
prop("C26", "The alternative x87 rounding backends meet the same rounding contract",
 "The x87-based rounding controls for float, double and long double (including the fast extended variant) set, report and restore the rounding direction they are asked for, and arithmetic done through them gives enclosures of the exact results, tight where the backend promises rounding to the base type.",
 ["inputs", "configurations"], "every mode transition and operand pair of the alphabet on x87 arithmetic",
 "the x87 backend is never selected on x86-64 builds, so no test runs it",
 ["detail/x86_rounding_control.hpp", "detail/x86gcc_rounding_control.hpp", "ext/x86_fast_rounding_control.hpp"], [("control word", D + "detail/x86gcc_rounding_control.hpp")])
prop("C27", "User-supplied number types and policies need only the documented interface",
 "With a user's base type that offers no more than the documented requirements (comparisons, negation, conversion from -1, 0, 1 and 2, a default value that is never read; no arithmetic operators, no numeric_limits), a user's rounding policy (an object with state) and a user's checking policy (its own infinities, invalid number and encoding of the empty interval, reported by its own is_nan and is_empty), every operation gives the same outcome as the ordinary instantiation gives on the same values: infinities, invalid numbers and empty results are the ones the checking policy supplies, every inexact operation goes through the rounding policy, and rounding functions are called only on a live rounding object whose life ends with the operation. (A number of another type used to build an interval, and nth_root's degree, are additionally converted to the base type by the language when tested for being invalid.)",
 ["inputs", "configurations"], "every operation, every combination of operands including empty intervals and invalid numbers; policies with three different encodings of empty and invalid; protected and unprotected",
 "the tests use one rational-like type and the standard checking policies; none supplies infinities, invalid numbers or an empty encoding of its own",
 ["interval.hpp", "arith.hpp", "arith2.hpp", "arith3.hpp", "transc.hpp", "utility.hpp", "policies.hpp", "utility_fwd.hpp", "detail/bugs.hpp", "detail/division.hpp", "detail/test_input.hpp", "compare/explicit.hpp"], [("customisation points only", D + "detail/test_input.hpp and every use of Policies::checking / Policies::rounding")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

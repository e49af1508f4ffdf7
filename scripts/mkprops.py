#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and anchors are edited in one place)."""
import json,os
S='libs/e_float/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=[S+f if not f.startswith('libs/') else f for f in files],mechanism=[dict(name=m.strip(),where=', '.join(x.split('/')[-1] for x in files[:4])) for m in mech.split(';')]))
    if state: d['anchors']['state']=state
    d.update(kw); P.append(d)
B=['e_float/efx/e_float_efx.cpp','e_float/gmp/e_float_gmp.cpp','e_float/mpfr/e_float_mpfr.cpp']
EL=['functions/elementary/elementary_math.cpp','functions/elementary/elementary_trans.cpp','functions/elementary/elementary_trig.cpp']

p('C01','A NaN argument always yields NaN from every real elementary function',
  'If an argument of a real elementary function (roots, powers, exponential, logarithms, trigonometric, hyperbolic, their inverses, atan2, floor/ceil/fabs, gamma) is NaN, the value returned or written through an output pointer is NaN, with every arithmetic back end. No path of these functions turns a NaN into a number or an infinity.',
  ['inputs','configurations'],'all real functions, all three arithmetic back ends, every position of the NaN argument, every value of the other arguments',
  'The suite never passes a NaN to a function; it only samples finite arguments, so a lost or misordered guard is invisible.',
  EL+['functions/gamma/gamma.cpp']+B,'guards at the head of each function, and propagation of the special class through every operator and back-end primitive on each path to a return')
p('C02','Domain errors give NaN and limits at infinity, zero and one are exact',
  'A real function called outside its real domain (square root, even root or logarithm of a negative number, arcsine/arccosine beyond one in magnitude, inverse hyperbolic cosine below one, inverse hyperbolic tangent beyond one in magnitude, gamma at a non-positive integer) returns NaN. At infinities, at zero, and at one, each function returns its mathematical limit: for example exp(-inf)=0, exp(0)=1, log(0)=-inf, log(1)=0, sqrt(+inf)=+inf, atan(inf)=pi/2, cosh(-inf)=+inf, acosh(1)=0, 0 raised to a positive power is 0, a hypergeometric series at 0 is 1.',
  ['inputs','configurations'],'every argument class (NaN, infinities, zero, one, minus one, the open intervals between) for every real elementary function in every back end',
  'Tests evaluate interior points only; boundaries, infinities and out-of-domain intervals are continua with no test point.',
  EL+B,'class guards at function entry plus back-end primitives for square root, inverse and comparison')
p('C03','Arithmetic on NaN, infinities and zeros follows one fixed table',
  'For every back end and every combination of operand classes, addition, subtraction, multiplication and division (between two numbers, and between a number and a built-in integer) follow the IEEE-style table: any NaN operand gives NaN; inf-inf, 0*inf, 0/0 and inf/inf give NaN; an infinity otherwise dominates with the sign the operation implies; finite/inf is 0; nonzero/0 is infinite. Negation, inverse, square root and the class predicates (isnan, isinf, isfinite, iszero, isone) agree with the class of the value.',
  ['inputs','configurations'],'all pairs of operand classes, both operand orders, all three back ends, all compound and mixed-integer forms',
  'Existing tests produce infinities only by overflow of one multiplication; the table has dozens of class pairs that no test enters.',
  B+['e_float/e_float_base.cpp'],'class dispatch at the head of each back-end operator and primitive',
  [dict(name='class of a value',meaning='finite / infinity (with sign) / NaN, held beside or inside the limb data')])
p('C04','Operations are safe when operands alias',
  'A compound operation whose right operand is the very same object as the left one (x+=x, x-=x, x*=x, x/=x, for real and complex numbers) and self assignment give the same number or special value as with an independent copy of the operand. Results written through output pointers may overwrite the input argument without changing any of the results.',
  ['inputs','programs'],'every compound operator of every numeric type, every operand value, and all programs in which two parameters name the same object',
  'Tests use distinct objects; aliasing bugs appear only for the special object identity and for values on which the shortcut matters.',
  B+['e_float/e_float_complex.h']+EL,'identity tests and temporaries in the compound operators; order of reads of the operand and writes of the destination')
p('C05','Inputs passed as read-only and shared constants are never modified',
  'No operation or function changes the value or internal state (digits, sign, exponent, class, working precision) of an operand it takes as read-only, and none changes a shared constant object (zero, one, pi, limits, table entries) after its first construction. Repeating a call with the same objects therefore sees the same operands.',
  ['inputs','histories','programs'],'every public function, operator and back-end primitive, on every path',
  'A test compares results, not operands; a write to an operand or shared constant that is restored, or only matters on the next call, is unseen.',
  B+EL+['e_float/e_float.cpp','functions/constants/constants.cpp'],'const references, by-value copies before in-place updates, function-local constants handed out by const reference')
p('C06','Results do not depend on call history, thread or first-call arguments',
  'The result of every function is determined by its arguments and the configuration alone: no function keeps mutable state between calls, and values cached on first use never depend on the arguments of that first call. First use from several threads at once, or from a thread other than the first, is free of data races and uses the same working precision.',
  ['schedules','histories'],'all interleavings of calls from several threads and all call histories',
  'The test program is single-threaded and mostly calls each function family in one fixed order; first-use races and history effects never manifest.',
  ['functions/zeta/zeta.cpp','functions/constants/constants.cpp','functions/gamma/gamma.cpp','e_float/gmp/e_float_gmp.cpp','e_float/mpfr/e_float_mpfr.cpp','e_float/e_float.cpp','functions/elementary/elementary_math.cpp'],
  'function-local statics with guarded one-time initialisation; back-end start-up of default precision',
  [dict(name='function-local static objects',meaning='constants computed once, then read-only')])
p('C07','Every tabulated constant is exact to its last stored digit',
  'Each literal in the integer tables (factorials, double factorials, binomials, Bernoulli numerators and denominators) equals the exact mathematical value at its index, and each decimal literal of a named constant, of the gamma series coefficients and of the transform sine table agrees with the mathematical value to every digit written. Table functions are registered at the index they are named for.',
  ['inputs','configurations'],'every entry of every table, every digit, at every configurable precision up to the digits stored',
  'Tests run at about 100 digits and touch a few indices; a wrong digit further out or at an untouched index changes no test result.',
  ['functions/tables/A000142.cpp','functions/tables/A000367.cpp','functions/tables/A002445.cpp','functions/tables/A006882.cpp','functions/tables/A007318.cpp','functions/constants/constants.cpp','functions/gamma/gamma.cpp','e_float/detail/e_float_detail_fft.h'],
  'literal data compiled into tables of functions and constants')
p('C08','Mixed arithmetic and comparisons mean what the operators say',
  'For every built-in arithmetic type and either operand order, u op n and n op u compute the operation with the converted operand: subtraction and division are not commuted, signs are kept, and compound forms update the left operand and return it. The six comparison operators, in both operand orders, agree with one three-way comparison, which is antisymmetric and orders by sign, class and magnitude.',
  ['inputs','programs'],'all operator overloads times all built-in operand types times all operand values',
  'The tests instantiate some operators with a few types; other overloads (narrow, unsigned, floating types, reversed comparisons) are never compiled or run.',
  ['e_float/e_float.h','e_float/e_float.cpp','e_float/e_float_base.cpp']+B,'overload templates dispatching to signed/unsigned primitives and to the three-way comparison')
p('C09','Complex arithmetic and functions equal their algebraic definitions',
  'Complex addition, subtraction, multiplication, division, negation, conjugate, norm, comparison and integer powers (also of real numbers), for complex and mixed real/complex operands in either order, equal their algebraic definitions in the real and imaginary parts. Complex exponential, logarithm, trigonometric, hyperbolic and inverse functions equal the standard composition of real functions for all arguments.',
  ['inputs','programs'],'all complex operands with all operator overloads; the algebraic identity is over all real and imaginary parts',
  'Sampled values cannot distinguish identities that hold on the sampled points or axes only, and several overloads are not exercised.',
  ['e_float/e_float_complex.h','e_float/e_float_functions_complex.h','functions/gamma/gamma.cpp'],'straight-line formulas on real and imaginary parts, with an identity test for aliasing')
p('C10','Odd and even functions are odd or even in every argument regime',
  'sin, tan, csc, cot, asin, atan, sinh, tanh, asinh, atanh, and the cube root where defined, satisfy f(-x) = -f(x), and cos, sec, cosh satisfy f(-x) = f(x), to working accuracy for every finite x, in every back end; integer powers are odd or even with the exponent; and exchanging the sign of y negates the result of atan2. Both outputs of the combined functions (sine with cosine, hyperbolic sine with cosine) obey this. Integer rounding toward zero, the fractional part, fabs, floor and ceil obey the corresponding symmetries.',
  ['inputs','configurations'],'all finite arguments in all argument regimes (small, moderate, large, near special points)',
  'Each regime has its own sign handling, and tests use mostly positive arguments in a few regimes.',
  ['functions/elementary/elementary_trig.cpp','functions/elementary/elementary_trans.cpp','functions/elementary/elementary_math.cpp','e_float/mpfr/e_float_mpfr.cpp'],'sign stripped on entry and restored on each return path of each regime')
p('C11','Every computation terminates: all loops and recursions are bounded',
  'No argument makes a library call run forever: every loop has a progress variable that moves strictly towards a bound that the loop does not change, and every recursive call is on an argument that leaves the recursive case. Series loops stop at the fixed maximum number of iterations even when the terms do not decrease.',
  ['inputs','configurations'],'every loop and every recursive cycle in the library, for every argument',
  'A test can only see that sampled arguments finish; divergent or non-progressing arguments are exactly those not sampled.',
  EL+['functions/elementary/elementary_hyper_g.cpp','functions/gamma/gamma.cpp','functions/zeta/zeta.cpp','functions/integer/prime.cpp','functions/integer/prime_factor.cpp','utility/util_power_j_pow_x.cpp','e_float/detail/e_float_detail_pown_template.h']+B,
  'counted loops, digit-doubling precision loops, iteration caps and argument-reducing recursion')
p('C12','Foreign number handles are initialised once, used live, and released',
  'Every multi-precision handle owned by a number is initialised exactly once by whichever constructor builds it, before any other library call uses it, and released exactly once by destruction. No operation, including stream input, copy, move and assignment, re-initialises a live handle, uses a dead one, or leaves a local handle unreleased on any path.',
  ['histories','programs','inputs'],'all construct/assign/read/destroy histories, all paths of every member function of the wrapped back ends',
  'Leaks and double initialisation do not change results; paths for special inputs (infinite or NaN built-ins, unreadable text) are not tested.',
  ['e_float/gmp/e_float_gmp.cpp','e_float/mpfr/e_float_mpfr.cpp','e_float/gmp/e_float_gmp.h','e_float/mpfr/e_float_mpfr.h'],'init/clear calls in constructors, destructor and local temporaries',
  [dict(name='handle state',meaning='uninitialised, live or cleared, per owned handle')])
p('C13','Back-end fast paths are wired to the matching function and operands',
  'Where a back end announces its own implementation of a function, it provides one, and that implementation computes exactly that function with the caller\'s operands in the right order into a fresh result; where it does not announce one, the generic algorithm is used. Each arithmetic and conversion primitive of the wrapped back ends applies the library operation of its own name to (self, operand) in that order and stores into self.',
  ['inputs','configurations'],'every announced function and every primitive of each wrapped back end',
  'A mis-wired rarely used primitive (one integer width, one operand order, one rounding) needs specific inputs to differ, and several are not called by any test.',
  ['e_float/e_float_base.h','e_float/e_float_base.cpp','e_float/gmp/e_float_gmp.cpp','e_float/mpfr/e_float_mpfr.cpp','e_float/mpfr/e_float_mpfr.h'],'virtual capability flags paired with static implementations, and one library call per primitive')
p('C14','Assignment, construction and reading fully define the destination',
  'After assignment, construction from any source, or reading text, every part of the destination (digits, sign, exponent, class) is determined by the source alone, independent of what the destination held before, including when it held an infinity or NaN. No operation reads a part of a number that has not been set.',
  ['inputs','histories'],'all prior states of the destination times all sources, every constructor, assignment and read path',
  'Tests read and assign into fresh objects, so stale parts of a previous value never survive in them.',
  B+['e_float/efx/e_float_efx.h','e_float/gmp/e_float_gmp.h','e_float/mpfr/e_float_mpfr.h','e_float/e_float_base.cpp'],'member initialisers and unconditional stores of every field on every path')
p('C15','Built-in integers convert with the right sign and magnitude at the extremes',
  'Construction from, arithmetic with, and conversion to built-in integers treat every value of every integer type correctly, including the most negative one: the sign is taken once, the magnitude is formed without overflow, and out-of-range extraction saturates instead of wrapping. Integer parameters of the functions (orders, powers, indices) are negated or incremented only where that cannot overflow.',
  ['inputs','configurations'],'all 2^64 values of each integer operand type, all functions with integer parameters',
  'Tests use small integers; the overflow cases are single points of a 64-bit range.',
  B+['e_float/e_float_base.cpp','functions/elementary/elementary_trans.cpp','e_float/detail/e_float_detail_pown_template.h','functions/gamma/factorial2.cpp','functions/zeta/zeta.cpp'],'sign tests followed by negation in the unsigned type, range tests before extraction')
p('C16','Text output is the number rounded to what the format asks for',
  'Writing a number to a stream gives, for every value and every format field, precision, showpoint, showpos, uppercase, width, fill and adjustment, the text of that number rounded to the digits asked for: digits, decimal point and exponent belong together, also when rounding carries into the next power of ten, for numbers below the last place, and for integer parts longer than the precision. Precision counts significant digits in the default format (trailing zeros trimmed unless showpoint is set), digits after the first in scientific, decimals in fixed format; digits beyond the ones the number type has are zeros. It never reads or writes outside the digit string or buffer, never throws because of format or value, and leaves the stream\'s flags, precision and fill as they were. A complex number is written as (re,im) with the format of the stream.',
  ['inputs','configurations'],'all values times all stream precisions, widths and flag combinations',
  'Only a few flag and precision combinations are sampled; the failing corner cases are particular precisions with particular leading digits or orders of magnitude.',
  ['e_float/e_float_base.cpp','e_float/e_float_complex.h']+B,'string positions computed from the exponent and the stream precision; digits and exponent delivered by each back end')
p('C17','numeric_limits describes the back end truthfully',
  'For each back end the numeric_limits members are mutually consistent and consistent with the type: digits, radix and exponent bounds equal those of the type, max_digits10 exceeds digits10, min is ten to the minimum decimal exponent, max has all its digits nine at the maximum decimal exponent, lowest is the negative of max, epsilon is ten to one minus digits10, infinity and quiet NaN have those classes; at every configured digit count.',
  ['configurations'],'all back ends and all configurable digit counts',
  'Tests read one or two members in one configuration.',
  ['e_float/e_float.h','e_float/e_float.cpp','e_float/e_float_base.cpp','e_float/efx/e_float_efx.h','e_float/gmp/e_float_gmp.h','e_float/mpfr/e_float_mpfr.h'],'constants in the specialisation and in the back-end class')
p('C18','Temporarily reduced working precision is always restored',
  'Algorithms that lower the working precision of a value during an iteration restore full precision on every path before the value is returned or stored, and never lower the precision of an object they do not own. Every result handed to a caller therefore carries the full configured precision.',
  ['inputs','configurations'],'all paths of all functions that change a working precision',
  'A forgotten restore on a rare path loses digits only in later operations on that particular result.',
  B+['functions/elementary/elementary_trans.cpp'],'precision changes inside Newton iterations and final restore',
  [dict(name='working precision',meaning='number of limbs/bits that take part in operations on a value')])
p('C19','Limb arithmetic never overflows and never leaves its arrays',
  'In the self-contained back end every access to digit arrays, transform work arrays and output buffers is within bounds, and every intermediate sum, product and carry fits its machine type, for all operand lengths and values at every configurable precision.',
  ['inputs','configurations'],'all operand lengths up to the configured maximum and all digit values; every supported digit count',
  'Tests run two digit counts and random operands; the extreme carries and lengths are not met.',
  ['e_float/efx/e_float_efx.cpp','e_float/efx/e_float_efx.h','e_float/detail/e_float_detail_fft.h','e_float/detail/e_float_detail_dynamic_array.h'],'loop bounds tied to the limb count, 64-bit accumulators with carry propagation')
p('C20','Results are accurate to the advertised number of digits',
  'Every arithmetic operation and function returns a value whose error is below the advertised decimal precision for every argument in its domain.',
  ['inputs','configurations'],'all arguments, all precisions','Tests compare a few hundred arguments with reference values.',
  EL+['functions/elementary/elementary_hyper_g.cpp','functions/gamma/gamma.cpp','functions/zeta/zeta.cpp'],'series and Newton iterations with digit-based stopping rules')
p('C21','Writing a number and reading it back gives the same number',
  'For every finite value, text written with maximum digits reads back as the same value, and reading is correct for every valid decimal text.',
  ['inputs'],'all values and all decimal texts','Tests round-trip a few values.',
  ['e_float/e_float_base.cpp']+B,'digit extraction with rounding, and decimal parser')
p('C22','The three back ends agree',
  'The same program run with each of the three back ends prints the same digits up to the advertised precision.',
  ['inputs','configurations'],'all programs, all precisions','Each back end is tested against its own reference values only.',
  B,'common interface over three implementations')
p('C23','Multiplication by transform equals schoolbook multiplication',
  'For every pair of operands the product computed through the number-theoretic or floating transform equals the exact product, with rounding errors of the transform always below one half.',
  ['inputs','configurations'],'all operands at all precisions','Random operands rarely approach the worst-case rounding error.',
  ['e_float/efx/e_float_efx.cpp','e_float/detail/e_float_detail_fft.h'],'double precision transform with carry release')
p('C24','Every branch of a real function computes the function it is named for',
  'The argument reductions, reflections, special cases and closed forms on every branch of the real functions (roots, powers, powers of two, exponential, logarithms to every base, trigonometric and hyperbolic functions and their inverses, atan2, remainder, gamma, Pochhammer symbol, binomial coefficient) are identities: given exact arithmetic and callees, the value returned is the named function of the argument, for every argument that selects the branch.',
  ['inputs','configurations'],'all branches of all real elementary and gamma functions, each as an identity over the argument region that selects it',
  'Branch regions are narrow or rarely sampled (neighbourhoods of one, particular quadrants, sign and parity combinations); a wrong coefficient or a swapped quadrant there is not met by the sampled arguments.',
  EL+['functions/gamma/gamma.cpp','functions/gamma/pochhammer.cpp','functions/gamma/factorial.cpp'],'conditionals selecting an argument reduction, followed by undoing it')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))

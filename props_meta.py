"""Single source of truth: what each property says, how it is decided, how its check is built.
tools/gen.py writes properties.jsonl and MANIFEST.json from here."""
ALL = ['efx', 'gmp', 'mpfr']
S = 'libs/e_float/src/'
BE = [S + 'e_float/efx/e_float_efx.cpp', S + 'e_float/gmp/e_float_gmp.cpp', S + 'e_float/mpfr/e_float_mpfr.cpp']
BASE = [S + 'e_float/e_float_base.cpp', S + 'e_float/e_float_base.h', S + 'e_float/e_float.cpp', S + 'e_float/e_float.h']
EL = S + 'functions/elementary/'
HOOK = 'E_FLOAT_VERIF_HOOKS (friend declaration: the oracle reads the exact stored value; digit count override)'
VAL = ('Values are built from generated decimal literals (small integers, decimals, limb patterns of 00000000/99999999 runs, runs of nines, '
       'powers of ten plus or minus a tiny amount, dyadics, 64-bit integers, full-length random digits) over small, medium and whole-range exponent windows. ')

PROPS = {}


def P(pid, title, statement, over, text, why, files, mech, rule, note='', **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule, note=note, **kw)


TEST_SAMPLE = 'The existing tests compare a few hundred fixed sample points per function with stored values; '

P('A01', 'Addition and subtraction of multiple-precision reals are accurate',
  'For every pair of finite values whose exact sum or difference is representable, u+v, u-v, u+=v and u-=v equal the exact result to digits10 decimal digits relative to the larger operand, and to digits10 digits relative to the result when there is no cancellation. Addition is commutative, x-x is zero, x+0 is x, and -(x+y) equals (-x)+(-y).',
  ['inputs', 'configurations'], 'every pair of finite operands (signs, exponent offsets, carry and borrow chains, cancellation), every back end and digit setting',
  TEST_SAMPLE + 'carry chains, limb alignments and cancellation patterns are a combinatorial space that no fixed list covers.',
  BE + BASE, [('alignment and carry/borrow propagation in operator+=', BE[0]), ('operator+=/-= on the GMP and MPFR representations', BE[1])],
  VAL + 'The second operand is often derived from the first (negated, neighbour at a digit, shifted by powers of ten, nearly cancelling). Non-trivial: both operands non-zero.',
  digits=[(50, 0.3, ['efx']), (300, 0.1, ['efx'])], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.2, ALL), (1000, 0.1, ALL)])
P('A02', 'Multiplication of multiple-precision reals is accurate',
  'For every pair of finite values whose product is within the exponent range, u*v and u*=v equal the exact product to digits10 decimal digits, with the sign rule, commutativity, 1*x = x, 0*x = 0, and exact results when the product of short integers fits the precision.',
  ['inputs', 'configurations'], 'every pair of finite operands, every back end and digit setting',
  TEST_SAMPLE + 'carries out of the top limb and inner accumulator overflow depend on operand patterns that are rare in sampled data.',
  BE, [('school multiplication loop and exponent/carry normalization', BE[0])],
  VAL + 'Non-trivial: neither operand is zero or plus/minus one.',
  digits=[(50, 0.3, ['efx']), (300, 0.1, ['efx'])], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.2, ALL), (1000, 0.1, ALL)])
P('A03', 'Division and reciprocal of multiple-precision reals are accurate',
  'For every pair of finite values with non-zero divisor whose quotient is within the exponent range, u/v, u/=v and the reciprocal equal the exact quotient to digits10 decimal digits, with the sign rule and x/x = 1. Multiplying a quotient by its divisor gives the dividend back to digits10 digits.',
  ['inputs', 'configurations'], 'every pair of finite operands with non-zero divisor, every back end and digit setting',
  TEST_SAMPLE + 'the convergence of the reciprocal iteration depends on the leading digits of the divisor and on the precision schedule.',
  BE, [('Newton iteration for the reciprocal with doubling precision', BE[0])],
  VAL + 'Non-trivial: the divisor is not plus/minus one and the dividend is not zero.',
  digits=[(50, 0.3, ['efx']), (300, 0.1, ['efx'])], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.2, ALL), (1000, 0.1, ALL)])
P('A04', 'Arithmetic with built-in operands agrees with arithmetic on converted operands',
  'For every value x and every value n of a built-in integer or floating-point type, x op n, n op x and x op= n (op one of + - * /) equal the result of converting n first, to digits10 digits (exactly for infinities, NaN and zero), including the most negative and the largest integers. Increment, decrement, unary plus and unary minus agree with the same operations written out.',
  ['inputs'], 'every operand pair over all built-in operand types, both operand orders, all three back ends',
  'The tests use a handful of small constants; the boundary integers (minimum of each type, values around the internal radix 10^8, above 2^32 and 2^53) are special-cased in the code.',
  BE + BASE, [('mixed-operand templates', BASE[3]), ('mul/div/add/sub with unsigned long long', BE[0])],
  VAL + 'Built-in operands are drawn from boundary sets of every type and at random. Non-trivial: both operands non-zero and not one.')
P('A05', 'Values are independent objects: aliasing, copies and operation histories',
  'For every sequence of assignments, copies, moves, swaps and compound arithmetic over a set of variables, including operations of a variable with itself, every variable holds the value that a model of independent real numbers predicts, and an operation changes no variable except its target.',
  ['histories'], 'every sequence of operations over a small set of variables, every back end',
  'Histories are unbounded; the tests execute straight-line code with distinct operands.',
  BE, [('copy/move/assignment and compound operators', BE[0])],
  'Stateful: sequences of 2 to 40 operations (=, move, swap, negate, += -= *= /= with other and with self, built-in operands) on 4 variables, compared after every step with a model of exact reals. Non-trivial: a sequence with at least one self-operation or copy followed by modification.')
P('A06', 'Infinity, NaN and zero obey the rules of extended arithmetic',
  'For every combination of finite values, zeros, infinities and NaN, the sums, differences, products and quotients follow the usual rules of extended arithmetic: NaN propagates, inf-inf, 0*inf, inf/inf and 0/0 give NaN, a non-zero value over zero gives infinity, a finite value over infinity gives zero, and infinities carry the sign the sign rule gives. The classification predicates tell exactly one of NaN, infinite and finite, and predicates of a non-finite value do not depend on how it was produced.',
  ['inputs'], 'every combination of value classes, operand order, operator form (binary, compound, built-in integer operand), every back end',
  'The tests cover overflow and underflow of one expression each; the table of special operands crossed with signs and operator forms is not tested.',
  BE, [('special-case branches at the top of each operator', BE[0])],
  VAL + 'One or both operands are special (zero, +inf, -inf, NaN), produced in several ways. Non-trivial: at least one operand is infinite, NaN or a zero divisor.')
P('A07', 'Results leave the exponent range only as infinity or zero',
  'A sum, product, quotient, reciprocal or scaling by an integer whose exact value is inside the exponent range of the number type (numeric_limits max_exponent/min_exponent in its radix, with a margin of 24 decimal orders at the very end) is accurate to digits10 digits; beyond the upper end it is an infinity of the right sign, beyond the lower end it is zero. numeric_limits max() and min() are finite, positive, bound every finite non-zero value from above and below, and infinity and zero reached this way are kept under further scaling.',
  ['inputs', 'histories'], 'operands near both ends of the exponent range and at half and a third of it, and chains of scalings that cross the limit, every back end',
  'The tests multiply one value repeatedly until it overflows; intermediate overflow inside division, the reciprocal and integer scaling is not reached.',
  BE + BASE, [('range checks in operator*=, operator/=, mul/div with integers, parsing', BE[0]), ('numeric_limits<e_float>', BASE[3])],
  VAL + 'Exponents within 2000 decades of either end of the range, at a half or a third of it. Non-trivial: every generated case.')

P('O01', 'Comparison is the exact total order; predicates describe the exact value',
  'For every pair of finite or infinite values all six relational operators, cmp and compare agree with the order of the exact stored values (and with each other, with exchanged operands and with built-in operands), so that min, max and sorting are right. NaN is equal to nothing. iszero, isone, isint, isneg, sgn, fabs, negation, the finite/infinite/NaN predicates and the decimal order describe the exact value, however it was produced.',
  ['inputs'], 'every pair of values including neighbours in the last stored digit, every built-in operand type, every back end',
  TEST_SAMPLE + 'comparison is hardly tested directly and never on neighbouring values or denormalized representations.',
  BE + BASE, [('cmp and cmp_data', BE[0]), ('relational operators', BASE[2])],
  VAL + 'The second value is usually derived from the first (equal, negated, changed in one digit, plus or minus one unit at some digit, truncated, recomputed along another path). Non-trivial: every pair; for predicates, a non-zero value.')
P('S01', 'Decimal literals are read to full precision',
  'For every decimal literal (optional sign, digits with an optional point, optional exponent; any length, any number of leading or trailing zeros) construction from a string and stream extraction give the denoted value to digits10 digits, exactly when it is an integer of at most digits10 digits, with the right sign; values beyond the exponent range become infinity or zero. Different spellings of one number agree, white space separates literals in a stream, and a variable that held an infinity or NaN before takes the value read.',
  ['inputs'], 'every literal of the decimal grammar, lengths up to several times the precision, exponents over and beyond the whole range',
  TEST_SAMPLE + 'the parser moves the decimal point over limb boundaries depending on lengths and exponents that tests do not vary.',
  BE + BASE, [('rd_string', BE[0]), ('operator>>', BASE[0])],
  'Literals are generated from the grammar: digit runs (random, runs of zeros, runs of nines), with or without point and exponent, padded with zeros, exponents small, huge and at the limits of the range. Non-trivial: the denoted value is not zero.')

P('S02', 'Writing a value gives its correctly rounded decimal in the requested format',
  'For every value and every combination of stream flags, precision, width, fill and adjustment, the written text has the requested notation, sign, number of decimals, exponent field and padding, and the number it denotes is the stored value correctly rounded at the last significant position of that format (at most max_digits10 + 1 significant digits; further positions are zero). In default notation trailing zeros are dropped unless showpoint is set; infinities and NaN are written as inf and nan with sign and case as requested; the stream width is reset.',
  ['inputs'], 'every value (including values next to a rounding boundary of the format) times every format setting, every back end',
  'The tests print pi and a few constants in about thirty formats; rounding carries, values smaller than the last printed position and combinations of flags are not reached.',
  BE + BASE, [('wr_string and its helpers', BASE[0]), ('get_output_string', BE[0]), ('get_order_exact', BE[1])],
  VAL + 'Formats: fixed/scientific/default, precision 0 to 200, width 0 to 300, showpos, showpoint, uppercase, left/right/internal, fill. A quarter of the values sits next to a rounding boundary of the chosen format. Non-trivial: non-zero value.')

P('S03', 'Written values can be read back',
  'A value written with max_digits10 digits in any notation (fixed notation with enough decimals) and read back by the constructor or by stream extraction gives the same value to digits10 digits, with its sign. A decimal of at most digits10 significant digits survives reading and writing unchanged. Several values written to one stream, mixed with other data, are read back in order without consuming their neighbours.',
  ['inputs', 'histories'], 'every value in fixed, scientific and default notation, every decimal text of at most digits10 digits, sequences of values in one stream',
  'The tests read and write separately; no test reads what the library wrote.',
  BE + BASE, [('rd_string', BE[0]), ('wr_string', BASE[0]), ('operator>> and operator<<', BASE[0])],
  VAL + 'Non-trivial: a non-zero value, or a text of more than one digit.')
P('C01', 'Construction from built-in types keeps their value',
  'For every value of every built-in integer and floating-point type, construction and assignment give exactly that value (a floating-point value whose decimal expansion exceeds the precision: accurate to digits10 digits), with its sign, its infinity or NaN, and comparing equal to its source. e_float(mantissa, exponent) with non-zero mantissa is mantissa times 10^exponent to the precision of double, and infinite or NaN when the mantissa is.',
  ['inputs'], 'all integer types over their whole range, all finite and non-finite float/double/long double values',
  'The tests construct from a few small literals; the extremes of each type, long double beyond double, and powers of two are not covered.',
  BE + BASE, [('from_unsigned_long_long, from_long_double', BE[0]), ('native_float_parts', BASE[1])],
  'Structured 64-bit integers (around powers of two, type limits, limb limits), doubles and long doubles over all binary exponents, infinities and NaN. Subnormal long double values may be flushed to zero. Non-trivial: non-zero value.')
P('C02', 'Conversion to built-in types truncates, saturates and rounds as documented',
  'Conversion to signed and unsigned 64-bit and to 32-bit integers gives the integer part, clamped to the range of the target (negative values to unsigned: the cast of the signed result). Conversion to double and long double is within one unit in the last place, exact for values of the target type, infinite beyond its range, zero below its smallest normal number, and keeps sign, infinity and NaN. The overloads for double arguments (to_int64, to_int32, order_of, the predicates) obey the same rules.',
  ['inputs'], 'every value, in particular next to integers and next to the limits of each target type',
  'Conversions are tested on a handful of values; neighbours of integers and of type limits are where truncation turns into rounding.',
  BE + [EL + 'elementary_math.cpp'], [('extract_signed_long_long, extract_unsigned_long_long, extract_double, extract_long_double', BE[0]), ('to_int64, to_int32, to_double', EL + 'elementary_math.cpp')],
  VAL + 'Half of the values is an integer or type limit plus or minus a tiny or small amount. Non-trivial: not an integer and of magnitude above one; for floating point, finite and non-zero.')
P('C03', 'Integer part, floor, ceil, fmod and the integer predicates are exact',
  'For every finite value below 10^(digits10-1) integer_part truncates toward zero exactly, decimal_part is the exact remainder with the sign of the value, floor and ceil are the exact floor and ceiling, and isint tells integers exactly; beyond that they are accurate to digits10 digits. fmod(x,y) is x minus y times the truncated quotient for every sign combination (at a multiple of y either side is accepted within precision). small_arg, large_arg, near_one and near_int follow their documented thresholds.',
  ['inputs'], 'every value, in particular integers plus or minus one unit at any digit',
  TEST_SAMPLE + 'neighbours of integers at distances near the precision limit are not sampled.',
  BE + [EL + 'elementary_math.cpp'], [('extract_integer_part, extract_decimal_part, isint', BE[0]), ('floor, ceil, fmod, near_int', EL + 'elementary_math.cpp')],
  VAL + 'A third of the values is an integer plus or minus a power of ten down to the last digit. Non-trivial: not an integer and of magnitude above one (fmod: dividend larger than divisor).')
P('C04', 'Binary scaling and decomposition are accurate and consistent',
  'pow2(p) and ldexp(x,e) equal the exact scaling to digits10 digits (pow2 exactly where representable); frexp gives a fraction in [1/2,1) and an exponent whose recombination is the value to digits10 digits; to_parts gives a normalized double mantissa and decimal exponent whose recombination approximates the value to double precision over the whole exponent range, and rebuilding an e_float from them agrees.',
  ['inputs'], 'every value over the whole exponent range, every exponent argument in range, neighbours of powers of two',
  TEST_SAMPLE + 'the decomposition is used as the start value of the Newton iterations, where an inaccurate start silently costs digits.',
  BE + [EL + 'elementary_math.cpp', EL + 'elementary_trans.cpp'], [('ldexp, frexp', EL + 'elementary_math.cpp'), ('extract_parts', BE[1]), ('pow2', EL + 'elementary_trans.cpp')],
  VAL + 'A third of the frexp cases are powers of two or their neighbours. Non-trivial: non-zero value and non-zero exponent.')

TRA, TRI = EL + 'elementary_trans.cpp', EL + 'elementary_trig.cpp'
P('E01', 'Roots are accurate',
  'For every positive value, sqrt, cbrt, rootn(x,p) and rootn_inverse(x,p) with 1 <= |p| <= 5000 equal the exact (inverse) root to digits10 decimal digits over the whole exponent range; a negative p gives the reciprocal; squaring the square root gives the value back; roots of zero are zero (inverse roots infinite), and roots of negative values, NaN, or with p = 0 are NaN.',
  ['inputs'], 'every positive value (perfect powers and their neighbours, whole exponent range), every p, every back end',
  TEST_SAMPLE + 'the Newton iterations start from a double estimate whose quality depends on mantissa, exponent and p.',
  BE + [TRA], [('calculate_sqrt', BE[0]), ('rootn, rootn_inv', TRA)],
  VAL + 'A quarter of the values is a perfect power or one digit away from it. Non-trivial: value and p are not one.',
  digits=[(30, 0.3, ALL), (300, 0.05, ALL)], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.1, ALL), (500, 0.05, ALL), (1000, 0.02, ALL)])
P('E02', 'Exponential and logarithms are accurate',
  'exp equals the exponential to digits10 digits (for |x| above 10^4 relative accuracy decreases with the size of x) wherever the result is representable, infinity or zero beyond that; log, log10, loga and log1p equal the logarithm to digits10 digits relative to the result for every positive argument over the whole exponent range, also next to one (where the argument minus one is known to the stored digits); log1p1m2 equals atanh for |x| <= 1/2. log(exp(x)) and exp(log(x)) return x. log of a negative value or NaN is NaN, log(0) is -infinity, exp of infinities and NaN follows the limits.',
  ['inputs'], 'every argument including multiples of ln 2, neighbours of one, both ends of the exponent range, every back end',
  TEST_SAMPLE + 'argument reduction and series switch points make accuracy depend on where an argument lies relative to thresholds.',
  [TRA, BE[2]], [('exp, log, Log_Series::AtOne, log1p', TRA)],
  VAL + 'Plus arguments next to multiples of ln 2 and to one. Non-trivial: argument is neither zero (exp) nor one (log).',
  digits=[(30, 0.3, ALL), (300, 0.05, ALL)], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.1, ALL), (500, 0.05, ALL), (1000, 0.02, ALL)])
P('E03', 'Powers are accurate',
  'pow(b,n) for integer n equals b^n to digits10 digits (relative accuracy decreasing with |n| above 10^4), with the sign rule, exactly when the result is a short integer; pow(x,a) for positive x and real a equals exp(a log x) to digits10 digits (decreasing with the size of the exponent above 10^3). x^0 = 1, x^1 = x, 0^a = 0 for positive a, a negative base with a non-integer exponent gives NaN, and the laws x^p x^q = x^(p+q), (x^p)^q = x^(pq) hold within precision.',
  ['inputs'], 'every base and every integer or real exponent whose result is in range, every back end',
  TEST_SAMPLE + 'pow chooses between four series and the binary ladder depending on base and exponent.',
  [TRA, S + 'e_float/detail/e_float_detail_pown_template.h'], [('pow', TRA), ('pown_template', S + 'e_float/detail/e_float_detail_pown_template.h')],
  VAL + 'Non-trivial: exponent not 0 or plus/minus one (integer powers), exponent not an integer (real powers).',
  digits=[(30, 0.3, ALL), (300, 0.05, ALL)], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.1, ALL), (500, 0.05, ALL), (1000, 0.02, ALL)])
P('E04', 'Trigonometric functions are accurate',
  'sin, cos, tan, sec, csc, cot and sincos equal the exact values to digits10 digits, with an absolute error that grows with |x| above 10^4 only by the loss of digits in the argument reduction; small arguments and arguments next to multiples of pi/4 keep their accuracy; sin is odd, cos even, |sin|,|cos| <= 1 within precision; addition theorem, Pythagoras and periodicity hold within precision; NaN and infinities give NaN.',
  ['inputs'], 'every argument up to 10^25 in magnitude, neighbours of multiples of pi/4, small arguments, every back end',
  TEST_SAMPLE + 'quadrant and sign logic and the switch between three series depend on where the reduced argument falls.',
  [TRI, BE[2]], [('sin, cos, tan', TRI)],
  VAL + 'A quarter of the arguments lies next to a multiple of pi/4. Non-trivial: argument not zero.',
  digits=[(30, 0.2, ALL), (300, 0.02, ALL)], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.1, ALL), (500, 0.03, ALL), (1000, 0.01, ALL)])
P('E05', 'Inverse trigonometric functions are accurate and in the right quadrant',
  'asin, acos and atan equal the exact values to digits10 digits (acos: absolute error) over their whole domains with the right sign, asin and atan are odd, arguments outside [-1,1] give NaN for asin and acos, atan of an infinity is pi/2 with its sign; atan2(y,x) equals the angle to digits10 digits in all four quadrants, on the axes and for infinite arguments; sin(asin x), cos(acos x) and tan(atan x) return x; NaN propagates.',
  ['inputs'], 'every argument: small, near one, huge, both signs; every pair (y,x) in every quadrant, on axes, of nearly equal or very different magnitude',
  TEST_SAMPLE + 'sign handling differs between the small, large, near-one and Newton branches, and tests use positive arguments in few of them.',
  [TRI, BE[2]], [('asin, acos, atan, atan2', TRI)],
  VAL + 'Non-trivial: argument not zero and not plus/minus one; for atan2 neither argument zero.',
  digits=[(30, 0.2, ALL), (300, 0.02, ALL)], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.1, ALL), (500, 0.03, ALL), (1000, 0.01, ALL)])
P('E06', 'Hyperbolic functions and their inverses are accurate',
  'sinh, cosh, tanh, sinhcosh, asinh, acosh and atanh equal the exact values to digits10 digits relative to the result over their domains, including small arguments, arguments next to one and large arguments; sinh, tanh, asinh are odd and cosh even; |tanh| <= 1 within precision; cosh^2 - sinh^2 = 1 and sinh + cosh = exp within precision; atanh outside (-1,1) and acosh below one give NaN; NaN propagates and infinities give the limits (for sinh, cosh and tanh).',
  ['inputs'], 'every argument: 1e-130 to 3000 for sinh and cosh, up to 1e400 for asinh and acosh, next to the ends of the domain, every back end',
  TEST_SAMPLE + 'cancellation for small arguments depends on the position of the switch to the series.',
  [TRA, BE[2]], [('sinh, cosh, tanh, sinhcosh, asinh, acosh, atanh', TRA)],
  VAL + 'Non-trivial: argument not zero (acosh: not one).',
  digits=[(30, 0.3, ALL), (300, 0.05, ALL)], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.1, ALL), (500, 0.05, ALL), (1000, 0.02, ALL)])

P('K01', 'Constants and numeric limits have their value to full precision',
  'Every mathematical constant function (pi and its multiples, e, ln2, ln10, sqrt2, phi, euler_gamma, catalan, khinchin, glaisher, small integers, fractions, limits of built-in types) returns its value to digits10 digits (exactly for short integers and dyadic fractions), in any order of first use, the same object every time, and unaffected by changes to copies. The constants satisfy their defining relations with the elementary functions. numeric_limits describes the type: lowest is -max, epsilon is the distance that changes one, digits and exponents fit the radix, and every finite value lies between lowest and max.',
  ['histories', 'configurations'], 'every order of use of the constants, every back end and digit setting up to 1100 digits',
  'The tests compare pi and a few constants at one digit setting; constants are tables cut at the precision or computed once, so errors appear only at certain precisions or orders of use.',
  BASE + [S + 'functions/constants/constants.cpp'], [('constants', S + 'functions/constants/constants.cpp'), ('numeric_limits<e_float>', BASE[3])],
  'Sequences of 1 to 12 uses of constants with modifications of copies between them, against MPFR (khinchin, glaisher: digits from mpmath). Non-trivial: every sequence.',
  digits=[(30, 0.5, ALL), (300, 0.5, ALL), (1050, 0.2, ALL)], digits_thorough=[(n, 0.5, ALL) for n in (30, 50, 75, 150, 300, 500, 700, 1000, 1050)])

FN = S + 'functions/'
P('H01', 'Hypergeometric series are accurate',
  'hypergeometric_0f0, 0f1, 1f0, 1f1, 2f0, 2f1 and pfq equal the sum of their defining series to digits10 digits relative to the sum of the magnitudes of its terms, wherever the series converges at a practical rate or terminates (a parameter that is zero or a negative integer), for arguments of either sign and of any size down to zero; the specific functions and pfq agree, and the closed forms exp, (1-x)^-a, -log(1-x), atan are reproduced.',
  ['inputs'], 'every choice of parameters (integer, fractional, negative, terminating) and argument, up to four upper and four lower parameters, every back end',
  TEST_SAMPLE + 'hypergeometric functions are tested through the functions that use them only; loop termination depends on the pattern of term sizes.',
  [EL + 'elementary_hyper_g.cpp'], [('series loops and their stopping rule', EL + 'elementary_hyper_g.cpp')],
  'Parameters: fractions, full-length decimals in [-30,30], integers to 200, negative integers (terminating); arguments inside the region of convergence, down to 1e-130 and zero. Non-trivial: at least three terms.',
  digits=[(30, 0.3, ALL), (300, 0.05, ALL)], digits_thorough=[(50, 0.3, ALL), (500, 0.05, ALL), (1000, 0.03, ALL)])
P('N01', 'Prime lists and prime factorizations are right',
  'prime(n) gives exactly the first n primes in order whatever the container held before and whatever was asked for before. prime_factors(n) gives increasing primes with exponents at least one whose product is n, for every 32-bit n above one, and the single factor n for zero and one.',
  ['inputs', 'histories'], 'every count of primes up to 300000 in any sequence of calls, every 32-bit unsigned integer',
  'No test factors integers, and primes are not tested beyond one count; table limit, square roots and repeated factors are the cases that matter.',
  [FN + 'integer/prime.cpp', FN + 'integer/prime_factor.cpp'], [('sieve and its limit', FN + 'integer/prime.cpp'), ('trial division', FN + 'integer/prime_factor.cpp')],
  'Counts around the table size and up to 300000; integers below and above the table limit, smooth numbers, products of two primes, squares of primes plus or minus one, large primes; oracle: independent sieve and trial division. Non-trivial: n above three (factors), more than one prime (lists).',
  backends=['efx', 'mpfr'], digits_thorough=[])

P('G02', 'Factorials, binomial coefficients and Bernoulli numbers have their value',
  'factorial(n), factorial2(n) (including negative odd n; NaN at negative even n), binomial(n,k) (NaN for k > n) and bernoulli(n) have their exact value to digits10 digits for every n (accuracy decreasing with n above 10^4), exactly when the value is a short integer from the tables, and infinity beyond the exponent range; binomial(n,k) = binomial(n,n-k). bernoulli_table(n) fills the container with all Bernoulli numbers up to n whatever it held before, including n = 0.',
  ['inputs', 'configurations'], 'every n (all table entries, the ends of the tables, asymptotic expansions), every back end, digit settings up to 300',
  'The tests print a handful of values; a wrong digit in one of 3000 table entries or at the switch from table to expansion is not seen.',
  [FN + 'gamma/factorial.cpp', FN + 'gamma/factorial2.cpp', FN + 'integer/bernoulli_b.cpp', FN + 'tables/A000142.cpp', FN + 'tables/A000367.cpp', FN + 'tables/A002445.cpp', FN + 'tables/A006882.cpp', FN + 'tables/A007318.cpp'],
  [('factorial, binomial', FN + 'gamma/factorial.cpp'), ('double factorial', FN + 'gamma/factorial2.cpp'), ('bernoulli, bernoulli_table', FN + 'integer/bernoulli_b.cpp')],
  'Arguments over the tables, around their ends, to 20000 and to 4 million, against exact GMP factorials and binomials, MPFR zeta and log gamma. Non-trivial: n above one.',
  tables=True, digits=[(300, 0.1, ALL)], digits_thorough=[(30, 0.5, ALL), (50, 0.5, ALL), (300, 0.3, ALL)])

P('R01', 'Programs over values are resource neutral',
  'Any program that constructs, parses, reads from streams, copies, moves, swaps, stores in containers, computes with and destroys e_float and complex values holds no more memory after it has ended than before it started (counted once first-use caches are filled), and reads and writes no memory outside its objects.',
  ['histories'], 'every program of up to 40 operations over values in vectors and deques, every back end',
  'Tests run under no leak checker, and a block lost per parsed or reassigned value does not change any printed result.',
  BASE, [('value types of the back ends', S + 'e_float/gmp/e_float_gmp.cpp'), ('parsing into an existing object', S + 'e_float/mpfr/e_float_mpfr.cpp')],
  'Random programs run twice; blocks obtained from operator new and from the allocator of GMP and MPFR and still held are counted before and after the second run; a part of the cases runs under AddressSanitizer and UndefinedBehaviorSanitizer. Non-trivial: at least three operations.',
  asan_quick=0.2)


P('G01', 'The gamma function and its relatives are accurate',
  'gamma(x) equals the gamma function to digits10 digits for every real x at which it is finite, including arguments down to 1e-130 (accuracy decreasing with x log x above 10^5, and for negative x with the distance to the next integer), exactly for short integers, infinity or zero beyond the range, NaN at the poles and for NaN. gamma_near_n(n,x) is accurate for x down to 1e-120 next to every integer n, GammaOfPlusXMinusX gives both values. pochhammer with integer or real second argument and binomial with one or two real arguments equal their definitions away from the poles; a pochhammer product with a zero factor is zero.',
  ['inputs', 'configurations'], 'positive and negative arguments, small, half-integer, integer, next to integers, around the limit of the argument shift, large; every back end; digit settings up to 300',
  TEST_SAMPLE + 'the branches (table, series at zero, Stirling with and without shift, reflection) meet at arguments no test uses, and their accuracy depends on the digit setting.',
  [FN + 'gamma/gamma.cpp', FN + 'gamma/pochhammer.cpp', FN + 'gamma/factorial.cpp', FN + 'gamma/gamma_util.cpp'],
  [('gamma, gamma_near_n', FN + 'gamma/gamma.cpp'), ('pochhammer', FN + 'gamma/pochhammer.cpp'), ('binomial of real arguments', FN + 'gamma/factorial.cpp')],
  'Arguments by class (see case_distribution) against MPFR gamma and exact products. Non-trivial: argument not an integer (gamma), more than one factor (pochhammer).',
  tables=True, digits=[(30, 0.2, ALL), (300, 0.05, ALL)], digits_thorough=[(30, 0.5, ALL), (50, 0.5, ALL), (200, 0.2, ALL), (300, 0.2, ALL)])


P('Z01', 'The Riemann zeta function is accurate on the real line',
  'riemann_zeta(n) for integers and riemann_zeta(s) for real s equal the zeta function to digits10 digits relative to the result: on both sides of the pole at one down to 1e-60 (where it is not finite at the pole itself), on both sides of zero down to 1e-130 (exactly -1/2 at zero), in the critical strip, for large arguments, and for negative arguments (accuracy decreasing next to the zeros at even integers, which are exact). Integer and real overload agree; NaN gives NaN.',
  ['inputs', 'configurations'], 'every integer from -2200 to 2^31-1, every real argument from -60 to 10^6 by class, every back end, digit settings up to 300',
  TEST_SAMPLE + 'the tests sum a few dozen values; loss of digits next to zero, one and at the switch between expansions is invisible to them.',
  [FN + 'zeta/zeta.cpp', S + 'utility/util_power_j_pow_x.cpp'], [('riemann_zeta', FN + 'zeta/zeta.cpp'), ('integer powers by prime factors', S + 'utility/util_power_j_pow_x.cpp')],
  'Arguments by class (see case_distribution) against MPFR zeta. Non-trivial: argument not an integer (real), above one or negative odd (integer).',
  tables=True, digits=[(30, 0.2, ALL), (300, 0.05, ALL)], digits_thorough=[(30, 0.5, ALL), (50, 0.5, ALL), (200, 0.2, ALL), (300, 0.2, ALL)])

CH = S + 'e_float/e_float_complex.h'
P('X01', 'Complex arithmetic obeys the algebra of complex numbers',
  'For ef::complex<e_float> every +, -, *, / and compound form, between complex values and with real values and every built-in integer type, in place or with both operands the same object, returns the exact complex result to digits10 digits relative to its magnitude (sums: per part relative to the operands) and changes no operand. Construction, assignment, equality (with complex and real values), real, imag, unary signs, conj (same real part, negated imaginary part), abs, arg, norm and polar are the functions their names state. The same laws hold for the float, double and long double specializations at their precision.',
  ['inputs', 'configurations'], 'complex values with parts of any size and relation, every back end, digit settings of the configuration list',
  TEST_SAMPLE + 'the complex tests evaluate functions and never read conj, norm, equality or the compound operators with mixed operands.',
  [CH], [('class template and e_float specialization', CH)],
  'Random operands (general, real, imaginary, diagonal, parts differing by up to 10^150) against exact MPFR complex arithmetic. Non-trivial: both operands non-zero.',
  asan_quick=0.1)


P('X02', 'Complex elementary functions are accurate on their principal branch',
  'For ef::complex<e_float>, exp, sin, cos, tan, sinh, cosh, tanh, sqrt, pow with integer, real and complex exponents (and a positive real base with complex exponent) equal the exact complex value to digits10 digits relative to its magnitude (next to a zero relative to the argument; next to a pole decreasing with the size of the result); log, log10, asin, acos, atan, asinh, acosh and atanh equal the principal value to digits10 digits, absolutely for results of magnitude below one and relatively above, for arguments of any size, on and next to the axes and branch points (on a branch cut either limit; log and sqrt of negative reals have non-negative imaginary part). sqrt(0) is 0, z^0 is 1, z^1 is z, functions undo their inverses, and the float, double and long double specializations compute the same functions at their precision.',
  ['inputs', 'configurations'], 'arguments with parts of any size and relation, axes, neighbourhoods of branch points and of the unit circle, every back end, digit settings 30 to 300',
  TEST_SAMPLE + 'the complex tests use one grid of moderate arguments in one quadrant; cancellation and branch choice depend on the quadrant, size and position next to the branch points.',
  [CH, S + 'e_float/detail/e_float_detail_pown_template.h'], [('complex elementary functions (generic and e_float specializations)', CH)],
  'Arguments by class (see case_distribution) against complex functions composed of MPFR real functions at doubled precision. Non-trivial: both parts non-zero.',
  digits=[(30, 0.3, ALL), (300, 0.05, ALL)], digits_thorough=[(50, 0.3, ALL), (200, 0.2, ALL), (1000, 0.02, ALL)])

P('X03', 'Complex values are read and written in the standard form',
  'Writing a complex value gives (re,im), where each part is what writing that part alone with the precision, format and flags of the stream gives, padded as a whole to the width of the stream with its fill character; the width is then reset and nothing else of the stream changes. Reading accepts exactly the forms u, (u) and (u,v), where u and v are decimal numbers, up to the next white space, and gives the values of the real reader for the parts (zero for a missing imaginary part); on any other text it sets failbit, leaves the value unchanged and puts the characters back in order. Several values in one stream are read in order, and what was written with max_digits10 digits reads back to digits10 digits. The same holds for the double specialization.',
  ['inputs', 'histories'], 'every short text over the alphabet of the grammar and mutations of valid texts, sequences of values in one stream, every stream format, precision, width and fill, every back end',
  TEST_SAMPLE + 'no test reads a complex value, and only one fixed format is written.',
  [CH], [('operator<< and operator>> of complex', CH)],
  'Texts from the grammar and single-character mutations of them against an independent recognizer and the real reader; values written in every format against the composition of the written parts. Non-trivial: text of more than one character; both parts non-zero.',
  digits=[(30, 0.2, ALL)], digits_thorough=[(30, 0.5, ALL), (300, 0.1, ALL)])

P('X04', 'Complex gamma, Pochhammer and zeta functions are accurate in the whole plane',
  'For complex z, gamma(z) equals the gamma function to digits10 digits relative to its magnitude in all four quadrants, on the imaginary axis, next to integers, for integer and half-integer real parts and for |z| down to 1e-130 (decreasing with |z| log|z| beyond 10^4 and, in the left half-plane, with the distance to the next pole); pochhammer(z,n) equals the product of its factors (zero with a zero factor) and pochhammer(z,a) the quotient of gamma functions; riemann_zeta(s) equals the zeta function relative to its magnitude, or to one in the critical strip and to the right of it, for |Im s| up to 600 (decreasing next to the zeros of 1-2^(1-s) other than one and next to the trivial zeros). Conjugate arguments give conjugate results, and arguments with zero imaginary part the result of the real function.',
  ['inputs', 'configurations'], 'complex arguments with parts of any size and sign, integer and half-integer parts, neighbourhoods of poles, of one, of the critical line, every back end, digit settings up to 300',
  TEST_SAMPLE + 'the tests evaluate a dozen arguments per function, none of them with an integer real part.',
  [FN + 'gamma/gamma.cpp', FN + 'gamma/pochhammer.cpp', FN + 'zeta/zeta.cpp', S + 'utility/util_power_j_pow_x.cpp'],
  [('complex gamma', FN + 'gamma/gamma.cpp'), ('complex pochhammer', FN + 'gamma/pochhammer.cpp'), ('complex riemann_zeta', FN + 'zeta/zeta.cpp')],
  'Arguments by class (see case_distribution) against a Stirling gamma and an Euler-Maclaurin zeta function in MPFR (cross-checked with mpmath). Non-trivial: both parts non-zero; more than one factor.',
  tables=True, digits=[(30, 0.3, ALL), (200, 0.05, ALL)], digits_thorough=[(30, 0.5, ALL), (50, 0.5, ALL), (300, 0.05, ALL)])


P('M01', 'Arithmetic is right at any precision, with thousands of digits',
  'At every digit setting, also those of thousands of digits where multiplication changes to the fast Fourier transform, the product, the product of a number with itself, quotient, inverse, square root, integer root, sum, difference and the operations with built-in integers are exact to digits10 digits (sums relative to the larger operand); multiplication commutes; no operand changes; comparison is that of the values; text with all digits is parsed to digits10 digits, printing gives the nearest decimal and reads back; pi is exact to digits10 digits, and up to 1100 digits so are exp, log, sin, cos, atan and sinh of moderate arguments.',
  ['inputs', 'configurations'], 'full-length digit strings (all nines, random, repeated half limbs, runs, sparse, short), digit settings 1000 to 20000 (quick) and to 1000001 (thorough), on both sides of every change of algorithm, every back end',
  TEST_SAMPLE + 'the tests are built for one digit setting of about a hundred; the transform, its rounding and the precision schedules above it never run.',
  [S + 'e_float/efx/e_float_efx.cpp', S + 'e_float/detail/e_float_detail_fft.h', S + 'e_float/e_float_base.cpp', FN + 'constants/constants.cpp'],
  [('mul_loop_fft, mul_loop_uv, mul_loop_n, calculate_inv, calculate_sqrt', S + 'e_float/efx/e_float_efx.cpp'), ('pi', FN + 'constants/constants.cpp')],
  'Digit strings by class (see case_distribution) of the full length of the setting against MPFR at doubled precision. Non-trivial: every case (all operands have the full length or an adversarial shape).',
  no_default=True, asan=False,
  digits=[(1000, 1, ALL), (2000, 0.7, ALL), (4967, 0.4, ['efx']), (4975, 0.4, ALL), (8167, 0.2, ['efx']), (8168, 0.2, ['efx']), (20000, 0.1, ALL), (100000, 0.03, ['efx'])],
  digits_thorough=[(500, 1, ALL), (1100, 0.5, ALL), (3000, 0.3, ALL), (16000, 0.1, ALL), (40000, 0.05, ['efx']), (65000, 0.05, ['efx']), (300000, 0.01, ['efx']), (1000001, 0.002, ['efx'])])



P('U01', 'The numerical helper templates compute what they state',
  'linear_interpolate gives the value of the piecewise linear function through ordered points (constant outside, zero without points); accumulating with coefficient_expansion gives the polynomial and with alternating_sum the alternating sum; numeric_cast of the decimal text of any value of any built-in integer, floating-point or e_float type gives that value and lexical_cast of an integer its decimal text; DigitScale is the tabulated scale of the digit setting; pown_template gives the integer power of real, complex and built-in values and j_pow_x the power of an integer for integer, real and complex exponents, also through a map shared by many bases. Bisection finds the bracketed root to its tolerance, and reports failure without a change of sign; Newton iteration finds the root, or reports failure when an iterate leaves the interval; the trapezoid rule converges to the integral and the three-point difference rule to the derivative. No operation reports success before it ran.',
  ['inputs', 'configurations'], 'every point set, coefficient sequence, integer of every type, smooth function of three families, interval, tolerance and step, every back end, digit settings 30 to 300',
  TEST_SAMPLE + 'the tests call hardly any of these templates directly (some of them did not even compile).',
  [S + 'utility/' + f for f in ('util_interpolate.h', 'util_alternating_sum.h', 'util_coefficient_expansion.h', 'util_numeric_cast.h', 'util_lexical_cast.h', 'util_find_root_bisect.h', 'util_find_root_newton_raphson.h', 'util_function_derivative.h', 'util_trapezoid.h', 'util_power_j_pow_x.cpp', 'util_digit_scale.cpp', 'util_noncopyable.h')] + [S + 'e_float/detail/e_float_detail_pown_template.h'],
  [('my_operation of the root finders, the derivative and the trapezoid rule', S + 'utility/util_find_root_newton_raphson.h'), ('numeric_cast', S + 'utility/util_numeric_cast.h'), ('j_pow_x_template', S + 'utility/util_power_j_pow_x.cpp')],
  'Random point sets, coefficients, integers, and functions with known root, derivative and integral. Non-trivial: a point strictly between two others; more than one coefficient; text of more than one digit; every root, derivative and integral; several bases of one map.',
  digits=[(30, 0.5, ALL), (300, 0.1, ALL)], digits_thorough=[(31, 0.5, ALL), (50, 0.5, ALL), (200, 0.2, ALL), (1000, 0.02, ALL)])

P('U02', 'The dynamic array behaves as a vector of fixed size',
  'After every history of constructions (by count, count and value, range, list, copy, move), assignments, swaps, fills, element writes and destructions, every util::dynamic_array of integers, strings, numbers or life-tracked elements has the size, elements, iteration order, equality and lexicographical order of a std::vector treated in the same way (moved-from arrays are empty); every element is constructed once before it is used and destroyed once. The fixed form that holds the limbs always has its static size, the given leading elements and zeros behind.',
  ['histories'], 'every sequence of up to 44 operations on a growing set of arrays with element types trivial and non-trivial',
  TEST_SAMPLE + 'the array is tested only through the arithmetic with one size and a trivial element type.',
  [S + 'utility/util_dynamic_array.h', S + 'e_float/detail/e_float_detail_dynamic_array.h'], [('constructors, assignment, comparison', S + 'utility/util_dynamic_array.h'), ('fixed_dynamic_array', S + 'e_float/detail/e_float_detail_dynamic_array.h')],
  'Histories of up to 44 operations against std::vector; one element type registers the addresses of its live objects. Non-trivial: at least two arrays exist.',
  backends=['efx'], asan_quick=0.3)


P('B01', 'The Boost.Multiprecision binding agrees with native e_float',
  'For every value and operation sequence, boost::multiprecision::number over the binding backend (with and without expression templates) gives what native e_float gives: arithmetic in expressions with aliased targets and built-in operands of every type, construction from and conversion to every built-in type, comparisons (also with built-in operands and NaN), classification, rounding, modf, fmod, frexp, ldexp, ilogb, scalbn (base ten), the elementary functions, text through str() and streams with every format, numeric_limits, conversions to and from other Boost number types; and Boost.Math constants and functions on it reach its digits10.',
  ['inputs', 'histories'], 'every value, operand order, operator form and built-in operand type; all three back ends; expression templates on and off',
  'The tests of the binding evaluate a handful of functions at fixed points; conversions, comparisons, exact quotients, formats and limits are not covered.',
  ['libs/math/include/boost/math/bindings/e_float.hpp'], [('eval_* functions, str, numeric_limits', 'libs/math/include/boost/math/bindings/e_float.hpp')],
  VAL + 'Random programs of up to 8 expressions on three variables run on both types; single operations are compared bit for bit with the native function or with MPFR. Non-trivial: non-zero operands (fmod: quotient at least one).')


P('B02', 'Boost.Math algorithms are accurate on the Boost.Multiprecision binding',
  'For every argument in the range of the algorithm, Boost.Math on boost::multiprecision::number over the binding backend reaches digits10 up to a few digits: gamma and incomplete gamma functions, digamma, error functions, Bessel and Neumann functions, zeta, exponential integral, beta, elliptic integrals, Lambert W, orthogonal polynomials, factorials, binomials, Bernoulli numbers, mathematical constants, root finding (toms748, Newton) and quadrature (tanh-sinh, trapezoidal); its rounding and sign functions (round, trunc, modf, sign, copysign and the conversions to built-in integers) are exact; ilogb is the decimal exponent, scalbn multiplies by the exact power of ten over the whole exponent range (zero stays zero), and float_next and float_prior move by at most a few units of the last decimal digit in the right direction.',
  ['inputs', 'configurations'], 'every argument and order in the stated ranges; all three back ends; several precisions',
  'The repository tests Boost.Math on the binding for three functions at a few points each.',
  ['libs/math/include/boost/math/bindings/e_float.hpp'] + BE[:1], [('eval_scalbn, eval_ilogb, numeric_limits, policies::precision', 'libs/math/include/boost/math/bindings/e_float.hpp'), ('operations at the ends of the exponent range', BE[0])],
  VAL + 'A deviation counts only if the same Boost code on cpp_dec_float of the same precision does not have it. Non-trivial: every case of the functions; a fractional part for the rounding functions.', digits_thorough=[(30, 0.5, ALL), (300, 0.1, ALL)])


P('P01', 'Results depend on the arguments only, not on history or the global locale',
  'For every operation (elementary, special, integer and complex functions, constants, conversions, parsing, printing, reading) and every history of other operations executed before it in the process, including failed parses, overflow, precision changes and repeated calls with the same or similar arguments, the result is bit for bit the one a fresh process gives; computing leaves the rounding mode, the locale and the format flags of the standard streams unchanged; and the digit grouping, decimal point and boolean names of the global C++ locale change no result and no text written to or read from a stream that keeps the classic locale.',
  ['histories', 'configurations'], 'every operation with every history of up to 13 earlier operations from a catalogue of 64; every numpunct facet from a family of global locales',
  'Tables, caches and static objects are filled on first use; the tests run in one fixed order in the classic locale and compare to tolerance.',
  BE + [S + 'functions/zeta/zeta.cpp', S + 'functions/integer/prime.cpp', S + 'functions/integer/prime_factor.cpp', S + 'functions/constants/constants.cpp', S + 'utility/util_power_j_pow_x.cpp', S + 'utility/util_lexical_cast.h'], [('function-local static caches', S + 'utility/util_power_j_pow_x.cpp'), ('conversions through string streams', S + 'utility/util_lexical_cast.h'), ('default precision changed during parsing', BE[1])],
  'A target operation runs alone in a forked pristine process and, in another, after a generated history (a third of the histories favours the same operation with shared arguments); the exact values are compared as text. Non-trivial: every case.', tables=True)


G = S + 'generic_functions/'
P('G03', 'The generic function templates are accurate for every number type',
  'generic_functions::sqrt, rootn (positive and negative index), log, pown, frexp10, fabs, isneg, iszero, isone, small_arg, pi and ln2, instantiated for a user-defined multiple-precision type offering only the arithmetic and stream operators and numeric_limits, return the exact value to digits10 decimal digits (log absolute next to one) for every argument, NaN of that type for negative arguments; the specializations for float, double, long double and e_float (also euler_gamma) are accurate to the precision of their type, and the constants header is self-sufficient.',
  ['inputs', 'configurations'], 'every finite argument, index and exponent; a wrapper type, float, double, long double and e_float; every back end',
  'No existing test instantiates these templates.',
  [G + 'elementary/generic_functions_elementary.h', G + 'constants/generic_functions_constants.h'], [('sqrt, rootn, log, pown, frexp10', G + 'elementary/generic_functions_elementary.h'), ('pi and ln2 by the AGM', G + 'constants/generic_functions_constants.h')],
  VAL + 'Non-trivial: the argument is not one (roots, logarithm), the index or power is not a trivial one.',
  digits=[(30, 0.3, ['efx']), (300, 0.05, ['efx'])], digits_thorough=[(30, 0.3, ALL), (50, 0.3, ALL), (300, 0.1, ALL), (1000, 0.02, ALL)])


NA = {}

ORA = {
 'A01': 'exact sum/difference of the stored operands in MPFR with unlimited precision; algebraic identities.',
 'A02': 'exact product of the stored operands; identities; exactness for short integers.',
 'A03': 'MPFR quotient of the stored operands; recombination.',
 'A04': 'the same operation after explicit conversion, and MPFR on the exact built-in value.',
 'A05': 'a model: one exact real per variable, updated by the same history; compared after every step, every variable.',
 'A06': 'the table of IEEE-style extended arithmetic (reference model of value classes).',
 'A07': 'MPFR with its much larger exponent range decides inside / outside the range.',
 'O01': 'exact comparison of decoded values; exact integer and decimal order predicates.',
 'S01': 'an independent parser: digits accumulated as GMP rational, compared with the decoded value.',
 'S02': 'an independent formatter: exact rational decimal expansion of the stored value, correctly rounded, then the stream rules.',
 'S03': 'round trip; exact rational value of the text.',
 'C01': 'exact conversion of the built-in value by MPFR/GMP.',
 'C02': 'exact truncation and clamping on GMP integers; MPFR rounding to double / long double.',
 'C03': 'exact floor/trunc on the decoded rational.',
 'C04': 'exact scaling by powers of two in MPFR.',
 'K01': 'MPFR constants and functions; digits of khinchin and glaisher computed with mpmath, stored in ref.cpp.',
 'H01': 'the defining series summed in MPFR at high precision with the sum of magnitudes as error scale.',
 'N01': 'independent sieve and trial division.',
 'G02': 'exact GMP factorial and binomial; Bernoulli numbers from MPFR zeta.',
 'R01': 'counting allocator hooks (operator new, GMP memory functions) balanced over a second run of the same program; ASan/UBSan.',
 'G01': 'MPFR gamma; exact products.',
 'Z01': 'MPFR zeta.',
 'X01': 'exact complex arithmetic on MPFR pairs.',
 'X02': 'complex functions composed of MPFR real functions at doubled precision.',
 'X04': 'Stirling series with shift and reflection (gamma), Euler-Maclaurin (zeta) on MPFR pairs; cross-validated against mpmath to 115 digits.',
 'M01': 'MPFR arithmetic at twice the digit setting (the reference multiplies with GMP, an independent algorithm).',
 'U01': 'exact MPFR evaluation of the same sums, powers and chords; functions whose root, derivative and integral are known in closed form; the C library for casts of built-in types.',
 'U02': 'std::vector with the same history, and a registry of live objects.',
 'X03': 'an independent recognizer of the grammar, the real reader and writer for the parts.',
 'B02': 'MPFR or exact recurrences and identities; the same Boost code on cpp_dec_float decides whether a deviation is the binding\'s.',
 'B01': 'the same operation on the native type (bit for bit), MPFR for values and exact results.',
 'G03': 'MPFR (and the identities of the classification functions).',
 'P01': 'the same operation in a freshly forked process (differential), and in the classic locale.',
}

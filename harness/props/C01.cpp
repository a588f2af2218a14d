// Construction from built-in types.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
template<class T> static void int_case(Ctx& c, T v, const char* type)
{
  e_float x(v); R want = std::is_signed<T>::value ? R((long long)v) : R((unsigned long long)v); c.label(type); R got = toR(x); REQUIRE(got == want, std::string("int:") + type, std::string("e_float(") + type + " " + want.str(25) + ") holds " + got.str(40));
  REQUIRE(x.isneg() == (want.sgn() < 0) && x.iszero() == want.iszero() && x.isint() && x.isfinite(), std::string("int-predicates:") + type, "predicates of e_float(" + want.str(25) + ")");
  e_float y; y = v; REQUIRE(toR(y) == want, std::string("int-assign:") + type, "assignment from the integer"); e_float z = e_float(-1) / 3; z = v; REQUIRE(toR(z) == want, std::string("int-assign:") + type, "assignment from the integer"); REQUIRE(x == v && v == x && !(x != v), std::string("int-equal:") + type, "the value does not compare equal to its source");
}
TEST(C01_integers, 60000, 1500000)
{
  long long i = gen_i64(s); unsigned long long u = gen_u64(s); c.note(tos(i) + " / " + std::to_string(u)); c.nontrivial = i != 0 && u != 0;
  switch(s.draw(14))
  {
    case 0: int_case(c, i, "long long"); break; case 1: int_case(c, u, "unsigned long long"); break; case 2: int_case(c, (long)i, "long"); break; case 3: int_case(c, (unsigned long)u, "unsigned long"); break;
    case 4: int_case(c, (int)i, "int"); break; case 5: int_case(c, (unsigned)u, "unsigned"); break; case 6: int_case(c, (short)i, "short"); break; case 7: int_case(c, (unsigned short)u, "unsigned short"); break;
    case 8: int_case(c, (signed char)i, "signed char"); break; case 9: int_case(c, (unsigned char)u, "unsigned char"); break; case 10: int_case(c, (bool)(u & 1), "bool"); break; case 11: int_case(c, (char)i, "char"); break; case 12: int_case(c, (std::int32_t)i, "int32"); break; default: int_case(c, (std::uint32_t)u, "uint32");
  }
}
template<class T> static void fp_case(Ctx& c, T v, const char* type)
{
  e_float x(v); c.label(type); if(std::isnan(v)) { REQUIRE(x.isnan(), std::string("fp-nan:") + type, "NaN became " + show(x)); c.label("nan"); return; } if(std::isinf(v)) { REQUIRE(x.isinf() && x.isneg() == (v < 0), std::string("fp-inf:") + type, "infinity became " + show(x)); c.label("inf"); return; }
  R want((long double)v), got = toR(x); const std::string what = std::string("e_float(") + type + " " + want.str(30) + ")"; e_float y; y = v; e_float z = e_float(-5) / 7; z = v; REQUIRE(toR(y) == got && toR(z) == got, std::string("fp-assign:") + type, "assignment and construction differ");
  if(std::fabs(v) < (std::numeric_limits<T>::min)() && v != 0) { c.label("subnormal"); if(got.iszero() && sizeof(T) == sizeof(long double)) return; }
  if(v == 0) { REQUIRE(x.iszero(), std::string("fp-zero:") + type, what + " is not zero"); return; }
  // a built-in subnormal may be flushed only if it is subnormal as a long double
  check_rel(c, std::string("fp:") + type, got, want, LIM, what); REQUIRE(x.isneg() == (v < 0), std::string("fp-sign:") + type, what + " has the wrong sign");
  long e; std::string d = want.digits(D10, e); if(!is_efx || (want.exp2() > -16 && want.exp2() < 250 && R("0." + d + "e" + std::to_string(e)) == r::abs(want))) REQUIRE(got == want, std::string("fp-exact:") + type, what + " is not exact: " + got.str(60));
  if(got == want) REQUIRE(x == v && v == x && !(x < v) && !(x > v), std::string("fp-equal:") + type, "the value does not compare equal to its source");
}
TEST(C01_floats, 40000, 1000000)
{
  double d = gen_double(s); long double l = gen_ldouble(s); switch(s.draw(8)) { case 0: if(s.chance(1, 3)) { d = std::ldexp(1.0, (int)s.range(-1074, 1023)); } break; case 1: if(s.chance(1, 4)) { d = s.chance(1, 2) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); l = d; } break; case 2: if(s.chance(1, 4)) { d = std::nan(""); l = d; } break; case 3: l = std::ldexp((long double)(s.draw(~0ULL) | (1ULL << 63)), (int)s.range(-16400, 16300)); break; default: break; }
  c.nontrivial = d != 0; std::size_t k = s.draw(3); { char b[64]; std::snprintf(b, sizeof b, "%.17g / %.21Lg", d, l); c.note(b); } if(k == 0) fp_case(c, d, "double"); else if(k == 1) fp_case(c, l, "long double"); else fp_case(c, (float)d, "float");
}
TEST(C01_mantissa_exponent, 20000, 300000)
{
  // (mantissa, exponent): mantissa * 10^exponent to the accuracy of a double
  if(s.chance(1, 30)) { double q = s.chance(1, 3) ? std::nan("") : s.chance(1, 2) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); e_float x(q, (std::int64_t)s.range(-30, 30)); c.note("non-finite mantissa"); c.nontrivial = true; REQUIRE(std::isnan(q) ? x.isnan() : x.isinf() && x.isneg() == (q < 0), "mantissa-non-finite", "e_float(" + std::to_string(q) + ", e) gave " + show(x)); return; }
  double m; switch(s.draw(4)) { case 0: m = (double)s.range(1, 100); break; case 1: m = 1.0 + 9.0 * (double)s.draw(1000000) / 1000000.0; break; case 2: m = std::ldexp(1.0 + (double)s.draw(1ULL << 52) * std::ldexp(1.0, -52), (int)s.range(-40, 40)); break; default: m = s.chance(1, 2) ? 9.999999999999998 : 10.0; }
  if(m == 0) m = 1; if(s.chance(1, 2)) m = -m; long e = s.chance(1, 2) ? s.range(-40, 40) : s.chance(1, 2) ? s.range(-5000, 5000) : s.range(-100000000, 100000000); c.nontrivial = true; { char b[64]; std::snprintf(b, sizeof b, "(%.17g, %ld)", m, e); c.note(b); }
  e_float x(m, (std::int64_t)e); R want = R(m) * R::pow10(e); check_rel(c, "mantissa-exponent", toR(x), want, -13.5, "e_float(mantissa, exponent)"); REQUIRE(x.isneg() == (m < 0), "mantissa-exponent-sign", "the sign is wrong"); e_float y = x + x; check_rel(c, "mantissa-exponent-use", toR(y), R(2) * toR(x), LIM, "2*x");
}
TEST(C01_limbs, 8000, 80000)
{ // groups of eight decimal digits with a decimal exponent and a sign, as the tables of constants use them
  const int n = (int)s.range(1, s.chance(1, 3) ? 4 : (D10 + 7) / 8 + 1); std::uint32_t d[8] = {0}; std::vector<std::uint32_t> v; std::string t; for(int i = 0; i < n; ++i) { std::uint32_t q = s.chance(1, 6) ? 0u : s.chance(1, 6) ? 99999999u : s.chance(1, 4) ? (std::uint32_t)s.draw(1000) : (std::uint32_t)s.draw(100000000); if(i == 0 && q == 0) q = 1; v.push_back(q); char b[16]; std::snprintf(b, sizeof b, i ? "%08u" : "%u", q); t += b; if(i == 0) t += "."; if(i < 8) d[i] = q; }
  const bool neg = s.chance(1, 2); const long e = 8 * (s.chance(1, 2) ? s.range(-6, 6) : s.range(-500, 500)); const int k = n < 8 ? n : 8; if(n > 8) { t.resize(t.find('.') + 1 + 8 * 7); } c.note((neg ? "-" : "") + t + "e" + tos(e)); c.nontrivial = true; R want(t + "e" + tos(e)); if(neg) want = -want;
  e_float x = k == 1 ? e_float({d[0]}, e, neg) : k == 2 ? e_float({d[0], d[1]}, e, neg) : k == 3 ? e_float({d[0], d[1], d[2]}, e, neg) : k == 4 ? e_float({d[0], d[1], d[2], d[3]}, e, neg) : k == 5 ? e_float({d[0], d[1], d[2], d[3], d[4]}, e, neg) : k == 6 ? e_float({d[0], d[1], d[2], d[3], d[4], d[5]}, e, neg) : k == 7 ? e_float({d[0], d[1], d[2], d[3], d[4], d[5], d[6]}, e, neg) : e_float({d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]}, e, neg);
  check_rel(c, "limbs", toR(x), want, LIM, "construction from groups of digits"); REQUIRE(x.isneg() == neg, "limbs-sign", "the sign is wrong"); e_float y = x + x; check_rel(c, "limbs-use", toR(y), R(2) * toR(x), LIM, "2*x");
}

// Powers.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static const double TOP = L::radix == 10 ? (double)L::max_exponent : (double)L::max_exponent * 0.30102999566398119521;
TEST(E03_integer_power, 20000, 300000)
{
  GenOpt o; o.zero = false; o.emin = -30; o.emax = 30; if(s.chance(1, 3)) { o.emin = -1; o.emax = 0; } e_float b = gen_value(s, c, o); R v = toR(b); long p; switch(s.pick({4, 4, 3, 2})) { case 0: p = s.range(-12, 12); break; case 1: p = s.range(-300, 300); break; case 2: p = s.range(-20000, 20000); break; default: p = s.range(-10000000, 10000000); }
  if(v.iszero()) throw Discard(); double lw = v.log10abs() * (double)p; if(std::fabs(lw) > TOP - 100) throw Discard(); c.note(show(b) + " ^ " + tos(p)); c.nontrivial = p < -1 || p > 1; R want = r::powi(v, p); double lg = std::max(0.0, std::log10((double)std::labs(p) + 1) - 4); e_float y = ef::pow(b, (std::int64_t)p); check_rel(c, "pow-int", toR(y), want, LIM + lg, "pow"); REQUIRE(y.isneg() == (want.sgn() < 0), "pow-int-sign", "the sign of the power is wrong");
  if(p != 0) check_rel(c, "pow-int-efloat", toR(ef::pow(b, e_float((long long)p))), want, LIM + lg, "pow with an integer e_float exponent");
  if(p >= 0 && v.isint() && want.log10abs() < D10 - 1) REQUIRE(toR(y) == want, "pow-int-exact", "an integer power of an integer is not exact");
}
TEST(E03_huge_integer_exponent, 1500, 20000)
{ // exponents over the whole 64-bit range: the base is a power of ten or two, one, or so close to one that the result is in range
  int bits = (int)s.range(20, 62); std::int64_t p = (std::int64_t)((1ull << bits) + (s.chance(1, 3) ? s.draw(3) - 1 : s.draw(1ull << bits))); e_float b; R v;
  switch(s.pick({6, 1, 1}))
  {
    case 0: { R w = R(1) + R((long)s.range(-9999, 9999)) * R::pow10(-3 - (long)(bits * 0.30103) + (long)s.range(-2, 1)); b = e_float(w.str(D10)); v = toR(b); if(s.chance(1, 4)) { b = -b; v = -v; } break; }
    case 1: b = e_float(s.chance(1, 2) ? 1 : -1); v = toR(b); break;
    default: { p = (std::int64_t)s.draw(100000000); b = e_float(s.chance(1, 2) ? 10 : 2); v = toR(b); break; }
  }
  if(s.chance(1, 2)) p = -p; if(std::fabs(v.log10abs() * (double)p) > TOP - 100) throw Discard(); c.note(show(b) + " ^ " + tos(p)); c.nontrivial = r::abs(v) != R(1); R want = r::powi(v, (long)p); double lg = std::log10(std::fabs((double)p) + 1) - 4; lg = std::max(lg, 0.0);
  check_rel(c, "pow-huge-int", toR(ef::pow(b, p)), want, LIM + lg, "pow"); if(r::abs(v) == R(1)) REQUIRE(toR(ef::pow(b, p)) == want, "pow-huge-one", "a power of one is not one");
  check_rel(c, "pow-huge-efloat", toR(ef::pow(b, e_float((long long)p))), want, LIM + lg, "pow with an integer e_float exponent");
}
TEST(E03_real_power, 6000, 80000)
{
  e_float x; switch(s.pick({4, 3, 2, 2})) { case 0: x = gen_in(s, c, 0.0001, 20); break; case 1: { GenOpt o; o.zero = false; o.neg = false; o.emin = -60; o.emax = 60; x = gen_value(s, c, o); break; } case 2: x = gen_in(s, c, 0.09, 0.91); break; default: { c.label("near-one"); R w = R(1) + R((long)s.range(-99, 99)) * R::pow10(-2 - (long)s.draw(D10)); long e; std::string d = w.digits(D10 + 16, e); x = e_float("0." + d + "e" + std::to_string(e)); } }
  e_float a; switch(s.pick({4, 3, 3, 2})) { case 0: a = gen_in(s, c, -10, 10); break; case 1: a = gen_in(s, c, -1000, 1000); break; case 2: { GenOpt o; o.zero = false; o.emin = -120; o.emax = 0; a = gen_value(s, c, o); break; } default: a = e_float((long long)s.range(-100, 100)) / 2; }
  R v = toR(x), va = toR(a); if(v.sgn() <= 0 || !v.isfinite() || !va.isfinite() || fuzzy_near_one(r::abs(va))) throw Discard(); if(std::fabs(v.log10abs() * va.dbl()) > 1e7) throw Discard(); c.note(show(x) + " ^ " + show(a)); c.nontrivial = !va.isint(); R want = r::pow(v, va); R arg = r::abs(va * r::log(v)); double lg = arg.iszero() ? 0 : std::max(0.0, arg.log10abs() - 3); if(!va.iszero()) lg = std::max(lg, va.log10abs() - 3);
  check_rel(c, "pow", toR(ef::pow(x, a)), want, LIM + lg, "pow");
}
TEST(E03_special, 2000, 20000)
{
  GenOpt o; o.zero = false; o.emin = -20; o.emax = 20; e_float x = gen_value(s, c, o), a = gen_value(s, c, o); if(x.iszero() || a.iszero() || fuzzy_near_one(r::abs(toR(a)))) throw Discard(); a = ef::fabs(a); c.note(show(x) + " , " + show(a)); c.nontrivial = true; e_float ax = ef::fabs(x);
  REQUIRE(toR(ef::pow(x, e_float(0))) == R(1) && toR(ef::pow(x, (std::int64_t)0)) == R(1), "pow-zero-exponent", "x^0 is not 1"); REQUIRE(toR(ef::pow(x, e_float(1))) == toR(x) && toR(ef::pow(x, (std::int64_t)1)) == toR(x), "pow-one", "x^1 is not x");
  REQUIRE(ef::pow(e_float(0), a).iszero(), "zero-pow", "0^a is " + show(ef::pow(e_float(0), a)) + " for positive a"); REQUIRE(toR(ef::pow(e_float(0), e_float(0))) == R(1), "zero-pow-zero", "0^0 is not 1"); int n = 1 + (int)s.draw(50); REQUIRE(ef::pow(e_float(0), (std::int64_t)n).iszero(), "zero-pow-int", "0^n is not 0");
  if(!a.isint()) REQUIRE(ef::pow(-ax, a).isnan(), "negative-pow", "a negative base to a non-integer power is " + show(ef::pow(-ax, a))); REQUIRE(ef::pow(L::quiet_NaN(), a).isnan(), "pow-nan", "NaN^a is not NaN"); check_rel(c, "one-pow", toR(ef::pow(e_float(1), a)), R(1), LIM, "1^a");
}
TEST(E03_laws, 2000, 20000)
{
  e_float x = gen_in(s, c, 0.01, 50); int p = (int)s.range(-40, 40), q = (int)s.range(-40, 40); R v = toR(x); if(v.sgn() <= 0) throw Discard(); c.note(show(x) + " p=" + tos(p) + " q=" + tos(q)); c.nontrivial = p && q; R a = toR(ef::pow(x, (std::int64_t)p) * ef::pow(x, (std::int64_t)q)); check_rel(c, "pow-add", a, toR(ef::pow(x, (std::int64_t)(p + q))), LIM + 0.5, "x^p * x^q against x^(p+q)"); check_rel(c, "pow-mul", toR(ef::pow(ef::pow(x, (std::int64_t)p), (std::int64_t)q)), r::powi(v, (long)p * q), LIM + 0.5, "(x^p)^q");
}

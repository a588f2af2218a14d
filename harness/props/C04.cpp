// Scaling by powers of two, decomposition, decimal parts.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
TEST(C04_pow2, 10000, 100000)
{
  const long top = (long)((double)std::numeric_limits<e_float>::max_exponent10 * 3.3219 * 0.999); long p; switch(s.draw(5)) { case 0: p = s.range(-130, 130); break; case 1: p = s.range(-2000, 2000); break; case 2: p = s.range(-1000000, 1000000); break; case 3: p = s.range(-900000000, 900000000); break; default: p = s.range(-top, top); c.label(std::labs(p) > 2147483647L ? "wide" : "full"); }
  c.note("2^" + tos(p)); c.nontrivial = p != 0; R want = R::pow2(p); R got = toR(ef::pow2((std::int64_t)p)); check_rel(c, "pow2", got, want, LIM, "pow2"); if(p >= 0 && p < D10 * 3 || !is_efx && p > -1000) REQUIRE(got == want, "pow2-exact", "pow2 is not exact"); if(is_efx && p < 0 && p > -D10) REQUIRE(got == want, "pow2-exact", "pow2 is not exact");
}
TEST(C04_ldexp, 20000, 200000)
{
  GenOpt o = window(s); e_float x = gen_value(s, c, o); if(!x.isfinite()) throw Discard(); int e = (int)(s.chance(1, 2) ? s.range(-100, 100) : s.chance(1, 2) ? s.range(-5000, 5000) : s.range(-1000000, 1000000)); R v = toR(x); c.note(show(x) + " * 2^" + tos(e)); c.nontrivial = !v.iszero() && e != 0;
  e_float y = ef::ldexp(x, e); if(v.iszero()) REQUIRE(y.iszero(), "ldexp-zero", "ldexp(0)"); else check_rel(c, "ldexp", toR(y), v * R::pow2(e), LIM, "ldexp");
}
TEST(C04_frexp, 20000, 200000)
{
  if(s.chance(1, 50)) { typedef std::numeric_limits<e_float> L; int e = 7; c.note("frexp and ldexp of special values"); c.nontrivial = true; REQUIRE(ef::frexp(e_float(), &e).iszero() && e == 0, "frexp-zero", "frexp(0)"); REQUIRE(ef::frexp(L::quiet_NaN(), &e).isnan() && ef::frexp(L::infinity(), &e).isinf() && ef::frexp(-L::infinity(), &e).isneg(), "frexp-special", "frexp of a non-finite value"); const int k = (int)s.range(-1000, 1000); REQUIRE(ef::ldexp(e_float(), k).iszero() && ef::ldexp(L::infinity(), k).isinf() && ef::ldexp(L::quiet_NaN(), k).isnan(), "ldexp-special", "ldexp of a special value"); return; }
  GenOpt o = window(s); o.zero = false; e_float x = gen_value(s, c, o); if(!x.isfinite() || x.iszero()) throw Discard(); if(s.chance(1, 3)) { x = ef::pow2(s.range(-400, 400)); if(s.chance(1, 2)) x += x * e_float("1e-" + std::to_string(s.range(20, D10))) * (s.chance(1, 2) ? 1 : -1); c.label("power-of-two"); }
  int e = 12345678; e_float f = ef::frexp(x, &e); R v = toR(x), m = toR(f); c.note(show(x)); c.nontrivial = true; check_rel(c, "frexp", m * R::pow2(e), v, LIM, "frexp fraction times 2^" + tos(e)); R am = r::abs(m); REQUIRE(am >= R(0.5) * (R(1) - R::pow10(-D10)) && am < R(1) + R::pow10(-D10), "frexp-normalized", "frexp fraction " + m.str(30) + " is not in [1/2, 1)"); check_rel(c, "frexp-ldexp", toR(ef::ldexp(f, e)), v, LIM, "ldexp(frexp)");
}
TEST(C04_to_parts, 20000, 300000)
{
  GenOpt o = window(s, true); o.zero = false; e_float x = gen_value(s, c, o); if(!x.isfinite() || x.iszero()) throw Discard(); double m = 0; std::int64_t e = 0; ef::to_parts(x, m, e); R v = toR(x); c.note(show(x)); c.nontrivial = true; double lg = std::fabs(v.log10abs());
  double tol = is_efx ? -15 : std::max(-14.3, std::log10(lg + 1) - 18.0); check_rel(c, "to_parts", R(m) * R::pow10((long)e), v, tol, "mantissa " + std::to_string(m) + " exponent " + tos(e)); REQUIRE(std::fabs(m) >= 1 && std::fabs(m) <= 10.0, "to_parts-normalized", "mantissa " + std::to_string(m) + " is not in [1, 10)"); REQUIRE((m < 0) == (v.sgn() < 0), "to_parts-sign", "sign of the mantissa");
  e_float y(m, e); check_rel(c, "parts-rebuild", toR(y), v, std::max(tol, -13.5), "e_float(mantissa, exponent)");
}

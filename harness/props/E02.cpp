// Exponential and logarithms.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static const double LTOP = (L::radix == 10 ? (double)L::max_exponent * 2.302585092994045684 : (double)L::max_exponent * 0.69314718055994530942);  // ln of the upper end of the range
TEST(E02_exp, 12000, 200000)
{
  e_float x; switch(s.pick({5, 4, 3, 2, 2})) { case 0: x = gen_in(s, c, -40, 40); break; case 1: x = gen_in(s, c, -2000, 2000); break; case 2: { GenOpt o; o.emin = -130; o.emax = 4; x = gen_value(s, c, o); break; } case 3: { c.label("near-k-ln2"); R w = R((long)s.range(-300, 300)) * r::ln2(); if(s.chance(1, 2)) w += R((long)s.range(-9, 9)) * R::pow10(-(long)s.draw(D10)); if(w.iszero()) w = R(1); long e; std::string d = w.digits(D10 + 16, e); x = e_float((w.sgn() < 0 ? "-0." : "0.") + d + "e" + std::to_string(e)); break; } default: x = gen_in(s, c, -2e6, 2e6); c.label("large"); }
  R v = toR(x); if(!v.isfinite()) throw Discard(); c.note(show(x)); c.nontrivial = !v.iszero(); R want = r::exp(v); double lg = v.iszero() ? 0 : std::max(0.0, v.log10abs() - 4); check_rel(c, "exp", toR(ef::exp(x)), want, LIM + lg, "exp");
}
TEST(E02_exp_range, 3000, 30000)
{
  // near and beyond the ends of the exponent range
  double f; switch(s.draw(4)) { case 0: f = 0.9999 + 0.0002 * (double)s.draw(10001) / 10000; break; case 1: f = 0.3 + 0.7 * (double)s.draw(10001) / 10000; break; case 2: f = 1.0 + 3 * (double)s.draw(10001) / 10000; break; default: f = 1 + 1e6 * (double)s.draw(10001); }
  bool neg = s.chance(1, 2); e_float x = e_float(LTOP * f); if(s.chance(1, 3)) x = ef::integer_part(x); if(neg) x = -x; R v = toR(x); c.note(show(x)); c.nontrivial = true; e_float y = ef::exp(x); double m = 24 * 2.3026; double lv = std::fabs(v.dbl());
  if(lv > LTOP + m) { if(neg) REQUIRE(y.iszero(), "exp-underflow", "exp should be zero, is " + show(y)); else REQUIRE(y.isinf() && !y.isneg(), "exp-overflow", "exp should be infinite, is " + show(y)); c.label("beyond"); }
  else if(lv < LTOP - m - 64) { c.label("inside"); REQUIRE(y.isfinite() && !y.iszero(), "exp-early", "exp(" + show(x) + ") is " + show(y) + " although the result is representable"); R l = r::log(toR(y)); check_rel(c, "exp-range", l, v, LIM, "log of exp"); }
  // beyond any doubt
  REQUIRE(ef::exp(L::infinity()).isinf() && ef::exp(-L::infinity()).iszero() && ef::exp(L::quiet_NaN()).isnan() && toR(ef::exp(e_float())) == R(1), "exp-special", "exp of a special value");
}
static e_float positive(Src& s, Ctx& c)
{
  switch(s.pick({4, 4, 3}))
  {
    case 0: { GenOpt o = window(s, s.chance(1, 3)); o.zero = false; o.neg = false; return gen_value(s, c, o); }
    case 1: { GenOpt o; o.emin = -30; o.emax = 30; o.zero = false; o.neg = false; return gen_value(s, c, o); }
    default: { c.label("near-one"); R w = R(1) + R((long)s.range(-99, 99)) * R::pow10(-2 - (long)s.draw(D10)); long e; std::string d = w.digits(D10 + 16, e); return e_float("0." + d + "e" + std::to_string(e)); }
  }
}
TEST(E02_log, 8000, 120000)
{
  e_float x = positive(s, c); R v = toR(x); if(!v.isfinite() || v.iszero()) throw Discard(); c.note(show(x)); c.nontrivial = v != R(1); R want = r::log(v); e_float y = ef::log(x); if(want.iszero()) { REQUIRE(y.iszero(), "log-one", "log(1) is " + show(y)); return; }
  // a value within 10^-D10 of one is known to the stored digits only: absolute error there, relative error elsewhere
  R sc = r::abs(want) + (r::floor(v * R::pow10(D10)) == v * R::pow10(D10) ? R(0) : R::pow10(-16)); check_close(c, "log", toR(y), want, sc, LIM, "log"); R w10 = r::log10(v); if(!w10.iszero()) check_close(c, "log10", toR(ef::log10(x)), w10, sc, LIM, "log10");
}
TEST(E02_loga, 2500, 30000)
{ e_float a = positive(s, c), x = positive(s, c); R va = toR(a), vx = toR(x); if(!va.isfinite() || !vx.isfinite() || fuzzy_near_one(va) || fuzzy_near_one(vx) || va.iszero() || vx.iszero() || va == R(1) || vx == R(1)) throw Discard(); c.note("base " + show(a) + " of " + show(x)); c.nontrivial = true; check_rel(c, "loga", toR(ef::loga(a, x)), r::log(vx) / r::log(va), LIM + 0.5, "loga"); }
TEST(E02_log1p, 6000, 80000)
{ e_float x; switch(s.draw(3)) { case 0: { GenOpt o; o.zero = false; o.emin = -130; o.emax = -1; x = gen_value(s, c, o); break; } case 1: x = gen_in(s, c, -0.99, 3); break; default: x = gen_in(s, c, -0.5, 1000); } R v = toR(x); if(!v.isfinite() || v <= R(-1) || v.iszero() || fuzzy_near_one(-v)) throw Discard(); c.note(show(x)); c.nontrivial = true; check_rel(c, "log1p", toR(ef::log1p(x)), r::log1p(v), LIM, "log1p"); }
TEST(E02_log1p1m2, 4000, 40000)
{ // (1/2) log((1+x)/(1-x)), a series for small arguments
  e_float x; if(s.chance(1, 2)) { GenOpt o; o.zero = false; o.emin = -130; o.emax = -1; x = gen_value(s, c, o); } else x = gen_in(s, c, -0.5, 0.5); R v = toR(x); if(!v.isfinite() || v.iszero() || r::abs(v) > R(0.5)) throw Discard(); c.note(show(x)); c.nontrivial = true; check_rel(c, "log1p1m2", toR(ef::log1p1m2(x)), r::atanh(v), LIM, "log1p1m2"); }
TEST(E02_inverse, 2500, 30000)
{
  if(s.chance(1, 2)) { e_float x = gen_in(s, c, -300, 300); R v = toR(x); c.note("log(exp) " + show(x)); c.nontrivial = !v.iszero(); check_close(c, "log-exp", toR(ef::log(ef::exp(x))), v, r::max(R(1), r::abs(v)), LIM, "log(exp(x))"); }
  else { GenOpt o; o.zero = false; o.neg = false; o.emin = -200; o.emax = 200; e_float x = gen_value(s, c, o); R v = toR(x); c.note("exp(log) " + show(x)); c.nontrivial = true; check_rel(c, "exp-log", toR(ef::exp(ef::log(x))), v, LIM + 1, "exp(log(x))"); }
}
TEST(E02_domain, 1000, 10000)
{ GenOpt o = window(s); o.zero = false; o.neg = false; e_float x = gen_value(s, c, o); if(x.iszero() || !x.isfinite()) throw Discard(); c.note(show(x)); c.nontrivial = true; REQUIRE(ef::log(-x).isnan(), "log-negative", "log of a negative value is " + show(ef::log(-x))); e_float z = ef::log(e_float()); REQUIRE(z.isinf() && z.isneg(), "log-zero", "log(0) is " + show(z)); REQUIRE(ef::log(L::quiet_NaN()).isnan(), "log-nan", "log(NaN)"); { const e_float o = e_float(1) + x; REQUIRE(ef::log1p1m2(L::quiet_NaN()).isnan() && ef::log1p1m2(o).isnan() && ef::log1p1m2(-o).isnan() && ef::log1p1m2(e_float(1)).isnan() && ef::log1p1m2(e_float(-1)).isnan(), "log1p1m2-domain", "log1p1m2 outside (-1,1) is not NaN"); REQUIRE(ef::log1p1m2(e_float()).iszero() && ef::log1p(e_float()).iszero(), "log1p-zero", "log1p(0) or log1p1m2(0) is not zero"); REQUIRE(ef::log1p(L::quiet_NaN()).isnan() && ef::log10(L::quiet_NaN()).isnan() && ef::loga(e_float(2), L::quiet_NaN()).isnan(), "log-nan", "log1p, log10 or loga of NaN"); } REQUIRE(ef::log(e_float(1)).iszero(), "log-one", "log(1) is not 0"); }

// Trigonometric functions.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static e_float from(const R& w) { if(w.iszero()) return e_float(); long e; std::string d = w.digits(D10 + 16, e); return e_float((w.sgn() < 0 ? "-0." : "0.") + d + "e" + std::to_string(e)); }
static e_float angle(Src& s, Ctx& c)
{
  switch(s.pick({4, 4, 4, 3, 2}))
  {
    case 0: return gen_in(s, c, -7, 7);
    case 1: return gen_in(s, c, -1000, 1000);
    case 2: { c.label("near-k-pi/4"); R w = R((long)s.range(-400, 400)) * r::pi() / R(4); if(s.chance(3, 4)) w += R((long)s.range(-99, 99)) * R::pow10(-1 - (long)s.draw(D10)); return from(w); }
    case 3: { c.label("small"); GenOpt o; o.emin = -130; o.emax = 0; return gen_value(s, c, o); }
    default: { c.label("large"); GenOpt o; o.emin = 3; o.emax = 25; return gen_value(s, c, o); }
  }
}
// absolute accuracy (in units of the size of the reduced argument error), relative accuracy for small arguments
static double lim_for(const R& v) { return LIM + (v.iszero() ? 0 : std::max(0.0, v.log10abs() - 4)); }
TEST(E04_sincos, 10000, 150000)
{
  e_float x = angle(s, c); R v = toR(x); if(!v.isfinite()) throw Discard(); c.note(show(x)); c.nontrivial = !v.iszero(); R ws = r::sin(v), wc = r::cos(v), gs = toR(ef::sin(x)), gc = toR(ef::cos(x)); double lim = lim_for(v); R one(1), small = r::abs(v) < one ? r::abs(v) : one;
  if(v.iszero()) { REQUIRE(gs.iszero() && gc == one, "zero", "sin(0), cos(0)"); return; } check_close(c, "sin", gs, ws, small, lim, "sin"); check_close(c, "cos", gc, wc, one, lim, "cos"); REQUIRE(r::abs(gs) <= one + R::pow10(-D10) && r::abs(gc) <= one + R::pow10(-D10), "bounded", "sine or cosine exceeds one");
  e_float a, b; ef::sincos(x, &a, &b); REQUIRE(toR(a) == gs && toR(b) == gc, "sincos", "sincos differs from sin and cos"); e_float a1, b1; ef::sincos(x, &a1, nullptr); ef::sincos(x, nullptr, &b1); REQUIRE(toR(a1) == gs && toR(b1) == gc, "sincos-null", "sincos with one null pointer");
  REQUIRE(toR(ef::sin(-x)) == -gs && toR(ef::cos(-x)) == gc, "parity", "sin is not odd or cos is not even");
}
TEST(E04_tan, 6000, 80000)
{
  e_float x = angle(s, c); R v = toR(x); if(!v.isfinite() || v.iszero()) throw Discard(); c.note(show(x)); c.nontrivial = true; R sn = r::sin(v), cs = r::cos(v); double lim = lim_for(v) + 0.7; R tol = R::pow10(-D10 + 30) ; R w = r::tan(v), as = r::abs(sn), ac = r::abs(cs); bool pole = ac < tol, zero = as < tol && v.log10abs() > -1;
  // absolute error of sin and cos propagated
  R sc = (r::min(r::abs(v), R(1)) / ac + as / (ac * ac)); if(!pole) check_close(c, "tan", toR(ef::tan(x)), w, sc, lim, "tan"); if(!pole) check_close(c, "sec", toR(ef::sec(x)), R(1) / cs, R(1) / (ac * ac), lim, "sec"); if(!zero) { check_close(c, "csc", toR(ef::csc(x)), R(1) / sn, r::min(r::abs(v), R(1)) / (as * as), lim, "csc"); check_close(c, "cot", toR(ef::cot(x)), cs / sn, R(1) / as + r::min(r::abs(v), R(1)) * ac / (as * as), lim, "cot"); }
}
TEST(E04_identities, 2500, 30000)
{
  e_float x = gen_in(s, c, -100, 100), y = gen_in(s, c, -100, 100); c.note(show(x) + " , " + show(y)); c.nontrivial = true; R one(1); R a = toR(ef::sin(x)), b = toR(ef::cos(x)), p = toR(ef::sin(y)), q = toR(ef::cos(y)); check_close(c, "pythagoras", a * a + b * b, one, one, LIM + 0.5, "sin^2+cos^2"); check_close(c, "addition", toR(ef::sin(x + y)), a * q + b * p, one, LIM + 0.7, "sin(x+y)"); check_close(c, "addition-cos", toR(ef::cos(x + y)), b * q - a * p, one, LIM + 0.7, "cos(x+y)"); check_close(c, "period", toR(ef::sin(x + ef::two_pi())), a, one, LIM + 0.5, "sin(x+2pi)"); check_close(c, "quarter", toR(ef::sin(ef::pi_half() - x)), b, one, LIM + 0.5, "sin(pi/2-x)");
}
TEST(E04_special, 300, 2000)
{ std::size_t k = s.draw(3); e_float x = k == 0 ? L::infinity() : k == 1 ? -L::infinity() : L::quiet_NaN(); c.note(k == 2 ? "nan" : "inf"); c.nontrivial = true; REQUIRE(ef::sin(x).isnan() && ef::cos(x).isnan() && ef::tan(x).isnan(), "special", "sin/cos/tan of a non-finite value is not NaN"); }

// Inverse trigonometric functions.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static e_float from(const R& w) { if(w.iszero()) return e_float(); long e; std::string d = w.digits(D10 + 16, e); return e_float((w.sgn() < 0 ? "-0." : "0.") + d + "e" + std::to_string(e)); }
static e_float unit(Src& s, Ctx& c)
{
  switch(s.pick({5, 4, 4, 1}))
  {
    case 0: return gen_in(s, c, -1, 1);
    case 1: { c.label("small"); GenOpt o; o.emin = -130; o.emax = -1; return gen_value(s, c, o); }
    case 2: { c.label("near-one"); R w = R(1) - R((long)s.draw(100)) * R::pow10(-2 - (long)s.draw(D10)); if(s.chance(1, 2)) w = -w; return from(w); }
    default: return e_float((long long)s.range(-1, 1));
  }
}
TEST(E05_asin_acos, 6000, 80000)
{
  e_float x = unit(s, c); R v = toR(x); if(r::abs(v) > R(1) || fuzzy_near_one(r::abs(v))) throw Discard(); c.note(show(x)); c.nontrivial = !v.iszero() && r::abs(v) != R(1); R g = toR(ef::asin(x)), h = toR(ef::acos(x));
  if(v.iszero()) REQUIRE(g.iszero(), "asin-zero", "asin(0) is not 0"); else { check_rel(c, "asin", g, r::asin(v), LIM, "asin"); REQUIRE((g.sgn() < 0) == (v.sgn() < 0), "asin-sign", "asin has the wrong sign"); } check_close(c, "acos", h, r::acos(v), R(1), LIM, "acos"); REQUIRE(toR(ef::asin(-x)) == -g, "asin-odd", "asin is not odd");
}
TEST(E05_atan, 6000, 80000)
{
  e_float x; switch(s.pick({4, 4, 2})) { case 0: x = gen_in(s, c, -20, 20); break; case 1: { GenOpt o; o.emin = -130; o.emax = 130; x = gen_value(s, c, o); break; } default: { GenOpt o = window(s, true); x = gen_value(s, c, o); } } R v = toR(x); if(!v.isfinite()) throw Discard(); c.note(show(x)); c.nontrivial = !v.iszero(); R g = toR(ef::atan(x)); if(v.iszero()) { REQUIRE(g.iszero(), "atan-zero", "atan(0) is not 0"); return; } check_rel(c, "atan", g, r::atan(v), LIM, "atan"); REQUIRE(toR(ef::atan(-x)) == -g, "atan-odd", "atan is not odd");
}
TEST(E05_atan2, 6000, 80000)
{
  GenOpt o; o.emin = -40; o.emax = 40; if(s.chance(1, 3)) { o.emin = -2; o.emax = 2; } if(s.chance(1, 6)) o = window(s, true); e_float y = gen_value(s, c, o), x = gen_value(s, c, o); if(s.chance(1, 4)) x = gen_related(s, c, y); if(s.chance(1, 10)) x = e_float(); if(s.chance(1, 10)) y = e_float(); R vy = toR(y), vx = toR(x); if(!vx.isfinite() || !vy.isfinite() || (vx.iszero() && vy.iszero())) throw Discard(); c.note("y=" + show(y) + " x=" + show(x)); c.nontrivial = !vx.iszero() && !vy.iszero(); c.label(vx.sgn() < 0 ? (vy.sgn() < 0 ? "q3" : "q2") : (vy.sgn() < 0 ? "q4" : "q1"));
  R want = r::atan2(vy, vx), g = toR(ef::atan2(y, x)); if(vy.iszero()) { want = vx.sgn() < 0 ? r::pi() : R(0); if(want.iszero()) { REQUIRE(g.iszero(), "atan2-zero", "atan2(0, positive) is not 0"); return; } } double q = vx.iszero() || vy.iszero() ? 0 : vy.log10abs() - vx.log10abs(); double rng = L::radix == 10 ? (double)L::max_exponent : (double)L::max_exponent * 0.301; if(std::fabs(q) > rng - 30) { check_close(c, "atan2-extreme", g, want, R(1), LIM, "atan2"); return; } check_rel(c, "atan2", g, want, LIM, "atan2"); REQUIRE((g.sgn() < 0) == (vy.sgn() < 0), "atan2-sign", "atan2 has the wrong sign");
}
TEST(E05_inverse, 1500, 15000)
{ e_float x = gen_in(s, c, -1, 1); R v = toR(x); c.note(show(x)); c.nontrivial = true; check_close(c, "sin-asin", toR(ef::sin(ef::asin(x))), v, R(1), LIM, "sin(asin(x))"); check_close(c, "cos-acos", toR(ef::cos(ef::acos(x))), v, R(1), LIM, "cos(acos(x))"); e_float t = gen_in(s, c, -1000, 1000); R w = toR(t); check_close(c, "tan-atan", toR(ef::tan(ef::atan(t))), w, R(1) + w * w, LIM, "tan(atan(x))"); }
TEST(E05_domain, 500, 5000)
{
  GenOpt o; o.zero = false; o.neg = false; o.emin = -D10 + 5; o.emax = 40; e_float x = e_float(1) + gen_value(s, c, o); if(!(x > e_float(1))) throw Discard(); c.note(show(x)); c.nontrivial = true; REQUIRE(ef::asin(x).isnan() && ef::asin(-x).isnan() && ef::acos(x).isnan() && ef::acos(-x).isnan(), "domain", "asin or acos outside [-1,1] is not NaN"); REQUIRE(ef::asin(L::quiet_NaN()).isnan() && ef::acos(L::quiet_NaN()).isnan() && ef::atan(L::quiet_NaN()).isnan(), "nan", "NaN is not propagated"); R ph = r::pi() / R(2); check_rel(c, "atan-inf", toR(ef::atan(L::infinity())), ph, LIM, "atan(inf)"); check_rel(c, "atan-inf", toR(ef::atan(-L::infinity())), -ph, LIM, "atan(-inf)"); const e_float in = L::infinity(); const R pi = r::pi(); const e_float sx = s.chance(1, 2) ? x : -x; auto ai = [&](const e_float& b, const e_float& a, const R& w) { const R g = toR(ef::atan2(b, a)); if(w.iszero()) REQUIRE(g.iszero(), "atan2-inf", "atan2 with x infinite is not 0"); else check_rel(c, "atan2-inf", g, w, LIM, "atan2 with an infinite argument"); }; ai(in, in, pi / R(4)); ai(-in, in, -pi / R(4)); ai(in, -in, pi * R(3) / R(4)); ai(-in, -in, -pi * R(3) / R(4)); ai(in, sx, ph); ai(-in, sx, -ph); ai(sx, in, R(0)); ai(sx, -in, sx.isneg() ? -pi : pi); REQUIRE(ef::atan2(L::quiet_NaN(), x).isnan() && ef::atan2(x, L::quiet_NaN()).isnan(), "atan2-nan", "atan2 does not propagate NaN");
}

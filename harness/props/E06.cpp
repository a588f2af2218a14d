// Hyperbolic functions and their inverses.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static e_float from(const R& w) { if(w.iszero()) return e_float(); long e; std::string d = w.digits(D10 + 16, e); return e_float((w.sgn() < 0 ? "-0." : "0.") + d + "e" + std::to_string(e)); }
static e_float arg(Src& s, Ctx& c) { switch(s.pick({4, 3, 4})) { case 0: return gen_in(s, c, -30, 30); case 1: return gen_in(s, c, -3000, 3000); default: { c.label("small"); GenOpt o; o.emin = -130; o.emax = 0; return gen_value(s, c, o); } } }
TEST(E06_hyperbolic, 8000, 100000)
{
  e_float x = arg(s, c); R v = toR(x); if(!v.isfinite()) throw Discard(); c.note(show(x)); c.nontrivial = !v.iszero(); R gs = toR(ef::sinh(x)), gc = toR(ef::cosh(x)), gt = toR(ef::tanh(x)); if(v.iszero()) { REQUIRE(gs.iszero() && gt.iszero() && gc == R(1), "zero", "sinh, cosh, tanh of zero"); return; } check_rel(c, "sinh", gs, r::sinh(v), LIM, "sinh"); check_rel(c, "cosh", gc, r::cosh(v), LIM, "cosh"); check_rel(c, "tanh", gt, r::tanh(v), LIM, "tanh"); e_float a, b; ef::sinhcosh(x, &a, &b); check_rel(c, "sinhcosh", toR(a), r::sinh(v), LIM, "sinhcosh (sinh)"); check_rel(c, "sinhcosh", toR(b), r::cosh(v), LIM, "sinhcosh (cosh)"); e_float a1, b1; ef::sinhcosh(x, &a1, nullptr); ef::sinhcosh(x, nullptr, &b1); REQUIRE(toR(a1) == toR(a) && toR(b1) == toR(b), "sinhcosh-null", "sinhcosh with one null pointer");
  REQUIRE(r::abs(gt) <= R(1) + R::pow10(-D10), "tanh-bounded", "|tanh| exceeds one"); check_rel(c, "sinh-odd", toR(ef::sinh(-x)), -gs, LIM, "sinh(-x)"); check_rel(c, "cosh-even", toR(ef::cosh(-x)), gc, LIM, "cosh(-x)");
}
TEST(E06_asinh, 5000, 60000)
{ e_float x; if(s.chance(1, 2)) x = gen_in(s, c, -50, 50); else { GenOpt o; o.emin = -130; o.emax = 400; x = gen_value(s, c, o); } R v = toR(x); if(!v.isfinite()) throw Discard(); c.note(show(x)); c.nontrivial = !v.iszero(); R g = toR(ef::asinh(x)); if(v.iszero()) REQUIRE(g.iszero(), "asinh-zero", "asinh(0)"); else { check_rel(c, "asinh", g, r::asinh(v), LIM, "asinh"); REQUIRE(toR(ef::asinh(-x)) == -g, "asinh-odd", "asinh is not odd"); } }
TEST(E06_acosh, 5000, 60000)
{ e_float x; switch(s.draw(3)) { case 0: x = gen_in(s, c, 1, 60); break; case 1: { c.label("near-one"); x = from(R(1) + R((long)s.draw(100)) * R::pow10(-2 - (long)s.draw(D10))); break; } default: { GenOpt o; o.neg = false; o.zero = false; o.emin = 0; o.emax = 400; x = gen_value(s, c, o); } } R v = toR(x); if(!v.isfinite() || v < R(1) || fuzzy_near_one(v)) throw Discard(); c.note(show(x)); c.nontrivial = v != R(1); R g = toR(ef::acosh(x)); if(v == R(1)) REQUIRE(g.iszero(), "acosh-one", "acosh(1) is " + g.str(20)); else check_rel(c, "acosh", g, r::acosh(v), LIM, "acosh"); }
TEST(E06_atanh, 5000, 60000)
{ e_float x; switch(s.draw(3)) { case 0: x = gen_in(s, c, -1, 1); break; case 1: { c.label("near-one"); R w = R(1) - R((long)(1 + s.draw(99))) * R::pow10(-2 - (long)s.draw(D10 - 3)); x = from(s.chance(1, 2) ? -w : w); break; } default: { GenOpt o; o.emin = -130; o.emax = -1; x = gen_value(s, c, o); } } R v = toR(x); if(r::abs(v) >= R(1) || fuzzy_near_one(r::abs(v))) throw Discard(); c.note(show(x)); c.nontrivial = !v.iszero(); R g = toR(ef::atanh(x)); if(v.iszero()) REQUIRE(g.iszero(), "atanh-zero", "atanh(0)"); else { check_rel(c, "atanh", g, r::atanh(v), LIM, "atanh"); } }
TEST(E06_identities, 1500, 15000)
{ e_float x = gen_in(s, c, -50, 50); R v = toR(x); c.note(show(x)); c.nontrivial = true; R sh = toR(ef::sinh(x)), ch = toR(ef::cosh(x)), e = toR(ef::exp(x)); check_close(c, "cosh2-sinh2", ch * ch - sh * sh, R(1), ch * ch, LIM, "cosh^2-sinh^2"); check_close(c, "exp", sh + ch, e, ch, LIM, "sinh+cosh"); check_close(c, "asinh-sinh", toR(ef::asinh(ef::sinh(x))), v, r::max(R(1), r::abs(v)), LIM, "asinh(sinh(x))"); }
TEST(E06_domain, 500, 5000)
{
  GenOpt o; o.zero = false; o.neg = false; o.emin = -D10 + 5; o.emax = 40; e_float d = gen_value(s, c, o), x = e_float(1) + d; if(!(x > e_float(1))) throw Discard(); c.note(show(x)); c.nontrivial = true; REQUIRE(ef::atanh(x).isnan() && ef::atanh(-x).isnan(), "atanh-domain", "atanh outside (-1,1) is not NaN"); REQUIRE(ef::acosh(-x).isnan() && ef::acosh(e_float(1) - d).isnan() == (e_float(1) - d < e_float(1)), "acosh-domain", "acosh below one is not NaN"); const e_float n = L::quiet_NaN(), i = L::infinity();
  { e_float p(3), q(4), w(5); ef::sinhcosh(i, &p, &q); REQUIRE(p.isinf() && !p.isneg() && q.isinf() && !q.isneg(), "sinhcosh-inf", "sinhcosh(inf)"); ef::sinhcosh(-i, &p, nullptr); ef::sinhcosh(-i, nullptr, &q); REQUIRE(p.isinf() && p.isneg() && q.isinf() && !q.isneg(), "sinhcosh-inf", "sinhcosh(-inf)"); ef::sinhcosh(n, &p, &q); REQUIRE(p.isnan() && q.isnan(), "sinhcosh-nan", "sinhcosh(NaN)"); ef::sinhcosh(e_float(), &p, &w); REQUIRE(p.iszero() && w == e_float(1), "sinhcosh-zero", "sinhcosh(0)"); }
  REQUIRE(ef::sinh(n).isnan() && ef::cosh(n).isnan() && ef::tanh(n).isnan() && ef::asinh(n).isnan() && ef::acosh(n).isnan() && ef::atanh(n).isnan(), "nan", "NaN is not propagated"); REQUIRE(ef::sinh(i).isinf() && !ef::sinh(i).isneg() && ef::sinh(-i).isinf() && ef::sinh(-i).isneg(), "sinh-inf", "sinh of an infinity"); REQUIRE(ef::cosh(i).isinf() && !ef::cosh(i).isneg() && ef::cosh(-i).isinf() && !ef::cosh(-i).isneg(), "cosh-inf", "cosh of an infinity"); REQUIRE(toR(ef::tanh(i)) == R(1) && toR(ef::tanh(-i)) == R(-1), "tanh-inf", "tanh of an infinity");
}

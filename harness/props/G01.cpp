// Gamma function, Pochhammer symbol, binomial coefficient of real arguments.
#include "../gen.h"
#include <functions/gamma/gamma_util.h>
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
// x log x bounds the exponent handed to exp: its absolute error is the relative error of the result.  Digits lost beyond 10^4.
static double lim(const R& x) { double m = x.log10abs(); double w = std::isfinite(m) && m > 0 ? m + std::log10(m * 2.31 + 1.0) : 0; return w > 5 ? LIM + (w - 5) : LIM; }
// negative arguments: the sine of the reflection formula sees pi*x with the relative precision of x
static double neg_lim(const R& x) { double l = lim(x); if(x.sgn() >= 0) return l; R d = r::abs(x - r::floor(x + R(0.5))); double k = r::max(r::abs(x), R(1)).log10abs() - d.log10abs(); return k > 3 ? l + k - 3 : l; }
static e_float ex(const R& r_, int dg) { return e_float(r_.str(dg)); }
static e_float garg(Src& s, Ctx& c, bool negok = true)
{
  e_float x;
  switch(s.pick({4, 3, 3, 3, 3, 2, 2}))
  {
    case 0: x = gen_in(s, c, 0.001, 30); break;
    case 1: c.label("x:int"); x = e_float((long long)(1 + s.draw(1100))); break;
    case 2: c.label("x:half"); x = e_float((long long)s.draw(2000)) + e_float((long long)(1 + s.draw(16))) / e_float(16); break;
    case 3: c.label("x:large"); x = gen_in(s, c, 10, 20000); break;
    case 4: { c.label("x:small"); GenOpt o; o.emin = -130; o.emax = -1; o.neg = false; o.zero = false; x = gen_value(s, c, o); break; }
    case 5: { c.label("x:near-int"); R d = R((long)(1 + s.draw(9999))) * R::pow10(-(long)s.range(5, 60)); R v = R((long)s.draw(60)) + (s.chance(1, 2) ? d : -d); x = ex(v, D10 + 10); break; }
    default: c.label("x:shift-limit"); { long base = 200 + (long)s.draw(80); x = ex(R(base) + R((long)s.draw(1000)) / R(1000), D10); }
  }
  if(negok && s.chance(1, 3)) { c.label("x:neg"); x = -x; }
  return x;
}
TEST(G01_gamma, 4000, 60000)
{
  e_float x = garg(s, c); R rx = toR(x); c.note("gamma(" + show(x) + ")"); e_float g = ef::gamma(x);
  if(rx.isint() && rx.sgn() <= 0) { REQUIRE(g.isnan(), "pole", "gamma at a pole gave " + show(g)); return; }
  c.nontrivial = !rx.isint(); R want = r::gamma(rx);
  std::string tag = rx.sgn() < 0 ? (rx.log10abs() < -10 ? "gamma-neg-small" : "gamma-neg") : rx.log10abs() < -10 ? "gamma-small" : rx > R(1000) ? "gamma-large" : "gamma";
  check_rel(c, tag, toR(g), want, neg_lim(rx), "gamma");
  if(rx.isint() && want.log10abs() < D10) REQUIRE(toR(g) == want, "gamma-int", "gamma of an integer is not exact: " + show(g));
}
TEST(G01_huge, 300, 3000)
{
  e_float x; if(s.chance(1, 2)) { x = gen_in(s, c, 2e4, 1e8); } else { GenOpt o; o.emin = 4; o.emax = 11; o.neg = false; o.zero = false; x = gen_value(s, c, o); } bool neg = s.chance(1, 3); if(neg) x = -x;
  R rx = toR(x); c.note("gamma(" + show(x) + ")"); e_float g = ef::gamma(x); if(rx.isint() && neg) { REQUIRE(g.isnan(), "pole", "gamma at a pole gave " + show(g)); return; } c.nontrivial = true;
  R ax = r::abs(rx); double lg10 = (ax.dbl() * (std::log(ax.dbl()) - 1)) / std::log(10.0); double hi = L::radix == 10 ? (double)L::max_exponent : (double)L::max_exponent * std::log10(2.0);
  if(lg10 > hi * 1.01) { c.label("overflow"); if(!neg) REQUIRE(g.isinf() && !g.isneg(), "overflow", "gamma beyond the range gave " + show(g)); else REQUIRE(g.iszero(), "underflow", "gamma below the range gave " + show(g)); return; }
  if(lg10 > hi * 0.99 || lg10 > 3e8) throw Discard();
  R want; { r::Prec q(R::prec + 128); R lgm = r::lngamma(neg ? R(1) - rx : rx); if(neg) { R sn = r::sin(r::pi() * rx); want = r::pi() / (sn * r::exp(lgm)); } else want = r::exp(lgm); }
  check_rel(c, neg ? "gamma-huge-neg" : "gamma-huge", toR(g), want, neg_lim(rx), "gamma");
}
TEST(G01_special, 40, 100)
{ int k = (int)s.draw(2); c.note("gamma special " + tos(k)); c.nontrivial = true; if(k == 0) REQUIRE(ef::gamma(L::quiet_NaN()).isnan(), "nan", "gamma(NaN) is not NaN"); else { e_float g = ef::gamma(L::infinity()); REQUIRE(g.isinf() && !g.isneg(), "inf", "gamma(inf) is not inf"); } }
TEST(G01_near_n, 1500, 15000)
{
  long n = s.range(-40, 40); GenOpt o; o.emin = -120; o.emax = -2; o.zero = false; e_float x = gen_value(s, c, o); R rx = toR(x); c.note("gamma_near_n(" + tos(n) + ", " + show(x) + ")"); c.nontrivial = true;
  R want; { r::Prec q(R::prec * 2); want = r::gamma(R(n) + rx); } if(n > 0) { check_rel(c, "near-n-pos", toR(ef::gamma_near_n((int)n, x)), want, LIM, "gamma_near_n"); } else check_rel(c, "near-n", toR(ef::gamma_near_n((int)n, x)), want, LIM, "gamma_near_n");
}
TEST(G01_plus_minus, 600, 6000)
{
  e_float x = garg(s, c); R rx = toR(x); if(rx.isint()) throw Discard(); c.note("GammaOfPlusXMinusX(" + show(x) + ")"); c.nontrivial = true; e_float p, m; GammaUtil::GammaOfPlusXMinusX(x, p, m);
  check_rel(c, "plus-x", toR(p), r::gamma(rx), std::max(neg_lim(rx), neg_lim(-rx)), "gamma(x)"); check_rel(c, "minus-x", toR(m), r::gamma(-rx), std::max(neg_lim(rx), neg_lim(-rx)), "gamma(-x)");
}
// rising factorial by exact rational product
static R poch(const R& x, unsigned long n) { r::Prec q(R::prec * 2); R p(1); for(unsigned long i = 0; i < n; ++i) p *= (x + R(i)); return p; }
TEST(G01_pochhammer_n, 2500, 25000)
{
  std::uint32_t n = s.chance(1, 2) ? (std::uint32_t)s.draw(70) : (std::uint32_t)s.draw(400); e_float x; bool integer = s.chance(1, 3); if(integer) { c.label("x:int"); x = e_float((long long)s.range(-300, 300)); } else x = garg(s, c); R rx = toR(x);
  c.note("pochhammer(" + show(x) + ", " + tos(n) + ")"); c.nontrivial = n > 1; e_float g = ef::pochhammer(x, n); R want = poch(rx, n); if(want.iszero()) { REQUIRE(g.iszero(), "poch-zero", "a product with a zero factor gave " + show(g)); return; }
  R e = rx + R((long)n); double k = 0; // conditioning of the factors next to zero
  k = rx.isint() ? lim(r::max(r::abs(rx), r::abs(e))) : std::max(neg_lim(rx), neg_lim(e));
  check_rel(c, n < 50 ? "poch-small" : (rx.isint() ? "poch-int" : "poch-large"), toR(g), want, k, "pochhammer");
}
TEST(G01_pochhammer_a, 800, 8000)
{
  e_float x = garg(s, c), a = garg(s, c); R rx = toR(x), ra = toR(a); { R t = rx + ra; if((t.isint() && t.sgn() <= 0) || (rx.isint() && rx.sgn() <= 0)) throw Discard(); R d1 = r::abs(t - r::floor(t + R(0.5))); if(t.sgn() < 0 && d1.log10abs() < -20) throw Discard(); if(t.log10abs() < -20) throw Discard(); }
  c.note("pochhammer(" + show(x) + ", " + show(a) + ")"); c.nontrivial = true; R want; { r::Prec q(R::prec * 2); want = r::gamma(rx + ra) / r::gamma(rx); } R t = rx + ra; double extra = std::max(0.0, std::max(rx.log10abs(), ra.log10abs()) - t.log10abs()); // x + a is rounded
  R m = r::max(r::abs(rx), r::max(r::abs(ra), r::abs(t))); R dist = t.sgn() < 0 ? r::abs(t - r::floor(t + R(0.5))) : R(1); double lo = std::max(neg_lim(rx), std::max(neg_lim(t), lim(m) - (t.sgn() < 0 ? std::min(0.0, dist.log10abs() + 1) : 0))); check_rel(c, "poch-a", toR(ef::pochhammer(x, a)), want, lo + std::max(0.0, extra - 2), "pochhammer");
}
TEST(G01_binomial_real, 800, 8000)
{
  int kind = (int)s.draw(3); e_float g; R want; double lo = LIM; auto pole = [](const R& v) { return v.isint() && v.sgn() <= 0; }; auto near = [](const R& v) { return v.sgn() <= 0 && r::abs(v - r::floor(v + R(0.5))).log10abs() < -20; };
  e_float x, y; std::uint32_t k = (std::uint32_t)s.draw(120); r::Prec q(R::prec * 2); R rx, ry;
  if(kind == 0) { x = e_float((long long)k); y = garg(s, c); } else if(kind == 1) { x = garg(s, c); y = e_float((long long)k); } else { x = garg(s, c); y = garg(s, c); }
  rx = toR(x); ry = toR(y); R a = rx + R(1), b = ry + R(1), d = rx - ry + R(1); if(pole(a) || pole(b) || pole(d) || near(a) || near(b) || near(d)) throw Discard(); if(r::max(r::abs(rx), r::abs(ry)).log10abs() > 4) throw Discard();
  R dr = rx - ry; if(a.log10abs() < -3 || b.log10abs() < -3 || d.log10abs() < -3) throw Discard();
  c.note("binomial(" + show(x) + ", " + show(y) + ")"); c.nontrivial = true; want = r::gamma(a) / (r::gamma(b) * r::gamma(d)); g = kind == 0 ? ef::binomial(k, y) : kind == 1 ? ef::binomial(x, k) : ef::binomial(x, y);
  auto dl = [&](const R& v) { if(v.sgn() >= 0) return 0.0; R ds = r::abs(v - r::floor(v + R(0.5))); return std::max(0.0, 3.0 + r::max(r::abs(rx), r::max(r::abs(ry), R(1))).log10abs() - ds.log10abs() - 6); };
  lo = LIM + std::max(dl(a), std::max(dl(b), dl(d))); check_rel(c, "binomial-real", toR(g), want, lo, "binomial");
}
TEST(G01_recurrence, 600, 6000)
{ e_float x = garg(s, c, false); c.note("x=" + show(x)); R rx = toR(x); if(rx.log10abs() < -40) throw Discard(); c.nontrivial = true; e_float a = ef::gamma(x + ef::one()), b = x * ef::gamma(x); check_rel(c, "recurrence", toR(a), toR(b), lim(rx) + 1, "gamma(x+1) vs x gamma(x)"); }

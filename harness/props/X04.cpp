// Gamma function, Pochhammer symbol and Riemann zeta function of complex arguments.
#include "../zgen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
static e_float ex(const R& r_, int dg) { return e_float(r_.str(dg)); }
static R near_int_dist(const C& z) { R n = r::floor(z.re + R(0.5)); return r::abs(C(z.re - n, z.im)); }
// z log z bounds the exponent handed to exp: digits are lost beyond 10^4; for negative real parts also next to the poles
static double glim(const C& z)
{
  double m = r::abs(z).log10abs(); double w = std::isfinite(m) && m > 0 ? m + std::log10(m * 2.31 + 1.0) : 0; double l = w > 5 ? LIM + (w - 5) : LIM;
  if(z.re.sgn() < 0) { R d = near_int_dist(z); double k = r::max(r::abs(z), R(1)).log10abs() - d.log10abs(); if(k > 3) l += k - 3; }
  return l;
}
static e_float part(Src& s, Ctx& c)
{
  switch(s.pick({4, 3, 2, 2, 2}))
  {
    case 0: { e_float x = gen_in(s, c, 0.001, 30); return s.chance(1, 2) ? -x : x; }
    case 1: c.label("part:int"); return e_float((long long)s.range(-40, 400));
    case 2: c.label("part:half"); return e_float((long long)s.range(-60, 600)) + ef::half();
    case 3: { c.label("part:small"); GenOpt o; o.emin = -130; o.emax = -1; return gen_value(s, c, o); }
    default: { c.label("part:large"); e_float x = gen_in(s, c, 10, 3000); return s.chance(1, 4) ? -x : x; }
  }
}
static Z garg(Src& s, Ctx& c)
{
  switch(s.pick({6, 2, 2, 2}))
  {
    case 0: return Z(part(s, c), part(s, c));
    case 1: c.label("z:real"); return Z(part(s, c));
    case 2: c.label("z:imag"); return Z(e_float(0), part(s, c));
    default: { c.label("z:near-int"); R d = R((long)(1 + s.draw(999))) * R::pow10(-(long)s.range(3, 60)), f = R((long)(1 + s.draw(999))) * R::pow10(-(long)s.range(3, 60)); R n((long)s.range(-20, 60)); return Z(ex(s.chance(1, 3) ? n : s.chance(1, 2) ? n + d : n - d, D10 + 10), ex(s.chance(1, 2) ? f : -f, D10)); }
  }
}
TEST(X04_gamma, 1500, 20000)
{
  Z z = garg(s, c); C w = toC(z); c.note("gamma" + show(z)); if(w.im.iszero() && w.re.isint() && w.re.sgn() <= 0) { Z g = ef::gamma(z); REQUIRE(!g.real().isfinite() || !g.imag().isfinite(), "pole", "gamma at a pole gave " + show(g)); return; }
  c.nontrivial = !w.re.iszero() && !w.im.iszero(); C want = r::gamma(w); double m = r::abs(want).log10abs(); if(!(std::fabs(m) < 1e6)) throw Discard(); Z g = ef::gamma(z);
  double a = r::abs(w).log10abs(); std::string tag = std::string(w.re.sgn() < 0 ? "gamma-left" : "gamma-right") + (a < -10 ? "-small" : w.re.isint() ? "-int" : ""); check_zr(c, tag, g, want, glim(w), "gamma");
  if(w.im.iszero() && w.re.sgn() != 0) { REQUIRE(g.imag().iszero(), "real-axis", "gamma of a real argument has the imaginary part " + show(g.imag())); check_rel(c, "real-agrees", toR(g.real()), toR(ef::gamma(z.real())), glim(w), "complex against real gamma"); }
  else { Z h = ef::gamma(Z(z.real(), -z.imag())); REQUIRE(toR(h.real()).isfinite() && toR(h.imag()).isfinite(), "conj", "gamma of the conjugate is not finite"); check_zr(c, "conj", h, C(want.re, -want.im), glim(w), "gamma of the conjugate"); }
}
TEST(X04_pochhammer_n, 400, 5000)
{
  Z z = garg(s, c); std::uint32_t n = (std::uint32_t)(s.chance(2, 3) ? s.draw(60) : s.draw(400)); if(s.chance(1, 6)) { c.label("z:real-int"); z = Z(e_float((long long)s.range(-330, 40))); } C w = toC(z); const bool ri = w.im.iszero() && w.re.isint(); if(w.re.sgn() < 0 && w.im.iszero() && !ri) throw Discard(); c.note("pochhammer(" + show(z) + ", " + tos(n) + ")"); c.nontrivial = n > 1 && !w.im.iszero();
  C want(R(1)); { C t = w; for(std::uint32_t i = 0; i < n; ++i) { want = want * t; t = t + C(R(1)); } } if(want.re.iszero() && want.im.iszero()) { Z g = ef::pochhammer(z, n); REQUIRE(g.real().iszero() && g.imag().iszero(), "pochhammer-zero", "a product with a zero factor is " + show(g)); return; }
  C z2(w.re + R((long)n), w.im); double l = ri ? LIM : std::max(glim(w), glim(z2)); check_zr(c, n < 50 ? "pochhammer-product" : "pochhammer-gamma", ef::pochhammer(z, n), want, l, "pochhammer");
}
TEST(X04_pochhammer_a, 250, 3000)
{
  Z z = garg(s, c), a = garg(s, c); C w = toC(z), b = toC(a), t = w + b; auto pole = [](const C& q) { return q.im.iszero() && q.re.isint() && q.re.sgn() <= 0; }; C st = toC(z + a); if(pole(w) || pole(t) || pole(st)) throw Discard(); c.note("pochhammer(" + show(z) + ", " + show(a) + ")"); c.nontrivial = !w.im.iszero() && !b.im.iszero();
  // the sum of the arguments is rounded: its error times psi is the error of the result
  R d = near_int_dist(t); double k = r::max(r::max(r::abs(w), r::abs(b)), R(1)).log10abs() - (t.re < R(0.5) ? d.log10abs() : 0.0); double l = std::max(glim(w), glim(t)); if(k > 5) l += k - 5;
  C want = r::gamma(t) / r::gamma(w); check_zr(c, "pochhammer-complex", ef::pochhammer(z, a), want, l, "pochhammer");
}
static e_float zpart(Src& s, Ctx& c, bool im)
{
  switch(s.pick({4, 2, 2, 1}))
  {
    case 0: { e_float x = gen_in(s, c, 0.001, 30); return s.chance(1, 2) ? -x : x; }
    case 1: c.label("part:int"); return e_float((long long)s.range(-30, 60));
    case 2: { GenOpt o; o.emin = -60; o.emax = 0; return gen_value(s, c, o); }
    default: { c.label("part:large"); e_float x = im ? gen_in(s, c, 20, s.chance(1, 6) ? 600 : 120) : gen_in(s, c, 10, 100); return s.chance(1, 3) ? -x : x; }
  }
}
static double zlim(const C& w)
{
  double l = LIM; { double m = r::abs(w).log10abs(); double q = m > 0 ? m + std::log10(m * 2.31 + 1.0) : 0; if(q > 5) l += q - 5; }
  if(w.re.sgn() < 0) { C h(w.re / R(2), w.im / R(2)); double k = r::max(r::abs(w), R(1)).log10abs() - near_int_dist(h).log10abs(); if(k > 3) l += k - 3; }
  else if(r::abs(w.im) > R(1)) { C e = C(R(1)) - r::pow(C(R(2)), C(R(1)) - w); double k = -r::abs(e).log10abs(); if(k > 1) l += k - 1; } // zeros of 1 - 2^(1-s)
  return l;
}
TEST(X04_zeta, 350, 5000)
{
  Z z; switch(s.pick({5, 2, 2, 2, 1})) { case 0: z = Z(zpart(s, c, false), zpart(s, c, true)); break; case 1: c.label("critical-line"); z = Z(ef::half(), zpart(s, c, true)); break; case 2: c.label("strip"); z = Z(gen_in(s, c, 0, 1), zpart(s, c, true)); break;
    case 3: { c.label("near-one"); R d = R((long)s.range(-999, 999)) * R::pow10(-(long)s.range(3, 60)), f = R((long)(1 + s.draw(999))) * R::pow10(-(long)s.range(3, 60)); z = Z(ex(R(1) + d, D10 + 10), ex(s.chance(1, 2) ? f : -f, D10)); break; }
    default: c.label("z:real"); z = Z(zpart(s, c, false)); }
  C w = toC(z); c.note("riemann_zeta" + show(z)); if(w.im.iszero() && w.re == R(1)) throw Discard(); c.nontrivial = !w.re.iszero() && !w.im.iszero();
  if(w.im.iszero()) { e_float x = ef::riemann_zeta(z.real()); Z g = ef::riemann_zeta(z); REQUIRE(g.imag().iszero(), "real-axis", "zeta of a real argument has an imaginary part"); REQUIRE(same(toR(g.real()), toR(x)), "real-agrees", "the complex and real zeta function differ: " + show(g) + " and " + show(x)); return; }
  C want; { r::Prec q((long)(D10 * 3.33) + 200); want = r::zeta(w); } Z g = ef::riemann_zeta(z);
  std::string tag = w.re.sgn() < 0 ? "zeta-left" : w.re > R(1) ? "zeta-right" : "zeta-strip"; R sc = w.re.sgn() < 0 ? r::abs(want) : r::max(r::abs(want), R(1)); check_z(c, tag, g, want, sc, zlim(w), "zeta");
  Z h = ef::riemann_zeta(Z(z.real(), -z.imag())); check_z(c, "zeta-conj", h, C(want.re, -want.im), sc, zlim(w), "zeta of the conjugate");
}

// Riemann zeta function of integers and real arguments.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static double lim(const R& x) { double m = x.log10abs(); double w = std::isfinite(m) && m > 0 ? m + std::log10(m * 2.31 + 1.0) : 0; return w > 5 ? LIM + (w - 5) : LIM; }
static R zeta_ref(const R& s) { r::Prec q((long)(D10 * 3.33) + 160); return r::zeta(s); }
static void one(Ctx& c, const std::string& tag, const e_float& g, const R& s)
{
  if(s == R(1)) { REQUIRE(!g.isfinite(), "pole", "zeta(1) gave " + show(g)); return; }
  R w = zeta_ref(s); if(w.iszero()) { REQUIRE(g.iszero(), tag + ":trivial-zero", "zeta at a negative even integer gave " + show(g)); return; }
  double lg = lim(s); if(s < R(-1)) { // next to the trivial zeros
    R h = s / R(2); R d = r::abs(h - r::floor(h + R(0.5))); if(!d.iszero()) { double k = r::abs(s).log10abs() - d.log10abs(); if(k > 3) lg += k - 3; } }
  check_rel(c, tag, toR(g), w, lg, "zeta(" + show(s) + ")");
}
TEST(Z01_integer, 2500, 25000)
{
  std::int32_t n; switch(s.pick({4, 3, 2, 2, 1})) { case 0: n = (std::int32_t)s.range(-60, 60); break; case 1: n = (std::int32_t)s.range(0, 420); break; case 2: n = -(std::int32_t)s.draw(2200); break; case 3: n = (std::int32_t)s.draw(1u << 31); break; default: n = 1990 + (std::int32_t)s.draw(20); if(s.chance(1, 2)) n = -n; }
  c.note("riemann_zeta(" + tos(n) + ")"); c.nontrivial = n > 1 || (n < 0 && n % 2); one(c, n > 0 ? (n % 2 ? "zeta-int-odd" : "zeta-int-even") : "zeta-int-neg", ef::riemann_zeta(n), R(n));
}
TEST(Z01_real, 2500, 25000)
{
  e_float x; std::string tag; GenOpt o; o.zero = false;
  switch(s.pick({4, 3, 3, 3, 3, 3, 2, 2}))
  {
    case 0: tag = "mid"; x = gen_in(s, c, 0, 12); break;
    case 1: tag = "critical-strip"; x = gen_in(s, c, 0, 1); break;
    case 2: tag = "near-one"; { R d = R((long)(1 + s.draw(9999))) * R::pow10(-(long)s.range(4, 60)); x = e_float((R(1) + (s.chance(1, 2) ? d : -d)).str(D10 + 10)); } break;
    case 3: tag = "near-zero"; { o.emin = -130; o.emax = -1; x = gen_value(s, c, o); } break;
    case 4: tag = "negative"; x = gen_in(s, c, -60, 0); break;
    case 5: tag = "switch"; x = gen_in(s, c, 25, 45); break;
    case 6: tag = "large"; { o.emin = 1; o.emax = 6; o.neg = false; x = gen_value(s, c, o); } break;
    default: tag = "int"; x = e_float((long long)s.range(-200, 200)); break;
  }
  R rx = toR(x); if(rx.iszero()) { c.note("zeta(0)"); REQUIRE(toR(ef::riemann_zeta(x)) == R(-0.5), "zeta-zero", "zeta(0) is not -1/2"); return; }
  c.note("riemann_zeta(" + show(x) + ")"); c.label(tag); c.nontrivial = !rx.isint(); one(c, "zeta-" + tag, ef::riemann_zeta(x), rx);
}
TEST(Z01_consistent, 400, 4000)
{ std::int32_t n = (std::int32_t)s.range(-300, 400); c.note("n=" + tos(n)); c.nontrivial = true; e_float a = ef::riemann_zeta(n), b = ef::riemann_zeta(e_float((long long)n)); if(!a.isfinite()) { REQUIRE(!b.isfinite(), "consistent", "integer and real overload differ"); return; } if(a.iszero()) { REQUIRE(b.iszero(), "consistent", "integer and real overload differ: " + show(a) + " and " + show(b)); return; } check_rel(c, "consistent", toR(a), toR(b), LIM, "zeta(int) against zeta(real)"); }
TEST(Z01_special, 20, 60) { c.note("NaN"); c.nontrivial = true; REQUIRE(ef::riemann_zeta(L::quiet_NaN()).isnan(), "nan", "zeta(NaN) is not NaN"); }

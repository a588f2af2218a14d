// Overflow and underflow: the ends of the exponent range.
#include "../gen.h"
#include <limits>
typedef std::numeric_limits<e_float> L;
static const double LIM = -(double)D10;
static const double ZONE = L::radix == 10 ? 1e-5 : 24;      // decades next to the limit where both answers are accepted (binary back ends: min_exponent10 is not exactly the limit of the multiplication)
static const double TOP = L::radix == 10 ? (double)L::max_exponent + 1 : (double)L::max_exponent * 0.30102999566398119521, BOT = L::radix == 10 ? (double)L::min_exponent : (double)L::min_exponent * 0.30102999566398119521;
static e_float near_end(Src& s, Ctx& c, long& e)
{
  GenOpt o; o.zero = false; bool hi = s.chance(1, 2); long lim = (long)(hi ? TOP : -BOT); long d = (long)s.draw(s.chance(1, 2) ? 60 : 2000) + (L::radix == 10 ? 0 : 2); if(s.chance(1, 8)) { c.label("outermost"); d = (long)s.draw(3) + (L::radix == 10 ? 0 : 2); } if(s.chance(1, 4)) d = lim / 2 + s.range(-100, 100); if(s.chance(1, 8)) d = lim / 3 + s.range(-50, 50);
  e = hi ? lim - d : -(lim - d); o.emin = o.emax = e; return gen_value(s, c, o);
}
static void judge(Ctx& c, const char* sig, const e_float& z, const R& want, const std::string& what)
{
  double l = want.log10abs(); R got = toR(z); bool neg = want.sgn() < 0;
  REQUIRE(!got.isnan(), std::string(sig) + ":nan", what + " gave NaN, expected about 10^" + std::to_string(l));
  if(l > TOP + ZONE) { c.label("overflow"); REQUIRE(got.isinf() && z.isneg() == neg, std::string(sig) + ":overflow", what + " gave " + got.str(20) + ", expected " + (neg ? "-inf" : "+inf")); }
  else if(l < BOT - ZONE) { c.label("underflow"); REQUIRE(z.iszero(), std::string(sig) + ":underflow", what + " gave " + got.str(20) + ", expected 0"); }
  else if(l > TOP - ZONE) { c.label("top-zone"); if(got.isinf()) REQUIRE(z.isneg() == neg, std::string(sig) + ":inf-sign", what + " gave an infinity of the wrong sign"); else check_rel(c, std::string(sig) + ":top", got, want, LIM, what); }
  else if(l < BOT + ZONE) { c.label("bottom-zone"); if(!z.iszero() && (l > BOT + 2 || L::radix == 10)) check_rel(c, std::string(sig) + ":bottom", got, want, LIM, what); }
  else { c.label("in-range"); check_rel(c, std::string(sig) + ":in-range", got, want, LIM, what); }
}
TEST(A07_ops, 40000, 600000)
{
  long e1, e2; e_float x = near_end(s, c, e1), y; 
  if(s.chance(1, 3)) { GenOpt o; o.zero = false; o.emin = -80; o.emax = 80; y = gen_value(s, c, o); } else y = near_end(s, c, e2);
  if(!x.isfinite() || !y.isfinite() || x.iszero() || y.iszero()) throw Discard();
  R a = toR(x), b = toR(y); c.note(show(x) + " , " + show(y)); c.nontrivial = true;
  judge(c, "mul", x * y, a * b, "x*y"); judge(c, "div", x / y, a / b, "x/y"); judge(c, "inv", e_float(x).calculate_inv(), R(1) / a, "1/x");
  if(L::radix == 10 && s.chance(1, 4)) { e_float t = x, w = t; t += w * e_float(s.range(-99999999, 99999999), -(std::int64_t)s.draw(40)); R d = toR(t) - toR(w); e_float z = t - w; if(t.isfinite() && !d.iszero() && std::fabs(d.log10abs() - BOT) < 30) { c.label("cancel-at-bottom"); double l = d.log10abs(); if(l < BOT - ZONE) REQUIRE(z.iszero(), "sub:underflow", "x-y below min() gave " + toR(z).str(20)); else if(l > BOT + ZONE) check_rel(c, "sub:bottom", toR(z), d, LIM, "x-y"); } }
  R sum = a + b; if(!sum.iszero() && std::fabs(a.log10abs() - b.log10abs()) > 2) judge(c, "add", x + y, sum, "x+y");
}
TEST(A07_scaling, 8000, 100000)
{
  // repeated scaling by built-in integers across the limit: infinity / zero is reached and kept
  bool up = s.chance(1, 2); GenOpt o; o.zero = false; long e = (long)(up ? TOP : BOT) + (up ? -1 : 1) * (long)((L::radix == 10 ? 0 : 3) + s.draw(12)); o.emin = o.emax = e; e_float x = gen_value(s, c, o); if(!x.isfinite() || x.iszero()) throw Discard(); R a = toR(x); std::string h; c.nontrivial = true; bool ended = false; bool smallonly = s.chance(1, 3);
  for(int i = 0; i < 60; ++i)
  {
    bool sg = s.chance(1, 3); bool un = s.chance(1, 2); unsigned long long n = smallonly ? 2 + s.draw(99999997) : s.chance(1, 2) ? 2 + s.draw(998) : 2 + s.draw(1000000000000ULL); h += (up ? "*" : "/") + std::to_string(n) + (un ? "u" : ""); c.desc = show(toR(e_float(1))) + " start 10^" + std::to_string(e) + " " + h;
    if(un) { if(up) x *= n; else x /= n; } else { long long k = sg ? -(long long)n : (long long)n; if(up) x *= k; else x /= k; if(sg) a = -a; }
    if(up) a *= R(n); else a /= R(n);
    REQUIRE(!x.isnan(), "scale:nan", "repeated scaling gave NaN");
    if(up && x.isinf()) ended = true; if(!up && x.iszero()) ended = true;
    if(ended) { if(up) REQUIRE(x.isinf() && x.isneg() == (a.sgn() < 0), "scale:inf-kept", "infinity was lost or has the wrong sign: " + show(x)); else REQUIRE(x.iszero(), "scale:zero-kept", "zero was lost: " + show(x)); }
    double l = a.log10abs(); if(l > TOP + ZONE) { REQUIRE(x.isinf(), "scale:overflow", "value " + toR(x).str(20) + " should have overflowed to infinity"); if(l > TOP + 60) break; } else if(l < BOT - ZONE) { REQUIRE(x.iszero(), "scale:underflow", "value " + toR(x).str(20) + " should have underflowed to zero"); if(l < BOT - 60) break; }
    else if(up ? l < TOP - ZONE : l > BOT + ZONE) REQUIRE(!ended, "scale:early", "infinity or zero although the value is only 10^" + std::to_string(l));
  }
}
TEST(A07_limits, 4000, 20000)
{
  // numeric_limits max / min themselves
  e_float mx = (L::max)(), mn = (L::min)(); REQUIRE(mx.isfinite() && !mx.isneg() && mn.isfinite() && mn > e_float(0), "limits-finite", "max() / min() are not finite positive"); c.nontrivial = true; R M = toR(mx), m = toR(mn);
  REQUIRE(std::fabs(M.log10abs() - (L::max_exponent10 + 1)) < 1.5 && std::fabs(m.log10abs() - L::min_exponent10) < 1.5, "limits-exponent", "max()/min() do not match max_exponent10/min_exponent10: " + M.str(10) + " " + m.str(10));
  e_float inf = L::infinity(); GenOpt o = window(s, true); o.zero = false; e_float x = gen_value(s, c, o); if(!x.isfinite() || x.iszero()) throw Discard(); c.note(show(x)); REQUIRE(x <= mx && -mx <= x && x < inf && -inf < x, "max-bounds", "a finite value exceeds max()"); REQUIRE(ef::fabs(x) >= mn, "min-bounds", "a non-zero finite value is below min()");
  e_float big = mx * x, sm = mn / x; R ax = r::abs(toR(x)); if(ax > R::pow10((long)(TOP - L::max_exponent10 + 30)) && ax > R::pow10((long)(L::min_exponent10 - BOT + 30))) { REQUIRE(big.isinf() && big.isneg() == x.isneg(), "max-times", "max*x is not an infinity of the right sign"); REQUIRE(sm.iszero(), "min-over", "min/x did not underflow to zero"); }
  REQUIRE((mx / mx) == e_float(1) || within(toR(mx / mx), R(1), R(1), LIM), "max-over-max", "max/max"); check_rel(c, "half-max", toR(mx / 2), M / R(2), LIM, "max/2"); check_rel(c, "twice-min", toR(mn * 2), m * R(2), LIM, "min*2");
}

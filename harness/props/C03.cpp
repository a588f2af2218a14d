// Integer part, decimal part, floor, ceil, fmod, nearness predicates.
#include "../gen.h"
#include <limits>
static const double LIM = -(double)D10;
static e_float value(Src& s, Ctx& c)
{
  switch(s.pick({4, 3, 4, 2}))
  {
    case 0: { GenOpt o; o.emin = -20; o.emax = 30; return gen_value(s, c, o); }
    case 1: { GenOpt o; o.emin = -150; o.emax = D10 + 60; return gen_value(s, c, o); }
    case 2:
    { // an integer plus or minus something small
      c.label("near-int"); GenOpt o; o.emin = 0; o.emax = s.chance(1, 2) ? 12 : D10 - 3; R v = r::trunc(toR(gen_value(s, c, o))); if(s.chance(1, 8)) v = R(0); double lg = v.iszero() ? 0 : v.log10abs(); long room = D10 + 20 - (long)lg; R w = v; if(s.chance(3, 4)) { R t = R::pow10(-1 - (long)s.draw(room > 1 ? room : 1)); w = s.chance(1, 2) ? v + t : v - t; } if(s.chance(1, 8)) w = v + R(0.5); if(w.iszero()) return e_float(); long e; std::string d = w.digits(D10 + 24, e); return e_float((w.sgn() < 0 ? "-0." : "0.") + d + "e" + std::to_string(e));
    }
    default: { GenOpt o = window(s, true); return gen_value(s, c, o); }
  }
}
// beyond 10^(digits10-1) the last integer digits are not resolved
static bool resolved(const R& v) { return v.iszero() || v.log10abs() < D10 - 1; }
static void judge(Ctx& c, const char* sig, const e_float& z, const R& want, const R& v, const std::string& what)
{
  R got = toR(z); if(resolved(v)) REQUIRE(same(got, want), sig, what + " = " + got.str(D10 + 20) + ", expected " + want.str(D10 + 20)); else check_close(c, std::string(sig) + ":large", got, want, r::abs(v), LIM, what);
}
TEST(C03_parts, 40000, 1000000)
{
  e_float x = value(s, c); if(!x.isfinite()) throw Discard(); R v = toR(x), ip = r::trunc(v); c.note(show(x)); c.nontrivial = !v.isint() && r::abs(v) > R(1);
  e_float i = ef::integer_part(x), d = ef::decimal_part(x); judge(c, "integer_part", i, ip, v, "integer_part"); R dp = v - ip;
  // the decimal part of the stored value is exact (both operands are representable)
  if(resolved(v)) { REQUIRE(same(toR(d), dp) || r::abs(toR(d) - dp) <= r::max(r::abs(v), R(1)) * R::pow10(-2 * D10 - 20), "decimal_part", "decimal_part = " + toR(d).str(60) + ", expected " + dp.str(60)); REQUIRE(same(toR(i) + toR(d), v), "parts-sum", "integer and decimal part do not add up"); }
  else check_close(c, "decimal_part:large", toR(d), dp, r::abs(v), LIM, "decimal_part");
  judge(c, "floor", ef::floor(x), r::floor(v), v, "floor"); judge(c, "ceil", ef::ceil(x), r::ceil(v), v, "ceil");
  if(resolved(v)) { REQUIRE(i.isint() && ef::floor(x).isint() && ef::ceil(x).isint(), "isint-of-part", "an integer part is not an integer according to isint"); REQUIRE(x.isint() == v.isint(), "isint", std::string("isint is ") + (x.isint() ? "true" : "false")); REQUIRE(d.iszero() == v.isint(), "decimal-zero", "the decimal part is zero for a non-integer, or not for an integer"); }
  REQUIRE(!i.isneg() || v.sgn() < 0, "sign", "integer part has the wrong sign");
  if(!d.iszero()) REQUIRE(d.isneg() == (v.sgn() < 0), "sign", "decimal part has the wrong sign");
}
TEST(C03_fmod, 20000, 400000)
{
  GenOpt o; o.zero = false; o.emin = -30; o.emax = 30; e_float x = gen_value(s, c, o), y; if(s.chance(1, 3)) { y = e_float((long long)s.range(1, 1000)); } else { GenOpt p; p.zero = false; p.emin = -30; p.emax = 30; y = gen_value(s, c, p); }
  if(s.chance(1, 4)) { const long d = 1L << s.draw(10); y = e_float((long long)s.range(1, 100000)) / (int)d; x = e_float((long long)s.range(-100000000, 100000000)) / (int)d; if(s.chance(1, 3)) x = y * e_float((long long)s.range(-100000, 100000)); if(s.chance(1, 2)) y = -y; c.label("short"); } else if(s.chance(1, 4)) { x = y * e_float((long long)s.range(-1000000, 1000000)); c.label("multiple"); if(s.chance(1, 2)) x += y * e_float("1e-" + std::to_string(s.range(1, 60))); }
  R a = toR(x), b = toR(y); if(a.iszero() || b.iszero() || !a.isfinite() || !b.isfinite()) throw Discard(); double q = a.log10abs() - b.log10abs(); if(q > 60) throw Discard(); c.note(show(x) + " mod " + show(y)); c.nontrivial = q > 0;
  R got = toR(ef::fmod(x, y)), want = r::fmod(a, b); R tol = r::max(r::abs(a), r::abs(b)) * R::pow10(-D10), ab = r::abs(b); REQUIRE(got.isfinite(), "fmod", "fmod gave " + got.str());
  // next to a multiple of y the quotient may round to either side
  R d0 = r::abs(got - want), sg = a.sgn() < 0 ? R(-1) : R(1), d1 = r::abs(got - (want + sg * ab)), d2 = r::abs(got - (want - sg * ab)); bool lo = r::abs(want) <= tol, hi = ab - r::abs(want) <= tol;
  REQUIRE(d0 <= tol || (lo && d1 <= tol) || (hi && d2 <= tol), "fmod", "fmod gave " + got.str(60) + ", expected " + want.str(60)); REQUIRE(r::abs(got) <= ab + tol, "fmod-range", "|fmod| exceeds the divisor"); if(r::abs(a) < R(1000000000000LL) && ab < R(1000000000000LL) && (a * R(1024)).isint() && (b * R(1024)).isint()) REQUIRE(got == want, "fmod-exact", "fmod of short operands gave " + got.str(60) + ", expected " + want.str(60)); if(!lo && !hi && !got.iszero()) REQUIRE((got.sgn() < 0) == (a.sgn() < 0), "fmod-sign", "fmod has the wrong sign");
}
TEST(C03_near, 20000, 300000)
{
  // small_arg / large_arg / near_one / near_int: order thresholds at about a tenth of the working precision
  e_float x = value(s, c); if(!x.isfinite()) throw Discard(); if(s.chance(1, 3)) { R w = R(1) + (s.chance(1, 2) ? R(1) : R(-1)) * R::pow10(-(long)(1 + s.draw(40))); long e; std::string d = w.digits(D10, e); x = e_float("0." + d + "e" + std::to_string(e)); c.label("near-one"); }
  R v = toR(x), a = r::abs(v); c.note(show(x)); c.nontrivial = !v.iszero(); const long lim = std::max<long>((long)((double)ef::tolerance() / 10.0), 6); const R lo = R::pow10(-lim), hi = R::pow10(lim);
  auto band = [](const R& q, const R& t) { return q > t / R(101) && q < t * R(101); };
  if(!v.iszero()) { if(!band(a, lo)) REQUIRE(ef::small_arg(x) == (a < lo), "small_arg", "small_arg is wrong"); if(!band(a, hi)) REQUIRE(ef::large_arg(x) == (a > hi), "large_arg", "large_arg is wrong"); }
  R d1 = r::abs(R(1) - v); if(!d1.iszero() && !band(d1, lo)) REQUIRE(ef::near_one(x) == (d1 < lo), "near_one", "near_one is wrong"); 
  if(resolved(v)) { R f = a - r::floor(a), g = R(1) - f; if(f > g) f = g; if(v.isint()) REQUIRE(ef::near_int(x), "near_int", "an integer is not near_int"); else if(!band(f, lo)) REQUIRE(ef::near_int(x) == (f < lo), "near_int", "near_int is wrong"); }
}
TEST(C03_special, 500, 4000)
{
  typedef std::numeric_limits<e_float> L; std::size_t k = s.draw(3); e_float x = k == 0 ? L::infinity() : k == 1 ? -L::infinity() : L::quiet_NaN(); c.note(k == 0 ? "inf" : k == 1 ? "-inf" : "nan"); c.nontrivial = true;
  auto ok = [&](const e_float& z) { return k == 2 ? z.isnan() : z.isinf() && z.isneg() == (k == 1); }; REQUIRE(ok(ef::floor(x)) && ok(ef::ceil(x)), "floor-special", "floor/ceil of a non-finite value"); REQUIRE(ok(ef::integer_part(x)), "integer_part-special", "integer_part of a non-finite value"); REQUIRE(!x.isint(), "isint-special", "a non-finite value is an integer");
}

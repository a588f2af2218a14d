// Conversion to built-in types.
#include "../gen.h"
#include <cmath>
#include <limits>
static e_float around(Src& s, Ctx& c, const R& v)
{
  // v itself or v plus or minus something between tiny and one
  R w = v; switch(s.draw(6)) { case 0: break; case 1: w += R::pow10(-(long)s.draw(D10)); break; case 2: w -= R::pow10(-(long)s.draw(D10)); break; case 3: w += R(0.5); break; case 4: w -= R(0.5); break; default: w += R((long)s.range(-3, 3)); }
  if(w.iszero()) return e_float(); long e; std::string d = w.digits(D10 + 16, e); return e_float((w.sgn() < 0 ? "-0." : "0.") + d + "e" + std::to_string(e));
}
static e_float value(Src& s, Ctx& c)
{
  static const char* const lim[] = {"9223372036854775807", "-9223372036854775808", "18446744073709551615", "2147483647", "-2147483648", "4294967295", "9223372036854775808", "18446744073709551616", "-9223372036854775809", "100000000", "10000000000000000", "1", "0", "-1"};
  switch(s.pick({4, 4, 3, 3})) { case 0: { GenOpt o; o.emin = -5; o.emax = 22; return gen_value(s, c, o); } case 1: c.label("near-limit"); return around(s, c, R(lim[s.draw(14)])); case 2: c.label("near-int"); return around(s, c, s.chance(1, 2) ? R(gen_i64(s)) : R(gen_u64(s))); default: { GenOpt o = window(s); return gen_value(s, c, o); } }
}
TEST(C02_integers, 60000, 1500000)
{
  e_float x = value(s, c); if(!x.isfinite()) throw Discard(); R v = toR(x), t = r::trunc(v); c.note(show(x)); c.nontrivial = !t.iszero() && v != t;
  R smax((long long)INT64_MAX), smin((long long)INT64_MIN), umax((unsigned long long)UINT64_MAX);
  long long ws = t > smax ? INT64_MAX : t < smin ? INT64_MIN : t.ll(), gs = x.extract_signed_long_long(); REQUIRE(gs == ws, "signed", "extract_signed_long_long gave " + tos(gs) + ", expected " + tos(ws)); REQUIRE(ef::to_int64(x) == ws, "to_int64", "to_int64 gave " + tos(ef::to_int64(x)) + ", expected " + tos(ws));
  unsigned long long gu = x.extract_unsigned_long_long(), wu = v.sgn() < 0 ? (unsigned long long)ws : t > umax ? UINT64_MAX : t.ull(); REQUIRE(gu == wu, "unsigned", "extract_unsigned_long_long gave " + std::to_string(gu) + ", expected " + std::to_string(wu));
  long w32 = ws > INT32_MAX ? INT32_MAX : ws < INT32_MIN ? INT32_MIN : (long)ws, g32 = ef::to_int32(x); REQUIRE(g32 == w32, "to_int32", "to_int32 gave " + tos(g32) + ", expected " + tos(w32));
}
TEST(C02_double, 40000, 1000000)
{
  e_float x; switch(s.pick({4, 3, 3, 2})) { case 0: { double d = gen_double(s); x = e_float(d); c.label("from-double"); if(s.chance(1, 2)) { x *= e_float(1) + e_float("1e-" + std::to_string(s.range(15, 60))) * (s.chance(1, 2) ? 1 : -1); c.label("perturbed"); } break; } case 1: { GenOpt o; o.emin = -330; o.emax = 320; x = gen_value(s, c, o); break; } case 2: { long double l = gen_ldouble(s); x = e_float(l); c.label("from-long-double"); break; } default: { GenOpt o = window(s, true); x = gen_value(s, c, o); } }
  if(s.chance(1, 60)) x = s.chance(1, 3) ? std::numeric_limits<e_float>::quiet_NaN() : s.chance(1, 2) ? std::numeric_limits<e_float>::infinity() : -std::numeric_limits<e_float>::infinity();
  R v = toR(x); c.note(show(x)); c.nontrivial = v.isfinite() && !v.iszero(); double d = x.extract_double(); long double l = x.extract_long_double(); REQUIRE(ef::to_double(x) == d || d != d, "to_double", "to_double differs from extract_double");
  if(v.isnan()) { REQUIRE(d != d && l != l, "nan", "NaN was converted to a number"); return; } if(v.isinf()) { REQUIRE(std::isinf(d) && std::isinf(l) && (d < 0) == (v.sgn() < 0) && (l < 0) == (v.sgn() < 0), "inf", "an infinity was not kept"); return; } if(v.iszero()) { REQUIRE(d == 0 && l == 0, "zero", "zero was not kept"); return; }
  R a = r::abs(v); bool neg = v.sgn() < 0;
  auto judge = [&](const char* sig, const R& got, bool isinf, bool gneg, const R& mx, const R& mn, int digits, int minexp)
  {
    c.label(std::string(sig) + (a > mx ? ":overflow" : a < mn ? ":underflow" : ":in-range"));
    if(isinf) { REQUIRE(a > mx * (R(1) - R::pow2(-digits)), std::string(sig) + ":inf", std::string(sig) + " gave an infinity for " + show(x)); REQUIRE(gneg == neg, std::string(sig) + ":inf-sign", "wrong sign"); return; }
    if(a > mx * (R(1) + R::pow2(-digits + 1))) throw Fail(std::string(sig) + ":overflow", std::string(sig) + " gave " + got.str(25) + " instead of an infinity");
    if(got.iszero()) { REQUIRE(a < mn * (R(1) + R::pow2(-digits)), std::string(sig) + ":zero", std::string(sig) + " gave zero for " + show(x)); return; }
    REQUIRE((got.sgn() < 0) == neg, std::string(sig) + ":sign", std::string(sig) + " has the wrong sign");
    // faithful: less than one unit in the last place away
    R ulp = R::pow2(std::max(v.exp2() - digits, (long)minexp - digits)); REQUIRE(r::abs(got - v) < ulp * R(1.000001), std::string(sig) + ":accuracy", std::string(sig) + " gave " + got.str(25) + " for " + show(x));
    // values of the built-in type come back exactly
    R rt = R(v); if(digits == 53 ? R(v.dbl()) == v && a >= mn : R(v.ldbl()) == v && a >= mn) REQUIRE(got == v, std::string(sig) + ":exact", std::string(sig) + " does not give back the exact value " + v.str(25));
  };
  judge("double", std::isinf(d) ? R(0) : R(d), std::isinf(d), d < 0, R((std::numeric_limits<double>::max)()), R((std::numeric_limits<double>::min)()), 53, -1021);
  judge("long double", std::isinf(l) ? R(0) : R(l), std::isinf(l), l < 0, R((std::numeric_limits<long double>::max)()), R((std::numeric_limits<long double>::min)()), 64, -16381);
}
TEST(C02_native, 20000, 300000)
{ // the overloads for an argument of type double
  double d; switch(s.pick({3, 3, 2, 2})) { case 0: d = gen_double(s); break; case 1: { static const double L[] = {9223372036854775807.0, 2147483647.0, 2147483648.0, 4294967296.0, 1e10, 1e18, 1e19, 1e30, 1.0, 1e-5}; d = L[s.draw(10)]; long k = (long)s.draw(4); while(k-- > 0) d = std::nextafter(d, s.chance(1, 2) ? 1e300 : 0.0); if(s.chance(1, 3)) d -= (double)s.draw(3); if(s.chance(1, 2)) d = -d; } break; case 2: d = (double)gen_i64(s); break; default: d = (double)s.range(-100000, 100000) / (double)(1L << s.draw(12)); }
  if(!std::isfinite(d)) throw Discard(); R v(d), t = r::trunc(v); c.note(v.str(20)); c.nontrivial = !t.iszero();
  R smax((long long)INT64_MAX), smin((long long)INT64_MIN); long long ws = t > smax ? INT64_MAX : t < smin ? INT64_MIN : t.ll(), gs = ef::to_int64(d); REQUIRE(gs == ws, "native-int64", "to_int64 gave " + tos(gs) + ", expected " + tos(ws)); long w32 = ws > INT32_MAX ? INT32_MAX : ws < INT32_MIN ? INT32_MIN : (long)ws, g32 = ef::to_int32(d); REQUIRE(g32 == w32, "native-int32", "to_int32 gave " + tos(g32) + ", expected " + tos(w32));
  REQUIRE(ef::to_double(d) == d && ef::isfinite(d) && !ef::isnan(d), "native-id", "to_double, isfinite or isnan is wrong"); REQUIRE(ef::isneg(d) == (d < 0) && ef::ispos(d) == !(d < 0) && (ef::isint(d) == v.isint() || std::fabs(d) < 1e-307) && ef::isone(d) == (d == 1) && (ef::iszero(d) == (d == 0) || std::fabs(d) < 1e-307), "native-predicate", "a predicate is wrong");
  if(d == 0) REQUIRE(ef::order_of(d) == 0, "native-order", "order_of(0) is not zero"); else { R a = r::abs(v); long o = ef::order_of(d); REQUIRE(R::pow10(o) <= a * R(1.000000000001) && a < R::pow10(o + 1), "native-order", "order_of gave " + tos(o)); }
  // thresholds at about the sixth root of epsilon
  double a = std::fabs(d); auto ok = [](bool g, double q, double lo, double hi) { return q < lo ? g : q > hi ? !g : true; }; REQUIRE(ok(ef::small_arg(d), a, 0.002, 0.003) && ok(!ef::large_arg(d), a, 300, 500), "native-arg", "small_arg or large_arg is wrong"); REQUIRE(ok(ef::near_one(d), std::fabs(1 - d), 0.002, 0.003), "native-near_one", "near_one is wrong"); double f = a - std::floor(a); f = std::min(f, 1 - f); REQUIRE(ok(ef::near_int(d), f, 0.002, 0.003), "native-near_int", "near_int is wrong");
}

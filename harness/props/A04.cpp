// Mixed arithmetic with every built-in arithmetic type.
#include "../gen.h"
#include <limits>
static const double LIM = -(double)D10;
static void one(Ctx& c, const std::string& sig, const e_float& z, const R& want, const R& scale, const std::string& what)
{
  if(want.iszero()) { REQUIRE(z.iszero() && z.isfinite(), sig + ":zero", what + " should be exactly zero, got " + show(z)); return; }
  check_close(c, sig, toR(z), want, scale, LIM, what);
}
template<class T> static void ops(Ctx& c, const char* ty, const e_float& x, const T v, const R& b)
{
  const R a = toR(x); const R m = r::max(r::abs(a), r::abs(b)); const std::string t(ty);
  c.note(std::string("x=") + show(x) + " n=(" + ty + ")" + b.str(25)); c.label(std::string("type:") + ty); c.nontrivial = !a.iszero() && !b.iszero();
  one(c, "add:" + t, x + v, a + b, m, "x+n"); one(c, "add:" + t, v + x, a + b, m, "n+x"); one(c, "sub:" + t, x - v, a - b, m, "x-n"); one(c, "sub:" + t, v - x, b - a, m, "n-x");
  one(c, "mul:" + t, x * v, a * b, r::abs(a * b), "x*n"); one(c, "mul:" + t, v * x, a * b, r::abs(a * b), "n*x");
  e_float w(x); w += v; one(c, "add-assign:" + t, w, a + b, m, "x+=n"); w = x; w -= v; one(c, "sub-assign:" + t, w, a - b, m, "x-=n"); w = x; w *= v; one(c, "mul-assign:" + t, w, a * b, r::abs(a * b), "x*=n");
  if(!b.iszero()) { one(c, "div:" + t, x / v, a / b, r::abs(a / b), "x/n"); w = x; w /= v; one(c, "div-assign:" + t, w, a / b, r::abs(a / b), "x/=n"); }
  if(!a.iszero()) one(c, "div:" + t, v / x, b / a, r::abs(b / a), "n/x");
  REQUIRE(toR(x) == a, "operand-changed", "the e_float operand changed");
}
static e_float operand(Src& s, Ctx& c, const R& near)
{
  GenOpt o = window(s); switch(s.pick({4, 2, 2})) { case 0: return gen_value(s, c, o); case 1: { if(near.iszero()) return gen_value(s, c, o); long e; std::string d = near.digits(40, e); std::size_t p = s.draw(41); if(p < 40) d[p] = (char)('0' + (d[p] - '0' + s.draw(10)) % 10); if(d[0] == '0') d[0] = '1'; c.label("operand:near"); return e_float(std::string(s.chance(1, 2) ? "-" : "") + "0." + d + "e" + std::to_string(e)); } default: o.emin = -12; o.emax = 25; return gen_value(s, c, o); }
}
TEST(A04_int64, 30000, 500000) { long long n = gen_i64(s); e_float x = operand(s, c, R(n)); ops<long long>(c, "long long", x, n, R(n)); }
TEST(A04_uint64, 30000, 500000) { unsigned long long n = gen_u64(s); e_float x = operand(s, c, R(n)); ops<unsigned long long>(c, "unsigned long long", x, n, R(n)); }
TEST(A04_small, 30000, 400000)
{
  long long n = gen_i64(s); std::size_t k = s.draw(8); 
  switch(k)
  {
    case 0: { int v = (int)n; ops<int>(c, "int", operand(s, c, R(v)), v, R(v)); break; }
    case 1: { unsigned v = (unsigned)n; ops<unsigned>(c, "unsigned", operand(s, c, R((unsigned long)v)), v, R((unsigned long)v)); break; }
    case 2: { long v = (long)n; ops<long>(c, "long", operand(s, c, R(v)), v, R(v)); break; }
    case 3: { unsigned long v = (unsigned long)n; ops<unsigned long>(c, "unsigned long", operand(s, c, R(v)), v, R(v)); break; }
    case 4: { short v = (short)n; ops<short>(c, "short", operand(s, c, R((int)v)), v, R((int)v)); break; }
    case 5: { unsigned short v = (unsigned short)n; ops<unsigned short>(c, "unsigned short", operand(s, c, R((int)v)), v, R((int)v)); break; }
    case 6: { signed char v = (signed char)n; ops<signed char>(c, "signed char", operand(s, c, R((int)v)), v, R((int)v)); break; }
    default: { unsigned char v = (unsigned char)n; ops<unsigned char>(c, "unsigned char", operand(s, c, R((int)v)), v, R((int)v)); break; }
  }
}
TEST(A04_float, 30000, 400000)
{
  switch(s.draw(3))
  {
    case 0: { double v = gen_double(s); if(v != 0 && std::fabs(v) < std::numeric_limits<double>::min()) v = std::ldexp(v, 60) * std::ldexp(1.0, 60); if(std::fabs(v) < std::numeric_limits<double>::min()) v = 0; ops<double>(c, "double", operand(s, c, R(v)), v, R(v)); break; }
    case 1: { float v = (float)gen_double(s); if(!std::isfinite(v)) v = std::numeric_limits<float>::max(); if(std::fabs(v) < std::numeric_limits<float>::min()) v = 0; ops<float>(c, "float", operand(s, c, R((double)v)), v, R((double)v)); break; }
    default: { long double v = gen_ldouble(s); if(std::fabs(v) > (long double)std::numeric_limits<double>::max()) v = 1; if(v != 0 && std::fabs(v) < (long double)std::numeric_limits<double>::min()) v = 0; ops<long double>(c, "long double", operand(s, c, R(v)), v, R(v)); break; }
  }
}
TEST(A04_chain, 5000, 60000)
{
  // repeated small-integer scaling, as in series evaluation
  GenOpt o; o.emin = -5; o.emax = 5; o.zero = false; e_float x = gen_value(s, c, o); R a = toR(x); int n = 5 + (int)s.draw(100); c.note("x=" + show(x) + " n=" + std::to_string(n)); c.nontrivial = true;
  for(int i = 0; i < n; ++i) { long k = 1 + (long)s.draw(s.chance(1, 3) ? 200000000 : 1000); if(s.chance(1, 2)) { x *= k; a *= R(k); } else { x /= k; a /= R(k); } if(s.chance(1, 10)) { x *= -1; a = -a; } }
  check_rel(c, "chain", toR(x), a, LIM + std::log10(n + 1.0), "a chain of integer scalings");
}

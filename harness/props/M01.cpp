// Arithmetic with thousands of digits (school and FFT multiplication, precision schedules of division and roots).
#include "../gen.h"
#include <sstream>
#include <iomanip>
static const double LIM = -(double)D10;
// digit strings that stress carries and the rounding of the transform
static std::string body(Src& s, Ctx& c, int n)
{
  std::string d; d.reserve(n + 32); char b[24];
  auto rnd = [&](int k) { const std::uint64_t seed = s.draw(1ULL << 48); std::uint64_t z = seed * 0x9E3779B97F4A7C15ULL + 1; for(int i = 0; i < k; i += 16) { z ^= z >> 12; z ^= z << 25; z ^= z >> 27; std::snprintf(b, sizeof b, "%016llu", (unsigned long long)((z * 0x2545F4914F6CDD1DULL) % 10000000000000000ULL)); d += b; } };
  switch(s.pick({4, 5, 3, 3, 3, 2}))
  {
    case 0: c.label("d:nines"); d.assign(n, '9'); if(s.chance(1, 2)) d[s.draw(n)] = (char)('0' + s.draw(10)); break;
    case 1: c.label("d:random"); rnd(n); break;
    case 2: { c.label("d:half-limbs"); static const char* const g[] = { "9999", "0000", "0001", "5000", "4999", "9998", "1000" }; std::string a = g[s.draw(7)], e = g[s.draw(7)]; while((int)d.size() < n) { d += a; d += e; } break; }
    case 3: { c.label("d:runs"); while((int)d.size() < n) { d.append(1 + s.draw(n / 2 + 1), (char)('0' + (s.chance(1, 2) ? 9 : s.chance(1, 2) ? 0 : s.draw(10)))); if(s.chance(1, 2)) d += (char)('0' + s.draw(10)); } break; }
    case 4: { c.label("d:sparse"); d.assign(n, '0'); long k = s.range(1, 5); for(long i = 0; i < k; ++i) d[s.draw(n)] = (char)('1' + s.draw(9)); break; }
    default: { c.label("d:short"); rnd(1 + (int)s.draw(60)); break; }
  }
  if((int)d.size() > n) d.resize(n);
  if(d[0] == '0') d[0] = '1';
  return d;
}
static std::string lit(Src& s, Ctx& c, std::string& text)
{
  // The significant digits of the stored number start anywhere in its leading limb.
  int n = D10; std::string d = body(s, c, n); long e = s.range(-30, 30); bool neg = s.chance(1, 4);
  text = (neg ? "-" : "") + d.substr(0, 1) + "." + d.substr(1) + "e" + tos(e);
  return d;
}
static std::string brief(const std::string& t) { return t.size() < 90 ? t : t.substr(0, 40) + "..(" + tos((long long)t.size()) + ").." + t.substr(t.size() - 20); }
static void rel(Ctx& c, const char* sig, const e_float& z, const R& want, const std::string& what)
{
  R got = toR(z); REQUIRE(got.isfinite(), std::string(sig) + ":finite", what + " is not finite");
  if(want.iszero()) { REQUIRE(got.iszero(), std::string(sig) + ":zero", what + " should be zero"); return; }
  double e = lgerr(got, want, r::abs(want)); c.margin(sig, e - LIM);
  REQUIRE(e <= LIM, sig, what + " gave " + got.str(50) + ", expected " + want.str(50) + ", relative error 10^" + std::to_string(e));
}
TEST(M01_mul, 1500, 6000)
{
  std::string a, b; lit(s, c, a); lit(s, c, b); e_float x(a), y(b); R u = toR(x), v = toR(y); c.note(brief(a) + " * " + brief(b)); c.nontrivial = true;
  e_float p = x * y; rel(c, "mul", p, u * v, "x*y"); REQUIRE(p == y * x, "mul-commutes", "x*y and y*x differ");
  e_float q(x); q *= q; rel(c, "mul-alias", q, u * u, "x*=x"); REQUIRE(q == x * x, "mul-alias-same", "x*=x and x*x differ");
  REQUIRE(toR(x) == u && toR(y) == v, "operand-changed", "an operand changed");
  unsigned k = 2 + (unsigned)s.draw(99999990); rel(c, "mul-int", x * (unsigned long long)k, u * R((unsigned long)k), "x*n"); rel(c, "div-int", x / (unsigned long long)k, u / R((unsigned long)k), "x/n");
}
TEST(M01_div, 500, 2000)
{
  std::string a, b; lit(s, c, a); lit(s, c, b); e_float x(a), y(b); R u = toR(x), v = toR(y); c.note(brief(a) + " / " + brief(b)); c.nontrivial = true;
  rel(c, "div", x / y, u / v, "x/y"); rel(c, "inv", e_float(y).calculate_inv(), R(1) / v, "1/y"); e_float t(x); t /= t; REQUIRE(lgerr(toR(t), R(1), R(1)) <= LIM, "self-quotient", "x/=x is not one");
}
TEST(M01_sqrt, 300, 1000)
{
  std::string a; lit(s, c, a); e_float x = ef::fabs(e_float(a)); R u = toR(x); c.note("sqrt " + brief(a)); c.nontrivial = true;
  e_float q = ef::sqrt(x); rel(c, "sqrt", q, r::sqrt(u), "sqrt"); int p = 3 + (int)s.draw(6); rel(c, "rootn", ef::rootn(x, p), r::rootn(u, p), "rootn(" + tos(p) + ")");
}
TEST(M01_add, 600, 3000)
{
  std::string a, b; lit(s, c, a); lit(s, c, b); e_float x(a), y(b); R u = toR(x), v = toR(y);
  if(s.chance(1, 2)) { c.label("cancel"); e_float t(body(s, c, 1 + (int)s.draw(D10)) + "e" + tos(-(long)s.draw(2 * D10))); y = s.chance(1, 2) ? -x + t : x; v = toR(y); }
  c.note(brief(a) + " + " + brief(b)); c.nontrivial = true;
  auto chk = [&](const char* sig, const e_float& z, const R& want) { R m = r::max(r::abs(u), r::abs(v)); double e = lgerr(toR(z), want, m); if(!(toR(z) == want)) { c.margin(sig, e - LIM); REQUIRE(e <= LIM, sig, std::string(sig) + " gave " + toR(z).str(50) + ", expected " + want.str(50) + " error " + std::to_string(e)); } };
  chk("add", x + y, u + v); chk("sub", x - y, u - v); REQUIRE((x - x).iszero(), "self-difference", "x-x is not zero"); REQUIRE((x < y) == (u < v) && (x == y) == (u == v) && (x > y) == (u > v), "compare", "the order of x and y is not that of their values");
}
TEST(M01_text, 300, 1500)
{
  std::string a; std::string d = lit(s, c, a); e_float x(a); c.note(brief(a)); c.nontrivial = true; R w(a); double e = lgerr(toR(x), w, r::abs(w)); c.margin("parse", e - LIM); REQUIRE(e <= LIM - 0.5 || toR(x) == w, "parse", "construction from text has relative error 10^" + std::to_string(e));
  int n = D10 - 1 - (int)s.draw(3); if(s.chance(1, 2)) n = (int)s.draw(D10); std::ostringstream o; o << std::scientific << std::setprecision(n) << x;
  long ex; std::string want = toR(x).digits(n + 1, ex); std::string t = o.str(); std::string got; for(char ch : t) { if(ch == 'e') break; if(ch >= '0' && ch <= '9') got += ch; }
  if(got != want) { R g(t), v = toR(x); R half = R::pow10(ex - n - 1) / R(2); R df = r::abs(g - v); REQUIRE(df <= half + half * R::pow10(-6), "print", "scientific output with " + tos(n) + " decimals is not the nearest decimal: " + brief(t)); }
  e_float y(t); if(n >= D10 - 1) { double e2 = lgerr(toR(y), toR(x), r::abs(toR(x))); REQUIRE(e2 <= LIM + 1, "round-trip", "text with all digits read back has relative error 10^" + std::to_string(e2)); }
}
TEST(M01_pi, 8, 8)
{
  c.note("pi"); c.nontrivial = true; rel(c, "pi", ef::pi(), r::pi(), "pi"); rel(c, "pi", ef::pi_half(), r::pi() / R(2), "pi_half"); rel(c, "pi", ef::sqrt_pi(), r::sqrt(r::pi()), "sqrt_pi");
}
#define FN1(NAME, CALL, WANT) { e_float z = CALL; R want = WANT; double e = lgerr(toR(z), want, r::abs(want)); c.margin(NAME, e - LIM); REQUIRE(toR(z).isfinite() && e <= LIM, NAME, std::string(NAME) + " gave " + toR(z).str(50) + ", expected " + want.str(50) + ", relative error 10^" + std::to_string(e)); }
TEST(M01_functions, 240, 600)
{
  if(D10 > 1100) throw Discard();   // ln 2 and e are stored to 1100 digits
  std::string d = body(s, c, s.chance(1, 2) ? D10 : 1 + (int)s.draw(30)); const long e = s.range(-3, 1); std::string t = std::string(s.chance(1, 3) ? "-" : "") + d.substr(0, 1) + "." + d.substr(1) + "0e" + tos(e);
  e_float x(t); R u = toR(x); c.note(brief(t)); c.nontrivial = true;
  switch(s.draw(6))
  {
    case 0: FN1("exp", ef::exp(x), r::exp(u)) break;
    case 1: { e_float a = ef::fabs(x); R v = r::abs(u); if(fuzzy_near_one(v) || v == R(1)) throw Discard(); FN1("log", ef::log(a), r::log(v)) break; }
    case 2: { R w = r::sin(u); if(w.log10abs() < -3.5) throw Discard(); FN1("sin", ef::sin(x), w) break; }
    case 3: { R w = r::cos(u); if(w.log10abs() < -3.5) throw Discard(); FN1("cos", ef::cos(x), w) break; }
    case 4: FN1("atan", ef::atan(x), r::atan(u)) break;
    default: FN1("sinh", ef::sinh(x), r::sinh(u)) break;
  }
}

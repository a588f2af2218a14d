// The generic function templates, on a user-defined multiple-precision type, on the built-in types and on e_float.
#include "../gen.h"
#include <cmath>
#include <iomanip>
#include <limits>
#include <regex>
#include <sstream>
#include <generic_functions/constants/generic_functions_constants.h>

namespace gf = generic_functions;
// a type of its own: only the operations a user-defined number type would offer
struct W
{
  e_float v;
  W() : v(0) {} explicit W(const e_float& x) : v(x) {} explicit W(const std::string& s) : v(s) {} W(int n) : v(n) {} W(unsigned n) : v(n) {}
  W& operator+=(const W& o) { v += o.v; return *this; } W& operator-=(const W& o) { v -= o.v; return *this; } W& operator*=(const W& o) { v *= o.v; return *this; } W& operator/=(const W& o) { v /= o.v; return *this; }
  W operator-() const { return W(-v); }
};
static W operator+(W a, const W& b) { return a += b; } static W operator-(W a, const W& b) { return a -= b; } static W operator*(W a, const W& b) { return a *= b; } static W operator/(W a, const W& b) { return a /= b; }
static bool operator<(const W& a, const W& b) { return a.v < b.v; }
static std::ostream& operator<<(std::ostream& o, const W& w) { return o << w.v; }
namespace std { template<> class numeric_limits<W> : public numeric_limits<e_float> { public: static W (min)() { return W((numeric_limits<e_float>::min)()); } static W epsilon() { return W(numeric_limits<e_float>::epsilon()); } static W quiet_NaN() { return W(numeric_limits<e_float>::quiet_NaN()); } }; }
static constexpr double LIM = -D10 + 2;
static e_float positive(Src& s, Ctx& c) { GenOpt o; o.neg = false; o.zero = false; const long w = s.chance(1, 4) ? (s.chance(1, 3) ? 1000000 : 5000) : 40; o.emin = -w; o.emax = w; e_float x = s.chance(1, 4) ? e_float((long long)s.range(1, 100000)) : gen_value(s, c, o); if(s.chance(1, 6)) x = x * x; return x; }
TEST(G03_sqrt, 6000, 60000)
{
  const e_float x = positive(s, c); c.note("sqrt " + show(x)); c.nontrivial = !x.isone(); const R a = toR(x); check_rel(c, "sqrt", toR(gf::sqrt<W>(W(x)).v), r::sqrt(a), LIM, "generic sqrt"); REQUIRE(gf::sqrt<W>(W(-x)).v.isnan(), "sqrt-negative", "generic sqrt of a negative number is not NaN"); check_rel(c, "sqrt<e_float>", toR(gf::sqrt<e_float>(x)), r::sqrt(a), LIM, "sqrt<e_float>");
}
TEST(G03_rootn, 5000, 50000)
{
  const e_float x = positive(s, c); int p = (int)s.range(1, 40); if(s.chance(1, 4)) p = -p; c.note("rootn " + show(x) + " p=" + tos(p)); c.nontrivial = p > 1 || p < -1; R w = r::rootn(toR(x), (unsigned long)(p < 0 ? -p : p)); if(p < 0) w = R(1) / w; check_rel(c, "rootn", toR(gf::rootn<W>(W(x), p).v), w, LIM, "generic rootn"); if(p > 0) check_rel(c, "rootn<e_float>", toR(gf::rootn<e_float>(x, p)), w, LIM, "rootn<e_float>");
}
TEST(G03_log, 1500, 15000)
{
  e_float x = positive(s, c); if(s.chance(1, 3)) x = e_float(1) + e_float((int)s.range(-900, 900)) / 1000; c.note("log " + show(x)); const R a = toR(x), w = r::log(a); c.nontrivial = !w.iszero(); check_close(c, "log", toR(gf::log<W>(W(x)).v), w, r::max(R(1), r::abs(w)), -D10 + 5, "generic log"); REQUIRE(gf::log<W>(W(-x)).v.isnan(), "log-negative", "generic log of a negative number is not NaN"); if(a != R(1)) check_rel(c, "log<e_float>", toR(gf::log<e_float>(x)), w, -D10 + 4, "log<e_float>");
}
TEST(G03_pown, 6000, 60000)
{
  GenOpt o; o.zero = false; o.emin = -3; o.emax = 3; const e_float x = gen_value(s, c, o); const long p = s.chance(1, 4) ? s.range(-100000, 100000) : s.range(-70, 70); c.note("pown " + show(x) + " p=" + tos(p)); c.nontrivial = p > 1 || p < -1; check_rel(c, "pown", toR(gf::pown<W>(W(x), p).v), r::powi(toR(x), p), LIM + 1 + std::log10(1.0 + std::labs(p)), "generic pown");
}
TEST(G03_frexp10, 5000, 50000)
{
  GenOpt o = window(s); o.zero = false; const e_float x = gen_value(s, c, o); std::int64_t e = -77; const double m = gf::frexp10<W>(W(x), &e); c.note("frexp10 " + show(x)); c.nontrivial = true; check_rel(c, "frexp10", R(m) * R::pow10(e), toR(x), -14.0, "mantissa * 10^exponent"); REQUIRE(std::fabs(m) >= 1.0 && std::fabs(m) <= 10.0, "frexp10-range", "mantissa " + std::to_string(m));
}
template<class T> static void builtin(Src& s, Ctx& c, const char* n, double lim, bool wide)
{
  const T x = (T)std::ldexp((long double)(1 + s.draw(1ULL << 24)), (int)s.range(-40, wide ? 60 : 20)); const int p = (int)s.range(1, 20); c.label(n); c.note(std::string(n) + " " + R((long double)x).str(25) + " p=" + tos(p)); c.nontrivial = x != 1; const R a((long double)x); const std::string t = std::string("<") + n + ">";
  check_rel(c, "sqrt" + t, R((long double)gf::sqrt<T>(x)), r::sqrt(a), lim, "sqrt"); check_rel(c, "rootn" + t, R((long double)gf::rootn<T>(x, p)), r::rootn(a, (unsigned long)p), lim, "rootn"); if(x != 1) check_close(c, "log" + t, R((long double)gf::log<T>(x)), r::log(a), r::max(R(1), r::abs(r::log(a))), lim, "log");
  check_rel(c, "pi" + t, R((long double)gf::pi<T>()), r::pi(), lim, "pi"); check_rel(c, "ln2" + t, R((long double)gf::ln2<T>()), r::ln2(), lim, "ln2"); check_rel(c, "euler_gamma" + t, R((long double)gf::euler_gamma<T>()), r::euler(), lim, "euler_gamma");
  check_rel(c, "pown" + t, R((long double)gf::pown<T>((T)(1 + x / (x + 2)), p)), r::powi(R((long double)(T)(1 + x / (x + 2))), p), lim + 1, "pown");
}
TEST(G03_builtin, 6000, 60000) { switch(s.draw(3)) { case 0: builtin<float>(s, c, "float", -5.5, false); break; case 1: builtin<double>(s, c, "double", -14.0, true); break; default: builtin<long double>(s, c, "long double", -17.0, true); } }
TEST(G03_constants, 60, 100)
{
  c.nontrivial = s.draw(100000) != 1; c.note("constants"); check_rel(c, "pi", toR(gf::pi<W>().v), r::pi(), LIM, "generic pi"); check_rel(c, "ln2", toR(gf::ln2<W>().v), r::ln2(), LIM + 1, "generic ln2"); check_rel(c, "pi", toR(gf::pi<e_float>()), r::pi(), LIM, "pi<e_float>"); check_rel(c, "ln2", toR(gf::ln2<e_float>()), r::ln2(), LIM, "ln2<e_float>"); check_rel(c, "euler_gamma", toR(gf::euler_gamma<e_float>()), r::euler(), LIM, "euler_gamma<e_float>"); REQUIRE(&gf::pi<W>() == &gf::pi<W>() && toR(gf::pi<W>().v) == toR(gf::pi<W>().v), "constant-twice", "the second call gives another value");
}

TEST(G03_classify, 3000, 30000)
{
  GenOpt o = window(s); e_float x = gen_value(s, c, o); const int w = (int)s.range(0, 9); if(w == 0) x = e_float(1); if(w == 1) x = e_float(0); if(w == 2) x = e_float(1) + e_float(s.chance(1, 2) ? 1 : -1) * std::numeric_limits<e_float>::epsilon(); if(w == 3) x = e_float((int)s.range(-3, 3)) / 1000000; if(w == 4) x = std::numeric_limits<e_float>::epsilon() * e_float((int)s.range(-3, 3));
  c.note("classify " + show(x)); c.nontrivial = !x.iszero(); const R a = toR(x); const W y(x);
  REQUIRE(gf::isneg<W>(y) == (a < R(0)), "isneg", "isneg"); REQUIRE(toR(gf::fabs<W>(y).v) == r::abs(a), "fabs", "fabs"); if(r::abs(a) > R::pow10(-100000) || x.iszero()) REQUIRE(gf::iszero<W>(y) == x.iszero(), "iszero", "iszero");
  if(a == R(1) || r::abs(a - R(1)) > R::pow10(-D10 - 1)) REQUIRE(gf::isone<W>(y) == (a == R(1)), "isone", "isone"); const R lim = r::rootn(toR(std::numeric_limits<e_float>::epsilon()), 6); if(r::abs(r::abs(a) - lim) > lim * R::pow10(-20)) REQUIRE(gf::small_arg<W>(y) == (r::abs(a) < lim), "small_arg", "small_arg");
}
struct Commas : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1\2"; } };
TEST(G03_locale, 600, 6000)
{
  // digit grouping and decimal comma of the global locale play no part
  const e_float x = positive(s, c); const int p = (int)s.range(1, 12); c.note("sqrt, rootn, frexp10 with a global decimal comma: " + show(x) + " p=" + tos(p)); c.nontrivial = !x.isone(); const W q = gf::sqrt<W>(W(x)), n = gf::rootn<W>(W(x), p); std::int64_t e = 0, f = 0; const double m = gf::frexp10<W>(W(x), &e);
  const std::locale old = std::locale::global(std::locale(std::locale::classic(), new Commas)); W q2, n2; double m2; try { q2 = gf::sqrt<W>(W(x)); n2 = gf::rootn<W>(W(x), p); m2 = gf::frexp10<W>(W(x), &f); } catch(...) { std::locale::global(old); throw; } std::locale::global(old);
  REQUIRE(e == f && m == m2, "frexp10-locale", "frexp10 gives another value with a global decimal comma"); REQUIRE(q.v == q2.v, "sqrt-locale", "sqrt gives another value with a global decimal comma"); REQUIRE(n.v == n2.v, "rootn-locale", "rootn gives another value with a global decimal comma");
}

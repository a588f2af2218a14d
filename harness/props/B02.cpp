// Boost.Math on the Boost.Multiprecision binding: special functions, constants, roots, quadrature, rounding.
#include "../gen.h"
#include <boost/math/bindings/e_float.hpp>
#include <boost/multiprecision/cpp_dec_float.hpp>
#include <boost/math/constants/constants.hpp>
#include <boost/math/special_functions/bernoulli.hpp>
#include <boost/math/special_functions/bessel.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/cbrt.hpp>
#include <boost/math/special_functions/chebyshev.hpp>
#include <boost/math/special_functions/digamma.hpp>
#include <boost/math/special_functions/ellint_1.hpp>
#include <boost/math/special_functions/ellint_2.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/expint.hpp>
#include <boost/math/special_functions/expm1.hpp>
#include <boost/math/special_functions/factorials.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/hermite.hpp>
#include <boost/math/special_functions/hypot.hpp>
#include <boost/math/special_functions/lambert_w.hpp>
#include <boost/math/special_functions/laguerre.hpp>
#include <boost/math/special_functions/legendre.hpp>
#include <boost/math/special_functions/log1p.hpp>
#include <boost/math/special_functions/modf.hpp>
#include <boost/math/special_functions/next.hpp>
#include <boost/math/special_functions/round.hpp>
#include <boost/math/special_functions/sign.hpp>
#include <boost/math/special_functions/trunc.hpp>
#include <boost/math/special_functions/zeta.hpp>
#include <boost/math/quadrature/tanh_sinh.hpp>
#include <boost/math/quadrature/trapezoidal.hpp>
#include <boost/math/tools/roots.hpp>
#include <boost/math/tools/toms748_solve.hpp>
#include <iomanip>
#include <sstream>
namespace mp = boost::multiprecision;
namespace bm = boost::math;
typedef bm::ef::e_float BE;
typedef mp::number<BE, mp::et_off> N;
typedef mp::number<mp::cpp_dec_float<D10>, mp::et_off> D; // the same Boost code on another number type of the same precision
static R rr(const N& n) { return toR(n.backend().crepresentation()); }
static R rr(const D& n) { return R(n.str(0, std::ios::scientific)); }
static N mk(const e_float& v) { return N(BE(v)); }
static D md(const e_float& v) { return D(toR(v).str(D10 + 60)); }
// Accurate to 10^lg relative to mag, unless Boost itself is no better than that on its own decimal type.
template<class F> static void chk(Ctx& c, const std::string& name, const R& want, const R& mag, double lg, F f, const std::vector<e_float>& x)
{
  std::string err; R got = R::nan(); try { std::vector<N> a; for(const e_float& v : x) a.push_back(mk(v)); got = rr(f(a)); } catch(const std::exception& e) { err = e.what(); }
  if(got.isfinite() && within(got, want, mag, lg)) { check_close(c, name, got, want, mag, lg, name); return; }
  try { std::vector<D> a; for(const e_float& v : x) a.push_back(md(v)); if(!within(rr(f(a)), want, mag, lg - 1)) { c.label("boost-limit:" + name); return; } } catch(const std::exception&) { c.label("boost-limit:" + name); return; }
  REQUIRE(err.empty(), name + "-throws", name + " throws on the binding but not on cpp_dec_float: " + err.substr(0, 200)); check_close(c, name, got, want, mag, lg, name);
}
#define FUN(expr) [&](const auto& v) { using T = typename std::decay<decltype(v[0])>::type; return T(expr); }
static const double LIM = -D10 + 6;
TEST(B02_special, 700, 12000)
{
  c.nontrivial = true; const std::size_t k = s.draw(22); auto one = [&](const char* n, double lo, double hi) { e_float x = gen_in(s, c, lo, hi); c.label(n); c.note(std::string(n) + " x=" + show(x)); return x; };
  switch(k)
  {
    case 0: { e_float x = one("lgamma", 0.05, 60); R w = r::lngamma(toR(x)); chk(c, "lgamma", w, r::max(R(1), r::abs(w)), LIM, FUN(bm::lgamma(v[0])), { x }); break; }
    case 1: { e_float x = one("digamma", 0.05, 60); R w = r::digamma(toR(x)); chk(c, "digamma", w, r::max(R(1), r::abs(w)), LIM, FUN(bm::digamma(v[0])), { x }); break; }
    case 2: { e_float x = one("erf", -8, 8); R w = r::erf(toR(x)); chk(c, "erf", w, w, LIM, FUN(bm::erf(v[0])), { x }); break; }
    case 3: { e_float x = one("erfc", -8, 12); R w = r::erfc(toR(x)); chk(c, "erfc", w, w, LIM, FUN(bm::erfc(v[0])), { x }); break; }
    case 4: { e_float x = one("cyl_bessel_j", 0.05, 40); const int n = (int)s.draw(9); c.note("order " + tos(n)); R w = r::jn(n, toR(x)); chk(c, "cyl_bessel_j", w, r::max(r::abs(w), R(1)), LIM, FUN(bm::cyl_bessel_j(n, v[0])), { x }); break; }
    case 5: { e_float x = one("cyl_neumann", 0.1, 40); const int n = (int)s.draw(6); c.note("order " + tos(n)); R w = r::yn(n, toR(x)); chk(c, "cyl_neumann", w, r::max(r::abs(w), R(1)), LIM, FUN(bm::cyl_neumann(n, v[0])), { x }); break; }
    case 6: { e_float x = one("zeta", 1.05, 60); R w = r::zeta(toR(x)); chk(c, "zeta", w, w, LIM, FUN(bm::zeta(v[0])), { x }); break; }
    case 7: { e_float x = one("expint", 0.05, 40); R w = r::eint(toR(x)); chk(c, "expint", w, r::max(R(1), r::abs(w)), LIM, FUN(bm::expint(v[0])), { x }); break; }
    case 8: { e_float a = one("tgamma(a,x)", 0.1, 20), x = gen_in(s, c, 0.05, 40); c.note("second " + show(x)); R w = r::gamma_inc(toR(a), toR(x)); chk(c, "tgamma-upper", w, w, LIM, FUN(bm::tgamma(v[0], v[1])), { a, x }); break; }
    case 9: { e_float a = one("beta", 0.1, 30), b = gen_in(s, c, 0.1, 30); c.note("second " + show(b)); R w = r::beta(toR(a), toR(b)); chk(c, "beta", w, w, LIM, FUN(bm::beta(v[0], v[1])), { a, b }); break; }
    case 10: { e_float q = one("ellint_1", 0.01, 0.99); R m = R(1) - toR(q) * toR(q), w = r::pi() / (R(2) * r::agm(R(1), r::sqrt(m))); chk(c, "ellint_1", w, w, LIM, FUN(bm::ellint_1(v[0])), { q }); break; }
    case 11: { e_float w0 = one("lambert_w0", -0.9, 8); R W = toR(w0), X = W * r::exp(W); e_float x(X.str(D10 + 30)); X = toR(x); for(int i = 0; i < 3; ++i) { R ew = r::exp(W); W = W - (W * ew - X) / (ew * (W + R(1))); } chk(c, "lambert_w0", W, r::max(r::abs(W), R(1)), LIM + 1, FUN(bm::lambert_w0(v[0])), { x }); break; }
    case 12: { e_float x = one("cbrt", -1000, 1000); R X = toR(x), w = r::cbrt(X); chk(c, "cbrt", w, w, LIM, FUN(bm::cbrt(v[0])), { x }); break; }
    case 13: { e_float x = one("expm1", -3, 3); if(s.chance(1, 2)) x *= e_float("1e-" + tos(s.range(1, 40))); R w = r::expm1(toR(x)); chk(c, "expm1", w, w, LIM, FUN(bm::expm1(v[0])), { x }); break; }
    case 14: { e_float x = one("log1p", -0.9, 3); if(s.chance(1, 2)) x *= e_float("1e-" + tos(s.range(1, 40))); R w = r::log1p(toR(x)); chk(c, "log1p", w, w, LIM, FUN(bm::log1p(v[0])), { x }); break; }
    case 15: { e_float a = one("hypot", -100, 100), b = gen_in(s, c, -100, 100); c.note("second " + show(b)); R w = r::hypot(toR(a), toR(b)); chk(c, "hypot", w, w, LIM, FUN(bm::hypot(v[0], v[1])), { a, b }); break; }
    case 16: { e_float x = one("legendre", -1, 1); const int n = (int)s.draw(25); c.note("degree " + tos(n)); R X = toR(x), p0(1), p1 = X; for(int i = 1; i < n; ++i) { R p2 = (R(2 * i + 1) * X * p1 - R(i) * p0) / R(i + 1); p0 = p1; p1 = p2; } chk(c, "legendre", n ? p1 : R(1), R(1), LIM, FUN(bm::legendre_p(n, v[0])), { x }); break; }
    case 17: { e_float x = one("hermite", -3, 3); const int n = (int)s.draw(20); c.note("degree " + tos(n)); R X = toR(x), p0(1), p1 = R(2) * X, mag(1); for(int i = 1; i < n; ++i) { R p2 = R(2) * X * p1 - R(2 * i) * p0; p0 = p1; p1 = p2; mag = mag * (R(2) * r::abs(X) + R(2 * i)); } chk(c, "hermite", n ? p1 : R(1), r::max(R(8), mag), LIM, FUN(bm::hermite(n, v[0])), { x }); break; }
    case 18: { e_float x = one("laguerre", 0, 10); const int n = (int)s.draw(20); c.note("degree " + tos(n)); R X = toR(x), p0(1), p1 = R(1) - X, mag(1); for(int i = 1; i < n; ++i) { R p2 = ((R(2 * i + 1) - X) * p1 - R(i) * p0) / R(i + 1); p0 = p1; p1 = p2; mag = r::max(mag, r::abs(p1)); } mag = mag * R(1000); chk(c, "laguerre", n ? p1 : R(1), r::max(R(10), mag), LIM, FUN(bm::laguerre(n, v[0])), { x }); break; }
    case 19: { e_float x = one("tgamma", -20, 60); R X = toR(x), d = r::abs(X - r::floor(X + R(0.5))); if(X <= R(0) && d < R(0.001)) throw Discard(); R w = r::gamma(X); chk(c, "tgamma", w, w, LIM + 4, FUN(bm::tgamma(v[0])), { x }); break; }
    case 20: { e_float x = one("chebyshev", -1, 1); const unsigned n = (unsigned)s.draw(30); c.note("degree " + tos((long)n)); R w = r::cos(R((int)n) * r::acos(toR(x))); chk(c, "chebyshev_t", w, R(1), LIM + 1, FUN(bm::chebyshev_t(n, v[0])), { x }); break; }
    default: { e_float x = one("inverse-hyperbolic", 0.01, 20); R X = toR(x); chk(c, "asinh", r::asinh(X), r::asinh(X), LIM, FUN(bm::asinh(v[0])), { x }); chk(c, "acosh", r::acosh(X + R(1)), r::acosh(X + R(1)), LIM + 1, FUN(bm::acosh(v[0] + 1)), { x }); R q = X / (X + R(1)); chk(c, "atanh", r::atanh(q), r::atanh(q), LIM + 3, FUN(bm::atanh(v[0] / (v[0] + 1))), { x }); break; }
  }
}
TEST(B02_integers, 300, 4000)
{
  c.nontrivial = true; switch(s.draw(4))
  {
    case 0: { const unsigned n = (unsigned)s.draw(300); c.note("factorial " + tos((long)n)); chk(c, "factorial", r::fac(n), r::fac(n), LIM, FUN(bm::factorial<T>(n)), { e_float(0) }); break; }
    case 1: { const unsigned n = (unsigned)s.draw(150); c.note("double_factorial " + tos((long)n)); chk(c, "double_factorial", r::fac2(n), r::fac2(n), LIM + 2, FUN(bm::double_factorial<T>(n)), { e_float(0) }); break; }
    case 2: { const unsigned n = 1 + (unsigned)s.draw(200), k = (unsigned)s.draw(n + 1); c.note("binomial_coefficient " + tos((long)n) + "," + tos((long)k)); chk(c, "binomial_coefficient", r::bin(n, k), r::bin(n, k), LIM + 2, FUN(bm::binomial_coefficient<T>(n, k)), { e_float(0) }); break; }
    default: { const int n = (int)s.draw(60); c.note("bernoulli_b2n " + tos(n)); R w = r::bernoulli(2UL * n); chk(c, "bernoulli_b2n", w, w, LIM, FUN(bm::bernoulli_b2n<T>(n)), { e_float(0) }); break; }
  }
}
TEST(B02_constants, 60, 300)
{
  const double l = -D10 + 2; const std::vector<e_float> no{ e_float(0) }; c.nontrivial = true; switch(s.draw(13))
  {
    case 0: { c.note("pi"); chk(c, "k:pi", r::pi(), r::pi(), l, FUN(bm::constants::pi<T>()), no); break; }
    case 1: { c.note("half_pi"); chk(c, "k:half_pi", r::pi() / R(2), r::pi() / R(2), l, FUN(bm::constants::half_pi<T>()), no); break; }
    case 2: { c.note("two_pi"); chk(c, "k:two_pi", r::pi() * R(2), r::pi() * R(2), l, FUN(bm::constants::two_pi<T>()), no); break; }
    case 3: { c.note("root_pi"); chk(c, "k:root_pi", r::sqrt(r::pi()), r::sqrt(r::pi()), l, FUN(bm::constants::root_pi<T>()), no); break; }
    case 4: { c.note("root_two"); chk(c, "k:root_two", r::sqrt(R(2)), r::sqrt(R(2)), l, FUN(bm::constants::root_two<T>()), no); break; }
    case 5: { c.note("e"); chk(c, "k:e", r::e(), r::e(), l, FUN(bm::constants::e<T>()), no); break; }
    case 6: { c.note("ln_two"); chk(c, "k:ln_two", r::ln2(), r::ln2(), l, FUN(bm::constants::ln_two<T>()), no); break; }
    case 7: { c.note("ln_ten"); chk(c, "k:ln_ten", r::log(R(10)), r::log(R(10)), l, FUN(bm::constants::ln_ten<T>()), no); break; }
    case 8: { c.note("euler"); chk(c, "k:euler", r::euler(), r::euler(), l, FUN(bm::constants::euler<T>()), no); break; }
    case 9: { c.note("phi"); chk(c, "k:phi", (R(1) + r::sqrt(R(5))) / R(2), (R(1) + r::sqrt(R(5))) / R(2), l, FUN(bm::constants::phi<T>()), no); break; }
    case 10: { c.note("third"); chk(c, "k:third", R(1) / R(3), R(1) / R(3), l, FUN(bm::constants::third<T>()), no); break; }
    case 11: { c.note("zeta_three"); chk(c, "k:zeta_three", r::zeta(R(3)), r::zeta(R(3)), l, FUN(bm::constants::zeta_three<T>()), no); break; }
    case 12: { c.note("catalan"); chk(c, "k:catalan", r::catalan(), r::catalan(), l, FUN(bm::constants::catalan<T>()), no); break; }
    default: break;
  }
}
TEST(B02_rounding, 8000, 100000)
{
  // exact rounding functions of Boost.Math
  GenOpt o = window(s); o.emin = -30; o.emax = D10 - 3; e_float x = gen_value(s, c, o); if(s.chance(1, 2)) x = e_float((long long)gen_i64(s)) / 2; if(s.chance(1, 4)) { x = e_float((int)s.range(-2000, 2000)) / 4; } const N n = mk(x); const R a = toR(x), fl = r::floor(a), tr = r::trunc(a); if(!x.isfinite() || r::abs(a) >= R::pow10(D10 - 2)) throw Discard(); c.note(show(x)); c.nontrivial = !a.isint();
  R half = a.sgn() < 0 ? r::ceil(a - R(0.5)) : r::floor(a + R(0.5)); if(r::abs(r::abs(a - tr) - R(0.5)) < R::pow10(-3) && r::abs(a - tr) != R(0.5)) half = R::nan();
  REQUIRE(rr(bm::trunc(n)) == tr, "trunc", "trunc gave " + rr(bm::trunc(n)).str(30)); if(half.isfinite()) REQUIRE(rr(bm::round(n)) == half, "round", "round gave " + rr(bm::round(n)).str(30) + ", expected " + half.str(30)); N ip; const N fp = bm::modf(n, &ip); REQUIRE(rr(ip) == tr, "modf-int", "modf integer part"); check_close(c, "modf-frac", rr(fp), a - tr, r::max(r::abs(a), R::pow10(-40)), -D10 + 1, "modf fraction"); REQUIRE(rr(N(floor(n))) == fl, "floor", "floor");
  if(r::abs(a) < R(2000000000)) { REQUIRE(R(bm::itrunc(n)) == tr, "itrunc", "itrunc gave " + tos(bm::itrunc(n))); if(half.isfinite()) REQUIRE(R(bm::iround(n)) == half, "iround", "iround gave " + tos(bm::iround(n))); } if(r::abs(a) < R(9.0e18)) { REQUIRE(R(bm::lltrunc(n)) == tr, "lltrunc", "lltrunc gave " + tos(bm::lltrunc(n))); if(half.isfinite()) REQUIRE(R(bm::llround(n)) == half, "llround", "llround gave " + tos(bm::llround(n))); }
  REQUIRE(bm::sign(n) == a.sgn() && (a.iszero() || (bm::signbit(n) != 0) == (a.sgn() < 0)), "sign", "sign or signbit"); const e_float y = e_float((int)s.range(-3, 3)); if(!y.iszero()) { const N cs = bm::copysign(n, mk(y)); REQUIRE(rr(cs) == (toR(y).sgn() < 0 ? -r::abs(a) : r::abs(a)), "copysign", "copysign"); } REQUIRE(rr(N(bm::changesign(n))) == -a, "changesign", "changesign");
}
TEST(B02_to_integer, 6000, 80000)
{ // conversions to built-in integers and the truncation and rounding of Boost.Math that return one, up to the limits of each type
  static const int bits[] = { 7, 8, 15, 16, 31, 32, 53, 62, 63, 64 }; e_float x; switch(s.pick({3, 2, 2})) { case 0: c.label("boundary"); x = e_float(ef::pow2(bits[s.draw(10)])) + e_float((int)s.range(-5, 5)) / 4; break; case 1: c.label("integer"); x = e_float((unsigned long long)gen_u64(s)); break; default: c.label("quarter"); x = e_float((unsigned long long)gen_u64(s)) / 4; break; } if(s.chance(1, 2)) x = -x;
  const N n = mk(x); const R a = toR(x), t = r::trunc(a), h = a.sgn() < 0 ? r::ceil(a - R(0.5)) : r::floor(a + R(0.5)); c.note(show(x)); c.nontrivial = r::abs(t) > R(100);
  auto in = [](const R& v, const R& lo, const R& hi) { return v >= lo && v <= hi; }; const R i64l((long long)INT64_MIN), i64h((long long)INT64_MAX), u64h((unsigned long long)UINT64_MAX), i32l((long long)INT32_MIN), i32h((long long)INT32_MAX), u32h((long long)UINT32_MAX);
  auto is = [&](const char* sig, const R& got, const R& want) { REQUIRE(got == want, sig, std::string(sig) + " gave " + got.str(25) + ", expected " + want.str(25)); };
  if(in(t, i64l, i64h)) is("to-int64", R((long long)n.convert_to<long long>()), t); if(in(t, R(0), u64h)) is("to-uint64", R((unsigned long long)n.convert_to<unsigned long long>()), t); if(in(t, i32l, i32h)) is("to-int32", R((long long)n.convert_to<int>()), t); if(in(t, R(0), u32h)) is("to-uint32", R((unsigned long long)n.convert_to<unsigned>()), t);
  if(in(t, i32l, i32h)) is("itrunc", R((long long)bm::itrunc(n)), t); if(in(h, i32l, i32h)) is("iround", R((long long)bm::iround(n)), h);
  // the 64-bit forms of Boost compare with the limits in the type of the argument; keep away from the outermost values
  if(in(t, i64l + R(2), i64h - R(2))) is("lltrunc", R((long long)bm::lltrunc(n)), t); if(in(h, i64l + R(2), i64h - R(2))) is("llround", R((long long)bm::llround(n)), h);
}
TEST(B02_roots, 150, 1500)
{
  // x^p = b, e^x = b, bracketed and by derivatives
  const int kind = (int)s.draw(2), p = 2 + (int)s.draw(6); const e_float b = gen_in(s, c, 0.1, 50); const R B = toR(b), w = kind ? r::log(B) : r::rootn(B, (unsigned long)p); const N n = mk(b); c.nontrivial = true; c.note((kind ? "e^x=" : "x^" + tos(p) + "=") + show(b)); auto f = [&](const N& x) { return N(kind ? N(exp(x) - n) : N(pow(x, p) - n)); };
  if(s.chance(1, 2)) { std::uintmax_t it = 400; c.label("toms748"); const N lo = kind ? N(-3) : N(0.01), hi = kind ? N(5) : N(60); auto q = bm::tools::toms748_solve(f, lo, hi, bm::tools::eps_tolerance<N>((unsigned)(D10 * 3.3219) - 20), it); REQUIRE(it < 400, "toms748-iterations", "no convergence"); check_close(c, "toms748", rr(N((q.first + q.second) / 2)), w, r::max(r::abs(w), R(1)), -D10 + 9, "root by toms748_solve"); }
  else { std::uintmax_t it = 200; c.label("newton"); const double g0 = w.dbl(); const N guess = N(g0 * (1 + 0.001 * (double)s.range(-9, 9)) + 1e-9); auto fd = [&](const N& x) { return std::make_pair(f(x), N(kind ? N(exp(x)) : N(p * pow(x, p - 1)))); }; const N g = bm::tools::newton_raphson_iterate(fd, guess, N(-4), N(61), (int)(D10 * 3.3219) - 16, it); REQUIRE(it < 200, "newton-iterations", "no convergence"); check_close(c, "newton", rr(g), w, r::max(r::abs(w), R(1)), -D10 + 8, "root by newton_raphson_iterate"); }
}
TEST(B02_scaling, 6000, 60000)
{
  // scalbn, ilogb and the neighbours of a value (the radix of the binding is ten)
  GenOpt o = window(s, true); e_float x = gen_value(s, c, o); if(!x.isfinite()) throw Discard(); const N n = mk(x); const R a = toR(x); c.note(show(x));
  if(s.chance(1, 8)) { c.label("zero"); const N z0 = mk(e_float()); const long k = std::vector<long>{0, 1, -1, 1000, -1000, 1000000000L, -1000000000L, 2147480000L, -2147480000L}[s.draw(9)]; REQUIRE(rr(scalbn(z0, k)).iszero(), "scalbn-zero", "scalbn(0," + tos(k) + ") gave " + rr(scalbn(z0, k)).str(20)); REQUIRE(bm::float_next(z0) > 0 && bm::float_prior(z0) < 0, "next-zero", "float_next(0)"); }
  if(a.iszero()) throw Discard(); c.nontrivial = true; long e, e1, e2; const R dl = R::pow10(4 - D10); (a * (R(1) - dl)).digits(D10 + 60, e1, true); (a * (R(1) + dl)).digits(D10 + 60, e2, true); e = --e2; --e1;
  REQUIRE((long)ilogb(n) >= e1 && (long)ilogb(n) <= e2, "ilogb", "ilogb gave " + tos((long)ilogb(n)) + ", expected " + tos(e));
  const long k = s.chance(1, 2) ? s.range(-300, 300) : s.chance(1, 2) ? -e + s.range(-3, 3) : (s.chance(1, 2) ? 1 : -1) * (2147400000L - (long)s.draw(100000)) - e; c.note("k " + tos(k)); const double l = a.log10abs() + k; if(std::fabs(l) < 2147300000.0 && k > -4294000000L && k < 4294000000L && std::fabs(l) < 0.3 * 2147483000.0 * (std::numeric_limits<e_float>::radix == 10 ? 3.3 : 0.99)) { c.label(std::labs(k) > 1000000000L ? "scalbn-huge" : "scalbn"); check_rel(c, "scalbn", rr(N(scalbn(n, k))), a * R::pow10(k), -D10 + 1, "scalbn"); }
  if(e > -100000 && e < 100000) { x = e_float(a.str(D10 - 1)); const N n = mk(x); const R a = toR(x); const N up = bm::float_next(n), dn = bm::float_prior(n); const R u = rr(up), d = rr(dn), g = r::abs(a) * R::pow10(-D10 + 3); REQUIRE(u > a && u - a <= g, "float-next", "float_next moved by " + (u - a).str(10)); REQUIRE(d < a && a - d <= g, "float-prior", "float_prior moved by " + (a - d).str(10)); REQUIRE(bm::nextafter(n, N(up + 1)) == up && bm::nextafter(n, n) == n, "nextafter", "nextafter"); }
}
TEST(B02_quadrature, 24, 200)
{
  c.nontrivial = true; const e_float z = gen_in(s, c, 0.2, 3); const R Z = toR(z); const N n = mk(z); const int k = (int)s.draw(3); c.note(tos(k) + " z=" + show(z));
  if(k == 0) { c.label("trapezoidal"); auto f = [&](const N& x) { return N(1 / (n + 1 + cos(x))); }; const N g = bm::quadrature::trapezoidal(f, N(0), N(bm::constants::two_pi<N>()), N("1e-" + tos(D10 / 2 + 5)), 14); const R m = Z + R(1); check_rel(c, "trapezoidal", rr(g), r::pi() * R(2) / r::sqrt(m * m - R(1)), -D10 / 2.0, "integral by trapezoidal"); }
  else { c.label(k == 1 ? "tanh_sinh-power" : "tanh_sinh-exp"); static bm::quadrature::tanh_sinh<N> q; N er, l1; const N tol("1e-" + tos((int)(D10 * 0.6))); const N g = k == 1 ? q.integrate([&](const N& x) { return N(pow(x, n)); }, N(0), N(1), tol, &er, &l1) : q.integrate([&](const N& x) { return N(exp(n * x)); }, N(-1), N(1), tol, &er, &l1); const R w = k == 1 ? R(1) / (Z + R(1)) : (r::exp(Z) - r::exp(-Z)) / Z; check_rel(c, "tanh_sinh", rr(g), w, -0.55 * D10, "integral by tanh_sinh"); }
}

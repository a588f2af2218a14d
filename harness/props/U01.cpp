// Numerical helper templates: interpolation, sums, casts, roots, quadrature, derivative, powers.
#include "../gen.h"
#include <cmath>
#include <deque>
#include <limits>
#include <map>
#include <numeric>
#include <e_float/e_float_complex.h>
#include <e_float/detail/e_float_detail_pown_template.h>
#include <utility/util_alternating_sum.h>
#include <utility/util_coefficient_expansion.h>
#include <utility/util_digit_scale.h>
#include <utility/util_find_root_bisect.h>
#include <utility/util_find_root_newton_raphson.h>
#include <utility/util_function_derivative.h>
#include <utility/util_interpolate.h>
#include <utility/util_lexical_cast.h>
#include <utility/util_numeric_cast.h>
#include <utility/util_power_j_pow_x.h>
#include <utility/util_trapezoid.h>
static const double LIM = -(double)D10;
TEST(U01_interpolate, 3000, 30000)
{
  long n = (long)s.draw(7); std::vector<Util::point<e_float>> p; std::vector<Util::point<double>> q; std::vector<R> X, Y; double x = s.range(-50, 50) / 8.0; 
  for(long i = 0; i < n; ++i) { double y = s.range(-1000, 1000) / 16.0; p.push_back(Util::point<e_float>(e_float(x), e_float(y))); q.push_back(Util::point<double>(x, y)); X.push_back(R(x)); Y.push_back(R(y)); if(!s.chance(1, 10)) x += (1 + (long)s.draw(40)) / 8.0; else c.label("step"); }
  double t = s.range(-80, 400) / 8.0; if(n && s.chance(1, 3)) t = q[s.draw(n)].x; if(s.chance(1, 2)) t += s.range(-7, 7) / 64.0; e_float te(t); if(s.chance(1, 3)) te += e_float("1e-40"); R tr = toR(te);
  c.note(tos(n) + " points, x=" + show(te)); R want(0); bool in = false, jump = false;
  if(n == 0) want = R(0); else if(n == 1 || tr <= X[0]) want = Y[0]; else if(tr >= X[n - 1]) want = Y[n - 1]; else { long i = 1; while(X[i] < tr) ++i; jump = X[i] == tr && i + 1 < n && X[i + 1] == tr; want = Y[i - 1] + (tr - X[i - 1]) * (Y[i] - Y[i - 1]) / (X[i] - X[i - 1]); in = true; }
  c.nontrivial = in; e_float g = Util::linear_interpolate<e_float>::interpolate(te, p); (void)jump; check_close(c, "interpolate", toR(g), want, R(100), LIM, "linear_interpolate<e_float>");
  if(toR(te) == R(t)) { double gd = Util::linear_interpolate<double>::interpolate(t, q); check_close(c, "interpolate-double", R(gd), want, R(100), -13, "linear_interpolate<double>"); }
}
TEST(U01_sums, 3000, 30000)
{
  std::vector<e_float> a; std::vector<int> ai; long n = (long)s.draw(20); R sum(0), mag(0), alt(0), am(0); const bool neg = s.chance(1, 2); e_float x = gen_in(s, c, -3, 3), f = gen_in(s, c, -2, 2), s0 = gen_in(s, c, -2, 2); const bool deff = s.chance(1, 2); R pw = deff ? R(1) : toR(f), ex = toR(x); sum = alt = toR(s0); mag = am = r::abs(sum); R asum = alt;
  for(long i = 0; i < n; ++i) { a.push_back(gen_in(s, c, -9, 9)); R v = toR(a.back()); sum += v * pw; mag += r::abs(v * pw); pw *= ex; if((i % 2 == 1) != neg) asum -= v; else asum += v; am += r::abs(v); }
  c.note(tos(n) + " coefficients at " + show(x)); c.nontrivial = n > 1; e_float g = deff ? std::accumulate(a.begin(), a.end(), s0, Util::coefficient_expansion<e_float>(x)) : std::accumulate(a.begin(), a.end(), s0, Util::coefficient_expansion<e_float>(x, f)); if(mag.iszero()) mag = R(1); if(am.iszero()) am = R(1);
  check_close(c, "expansion", toR(g), sum, mag, LIM, "coefficient_expansion"); e_float h = neg ? std::accumulate(a.begin(), a.end(), s0, Util::alternating_sum<e_float>(true)) : std::accumulate(a.begin(), a.end(), s0, Util::alternating_sum<e_float>()); check_close(c, "alternating", toR(h), asum, am, LIM, "alternating_sum");
}
template<class T> static void cast_int(Src& s, Ctx& c, const char* name)
{
  T v; switch(s.pick({3, 2, 3})) { case 0: v = (T)s.draw(200); break; case 1: v = s.chance(1, 2) ? (T)(std::numeric_limits<T>::max() - (T)s.draw(3)) : (T)(std::numeric_limits<T>::min() + (T)s.draw(3)); break; default: v = (T)gen_i64(s); }
  const std::string t = std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); c.note(std::string(name) + " " + t); c.nontrivial = t.size() > 1;
  T g = Util::numeric_cast<T>(t); REQUIRE(g == v, "numeric-cast", std::string("numeric_cast<") + name + ">(\"" + t + "\") gave " + std::to_string((long long)g)); if(sizeof(T) > 1) REQUIRE(Util::lexical_cast(v) == t, "lexical-cast", std::string("lexical_cast of ") + name + " " + t + " gave " + Util::lexical_cast(v)); if(v >= 0 && s.chance(1, 2)) { REQUIRE(Util::numeric_cast<T>("+" + t) == v && Util::numeric_cast<T>(t + "x") == v && Util::numeric_cast<T>(" 00" + t) == v, "numeric-cast-forms", "signed, padded or terminated text " + t); }
}
TEST(U01_casts, 6000, 60000)
{
  switch(s.draw(12))
  {
    case 0: cast_int<signed char>(s, c, "signed char"); break; case 1: cast_int<unsigned char>(s, c, "unsigned char"); break; case 2: cast_int<short>(s, c, "short"); break; case 3: cast_int<unsigned short>(s, c, "unsigned short"); break; case 4: cast_int<int>(s, c, "int"); break; case 5: cast_int<unsigned>(s, c, "unsigned"); break; case 6: cast_int<long>(s, c, "long"); break; case 7: cast_int<unsigned long>(s, c, "unsigned long"); break; case 8: cast_int<long long>(s, c, "long long"); break; case 9: cast_int<unsigned long long>(s, c, "unsigned long long"); break;
    case 10: { double v = gen_double(s); char b[64]; std::snprintf(b, sizeof b, "%.17g", v); c.note(std::string("floating-point ") + b); c.nontrivial = true; if(v != 0 && std::fabs(v) < 2.3e-308) throw Discard(); REQUIRE(Util::numeric_cast<double>(b) == v, "numeric-cast-double", std::string("numeric_cast<double>(") + b + ")"); float f = (float)v; if(std::isfinite(f) && (f == 0 || std::fabs(f) >= 1.2e-38f)) { std::snprintf(b, sizeof b, "%.9g", (double)f); REQUIRE(Util::numeric_cast<float>(b) == f, "numeric-cast-float", std::string("numeric_cast<float>(") + b + ") gave " + std::to_string(Util::numeric_cast<float>(b))); } break; }
    default: { std::string t = gen_literal(s, c); c.note("e_float " + t); c.nontrivial = true; REQUIRE(Util::numeric_cast<e_float>(t) == e_float(t), "numeric-cast-e_float", "numeric_cast<e_float>(" + t + ") gave " + show(Util::numeric_cast<e_float>(t))); }
  }
}
TEST(U01_scale, 20, 20)
{
  c.note("DigitScale"); c.nontrivial = true; const double xs[] = { 50, 100, 200, 300 }, ys[] = { 1. / 6, 1. / 3, 1. / 2, 1 }; double w = D10 <= 50 ? ys[0] : D10 >= 300 ? 1 : 0; for(int i = 1; i < 4; ++i) if(D10 > xs[i - 1] && D10 <= xs[i]) w = ys[i - 1] + (ys[i] - ys[i - 1]) * (D10 - xs[i - 1]) / (xs[i] - xs[i - 1]); REQUIRE(std::fabs(Util::DigitScale() - w) < 1e-12, "digit-scale", "DigitScale() is " + std::to_string(Util::DigitScale()));
}
// f(x) = e^(ax) - b, x^p - b, x + a sin x - b: increasing with one simple root
struct Fn
{
  int kind; e_float a, b; int p;
  e_float f(const e_float& x) const { return kind == 0 ? ef::exp(a * x) - b : kind == 1 ? ef::pow(x, p) - b : x + a * ef::sin(x) - b; }
  e_float d(const e_float& x) const { return kind == 0 ? a * ef::exp(a * x) : kind == 1 ? p * ef::pow(x, p - 1) : 1 + a * ef::cos(x); }
};
struct NR : Util::FindRootNewtonRaphson<e_float>
{
  const Fn& fn; mutable int calls = 0; NR(const Fn& f, const e_float& lo, const e_float& hi, const e_float& tol) : Util::FindRootNewtonRaphson<e_float>(lo, hi, tol), fn(f) { }
  void my_function_derivative(const e_float& x, e_float& f, e_float& d) const override { ++calls; f = fn.f(x); d = fn.d(x); }
  e_float my_function(const e_float& x) const override { return fn.f(x); }
};
struct BI : Util::FindRootBisect<e_float>
{
  const Fn& fn; bool flip; BI(const Fn& f, bool fl, const e_float& lo, const e_float& hi, const e_float& tol) : Util::FindRootBisect<e_float>(lo, hi, tol), fn(f), flip(fl) { }
  e_float my_function(const e_float& x) const override { return flip ? -fn.f(x) : fn.f(x); }
};
struct DER : Util::FunctionDerivative<e_float>
{
  const Fn& fn; DER(const Fn& f, const e_float& x) : Util::FunctionDerivative<e_float>(x), fn(f) { } DER(const Fn& f, const e_float& x, const e_float& dx) : Util::FunctionDerivative<e_float>(x, dx), fn(f) { }
  e_float my_function(const e_float& x) const override { return fn.f(x); }
};
static Fn gen_fn(Src& s, Ctx& c, e_float& root)
{
  Fn f; f.kind = (int)s.draw(3); f.p = 2 + (int)s.draw(5); c.label(f.kind == 0 ? "exp" : f.kind == 1 ? "power" : "sine"); f.a = f.kind == 2 ? gen_in(s, c, -0.6, 0.6) : gen_in(s, c, 0.25, 2); root = f.kind == 1 ? gen_in(s, c, 0.5, 4) : gen_in(s, c, -3, 3); f.b = ef::zero(); f.b = f.f(root); return f;
}
TEST(U01_roots, 900, 9000)
{
  e_float root; Fn f = gen_fn(s, c, root); R r0 = toR(root); e_float lo, hi; const int e = 5 + (int)s.draw(D10 - 10); e_float tol("1e-" + tos(e)); const double condlg = LIM + 2.5;
  e_float l = ef::fabs(gen_in(s, c, 0.01, 0.45)), h = ef::fabs(gen_in(s, c, 0.01, 0.45)); lo = root - l; hi = root + h; c.note("kind " + tos(f.kind) + " root " + show(root) + " in [" + show(lo) + "," + show(hi) + "] tolerance 1e-" + tos(e)); c.nontrivial = true;
  { NR nr(f, lo, hi, tol); REQUIRE(!nr.success(), "newton-early-success", "success before the operation"); e_float x = nr.operation(); R g = toR(x); if(nr.success()) { check_close(c, "newton", g, r0, R(1), std::max(condlg, -1.9 * e + 1.5), "root by Newton iteration"); REQUIRE(x >= lo && x <= hi, "newton-range", "the root is outside of the interval"); REQUIRE(nr.calls < 40, "newton-calls", tos(nr.calls) + " iterations"); } else { R mid = (toR(lo) + toR(hi)) / R(2), rr = toR(x); REQUIRE(rr.iszero(), "newton-failed-value", "a failed search returned " + show(x)); if(l == h) throw Fail("newton-failed", "the search failed from the root itself"); bool out = false; e_float y = (lo + hi) / 2; for(int i = 0; i < 60 && !out; ++i) { y -= f.f(y) / f.d(y); out = y < lo || y > hi || !ef::isfinite(y); } REQUIRE(out, "newton-failed", "the search failed although no iterate leaves the interval"); c.label("left"); } }
  { const bool flip = s.chance(1, 2); BI bi(f, flip, lo, hi, tol); e_float x = bi.operation(); REQUIRE(bi.success(), "bisect-failed", "bisection failed with a sign change in the interval"); check_close(c, "bisect", toR(x), r0, R(1), std::max(condlg, -(double)e + 0.01), "root by bisection"); REQUIRE(x >= lo && x <= hi, "bisect-range", "the root is outside of the interval");
    BI no(f, flip, hi, hi + 1, tol); e_float y = no.operation(); REQUIRE(!no.success() && y.iszero(), "bisect-no-root", "an interval without change of sign gave success " + tos(no.success()) + " and " + show(y)); }
}
struct EX : Util::FindRootBisect<e_float>
{
  e_float a, q; int p; EX(const e_float& A, int P, const e_float& Q, const e_float& lo, const e_float& hi, const e_float& tol) : Util::FindRootBisect<e_float>(lo, hi, tol), a(A), q(Q), p(P) { }
  e_float my_function(const e_float& x) const override { return a * (p == 1 ? x - q : (x - q) * (x - q) * (x - q)); }
};
TEST(U01_bisect_exact, 400, 4000)
{
  // the root is one of the midpoints: the function is exactly zero there
  const int lv = 1 + (int)s.draw(6); const long n = 1L << lv, k = 1 + 2 * (long)s.draw(n / 2); e_float lo((int)s.range(-40, 40)); lo /= 4; e_float w(1 + (int)s.draw(20)); w /= 2; const e_float hi = lo + w, root = lo + w * (int)k / (int)n; const int e = 5 + (int)s.draw(D10 - 10); const int p = s.chance(1, 2) ? 1 : 3; e_float a(s.chance(1, 2) ? 3 : -3);
  c.note("a (x - q)^" + tos(p) + ", q=" + show(root) + " on [" + show(lo) + "," + show(hi) + "] tolerance 1e-" + tos(e)); c.nontrivial = true; c.label("level " + tos(lv)); EX b(a, p, root, lo, hi, e_float("1e-" + tos(e))); const e_float g = b.operation();
  REQUIRE(b.success(), "bisect-failed", "bisection failed with a sign change in the interval"); check_close(c, "bisect-exact", toR(g), toR(root), R(1), std::max(LIM + 2.5, -(double)e + 0.01), "root by bisection, which is a midpoint");
}
TEST(U01_derivative, 900, 9000)
{
  e_float root; Fn f = gen_fn(s, c, root); e_float x = f.kind == 1 ? gen_in(s, c, 0.5, 4) : gen_in(s, c, -3, 3); R want; { R X = toR(x), A = toR(f.a); want = f.kind == 0 ? A * r::exp(A * X) : f.kind == 1 ? R(f.p) * r::powi(X, f.p - 1) : R(1) + A * r::cos(X); }
  c.nontrivial = true; if(s.chance(1, 2)) { c.note("kind " + tos(f.kind) + " derivative at " + show(x)); const int k = (int)(D10 * 1.15 / 5 + 0.5); DER d(f, x); e_float g = d.operation(); REQUIRE(d.success(), "derivative-success", "no success"); check_close(c, "derivative", toR(g), want, R(1) + r::abs(want), std::max(-6.0 * k + 4, LIM + k + 4), "derivative"); }
  else { const int k = 2 + (int)s.draw(D10 / 2); c.note("kind " + tos(f.kind) + " derivative at " + show(x) + " step 1e-" + tos(k)); DER d(f, x, e_float("1e-" + tos(k))); e_float g = d.operation(); check_close(c, "derivative-step", toR(g), want, R(1) + r::abs(want), std::max(-6.0 * k + 4, LIM + k + 4), "derivative"); }
}
struct TR : Util::RecursiveTrapezoidRule<e_float>
{
  int kind; e_float z, wave; mutable long calls = 0; TR(int k, const e_float& Z, const e_float& lo, const e_float& hi, bool dt, const e_float& tol) : Util::RecursiveTrapezoidRule<e_float>(lo, hi, dt ? my_tol() : tol), kind(k), z(Z) { }
  e_float my_function(const e_float& x) const override { ++calls; switch(kind) { case 0: return ef::exp(z * ef::cos(x)); case 1: return 1 / (z + ef::cos(x)); case 2: return z * x + 3; case 4: { const e_float q = ef::sin(x * wave); return 1 + z * q * q; } default: return z * x * x + 1; } }
};
TEST(U01_trapezoid, 60, 400)
{
  const int kind = (int)s.draw(4); c.label(kind == 0 ? "bessel" : kind == 1 ? "pole" : kind == 2 ? "linear" : "quadratic"); c.nontrivial = true; const bool whole = s.chance(1, 2);
  if(kind < 2)
  {
    e_float z = kind == 0 ? gen_in(s, c, -8, 8) : gen_in(s, c, 1.5, 6); R Z = toR(z), want; e_float hi = whole ? ef::two_pi() : ef::pi(); c.note((kind ? "1/(z+cos), z=" : "exp(z cos), z=") + show(z)); TR t(kind, z, ef::zero(), hi, true, ef::zero()); REQUIRE(!t.success(), "trapezoid-early-success", "success before the operation"); e_float g = t.operation(); REQUIRE(t.success(), "trapezoid-failed", "no convergence");
    if(kind == 0) { R term(1), q = Z * Z / R(4); want = R(0); for(long k = 1; k < 3000; ++k) { want += term; term *= q / R(k) / R(k); if(term.iszero() || term.log10abs() < -1.5 * D10 - 20) break; } want *= r::pi(); } else want = r::pi() / r::sqrt(Z * Z - R(1)); if(whole) want *= R(2); check_rel(c, kind ? "trapezoid-pole" : "trapezoid-bessel", toR(g), want, std::max(LIM + 1.5, -0.97 * D10), "periodic integral"); return;
  }
  e_float lo = gen_in(s, c, -2, 2), hi = lo + gen_in(s, c, 0.1, 3), z = gen_in(s, c, 0.1, 1); R L = toR(lo), H = toR(hi), Z = toR(z), want; const int e = 3 + (int)s.draw(5); want = kind == 2 ? Z * (H * H - L * L) / R(2) + R(3) * (H - L) : Z * (H * H * H - L * L * L) / R(3) + H - L; c.note((kind == 2 ? "linear on [" : "quadratic on [") + show(lo) + "," + show(hi) + "] tolerance 1e-" + tos(e));
  TR t(kind, z, lo, hi, false, e_float("1e-" + tos(e))); e_float g = t.operation(); REQUIRE(t.success(), "trapezoid-failed", "no convergence"); check_rel(c, kind == 2 ? "trapezoid-linear" : "trapezoid-quadratic", toR(g), want, kind == 2 ? LIM + 1 : -(double)e, "integral");
}
TEST(U01_trapezoid_waves, 100, 1000)
{
  // 1 + z sin^2(m pi x) over unit intervals: m = 2, 4 or 8 vanish at all points of the first levels of refinement
  const int m = s.chance(1, 2) ? 1 << s.draw(4) : 1 + (int)s.draw(8); const int lo = (int)s.range(-5, 5), len = 1; e_float z = gen_in(s, c, 0.5, 4); const int e = 2 + (int)s.draw(8); c.note("1 + z sin^2(" + tos(m) + " pi x) from " + tos(lo) + ", z=" + show(z) + " tolerance 1e-" + tos(e)); c.nontrivial = m > 1; c.label("m=" + tos(m));
  TR t(4, z, e_float(lo), e_float(lo + len), false, e_float("1e-" + tos(e))); t.wave = ef::pi() * m; e_float g = t.operation(); REQUIRE(t.success(), "trapezoid-failed", "no convergence"); check_rel(c, "trapezoid-waves", toR(g), R(1) + toR(z) / R(2), LIM + 2, "integral");
}
TEST(U01_j_pow_x, 400, 4000)
{
  // one map per exponent, many bases in any order
  const bool cplx = s.chance(1, 3); std::map<std::uint32_t, e_float> m; std::map<std::uint32_t, ef::complex<e_float>> mc; e_float x, y; switch(s.draw(3)) { case 0: x = e_float((int)s.range(-40, 40)); c.label("integer"); break; case 1: x = e_float((int)s.range(-80, 80)) / 2; c.label("half-integer"); break; default: x = gen_in(s, c, -30, 30); } if(cplx) y = s.chance(1, 6) ? ef::zero() : gen_in(s, c, -60, 60);
  c.note("x=" + show(x) + (cplx ? "+i" + show(y) : "")); long k = 1 + (long)s.draw(12); c.nontrivial = k > 1; R X = toR(x), Y = cplx ? toR(y) : R(0);
  for(long i = 0; i < k; ++i)
  {
    std::uint32_t j = s.chance(1, 3) ? (std::uint32_t)(2 << s.draw(20)) : s.chance(2, 3) ? 1 + (std::uint32_t)s.draw(400) : 1 + (std::uint32_t)s.draw(10000000); R ln = r::log(R((unsigned long)j)); R mod = r::exp(X * ln); const double lg = LIM + std::max(0.0, std::log10(1 + ln.dbl() * (std::fabs(X.dbl()) + std::fabs(Y.dbl())) / 100));
    if(!cplx) check_rel(c, "j_pow_x", toR(Util::j_pow_x(j, x, m)), mod, lg, tos(j) + "^x"); else { ef::complex<e_float> g = Util::j_pow_x(j, ef::complex<e_float>(x, y), mc); check_close(c, "j_pow_x-re", toR(g.real()), mod * r::cos(Y * ln), mod, lg, "real part of " + tos(j) + "^x"); check_close(c, "j_pow_x-im", toR(g.imag()), mod * r::sin(Y * ln), mod, lg, "imaginary part of " + tos(j) + "^x"); }
  }
}
TEST(U01_pown, 3000, 30000)
{
  const std::int64_t p = s.chance(1, 2) ? s.range(-20, 60) : s.range(-3000, 3000); c.note("p=" + tos(p)); c.nontrivial = p > 1 || p < -1;
  switch(s.draw(4))
  {
    case 0: { e_float x = gen_in(s, c, 0.25, 4); if(s.chance(1, 2)) x = -x; c.note("x=" + show(x)); check_rel(c, "pown", toR(ef::detail::pown_template(x, p)), r::powi(toR(x), (long)p), LIM + std::max(0.0, std::log10(std::fabs((double)p) + 1) - 2), "pown_template"); break; }
    case 1: { unsigned long b = 1 + s.draw(100); if(p < 0) throw Discard(); std::uint64_t w = 1; for(std::int64_t i = 0; i < p; ++i) w *= b; c.note("b=" + tos((long long)b)); REQUIRE(ef::detail::pown_template((std::uint64_t)b, p) == w, "pown-integer", tos((long long)b) + "^" + tos(p) + " modulo 2^64"); break; }
    case 2: { e_float x = gen_in(s, c, -2, 2), y = gen_in(s, c, -2, 2); R X = toR(x), Y = toR(y), n2 = X * X + Y * Y; if(n2 < R(0.01)) throw Discard(); const std::int64_t q = s.range(-40, 40); ef::complex<e_float> g = ef::detail::pown_template(ef::complex<e_float>(x, y), q); C w = r::powi(C(X, Y), (long)q); R mod = r::exp(r::log(n2) * R((long)q) / R(2)); c.note("complex q=" + tos(q)); check_close(c, "pown-complex", toR(g.real()), w.re, mod, LIM + 0.5, "real part of power " + tos(q)); check_close(c, "pown-complex", toR(g.imag()), w.im, mod, LIM + 0.5, "imaginary part of power " + tos(q)); break; }
    default: { double x = 0.5 + s.draw(1000) / 1000.0; if(std::fabs((double)p) > 300) throw Discard(); double g = ef::detail::pown_template(x, p), w = std::pow(x, (double)p); REQUIRE(std::fabs(g - w) <= 1e-12 * w, "pown-double", "pown_template(double)"); }
  }
}

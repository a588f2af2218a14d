// The Boost.Multiprecision binding against native e_float values and the oracle.
#include "../gen.h"
#include <boost/math/bindings/e_float.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/cpp_dec_float.hpp>
#include <boost/math/constants/constants.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/fpclassify.hpp>
#include <boost/math/special_functions/sign.hpp>
#include <cmath>
#include <iomanip>
#include <sstream>
namespace mp = boost::multiprecision;
typedef boost::math::ef::e_float BE;
typedef mp::number<BE, mp::et_off> N;
typedef mp::number<BE, mp::et_on> X;
typedef std::numeric_limits<N> LN;
static const e_float& nat(const N& n) { return n.backend().crepresentation(); }
static const e_float& nat(const X& n) { return n.backend().crepresentation(); }
template<class T> static R rr(const T& n) { return toR(nat(n)); }
template<class T> static T mk(const e_float& v) { return T(BE(v)); }
static std::string b2s(bool b) { return b ? "true" : "false"; }
// identical value (NaN equals NaN)
static void ident(const std::string& sig, const R& got, const R& want, const std::string& what)
{ REQUIRE((got.isnan() && want.isnan()) || got == want, sig, what + " gave " + got.str(60) + ", native e_float gives " + want.str(60)); }

// one program of operations on three variables, executed on T and on native e_float
template<class T> static void program(Src& s, Ctx& c, const char* nm)
{
  GenOpt o; o.emin = -40; o.emax = 40; o.zero = false; e_float w[3]; T v[3]; for(int i = 0; i < 3; ++i) { w[i] = gen_value(s, c, o); v[i] = mk<T>(w[i]); }
  const int n = 1 + (int)s.draw(8); c.note(std::string(nm) + " a=" + show(w[0]) + " b=" + show(w[1]) + " c=" + show(w[2])); c.nontrivial = true;
  for(int i = 0; i < n; ++i)
  {
    const int t = (int)s.draw(3), p = (int)s.draw(3), q = (int)s.draw(3); const std::size_t k = s.draw(24); const long long l = (long long)s.range(-1000000007, 1000000007); const unsigned long long u = gen_u64(s); const double d = (double)s.range(-4096, 4096) / 64; const int z = (int)s.range(-2000000000, 2000000000);
    std::string op; auto nm1 = [](int a) { return std::string(1, (char)('a' + a)); };
    switch(k)
    {
      case 0: op = "t=p+q"; v[t] = v[p] + v[q]; w[t] = w[p] + w[q]; break; case 1: op = "t=p-q"; v[t] = v[p] - v[q]; w[t] = w[p] - w[q]; break;
      case 2: op = "t=p*q"; v[t] = v[p] * v[q]; w[t] = w[p] * w[q]; break; case 3: op = "t=p/q"; if(w[q].iszero()) continue; v[t] = v[p] / v[q]; w[t] = w[p] / w[q]; break;
      case 4: op = "t+=p"; v[t] += v[p]; w[t] += e_float(w[p]); break; case 5: op = "t-=p"; v[t] -= v[p]; w[t] -= e_float(w[p]); break; case 6: op = "t*=p"; v[t] *= v[p]; w[t] *= e_float(w[p]); break;
      case 7: op = "t=p*q+t"; v[t] = v[p] * v[q] + v[t]; w[t] = w[p] * w[q] + w[t]; break; case 8: op = "t=t-p*q"; v[t] = v[t] - v[p] * v[q]; w[t] = w[t] - w[p] * w[q]; break;
      case 9: op = "t=(p+q)*(t-q)"; v[t] = (v[p] + v[q]) * (v[t] - v[q]); w[t] = (w[p] + w[q]) * (w[t] - w[q]); break; case 10: op = "t=-(p+t)"; v[t] = -(v[p] + v[t]); w[t] = -(w[p] + w[t]); break;
      case 11: op = "t=p*int " + tos(z); v[t] = v[p] * z; w[t] = w[p] * e_float(z); break; case 12: op = "t=int+p " + tos(z); v[t] = z + v[p]; w[t] = e_float(z) + w[p]; break; case 13: op = "t=int-p " + tos(z); v[t] = z - v[p]; w[t] = e_float(z) - w[p]; break;
      case 14: op = "t=p/long long " + tos(l); if(!l) continue; v[t] = v[p] / l; w[t] = w[p] / e_float(l); break; case 15: op = "t=long long/p " + tos(l); if(w[p].iszero()) continue; v[t] = l / v[p]; w[t] = e_float(l) / w[p]; break;
      case 16: op = "t=p*ull " + std::to_string(u); v[t] = v[p] * u; w[t] = w[p] * e_float(u); break; case 17: op = "t=p-ull " + std::to_string(u); v[t] = v[p] - u; w[t] = w[p] - e_float(u); break; case 18: op = "t=p/ull " + std::to_string(u); if(!u) continue; v[t] = v[p] / u; w[t] = w[p] / e_float(u); break;
      case 19: op = "t=p*double+q"; v[t] = v[p] * d + v[q]; w[t] = w[p] * e_float(d) + w[q]; break; case 20: op = "t*=long long " + tos(l); v[t] *= l; w[t] *= e_float(l); break; case 21: op = "t=t*t-p"; v[t] = v[t] * v[t] - v[p]; w[t] = w[t] * w[t] - w[p]; break;
      case 22: op = "swap/inc"; if(p == q) { ++v[t]; w[t] += e_float(1); } else { v[p].swap(v[q]); std::swap(w[p], w[q]); } break;
      default: op = "abs/neg"; if(p == q) { v[t] = abs(v[t]); w[t] = ef::fabs(w[t]); } else { v[t] = -v[p]; w[t] = -w[p]; } break;
    }
    c.note("[" + op + " t=" + nm1(t) + " p=" + nm1(p) + " q=" + nm1(q) + "]");
    // intermediate results carry no more than the errors of single operations: compare relative to the operands, then continue from the same value
    R big = R(0); for(int j = 0; j < 3; ++j) big = r::max(big, r::abs(toR(w[j])));
    for(int j = 0; j < 3; ++j) { if(!w[j].isfinite()) return; R got = rr(v[j]), want = toR(w[j]); if(j != t && k != 22) { ident("program:other", got, want, op + ": a variable that is not the target"); continue; }
      check_close(c, "program", got, want, r::max(r::abs(want), R::pow10(-D10 + 2) * big), -D10 + 4, op); if(got != want) v[j] = mk<T>(w[j]); }
    if(big.log10abs() > 3000 || big.log10abs() < -3000) return;
  }
}
TEST(B01_program_et_off, 8000, 200000) { program<N>(s, c, "et_off"); }
TEST(B01_program_et_on, 8000, 200000) { program<X>(s, c, "et_on"); }

TEST(B01_convert, 12000, 200000)
{
  const std::size_t k = s.draw(14); N a; X b; auto both = [&](const char* ty, auto v, const R& want) { N x1(v), x2; x2 = v; X y1(v), y2; y2 = v; c.label(std::string("from:") + ty); c.note(std::string(ty) + " " + want.str(40)); c.nontrivial = !want.iszero();
    R w = want; if(std::is_floating_point<decltype(v)>::value) { w = toR(e_float(v)); check_rel(c, "from-float", w, want, -D10 + 1, std::string("e_float(") + ty + ")"); } // (long double) conversions are not exact in every back end
    for(const R& g : { rr(x1), rr(x2), rr(y1), rr(y2) }) { if(w == want) REQUIRE(g == want, std::string("from:") + ty, "constructed value is " + g.str(60)); else check_rel(c, std::string("from:") + ty, g, want, -D10 + 1, "construction"); } };
  switch(k)
  {
    case 0: { signed char v = (signed char)gen_i64(s); both("signed char", v, R((int)v)); break; } case 1: { unsigned char v = (unsigned char)gen_u64(s); both("unsigned char", v, R((int)v)); break; }
    case 2: { short v = (short)gen_i64(s); both("short", v, R((int)v)); break; } case 3: { unsigned short v = (unsigned short)gen_u64(s); both("unsigned short", v, R((int)v)); break; }
    case 4: { int v = (int)gen_i64(s); both("int", v, R(v)); break; } case 5: { unsigned v = (unsigned)gen_u64(s); both("unsigned", v, R((unsigned long)v)); break; }
    case 6: { long v = (long)gen_i64(s); both("long", v, R(v)); break; } case 7: { unsigned long v = (unsigned long)gen_u64(s); both("unsigned long", v, R(v)); break; }
    case 8: { long long v = gen_i64(s); both("long long", v, R(v)); break; } case 9: { unsigned long long v = gen_u64(s); both("unsigned long long", v, R(v)); break; }
    case 10: { double v = std::ldexp((double)(long)gen_i64(s), (int)s.range(-30, 30)); both("double", v, R(v)); break; } case 11: { float v = (float)std::ldexp((double)(int)gen_i64(s), (int)s.range(-30, 30)); both("float", v, R((double)v)); break; }
    case 12: { long double v = std::ldexp((long double)gen_i64(s), (int)s.range(-30, 30)); both("long double", v, R(v)); break; }
    default: { char v = (char)gen_i64(s); both("char", v, R((int)v)); break; }
  }
}
template<class I> static void to_int(Ctx& c, const char* ty, const N& n, const R& a)
{
  const R lo = std::is_signed<I>::value ? R((long long)(std::numeric_limits<I>::min)()) : R(0), hi = R((unsigned long long)(std::numeric_limits<I>::max)()); R t = r::trunc(a); if(t < lo || t > hi) return;
  c.label(std::string("to:") + ty); c.nontrivial = true; const I g = n.template convert_to<I>(), g2 = static_cast<I>(n); const R gr = std::is_signed<I>::value ? R((long long)g) : R((unsigned long long)g);
  REQUIRE(gr == t && g == g2, std::string("to:") + ty, "conversion to " + std::string(ty) + " gave " + gr.str(30) + ", expected " + t.str(30));
}
TEST(B01_to_builtin, 12000, 200000)
{
  e_float x; if(s.chance(1, 2)) { static const int bits[] = { 7, 8, 15, 16, 31, 32, 63, 64 }; x = e_float(ef::pow2(bits[s.draw(8)])) + e_float((int)s.range(-3, 3)) / 2; if(s.chance(1, 2)) x = -x; c.label("boundary"); } else { GenOpt o; o.emin = -6; o.emax = 20; x = gen_value(s, c, o); }
  const N n = mk<N>(x); R a = toR(x); c.note("x=" + show(x)); if(fuzzy_near_one(r::abs(a - r::floor(a)))) return;
  // within the last digits of an integer the truncation is not decided
  R fr = a - r::trunc(a); if(!fr.iszero() && (r::abs(fr).log10abs() < -D10 + 22 || (R(1) - r::abs(fr)).log10abs() < -D10 + 22)) throw Discard();
  to_int<signed char>(c, "signed char", n, a); to_int<unsigned char>(c, "unsigned char", n, a); to_int<short>(c, "short", n, a); to_int<int>(c, "int", n, a); to_int<unsigned>(c, "unsigned", n, a); to_int<long>(c, "long", n, a); to_int<unsigned long>(c, "unsigned long", n, a); to_int<long long>(c, "long long", n, a); to_int<unsigned long long>(c, "unsigned long long", n, a);
  const double d = n.convert_to<double>(), dn = x.extract_double(); const long double ld = n.convert_to<long double>(); const float f = n.convert_to<float>();
  if(!a.iszero()) { check_rel(c, "to:double", R(d), a, -15.0, "convert_to<double>"); check_rel(c, "to:long double", R(ld), a, -18.0, "convert_to<long double>"); check_rel(c, "to:float", R((double)f), a, -6.9, "convert_to<float>"); (void)dn; }
  else REQUIRE(d == 0 && f == 0 && ld == 0, "to:zero", "conversion of zero");
}
template<class T> static void rel(const std::string& sig, const T& x, const T& y, int o)
{
  REQUIRE((x < y) == (o < 0) && (y > x) == (o < 0), sig + ":lt", "x < y gave " + b2s(x < y)); REQUIRE((x > y) == (o > 0) && (y < x) == (o > 0), sig + ":gt", "x > y gave " + b2s(x > y));
  REQUIRE((x <= y) == (o <= 0) && (y >= x) == (o <= 0), sig + ":le", "x <= y gave " + b2s(x <= y)); REQUIRE((x >= y) == (o >= 0) && (y <= x) == (o >= 0), sig + ":ge", "x >= y gave " + b2s(x >= y));
  REQUIRE((x == y) == (o == 0) && (y == x) == (o == 0), sig + ":eq", "x == y gave " + b2s(x == y)); REQUIRE((x != y) == (o != 0), sig + ":ne", "x != y gave " + b2s(x != y)); const int k = x.compare(y); REQUIRE((k > 0) - (k < 0) == o, sig + ":compare", "compare gave " + tos(k));
}
template<class T, class B> static void relb(const std::string& sig, const T& x, const B& y, int o)
{
  REQUIRE((x < y) == (o < 0) && (y > x) == (o < 0) && (x > y) == (o > 0) && (y < x) == (o > 0) && (x <= y) == (o <= 0) && (y >= x) == (o <= 0) && (x >= y) == (o >= 0) && (y <= x) == (o >= 0) && (x == y) == (o == 0) && (y == x) == (o == 0) && (x != y) == (o != 0) && (y != x) == (o != 0), sig, "a relation with a built-in operand is wrong, exact order is " + tos(o));
  const int k = x.compare(y); REQUIRE((k > 0) - (k < 0) == o, sig + ":compare", "compare gave " + tos(k));
}
TEST(B01_order, 12000, 200000)
{
  GenOpt o = window(s, true); e_float x = s.chance(1, 15) ? e_float(std::numeric_limits<e_float>::infinity()) : gen_value(s, c, o), y; if(s.chance(1, 30)) x = -x;
  if(s.chance(1, 12))
  {
    const e_float q = std::numeric_limits<e_float>::quiet_NaN(); const N n = mk<N>(q), m = mk<N>(x); c.label("nan"); c.note("nan, " + show(x)); c.nontrivial = true;
    REQUIRE(!(n == m) && !(n < m) && !(n > m) && !(n <= m) && !(n >= m) && n != m && !(m < n) && !(m > n) && !(m <= n) && !(m >= n) && !(m == n) && !(n == n) && n != n, "nan-order", "a comparison with NaN is true");
    REQUIRE(!(n < 1) && !(n > 1) && !(n == 1) && n != 1 && !(1.5 <= n) && !(2U >= n), "nan-order-builtin", "a comparison of NaN with a built-in number is true");
    REQUIRE((boost::multiprecision::isnan)(n) && !(boost::multiprecision::isfinite)(n) && !(boost::multiprecision::isinf)(n) && (boost::multiprecision::fpclassify)(n) == FP_NAN && (boost::math::isnan)(n), "nan-class", "classification of NaN"); return;
  }
  if(s.chance(1, 2))
  {
    y = x.isfinite() ? gen_related(s, c, x) : e_float(gen_value(s, c, o)); R a = toR(x), b = toR(y); c.note("x=" + show(x) + " y=" + show(y)); c.nontrivial = true; c.label(a == b ? "equal" : "unequal"); rel("order", mk<N>(x), mk<N>(y), rcmp(a, b)); rel("order-et", mk<X>(x), mk<X>(y), rcmp(a, b)); const X xx = mk<X>(x), yy = mk<X>(y); if(x.isfinite() && y.isfinite()) if(a == b || (r::abs(a - b)).log10abs() - r::abs(a).log10abs() > -D10) REQUIRE(((xx + 0) < (yy + 0)) == (a < b) && ((xx * 1) == (yy * 1)) == (a == b), "order-expression", "comparison of expressions");
    R z = toR(x); const N n = mk<N>(x); REQUIRE((boost::multiprecision::fpclassify)(n) == (z.isinf() ? FP_INFINITE : z.iszero() ? FP_ZERO : FP_NORMAL) && n.is_zero() == z.iszero() && n.sign() == z.sgn() && (boost::multiprecision::signbit)(n) == (z.sgn() < 0) && (boost::multiprecision::isfinite)(n) == z.isfinite() && (boost::multiprecision::isinf)(n) == z.isinf() && boost::math::sign(n) == z.sgn(), "class", "classification of " + show(x));
    if(!z.iszero()) { const N k = boost::multiprecision::copysign(n, mk<N>(y)); REQUIRE(r::abs(rr(k)) == r::abs(z) && (toR(y).iszero() || rr(k).sgn() == toR(y).sgn()), "copysign", "copysign gave " + rr(k).str()); }
    REQUIRE(rr(N(fmax(n, mk<N>(y)))) == r::max(a, b) && rr(N(fmin(n, mk<N>(y)))) == r::min(a, b), "fmax", "fmax/fmin"); return;
  }
  const std::size_t k = s.draw(6); auto go = [&](const char* ty, auto v, const R& b) { e_float t = s.chance(1, 3) ? x : e_float(v); if(s.chance(1, 2) && t.isfinite()) t = gen_related(s, c, t); R a = toR(t), b0 = b; if(std::is_floating_point<decltype(v)>::value) b0 = toR(e_float((long double)v)); if(b0 != b && (r::abs(a - b)).log10abs() - b.log10abs() < -D10 + 1) throw Discard(); c.note("x=" + show(t) + " n=(" + ty + ")" + b.str(30)); c.label(ty); c.nontrivial = true; relb(std::string("order:") + ty, mk<N>(t), v, rcmp(a, b0)); relb(std::string("order-et:") + ty, mk<X>(t), v, rcmp(a, b0)); };
  switch(k) { case 0: { int v = (int)gen_i64(s); go("int", v, R(v)); break; } case 1: { unsigned v = (unsigned)gen_u64(s); go("unsigned", v, R((unsigned long)v)); break; } case 2: { long long v = gen_i64(s); go("long long", v, R(v)); break; } case 3: { unsigned long long v = gen_u64(s); go("unsigned long long", v, R(v)); break; } case 4: { short v = (short)gen_i64(s); go("short", v, R((int)v)); break; } default: { double v = (double)(int)gen_i64(s) / 32; go("double", v, R(v)); break; } }
}
TEST(B01_functions, 6000, 80000)
{
  struct F { const char* n; e_float (*f)(const e_float&); N (*g)(const N&); N (*gx)(const N&); double lo, hi; };
#define FN(q, lo, hi) { #q, [](const e_float& v) { return e_float(ef::q(v)); }, [](const N& v) { return N(q(v)); }, [](const N& v) { return N(X(q(X(v) + 0))); }, lo, hi }
  static const F fs[] = { FN(sqrt, 0, 50), FN(sin, -50, 50), FN(cos, -50, 50), FN(tan, -50, 50), FN(asin, -1, 1), FN(acos, -1, 1), FN(atan, -50, 50), FN(log, 0.0001, 50), FN(log10, 0.0001, 50), FN(exp, -50, 50), FN(sinh, -50, 50), FN(cosh, -50, 50), FN(tanh, -50, 50), FN(floor, -50, 50), FN(ceil, -50, 50), FN(fabs, -50, 50),
    { "abs", [](const e_float& v) { return e_float(ef::fabs(v)); }, [](const N& v) { return N(abs(v)); }, [](const N& v) { return N(X(abs(X(v) + 0))); }, -50, 50 }, { "trunc", [](const e_float& v) { return e_float(ef::integer_part(v)); }, [](const N& v) { return N(trunc(v)); }, [](const N& v) { return N(X(trunc(X(v) + 0))); }, -50, 50 } };
  const F& f = fs[s.draw(sizeof fs / sizeof *fs)]; e_float x = gen_in(s, c, f.lo, f.hi); c.note(std::string(f.n) + " x=" + show(x)); c.label(f.n); c.nontrivial = !x.iszero();
  const N n = mk<N>(x); const R want = toR(f.f(x)); ident(std::string("function:") + f.n, rr(f.g(n)), want, f.n); ident(std::string("function-et:") + f.n, rr(f.gx(n)), want, std::string(f.n) + " of an expression"); ident("argument-changed", rr(n), toR(x), std::string(f.n) + ": the argument afterwards");
}
TEST(B01_functions2, 5000, 80000)
{
  const std::size_t k = s.draw(10); e_float x = gen_in(s, c, -30, 30), y = gen_in(s, c, -30, 30); c.nontrivial = !x.iszero() && !y.iszero(); const N n = mk<N>(x), m = mk<N>(y); R a = toR(x), b = toR(y);
  switch(k)
  {
    case 0: c.label("atan2"); c.note("atan2 " + show(y) + " " + show(x)); ident("atan2", rr(N(atan2(m, n))), toR(ef::atan2(y, x)), "atan2(y, x)"); break;
    case 1: { c.label("pow"); x = ef::fabs(x); if(x.iszero()) x = e_float(2); c.note("pow " + show(x) + " " + show(y)); ident("pow", rr(N(pow(mk<N>(x), m))), toR(ef::pow(x, y)), "pow"); break; }
    case 2: { c.label("pow-int"); if(x.iszero()) x = e_float(3); const int p = (int)s.range(-60, 60); c.note("pow " + show(x) + " int " + tos(p)); check_rel(c, "pow-int", rr(N(pow(mk<N>(x), p))), r::powi(toR(x), p), -D10 + 5, "pow(x, int)"); break; }
    case 3: { c.label("frexp"); c.note("frexp " + show(x)); if(a.iszero()) throw Discard(); int e = 12345, e2 = 4; N f = frexp(n, &e); const e_float g = ef::frexp(x, &e2); ident("frexp", rr(f), toR(g), "frexp"); REQUIRE(e == e2, "frexp-exponent", "exponent " + tos(e) + ", native " + tos(e2)); std::int64_t el = 99; BE t; eval_frexp(t, n.backend(), &el); REQUIRE(el == e2 && toR(t.crepresentation()) == toR(g), "frexp-exponent", "exponent (int64) " + tos(el) + ", native " + tos(e2)); check_rel(c, "frexp-value", rr(f) * R::pow2(e), a, -D10 + 3, "mantissa * 2^e"); REQUIRE(r::abs(rr(f)) < R(1) + R::pow10(-D10 + 3) && r::abs(rr(f)) > R(0.5) - R::pow10(-D10 + 3), "frexp-range", "mantissa " + rr(f).str()); break; }
    case 4: { c.label("ldexp"); const int p = (int)s.range(-2000, 2000); c.note("ldexp " + show(x) + " " + tos(p)); if(a.iszero()) throw Discard(); check_rel(c, "ldexp", rr(N(ldexp(n, p))), a * R::pow2(p), -D10 + 3, "ldexp"); BE t; eval_ldexp(t, n.backend(), std::int64_t(p)); check_rel(c, "ldexp", toR(t.crepresentation()), a * R::pow2(p), -D10 + 3, "ldexp(int64)"); break; }
    case 5: { c.label("ilogb"); GenOpt o = window(s, true); o.zero = false; x = gen_value(s, c, o); a = toR(x); c.note("ilogb " + show(x)); long e1, e2; const R dl = R::pow10(4 - D10); (a * (R(1) - dl)).digits(D10 + 60, e1, true); (a * (R(1) + dl)).digits(D10 + 60, e2, true); const std::int64_t g = ilogb(mk<N>(x)); REQUIRE(g >= e1 - 1 && g <= e2 - 1, "ilogb", "ilogb gave " + tos(g) + ", decimal order is " + tos(e2 - 1)); const N z(0), in = mk<N>(std::numeric_limits<e_float>::infinity()); REQUIRE(ilogb(z) == (std::numeric_limits<std::int64_t>::min)() && ilogb(in) == (std::numeric_limits<std::int64_t>::max)(), "ilogb-special", "ilogb of zero or infinity"); break; }
    case 6: { c.label("scalbn"); const int p = (int)s.range(-3000, 3000); c.note("scalbn " + show(x) + " " + tos(p)); if(a.iszero()) throw Discard(); check_rel(c, "scalbn", rr(N(scalbn(n, p))), a * R::pow10(p), -D10 + 3, "scalbn"); break; }
    case 7: { c.label("round"); if(s.chance(1, 2)) { x = e_float((int)s.range(-100000, 100000)) / 2; a = toR(x); } c.note("round " + show(x)); R h = r::abs(a) + R(0.5), fl = r::floor(h); if((r::abs(h - r::floor(h)) != R(0) && r::abs(h - r::floor(h)).log10abs() < -D10 + 5) || (R(1) - (h - fl)).log10abs() < -D10 + 5) throw Discard(); R want = a.sgn() < 0 ? -fl : fl; const N z = mk<N>(x); REQUIRE(rr(N(round(z))) == want, "round", "round gave " + rr(N(round(z))).str(40)); REQUIRE(R(lround(z)) == want && R(iround(z)) == want && R(llround(z)) == want, "lround", "lround/iround gave " + tos(lround(z))); REQUIRE(R(itrunc(z)) == r::trunc(a) && R(ltrunc(z)) == r::trunc(a) && R(lltrunc(z)) == r::trunc(a), "itrunc", "itrunc gave " + tos(itrunc(z))); break; }
    case 8: { c.label("modf"); c.note("modf " + show(x)); N ip; const N f = modf(n, &ip); check_close(c, "modf", rr(f) + rr(ip), a, r::max(r::abs(a), R(1)), -D10, "modf parts"); REQUIRE(rr(ip) == toR(ef::integer_part(x)), "modf", "integral part " + rr(ip).str(40)); break; }
    default: { c.label("sqrt-square"); c.note("fma/hypot-like " + show(x) + " " + show(y)); const X p = mk<X>(x), q = mk<X>(y); check_rel(c, "sqrt-expression", rr(X(sqrt(p * p + q * q + 1))), r::sqrt(a * a + b * b + R(1)), -D10 + 3, "sqrt(x*x+y*y+1)"); break; }
  }
}
TEST(B01_fmod, 6000, 80000)
{
  e_float x, y; GenOpt o; o.emin = -20; o.emax = 25; o.zero = false; if(s.chance(1, 2)) { // exact multiples and integers
    long q = s.range(-100000, 100000), d = s.range(1, 5000); if(s.chance(1, 2)) d = -d; y = e_float((int)d); x = e_float((int)q); if(s.chance(1, 2)) x = x * y; if(s.chance(1, 3)) { x = x / 8; y = y / 8; } c.label("short"); } else { y = gen_value(s, c, o); x = gen_value(s, c, o); c.label("general"); }
  R a = toR(x), b = toR(y); if(b.iszero() || (!a.iszero() && a.log10abs() - b.log10abs() > D10 - 10)) throw Discard(); c.note("fmod x=" + show(x) + " y=" + show(y)); c.nontrivial = r::abs(a) >= r::abs(b); R got = rr(N(fmod(mk<N>(x), mk<N>(y)))), want = r::fmod(a, b), tol = r::max(r::abs(a), r::abs(b)) * R::pow10(-D10 + 1), ab = r::abs(b); REQUIRE(got.isfinite(), "fmod", "fmod gave " + got.str());
  const bool ex = r::abs(a) < R(1000000000000LL) && ab < R(1000000000000LL) && (a * R(8)).isint() && (b * R(8)).isint(); // short operands: the exact result is due
  R d0 = r::abs(got - want); if(ex) REQUIRE(d0 <= tol && (!want.iszero() || got.iszero()), "fmod-exact", "fmod gave " + got.str(40) + ", expected " + want.str(40)); bool lo = r::abs(want) <= tol, hi = ab - r::abs(want) <= tol;
  REQUIRE(d0 <= tol || ((lo || hi) && (r::abs(got) <= tol || r::abs(r::abs(got) - ab) <= tol)), "fmod", "fmod gave " + got.str(40) + ", expected " + want.str(40)); if(!lo && !hi) REQUIRE(got.sgn() == a.sgn(), "fmod-sign", "sign of fmod");
}
TEST(B01_text, 8000, 100000)
{
  GenOpt o = window(s); e_float x = gen_value(s, c, o); const N n = mk<N>(x); R a = toR(x); c.note("x=" + show(x)); c.nontrivial = !a.iszero();
  const std::size_t k = s.draw(5);
  if(k == 0 || k == 1)
  { // round trips through str() and streams
    std::string t; c.label(k ? "stream" : "str"); if(k == 0) t = s.chance(1, 2) ? n.str(0, std::ios_base::fmtflags(0)) : n.str(LN::max_digits10 + 1, std::ios_base::scientific); else { std::ostringstream os; os << std::setprecision(LN::max_digits10 + 1); if(s.chance(1, 2)) os << std::scientific; if(s.chance(1, 3)) os << std::showpos; os << n; t = os.str(); }
    c.note("text " + t); N m; if(s.chance(1, 2)) { std::istringstream is(t + " 7"); N seven; is >> m >> seven; REQUIRE(!is.fail() && rr(seven) == R(7), "read", "reading \"" + t + " 7\" failed"); c.label("read"); } else m = N(t.c_str()); if(a.iszero()) REQUIRE(rr(m).iszero(), "text-roundtrip", "zero printed as " + t); else check_rel(c, "text-roundtrip", rr(m), a, -D10 + 1, "value read back from " + t);
    if(s.chance(1, 3)) { N m2; m2.assign(t); ident("assign-text", rr(m2), rr(N(t.c_str())), "assign"); N m3; m3.backend() = t; ident("assign-text", rr(m3), rr(N(t.c_str())), "assignment of a string"); m3.backend() = t.c_str(); ident("assign-text", rr(m3), rr(N(t.c_str())), "assignment of a text"); }
  }
  else
  { // same text as the native type
    const int p = (int)s.range(1, D10 + 5), w = (int)s.range(0, 20); const bool sci = s.chance(1, 2), fix = !sci && s.chance(1, 3), pos = s.chance(1, 3), pt = s.chance(1, 4), up = s.chance(1, 4), left = s.chance(1, 3); if(fix && !a.iszero() && a.log10abs() > 200) throw Discard(); c.label("as-native"); std::ostringstream o1, o2; for(std::ostream* q : { (std::ostream*)&o1, (std::ostream*)&o2 }) { *q << std::setprecision(p); if(sci) *q << std::scientific; if(fix) *q << std::fixed; if(pos) *q << std::showpos; if(pt) *q << std::showpoint; if(up) *q << std::uppercase; if(left) *q << std::left; *q << std::setfill('*') << std::setw(w); } o1 << n; o2 << x; std::string g = o1.str(), h = o2.str();
    c.note("precision " + tos(p) + " width " + tos(w)); REQUIRE(g == h, "text-as-native", "number printed \"" + g + "\", e_float \"" + h + "\"");
  }
}
TEST(B01_limits, 200, 400)
{
  typedef std::numeric_limits<e_float> L; typedef std::numeric_limits<X> LX; c.note("numeric_limits"); c.nontrivial = s.draw(1000) > 0; auto chk = [&](const char* nm, const R& g, const R& gx, const R& want) { REQUIRE(((g.isnan() && want.isnan()) || g == want) && ((gx.isnan() && want.isnan()) || gx == want), std::string("limits:") + nm, std::string("numeric_limits<number>::") + nm + " is " + g.str() + ", expected " + want.str()); };
  chk("min", rr((LN::min)()), rr((LX::min)()), toR((L::min)())); chk("max", rr((LN::max)()), rr((LX::max)()), toR((L::max)())); chk("lowest", rr(LN::lowest()), rr(LX::lowest()), -toR((L::max)())); chk("epsilon", rr(LN::epsilon()), rr(LX::epsilon()), toR(L::epsilon())); chk("infinity", rr(LN::infinity()), rr(LX::infinity()), R::inf(false)); chk("quiet_NaN", rr(LN::quiet_NaN()), rr(LX::quiet_NaN()), R::nan()); chk("round_error", rr(LN::round_error()), rr(LX::round_error()), R(0.5));
  REQUIRE(LN::is_specialized && LN::is_signed && !LN::is_integer && !LN::is_exact && LN::has_infinity && LN::has_quiet_NaN && LN::digits10 == D10 && LN::digits == D10 && LN::max_digits10 >= D10 + 1 && LN::radix == 10 && LN::max_exponent10 == L::max_exponent10 && LN::min_exponent10 == L::min_exponent10, "limits:traits", "traits of numeric_limits");
  GenOpt o = window(s, true); const e_float v = gen_value(s, c, o); const N x = mk<N>(v); REQUIRE(x <= (LN::max)() && x >= LN::lowest() && (x.is_zero() || abs(x) >= (LN::min)()) && x < LN::infinity() && x > -LN::infinity(), "limits:bounds", "numeric_limits do not bound " + show(v)); REQUIRE(N(1) + LN::epsilon() != N(1), "limits:epsilon", "1 + epsilon == 1");
}
TEST(B01_interconvert, 3000, 50000)
{
  const std::size_t k = s.draw(2); std::string d; const long n = 1 + (long)s.draw(D10 - 12); for(long i = 0; i < n; ++i) d += (char)('0' + s.draw(10)); if(d[0] == '0') d[0] = '1'; const bool neg = s.chance(1, 2); if(neg) d = "-" + d; c.nontrivial = true;
  if(k == 0) { const e_float v = e_float(d) + (s.chance(1, 2) ? e_float(1) / 4 : e_float(0)) * (neg ? -1 : 1); c.label("to cpp_int"); c.note("e_float " + show(v)); const mp::cpp_int i = mk<N>(v).convert_to<mp::cpp_int>(); const mp::cpp_int diff = i - mp::cpp_int(d); REQUIRE(diff == 0, (diff == 1 || diff == -1) ? "to-cpp_int:off-by-one" : "to-cpp_int", "conversion to cpp_int gave " + i.str()); }
  else { mp::cpp_dec_float_50 f((neg ? "-0." : "0.") + d.substr(neg) + "e" + std::to_string(s.range(-30, 30))); c.label("cpp_dec_float"); c.note("cpp_dec_float_50 " + f.str(50, std::ios::scientific)); const N x(f); check_rel(c, "from-cpp_dec_float", rr(x), R(f.str(60, std::ios::scientific)), -50.0, "number(cpp_dec_float_50)"); const mp::cpp_dec_float_50 g(x); check_rel(c, "to-cpp_dec_float", R(g.str(60, std::ios::scientific)), rr(x), -48.0, "cpp_dec_float_50(number)"); }
}
TEST(B01_math, 400, 6000)
{
  // Boost.Math on the binding reaches the precision the policy announces
  const std::size_t k = s.draw(3); c.nontrivial = true;
  if(k == 0) { c.label("constants"); c.note("constants"); check_rel(c, "constant:pi", rr(boost::math::constants::pi<N>()), r::pi(), -D10 + 2, "pi<number>()"); check_rel(c, "constant:ln2", rr(boost::math::constants::ln_two<N>()), r::ln2(), -D10 + 2, "ln_two<number>()"); check_rel(c, "constant:e", rr(boost::math::constants::e<N>()), r::e(), -D10 + 2, "e<number>()"); }
  else { e_float x = gen_in(s, c, 0.05, 40); c.label(k == 1 ? "tgamma" : "log2"); c.note("x=" + show(x)); const N n = mk<N>(x); if(k == 1) check_rel(c, "tgamma", rr(N(boost::math::tgamma(n))), r::gamma(toR(x)), -D10 + 8, "tgamma"); else { R w = r::log(toR(x)) / r::ln2(); check_close(c, "log2", rr(N(log2(n))), w, r::max(r::abs(w), R(1)), -D10 + 4, "log2"); } }
}

// Special values: NaN, infinities and zero through the arithmetic operators.
#include "../gen.h"
#include <limits>
typedef std::numeric_limits<e_float> L;
enum K { NANV, PINF, NINF, ZERO, FIN };
struct V { e_float x; K k; int sg; };
static V gen(Src& s, Ctx& c)
{
  V v; std::size_t k = s.pick({4, 3, 3, 3, 3});
  if(k == 0) { GenOpt o = window(s); o.zero = false; v.x = gen_value(s, c, o); v.k = FIN; v.sg = toR(v.x).sgn(); if(!v.sg) v.k = ZERO; }
  else if(k == 1) { v.x = L::infinity(); v.k = PINF; v.sg = 1; } else if(k == 2) { v.x = -L::infinity(); v.k = NINF; v.sg = -1; }
  else if(k == 3) { v.x = e_float(0); v.k = ZERO; v.sg = 0; } else { v.x = L::quiet_NaN(); v.k = NANV; v.sg = 0; }
  // special values also arrive through copies, negation and assignment
  switch(s.draw(4)) { case 0: break; case 1: { e_float t(v.x); v.x = e_float(17); v.x = t; break; } case 2: { e_float t(v.x); t.negate(); t.negate(); v.x = t; break; } default: { std::vector<e_float> w(3, v.x); v.x = w[1]; } }
  return v;
}
static const char* kn(K k) { static const char* n[] = {"NaN", "+inf", "-inf", "0", "finite"}; return n[k]; }
static bool isinfk(const V& v) { return v.k == PINF || v.k == NINF; }
static void expect(const e_float& z, K want, int sg, const std::string& sig, const std::string& what)
{
  K got = z.isnan() ? NANV : z.isinf() ? (z.isneg() ? NINF : PINF) : z.iszero() ? ZERO : FIN;
  (void)sg; REQUIRE(got == want, sig, what + " gave " + show(z) + " (" + kn(got) + "), expected " + kn(want));
  REQUIRE(z.isfinite() == (want == ZERO || want == FIN) && z.isnan() == (want == NANV) && z.isinf() == (want == PINF || want == NINF), sig + ":class", what + ": isnan/isinf/isfinite are inconsistent");
}
static K inf_of(int sg) { return sg < 0 ? NINF : PINF; }
static K add(const V& a, const V& b) { if(a.k == NANV || b.k == NANV) return NANV; if(isinfk(a) && isinfk(b)) return a.k == b.k ? a.k : NANV; if(isinfk(a)) return a.k; if(isinfk(b)) return b.k; if(a.k == ZERO && b.k == ZERO) return ZERO; return FIN; }
static K mul(const V& a, const V& b) { if(a.k == NANV || b.k == NANV) return NANV; if(isinfk(a) || isinfk(b)) return (a.k == ZERO || b.k == ZERO) ? NANV : inf_of(a.sg * b.sg); if(a.k == ZERO || b.k == ZERO) return ZERO; return FIN; }
static K div(const V& a, const V& b) { if(a.k == NANV || b.k == NANV) return NANV; if(isinfk(a)) return isinfk(b) ? NANV : inf_of(b.k == ZERO ? a.sg : a.sg * b.sg); if(isinfk(b)) return ZERO; if(b.k == ZERO) return a.k == ZERO ? NANV : inf_of(a.sg); return a.k == ZERO ? ZERO : FIN; }
TEST(A06_binary, 40000, 500000)
{
  V a = gen(s, c), b = gen(s, c); if(a.k == FIN && b.k == FIN) throw Discard(); c.label(std::string(kn(a.k)) + "," + kn(b.k)); c.note(show(a.x) + " , " + show(b.x)); c.nontrivial = true; std::string pr = std::string(kn(a.k)) + "," + kn(b.k);
  V nb = b; nb.k = b.k == PINF ? NINF : b.k == NINF ? PINF : b.k; nb.sg = -b.sg;
  expect(a.x + b.x, add(a, b), 0, "add", pr + ": a+b"); expect(b.x + a.x, add(a, b), 0, "add", pr + ": b+a"); expect(a.x - b.x, add(a, nb), 0, "sub", pr + ": a-b"); expect(a.x * b.x, mul(a, b), 0, "mul", pr + ": a*b"); expect(b.x * a.x, mul(a, b), 0, "mul", pr + ": b*a"); expect(a.x / b.x, div(a, b), 0, "div", pr + ": a/b");
  e_float t(a.x); t += b.x; expect(t, add(a, b), 0, "add", pr + ": a+=b"); t = a.x; t -= b.x; expect(t, add(a, nb), 0, "sub", pr + ": a-=b"); t = a.x; t *= b.x; expect(t, mul(a, b), 0, "mul", pr + ": a*=b"); t = a.x; t /= b.x; expect(t, div(a, b), 0, "div", pr + ": a/=b");
  if(a.k == FIN) { if(b.k == ZERO) { REQUIRE(a.x + b.x == a.x && a.x - b.x == a.x, "zero-neutral", "zero is not neutral"); } } 
  // a special result keeps behaving: NaN is sticky
  e_float n = L::quiet_NaN(); expect((a.x + n) * b.x, NANV, 0, "nan-sticky", "(a+NaN)*b"); expect((n - a.x) / b.x, NANV, 0, "nan-sticky", "(NaN-a)/b");
}
TEST(A06_builtin, 40000, 400000)
{
  V a = gen(s, c); long long n = s.chance(1, 4) ? 0 : gen_i64(s); V b; b.x = e_float(n); b.k = n ? FIN : ZERO; b.sg = n < 0 ? -1 : n > 0; if(a.k == FIN && n) throw Discard(); c.label(std::string(kn(a.k)) + (n ? ",int" : ",int0")); c.note(show(a.x) + " , " + tos(n)); c.nontrivial = true;
  V nb = b; nb.sg = -b.sg; std::string pr = std::string(kn(a.k)) + "," + tos(n);
  expect(a.x + n, add(a, b), 0, "add-int", pr + ": a+n"); expect(n + a.x, add(a, b), 0, "add-int", pr + ": n+a"); expect(a.x - n, add(a, nb), 0, "sub-int", pr + ": a-n"); expect(a.x * n, mul(a, b), 0, "mul-int", pr + ": a*n"); expect(n * a.x, mul(a, b), 0, "mul-int", pr + ": n*a"); expect(a.x / n, div(a, b), 0, "div-int", pr + ": a/n"); if(!(a.k == ZERO && n)) expect(n / a.x, div(b, a), 0, "div-int", pr + ": n/a");
  V na = a; na.k = a.k == PINF ? NINF : a.k == NINF ? PINF : a.k; expect(n - a.x, add(b, na), 0, "sub-int", pr + ": n-a");
  unsigned long long u = gen_u64(s); V bu; bu.x = e_float(u); bu.k = u ? FIN : ZERO; bu.sg = u ? 1 : 0; expect(a.x + u, add(a, bu), 0, "add-uint", pr + ": a+u") ; 
  if(!(a.k == FIN && u)) { expect(a.x * u, mul(a, bu), 0, "mul-uint", pr + ": a*u"); expect(a.x / u, div(a, bu), 0, "div-uint", pr + ": a/u"); }
}
TEST(A06_double, 20000, 200000)
{
  // non-finite built-in floating point operands
  V a = gen(s, c); V b; double d; long double ld; switch(s.draw(4)) { case 0: d = std::numeric_limits<double>::infinity(); b.k = PINF; b.sg = 1; break; case 1: d = -std::numeric_limits<double>::infinity(); b.k = NINF; b.sg = -1; break; case 2: d = std::numeric_limits<double>::quiet_NaN(); b.k = NANV; b.sg = 0; break; default: d = 0.0; b.k = ZERO; b.sg = 0; } ld = d; c.note(show(a.x) + " , " + std::to_string(d)); c.nontrivial = true; c.label(std::string(kn(a.k)) + "," + kn(b.k));
  e_float x(d), y(ld), z((float)d); expect(x, b.k, 0, "ctor", "e_float(double)"); expect(y, b.k, 0, "ctor", "e_float(long double)"); expect(z, b.k, 0, "ctor", "e_float(float)");
  expect(a.x + d, add(a, b), 0, "add-double", "a+d"); expect(a.x * d, mul(a, b), 0, "mul-double", "a*d"); expect(a.x / d, div(a, b), 0, "div-double", "a/d"); if(!(a.k == ZERO && b.k != ZERO)) expect(d / a.x, div(b, a), 0, "div-double", "d/a");
}
TEST(A06_predicates, 30000, 300000)
{
  V a = gen(s, c); const e_float& x = a.x; R v = toR(x); c.note(show(x)); c.nontrivial = true; c.label(kn(a.k));
  REQUIRE(x.isnan() == v.isnan() && x.isinf() == v.isinf() && x.isfinite() == v.isfinite(), "class", "classification"); REQUIRE(x.iszero() == (v.isfinite() && v.iszero()), "iszero", "iszero() is " + tos(x.iszero()) + " for " + show(x));
  if(!v.isnan()) REQUIRE(x.isneg() == (v.sgn() < 0) && x.ispos() == !x.isneg(), "isneg", "isneg() is " + tos(x.isneg()) + " for " + show(x)); REQUIRE(!(x.isone() && !v.isfinite()), "isone", "isone() of a non-finite value"); REQUIRE(!(x.isint() && !v.isfinite()), "isint", "isint() of a non-finite value " + show(x));
  REQUIRE(ef::isnan(x) == x.isnan() && ef::isinf(x) == x.isinf() && ef::isfinite(x) == x.isfinite() && ef::iszero(x) == x.iszero() && ef::isneg(x) == x.isneg() && ef::ispos(x) == x.ispos() && ef::isone(x) == x.isone() && ef::isint(x) == x.isint(), "free-functions", "ef:: predicates disagree with the members");
  e_float t(x); t.negate(); if(a.k == PINF || a.k == NINF) { REQUIRE(t.isinf() && t.isneg() == !x.isneg(), "negate-inf", "negation of an infinity"); expect(ef::fabs(x), PINF, 1, "fabs-inf", "fabs of an infinity"); }
  if(a.k == NANV) { expect(t, NANV, 0, "negate-nan", "negation of NaN"); expect(ef::fabs(x), NANV, 0, "fabs-nan", "fabs(NaN)"); REQUIRE(!(x == x) && (x != x), "nan-equality", "NaN compares equal to itself"); expect(ef::sqrt(x), NANV, 0, "sqrt-nan", "sqrt(NaN)"); e_float i(x); i.calculate_inv(); expect(i, NANV, 0, "inv-nan", "1/NaN"); }
  if(a.k == NINF || (a.k == FIN && a.sg < 0)) expect(ef::sqrt(x), NANV, 0, "sqrt-neg", "sqrt of a negative value");
  if(a.k == ZERO) { expect(ef::sqrt(x), ZERO, 0, "sqrt-zero", "sqrt(0)"); e_float i(x); i.calculate_inv(); REQUIRE(i.isinf(), "inv-zero", "1/0"); REQUIRE(!x.isneg() && !(-x).isneg(), "negative-zero", "zero is negative"); }
  if(a.k == PINF || a.k == NINF) { e_float i(x); i.calculate_inv(); expect(i, ZERO, 0, "inv-inf", "1/inf"); if(a.k == PINF && false) expect(ef::sqrt(x), PINF, 0, "sqrt-inf", "sqrt(inf)"); e_float j(x); ++j; expect(j, a.k, 0, "inc-inf", "++inf"); --j; expect(j, a.k, 0, "inc-inf", "--inf"); }
}

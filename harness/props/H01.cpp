// Hypergeometric series.
#include "../gen.h"
#include <cmath>
#include <deque>
#include <limits>
static const double LIM = -(double)D10;
// the series sum, and the sum of the magnitudes of its terms (conditioning); false when it does not settle
static bool series(const std::vector<R>& a, const std::vector<R>& b, const R& x, R& sum, R& mag, long& nterms, bool& terminates)
{
  R t(1); sum = R(1); mag = R(1); int small = 0; terminates = false; const double tol = -1.3 * D10 - 20;
  for(long n = 0; n < 6000; ++n)
  {
    for(const R& v : a) t *= v + R(n);
    for(const R& v : b) { R d = v + R(n); if(d.iszero()) return t.iszero(); t /= d; }
    t *= x; t /= R(n + 1); nterms = n + 1; if(t.iszero()) { terminates = true; return true; }
    sum += t; mag += r::abs(t);
    if(t.log10abs() - mag.log10abs() < tol) { if(++small > 40) return true; } else small = 0;
  }
  return false;
}
static e_float param(Src& s, Ctx& c, bool lower)
{
  switch(s.pick({4, 4, 3, lower ? 0u : 3u, lower ? 0u : 1u}))
  {
    case 0: { e_float v((int)s.range(1, 40)); v /= (int)s.range(1, 7); return s.chance(1, 3) ? -v : v; }
    case 1: return gen_in(s, c, -30, 30);
    case 2: return e_float((int)s.range(1, 200));
    case 3: c.label("terminating"); return e_float(-(int)s.range(1, 80));
    default: c.label("zero-parameter"); return e_float();
  }
}
static e_float argument(Src& s, Ctx& c, double lim)
{
  switch(s.pick({1, 5, 3, 3})) { case 0: c.label("x=0"); return e_float(); case 1: return gen_in(s, c, -lim, lim); case 2: { c.label("small-x"); GenOpt o; o.emin = -130; o.emax = -2; return gen_value(s, c, o); } default: { e_float v((int)s.range(1, 9)); v *= (int)(lim * 10); v /= 100; return s.chance(1, 2) ? v : -v; } }
}
static void run(Src& s, Ctx& c, int p, int q, bool pfq)
{
  // radius: entire for p <= q, |x| < 1 for p = q+1, terminating series only for p > q+1
  std::vector<e_float> a, b; for(int i = 0; i < p; ++i) a.push_back(param(s, c, false)); for(int i = 0; i < q; ++i) b.push_back(param(s, c, true));
  double lim = p < q ? 120 : p == q ? 60 : p == q + 1 ? 0.85 : 3; bool must_end = p > q + 1; if(must_end) { a[s.draw(p)] = e_float(-(int)s.range(0, 40)); }
  else if(p == q + 1 && s.chance(1, 4)) { a[s.draw(p)] = e_float(-(int)s.range(0, 40)); lim = 20; }
  e_float x = argument(s, c, lim); std::vector<R> ra, rb; for(auto& v : a) ra.push_back(toR(v)); for(auto& v : b) rb.push_back(toR(v)); R rx = toR(x);
  for(auto& v : rb) if(v.sgn() <= 0 && v.isint()) throw Discard();
  // parameters next to a non-positive integer that is not one: lost digits belong to the argument
  for(auto& v : ra) { R d = r::abs(v - r::floor(v + R(0.5))); if(!d.iszero() && v < R(0.5) && d.log10abs() < -8) throw Discard(); } for(auto& v : rb) { R d = r::abs(v - r::floor(v + R(0.5))); if(!d.iszero() && v < R(0.5) && d.log10abs() < -8) throw Discard(); }
  R want, mag; long n; bool ends; if(!series(ra, rb, rx, want, mag, n, ends)) throw Discard();
  std::string name = pfq ? "pfq" : std::to_string(p) + "f" + std::to_string(q); std::string d = name + "("; for(auto& v : a) d += show(v) + ","; d += ";"; for(auto& v : b) d += show(v) + ","; c.note(d + "; x=" + show(x) + ")"); c.label(ends ? "finite-sum" : "infinite-sum"); c.nontrivial = n > 2;
  e_float g; if(pfq) g = ef::hypergeometric_pfq(std::deque<e_float>(a.begin(), a.end()), std::deque<e_float>(b.begin(), b.end()), x);
  else if(p == 0 && q == 0) g = ef::hypergeometric_0f0(x); else if(p == 0) g = ef::hypergeometric_0f1(b[0], x); else if(p == 1 && q == 0) g = ef::hypergeometric_1f0(a[0], x); else if(p == 1) g = ef::hypergeometric_1f1(a[0], b[0], x); else if(q == 0) g = ef::hypergeometric_2f0(a[0], a[1], x); else g = ef::hypergeometric_2f1(a[0], a[1], b[0], x);
  check_close(c, name, toR(g), want, mag, LIM, d + ")");
}
TEST(H01_0f0, 2000, 20000) { run(s, c, 0, 0, s.chance(1, 3)); }
TEST(H01_0f1, 2000, 20000) { run(s, c, 0, 1, s.chance(1, 3)); }
TEST(H01_1f0, 2000, 20000) { run(s, c, 1, 0, s.chance(1, 3)); }
TEST(H01_1f1, 2000, 20000) { run(s, c, 1, 1, s.chance(1, 3)); }
TEST(H01_2f0, 2000, 20000) { run(s, c, 2, 0, s.chance(1, 3)); }
TEST(H01_2f1, 2000, 20000) { run(s, c, 2, 1, s.chance(1, 3)); }
TEST(H01_pfq, 3000, 30000) { int p = (int)s.draw(5), q = (int)s.draw(5); run(s, c, p, q, true); }
TEST(H01_identities, 1000, 10000)
{
  // closed forms: exp, powers, logarithm, arctangent
  c.nontrivial = true; switch(s.draw(4))
  {
    case 0: { e_float x = gen_in(s, c, 0, 40); R v = toR(x); c.note("0F0 " + show(x)); check_rel(c, "exp", toR(ef::hypergeometric_0f0(x)), r::exp(v), LIM, "0F0(x) against exp(x)"); break; }
    case 1: { e_float x = gen_in(s, c, -0.8, 0.8), a = gen_in(s, c, 0.1, 9); R v = toR(x), ra = toR(a); c.note("1F0 " + show(a) + " " + show(x)); R want = r::pow(R(1) - v, -ra), scale = v.sgn() < 0 ? r::pow(R(1) - r::abs(v), -ra) : want; check_close(c, "power", toR(ef::hypergeometric_1f0(a, x)), want, scale, LIM, "1F0(a;x) against (1-x)^-a"); break; }
    case 2: { e_float x = gen_in(s, c, 0.05, 0.8); R v = toR(x); c.note("log " + show(x)); check_rel(c, "log", toR(x * ef::hypergeometric_2f1(ef::one(), ef::one(), ef::two(), x)), -r::log1p(-v), LIM, "x 2F1(1,1;2;x) against -log(1-x)"); break; }
    default: { e_float x = gen_in(s, c, 0.05, 0.9); R v = toR(x); c.note("atan " + show(x)); check_rel(c, "atan", toR(x * ef::hypergeometric_2f1(ef::half(), ef::one(), ef::three_half(), -(x * x))), r::atan(v), LIM, "x 2F1(1/2,1;3/2;-x^2) against atan(x)"); break; }
  }
}

// Factorials, double factorials, integer binomial coefficients, Bernoulli numbers.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static double lim(double n) { return n > 1e4 ? LIM + std::log10(n / 1e4) : LIM; }
static const double max10 = L::radix == 10 ? (double)L::max_exponent : (double)L::max_exponent * std::log10(2.0);
static void check_int(Ctx& c, const std::string& sig, const e_float& g, const R& want, double lg)
{
  if(want.log10abs() < D10) REQUIRE(toR(g) == want, sig + ":exact", sig + " gave " + show(g) + ", expected exactly " + show(want)); else check_rel(c, sig, toR(g), want, lg, sig);
}
// n! by the log gamma function (n too large for an exact product)
static R big_fac(unsigned long n) { if(n <= 200000) return r::fac(n); r::Prec q(R::prec + 96); return r::exp(r::lngamma(R(n + 1))); }
static R big_fac2(unsigned long n) { if(n <= 200000) return r::fac2(n); if(n % 2 == 0) return r::ldexp(big_fac(n / 2), (long)(n / 2)); return big_fac(n + 1) / big_fac2(n + 1); }
static double lgfac(double n) { return n < 2 ? 0 : std::lgamma(n + 1) / std::log(10.0); }
static const R& bern(unsigned long n) { static std::map<unsigned long, R> m; auto it = m.find(n); if(it == m.end()) it = m.emplace(n, r::bernoulli(n)).first; return it->second; }
static std::uint32_t index(Src& s, Ctx& c, std::uint32_t top)
{
  switch(s.pick({5, 3, 3, 2})) { case 0: c.label("n:table"); return (std::uint32_t)s.draw(std::min<std::uint32_t>(top, 1000)); case 1: c.label("n:table-end"); return std::min<std::uint32_t>(top, (s.chance(1, 2) ? 990 : 1990) + (std::uint32_t)s.draw(30)); case 2: c.label("n:thousands"); return (std::uint32_t)s.draw(std::min<std::uint32_t>(top, 20000)); default: c.label("n:large"); return (std::uint32_t)s.draw(top); }
}
TEST(G02_factorial, 3000, 30000)
{ std::uint32_t n = index(s, c, 4000000); c.note("factorial(" + tos(n) + ")"); c.nontrivial = n > 1; check_int(c, "factorial", ef::factorial(n), big_fac(n), lim(n)); }
TEST(G02_factorial_overflow, 200, 2000)
{ std::uint32_t n = s.chance(1, 3) ? ~0u - (std::uint32_t)s.draw(4) : 400000000u + (std::uint32_t)s.draw(~0u - 400000000u); c.note("factorial(" + tos(n) + ")"); c.nontrivial = true; if(lgfac(n) < max10 * 1.001) throw Discard(); e_float g = ef::factorial(n); REQUIRE(g.isinf() && !g.isneg(), "overflow", "factorial beyond the range gave " + show(g)); }
TEST(G02_factorial2, 3000, 30000)
{
  std::uint32_t n = index(s, c, 4000000); if(s.chance(1, 3)) { std::int32_t k = -(std::int32_t)n; c.note("factorial2(" + tos(k) + ")"); c.label("negative"); c.nontrivial = k < -1; e_float g = ef::factorial2(k); if(k % 2 == 0) { if(k) REQUIRE(g.isnan(), "fac2-pole", "factorial2 of a negative even number gave " + show(g)); else REQUIRE(g == ef::one(), "fac2-zero", "0!! is not 1"); return; } R want = n == 1 ? R(1) : R(1) / big_fac2(n - 2); if(((n - 1) / 2) & 1) want = -want; check_rel(c, "factorial2-neg", toR(g), want, lim(n), "factorial2"); return; }
  c.note("factorial2(" + tos(n) + ")"); c.nontrivial = n > 1; check_int(c, "factorial2", ef::factorial2((std::int32_t)n), big_fac2(n), lim(n));
}
TEST(G02_binomial, 4000, 40000)
{
  std::uint32_t n = s.chance(1, 2) ? (std::uint32_t)s.draw(165) : s.chance(1, 2) ? (std::uint32_t)s.draw(2500) : (std::uint32_t)s.draw(200000); std::uint32_t k = s.chance(1, 3) ? (std::uint32_t)s.draw(std::min<std::uint32_t>(n, 20) + 1) : (std::uint32_t)s.draw(n + 1); if(s.chance(1, 5)) k = n - k; if(s.chance(1, 20)) { k = n + 1 + (std::uint32_t)s.draw(10); c.note("binomial(" + tos(n) + "," + tos(k) + ")"); REQUIRE(ef::binomial(n, k).isnan(), "binomial-domain", "binomial with k > n is not NaN"); return; }
  c.note("binomial(" + tos(n) + "," + tos(k) + ")"); c.nontrivial = k > 0 && k < n; R want = r::bin(n, k); e_float g = ef::binomial(n, k); if(n <= 160) check_int(c, "binomial", g, want, LIM); else check_rel(c, "binomial", toR(g), want, lim(n), "binomial"); check_rel(c, "binomial-symmetry", toR(ef::binomial(n, n - k)), want, lim(n), "binomial(n,n-k)");
}
TEST(G02_bernoulli, 2000, 20000)
{
  std::uint32_t n = index(s, c, s.chance(1, 4) ? 3000000 : 5000); if(s.chance(3, 4)) n &= ~1u; c.note("bernoulli(" + tos(n) + ")"); c.nontrivial = n > 1 && n % 2 == 0; e_float g = ef::bernoulli(n); if(n & 1) { REQUIRE(toR(g) == (n == 1 ? R(-0.5) : R(0)), "bernoulli-odd", "B_" + tos(n) + " gave " + show(g)); return; }
  R want; if(n <= 200000) want = r::bernoulli(n); else { r::Prec q(R::prec + 96); want = R(2) * big_fac(n) / r::powi(R(2) * r::pi(), (long)n); if(((n / 2) & 1) == 0) want = -want; } check_rel(c, n > 10000 ? "bernoulli-large" : "bernoulli", toR(g), want, lim(n), "B_" + tos(n));
}
TEST(G02_bernoulli_table, 60, 400)
{
  std::uint32_t n = (std::uint32_t)s.draw(s.chance(1, 4) ? 500 : 80); std::vector<e_float> t(s.draw(4), ef::pi()); c.note("bernoulli_table(" + tos(n) + ")"); c.nontrivial = n > 1; ef::bernoulli_table(t, n); REQUIRE(t.size() >= n + 1, "table-size", "bernoulli_table(" + tos(n) + ") gave " + tos((long long)t.size()) + " numbers");
  for(std::uint32_t k = 0; k < t.size(); ++k) { if(k & 1 || k == 0) REQUIRE(toR(t[k]) == (k == 1 ? R(-0.5) : k ? R(0) : R(1)), "table-odd", "entry " + tos(k) + " is " + show(t[k])); else check_rel(c, "table", toR(t[k]), bern(k), LIM, "entry " + tos(k)); }
}
// Every entry of the tables behind the functions (and some beyond them): a case is one whole block of arguments.
TEST(G02_block_binomial, 500, 1000)
{
  const std::uint32_t b = (std::uint32_t)s.draw(44) * 4; c.note("binomial rows " + tos(b) + " to " + tos(b + 3)); c.nontrivial = true;
  for(std::uint32_t n = b; n < b + 4; ++n) { R want(1); for(std::uint32_t k = 0; k <= n; ++k) { if(k) want = want * R((unsigned long)(n - k + 1)) / R((unsigned long)k); if(n <= 160) check_int(c, "binomial-block", ef::binomial(n, k), want, LIM); else check_rel(c, "binomial-block", toR(ef::binomial(n, k)), want, LIM, "binomial"); } }
}
TEST(G02_block_factorial, 400, 800)
{
  const std::uint32_t b = (std::uint32_t)s.draw(26) * 40; c.note("factorials " + tos(b) + " to " + tos(b + 39)); c.nontrivial = true;
  R want = r::fac(b); for(std::uint32_t n = b; n < b + 40; ++n) { if(n > b) want = want * R((unsigned long)n); check_int(c, "factorial-block", ef::factorial(n), want, LIM); }
  R two[2] = { r::fac2(2 * b), r::fac2(2 * b + 1) }; for(std::uint32_t n = 2 * b; n < 2 * b + 80; ++n) { R& w = two[n & 1]; if(n > 2 * b + 1) w = w * R((unsigned long)n); check_int(c, "factorial2-block", ef::factorial2((std::int32_t)n), w, LIM); }
}
TEST(G02_block_bernoulli, 250, 500)
{
  const std::uint32_t b = (std::uint32_t)s.draw(22) * 50; c.note("Bernoulli numbers " + tos(b) + " to " + tos(b + 48)); c.nontrivial = true;
  for(std::uint32_t n = b; n < b + 50; n += 2) { e_float g = ef::bernoulli(n); check_rel(c, "bernoulli-block", toR(g), n ? bern(n) : R(1), lim(n), "B_" + tos(n)); REQUIRE(toR(ef::bernoulli(n + 1)) == (n ? R(0) : R(-0.5)), "bernoulli-odd", "B_" + tos(n + 1) + " is wrong"); }
}

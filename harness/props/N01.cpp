// Primes and prime factorization.
#include "../gen.h"
#include <deque>
#include <functions/integer/prime_factors.h>
static const std::vector<unsigned char>& sieve() { static std::vector<unsigned char> v; if(v.empty()) { v.assign(8000000, 1); v[0] = v[1] = 0; for(std::size_t i = 2; i * i < v.size(); ++i) if(v[i]) for(std::size_t j = i * i; j < v.size(); j += i) v[j] = 0; } return v; }
static const std::vector<std::uint32_t>& primes() { static std::vector<std::uint32_t> p; if(p.empty()) { auto& s = sieve(); for(std::size_t i = 0; i < s.size(); ++i) if(s[i]) p.push_back((std::uint32_t)i); } return p; }
static bool isprime(std::uint32_t n) { if(n < sieve().size()) return sieve()[n]; for(auto p : primes()) { if((std::uint64_t)p * p > n) break; if(n % p == 0) return false; } return true; }
TEST(N01_prime, 600, 6000)
{
  // a history of calls with different counts into one container
  int k = 1 + (int)s.draw(3); std::deque<std::uint32_t> d(s.draw(5), 77u);
  for(int i = 0; i < k; ++i)
  {
    std::uint32_t n; switch(s.pick({4, 4, 3, 2})) { case 0: n = (std::uint32_t)s.draw(200); break; case 1: n = (std::uint32_t)s.draw(7000); break; case 2: n = 6500 + (std::uint32_t)s.draw(100); break; default: n = (std::uint32_t)s.draw(300000); } c.note("prime(" + tos(n) + ")"); c.nontrivial = c.nontrivial || n > 1;
    ef::prime(n, d); REQUIRE(d.size() == n, "count", "prime(" + tos(n) + ") gave " + tos((long long)d.size()) + " numbers");
    for(std::uint32_t j = 0; j < n; ++j) REQUIRE(d[j] == primes()[j], "value", "prime number " + tos(j) + " of " + tos(n) + " is " + tos(d[j]) + ", expected " + tos(primes()[j]));
  }
}
static void check_factors(Ctx& c, std::uint32_t n, std::deque<Util::point<std::uint32_t>>& pf)
{
  ef::prime_factors(n, pf);
  std::string txt; for(auto& f : pf) txt += "(" + tos(f.x) + "," + tos(f.y) + ")";
  if(n < 2) { REQUIRE(pf.size() == 1 && pf[0].x == n && pf[0].y == 1, "trivial", "factors of " + tos(n) + ": " + txt); return; }
  std::uint64_t prod = 1; std::uint32_t last = 1; for(auto& f : pf) { REQUIRE(f.x > last, "order", "factors of " + tos(n) + " are not increasing primes: " + txt); last = f.x; REQUIRE(isprime(f.x) && f.y >= 1, "prime", "factors of " + tos(n) + " are not primes: " + txt); for(std::uint32_t i = 0; i < f.y && prod <= n; ++i) prod *= f.x; } REQUIRE(prod == n, "product", "the factors of " + tos(n) + " do not multiply to it: " + txt);
}
TEST(N01_factors, 30000, 400000)
{
  std::uint32_t n = 1; switch(s.pick({4, 3, 3, 3, 3, 2}))
  {
    case 0: n = (std::uint32_t)s.draw(10050); c.label("table"); break;
    case 1: n = (std::uint32_t)s.draw(~0u); c.label("random"); break;
    case 2: { c.label("smooth"); static const std::uint32_t ps[] = {2, 3, 5, 7, 11, 13, 17, 251, 65521, 65537}; for(int i = 0; i < 40; ++i) { std::uint64_t m = (std::uint64_t)n * ps[s.draw(s.chance(1, 2) ? 4 : 10)]; if(m > ~0u) break; n = (std::uint32_t)m; } break; }
    case 3: { c.label("semiprime"); std::uint64_t m = (std::uint64_t)primes()[s.draw(6600)] * primes()[s.draw(6600)]; n = (std::uint32_t)(m > ~0u ? m % 4294967291u : m); break; }
    case 4: { c.label("square"); std::uint64_t p = primes()[s.draw(6542)]; std::uint64_t m = p * p; n = (std::uint32_t)(m > ~0u ? p : m); n = (std::uint32_t)(n + s.range(-1, 1)); break; }
    default: { c.label("prime"); n = s.chance(1, 2) ? primes()[s.draw(primes().size())] : 4294967291u - (std::uint32_t)s.draw(100); }
  }
  c.note(tos(n)); c.nontrivial = n > 3; std::deque<Util::point<std::uint32_t>> pf(s.draw(3)); check_factors(c, n, pf);
}
// every number up to 40000, in blocks
TEST(N01_block_factors, 3000, 6000)
{
  const std::uint32_t b = (std::uint32_t)s.draw(400) * 100; c.note("numbers " + tos(b) + " to " + tos(b + 99)); c.nontrivial = true; std::deque<Util::point<std::uint32_t>> pf; for(std::uint32_t n = b; n < b + 100; ++n) check_factors(c, n, pf);
}

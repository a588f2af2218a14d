// Resource neutrality: programs over values leave no memory behind and read or write nothing outside it.
#include "../gen.h"
#include <e_float/e_float_complex.h>
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <deque>
#include <limits>
#include <map>
#include <new>
#include <sstream>
typedef std::numeric_limits<e_float> L;
typedef ef::complex<e_float> Z;
static long live_blocks = 0; // blocks held through operator new and through the allocator of GMP/MPFR
static bool counting = false;
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); if(counting) ++live_blocks; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if(p && counting) --live_blocks; std::free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
extern "C" void __gmp_set_memory_functions(void* (*)(std::size_t), void* (*)(void*, std::size_t, std::size_t), void (*)(void*, std::size_t));
static void* ga(std::size_t n) { if(counting) ++live_blocks; return std::malloc(n); }
static void* gr(void* p, std::size_t, std::size_t n) { return std::realloc(p, n); }
static void gf(void* p, std::size_t) { if(p && counting) --live_blocks; std::free(p); }
static struct Install { Install() { __gmp_set_memory_functions(ga, gr, gf); } } install;

struct Op { unsigned k, i, j; long n; std::string lit; double d; };
// the interpreter: uses library calls only
static void interpret(const std::vector<Op>& prog)
{
  std::vector<e_float> v(4); std::vector<Z> z(2);
  for(const Op& o : prog)
  {
    e_float &x = v[o.i % v.size()], &y = v[o.j % v.size()];
    switch(o.k)
    {
      case 0: x = e_float(o.lit); break;
      case 1: x = e_float(o.lit.c_str()); break;
      case 2: x = (long long)o.n; break;
      case 3: x = o.d; break;
      case 4: x = y; break;
      case 5: { e_float t(y); x = std::move(t); t = x; break; }
      case 6: std::swap(x, y); break;
      case 7: x += y; break;
      case 8: x -= y; break;
      case 9: x *= y; break;
      case 10: x /= y; break;
      case 11: { std::istringstream is(o.lit + " " + o.lit); is >> x >> y; break; }
      case 12: { std::ostringstream os; os.precision(o.n % 90); os << x << ' ' << std::fixed << e_float(o.d > 1e20 || o.d < -1e20 ? 0.5 : o.d); y = e_float(os.str().substr(0, os.str().find(' '))); break; }
      case 13: v.push_back(y); if(v.size() > 9) v.erase(v.begin() + 1, v.begin() + 6); break;
      case 14: { std::deque<e_float> dq(v.begin(), v.end()); std::reverse(dq.begin(), dq.end()); x = dq.back(); break; }
      case 15: std::sort(v.begin(), v.end(), [](const e_float& a, const e_float& b) { return a < b; }); break;
      case 16: x = ef::sqrt(ef::fabs(y)); break;
      case 17: if(ef::fabs(y) < e_float(40)) x = ef::exp(y); break;
      case 18: if(y > e_float(0)) x = ef::log(y); break;
      case 19: if(ef::fabs(y) < e_float(1000)) { e_float a, b; ef::sincos(y, &a, &b); x = a + b; } break;
      case 20: x = L::infinity(); break;
      case 21: x = L::quiet_NaN(); break;
      case 22: x = -x; ++y; --x; break;
      case 23: x *= (int)(o.n % 1000); y /= (int)(o.n % 77 + 78); break;
      case 24: { e_float t(y); t.precision(20); t *= t; x += t; break; }
      case 25: { volatile long long r = x.extract_signed_long_long(); volatile double d = ef::to_double(y); volatile long double ld = x.extract_long_double(); (void)r; (void)d; (void)ld; break; }
      case 26: x = ef::floor(y) + ef::ceil(x) + ef::integer_part(y) + ef::decimal_part(x); break;
      case 27: { Z& a = z[o.i % 2]; Z& b = z[o.j % 2]; a = Z(x, y); b *= a; a += b; b -= a; if(!ef::iszero(b.real()) && !ef::iszero(b.imag())) a /= b; break; }
      case 28: { std::stringstream st; st << z[o.i % 2]; Z t; st >> t; z[o.j % 2] = t; break; }
      case 29: { std::map<long, e_float> m; for(int i = 0; i < 5; ++i) m[(o.n + i) % 3] = y; x = m.begin()->second; break; }
      case 30: { e_float t{o.d, (std::int64_t)(o.n % 50)}; x = t; break; }
      case 31: try { e_float t(y); throw t; } catch(const e_float& t) { x = t; } break;
      case 32: x = ef::pow2(o.n % 4000) * ef::cbrt(ef::fabs(y)) ; break;
      case 33: if(ef::fabs(y) < e_float(1)) x = ef::asin(y) + ef::atan(y); break;
      case 34: { e_float* p = new e_float(y); *p += x; x = *p; delete p; break; }
      case 35: v.resize(4 + o.n % 3); break;
      default: x = ef::fmod(ef::fabs(y) + e_float(1), e_float(7)); break;
    }
    if(v.size() < 4) v.resize(4);
    for(auto& e : v) if(e.isfinite() && ef::fabs(e) > e_float("1e200")) e = e_float(3) / 7;
  }
}
static std::vector<Op> program(Src& s, Ctx& c, int n)
{
  std::vector<Op> p; for(int i = 0; i < n; ++i) { Op o; o.k = (unsigned)s.draw(37); o.i = (unsigned)s.draw(9); o.j = (unsigned)s.draw(9); o.n = (long)s.draw(100000); GenOpt g; g.emin = -30; g.emax = 30; Ctx dummy; o.lit = gen_literal(s, dummy, g); if(s.chance(1, 6)) o.lit += std::string(s.draw(3), '0'); o.d = s.chance(1, 20) ? std::numeric_limits<double>::infinity() : s.chance(1, 20) ? std::numeric_limits<double>::quiet_NaN() : gen_double(s); p.push_back(o); c.note(tos(o.k)); } return p;
}
TEST(R01_neutral, 2500, 30000)
{
  int n = 1 + (int)s.draw(30); std::vector<Op> p = program(s, c, n); c.nontrivial = n > 3;
  interpret(p); // fills caches of constants and of MPFR
  live_blocks = 0; counting = true; interpret(p); interpret(p); counting = false; long left = live_blocks;
  // MPFR keeps a pool of released integers: its fill level can change for some executions, a leak does not stop
  for(int k = 0; left > 0 && k < 25; ++k) { live_blocks = 0; counting = true; interpret(p); interpret(p); counting = false; left = live_blocks; }
  REQUIRE(left <= 0, "leak", "two executions of the program leave " + tos(left) + " memory blocks behind");
}

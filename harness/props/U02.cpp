// util::dynamic_array (and the fixed form that holds the limbs) against std::vector.
#include "../gen.h"
#include <utility/util_dynamic_array.h>
#include <e_float/detail/e_float_detail_dynamic_array.h>
#include <deque>
#include <list>
#include <set>
// an element that knows whether it exists
struct Live
{
  static std::set<const Live*>& all() { static std::set<const Live*> s; return s; }
  static const char*& bad() { static const char* b = nullptr; return b; }
  long v; Live* self;
  void born() { self = this; if(!all().insert(this).second) bad() = "an element was constructed twice"; }
  void need() const { if(!all().count(this)) bad() = "an element was used that does not exist"; }
  Live(long x = 0) : v(x) { born(); }
  Live(const Live& o) : v(o.v) { o.need(); born(); }
  Live& operator=(const Live& o) { need(); o.need(); v = o.v; return *this; }
  ~Live() { if(!all().erase(this)) bad() = "an element was destroyed that does not exist"; }
  bool operator==(const Live& o) const { need(); o.need(); return v == o.v; }
  bool operator<(const Live& o) const { need(); o.need(); return v < o.v; }
};
template<class T> struct Mk;
template<> struct Mk<std::uint32_t> { static std::uint32_t mk(long k) { return (std::uint32_t)k * 99u; } };
template<> struct Mk<std::string> { static std::string mk(long k) { return std::string((std::size_t)(k % 40), 'a') + std::to_string(k); } };
template<> struct Mk<Live> { static Live mk(long k) { return Live(k); } };
template<> struct Mk<e_float> { static e_float mk(long k) { return e_float((int)k) / 8; } };
template<class T> static void same(const util::dynamic_array<T>& d, const std::vector<T>& m, const char* what)
{
  std::string w = what; REQUIRE(d.size() == m.size() && d.empty() == m.empty() && (std::size_t)(d.end() - d.begin()) == m.size(), "size", w + ": size " + tos((long long)d.size()) + ", expected " + tos((long long)m.size()));
  REQUIRE(std::equal(m.begin(), m.end(), d.begin()), "content", w + ": the elements differ from those of the model"); REQUIRE(std::equal(m.begin(), m.end(), d.cbegin()) && std::equal(m.rbegin(), m.rend(), d.rbegin()) && std::equal(m.crbegin(), m.crend(), d.crbegin()), "iterators", w + ": iteration differs from the model");
  for(std::size_t i = 0; i < m.size(); ++i) REQUIRE(d[i] == m[i] && d.at(i) == m[i] && d.data()[i] == m[i], "index", w + ": element " + tos((long long)i)); if(m.size()) REQUIRE(d.front() == m.front() && d.back() == m.back(), "ends", w + ": front or back");
}
template<class T> static void history(Src& s, Ctx& c)
{
  typedef util::dynamic_array<T> D; typedef std::vector<T> M; auto mk = [&] { return Mk<T>::mk((long)s.draw(6)); };
  auto len = [&] { return (std::size_t)(s.chance(1, 4) ? 0 : s.draw(9)); };
  std::deque<D> d; std::deque<M> m; const long steps = 4 + (long)s.draw(40); std::string h;
  for(long i = 0; i < steps; ++i)
  {
    const std::size_t n = d.size(); std::size_t a = n ? s.draw(n) : 0, b = n ? s.draw(n) : 0; const char* op = "";
    switch(n < 2 ? s.draw(6) : s.draw(17))
    {
      case 0: { op = "count"; std::size_t k = len(); d.emplace_back((typename D::size_type)k); m.emplace_back(k, T()); break; }
      case 1: { op = "count-value"; std::size_t k = len(); T v = mk(); d.emplace_back((typename D::size_type)k, v); m.emplace_back(k, v); break; }
      case 2: { op = "range"; M v; std::size_t k = len(); while(v.size() < k) v.push_back(mk()); if(s.chance(1, 2)) { d.emplace_back(v.cbegin(), v.cend()); } else { std::list<T> l(v.begin(), v.end()); d.emplace_back(l.begin(), l.end()); } m.push_back(v); break; }
      case 3: { op = "list"; T v = mk(), w = mk(), x = mk(); if(s.chance(1, 3)) { d.push_back(D({ v })); m.push_back(M({ v })); } else { d.push_back(D({ v, w, x })); m.push_back(M({ v, w, x })); } break; }
      case 4: op = "copy"; if(!n) continue; d.push_back(D(d[a])); m.push_back(M(m[a])); break;
      case 5: op = "move"; if(!n) continue; { D t(std::move(d[a])); M u(std::move(m[a])); m[a].clear(); same(d[a], m[a], "moved-from"); d.emplace_back(std::move(t)); m.emplace_back(std::move(u)); } break;
      case 6: op = "assign"; d[a] = d[b]; m[a] = m[b]; break;
      case 7: op = "move-assign"; if(a == b) continue; d[a] = std::move(d[b]); m[a] = std::move(m[b]); m[b].clear(); break;
      case 8: op = "swap"; d[a].swap(d[b]); m[a].swap(m[b]); break;
      case 9: op = "swap-free"; { using std::swap; swap(d[a], d[b]); m[a].swap(m[b]); } break;
      case 10: { op = "fill"; T v = mk(); d[a].fill(v); std::fill(m[a].begin(), m[a].end(), v); break; }
      case 11: { op = "write"; if(m[a].empty()) continue; std::size_t k = s.draw(m[a].size()); T v = mk(); m[a][k] = v; switch(s.draw(4)) { case 0: d[a][k] = v; break; case 1: d[a].at(k) = v; break; case 2: d[a].begin()[k] = v; break; default: d[a].rbegin()[m[a].size() - 1 - k] = v; } break; }
      case 12: op = "ends"; if(m[a].empty()) continue; { T v = mk(), w = mk(); d[a].front() = v; m[a].front() = v; d[a].back() = w; m[a].back() = w; } break;
      case 13: op = "sort"; std::sort(d[a].begin(), d[a].end()); std::sort(m[a].begin(), m[a].end()); break;
      case 14: op = "erase"; std::swap(d[a], d.back()); std::swap(m[a], m.back()); d.pop_back(); m.pop_back(); break;
      case 15: op = "self-assign"; { D& t = d[a]; d[a] = t; } break;
      default: op = "swap-temporary"; { D t(d[b]); M u(m[b]); d[a].swap(std::move(t)); m[a].swap(u); same(t, u, "swapped temporary"); } break;
    }
    h += op; h += ' '; c.nontrivial = c.nontrivial || d.size() > 1;
    if(h.size() < 300) c.desc = h;
    for(std::size_t k = 0; k < d.size(); ++k) same<T>(d[k], m[k], op);
    if(d.size() > 1) { a = s.draw(d.size()); b = s.draw(d.size()); const D &x = d[a], &y = d[b]; const M &u = m[a], &v = m[b]; REQUIRE((x == y) == (u == v) && (x != y) == (u != v), "equal", "equality differs from that of vectors"); REQUIRE((x < y) == (u < v) && (x > y) == (v < u) && (x <= y) == !(v < u) && (x >= y) == !(u < v), "order", "the order differs from the lexicographical order (sizes " + tos((long long)u.size()) + " and " + tos((long long)v.size()) + ")"); }
    REQUIRE(Live::bad() == nullptr, "lifetime", std::string(op) + ": " + Live::bad());
  }
}
TEST(U02_integers, 6000, 60000) { history<std::uint32_t>(s, c); }
TEST(U02_strings, 6000, 60000) { history<std::string>(s, c); }
TEST(U02_numbers, 3000, 30000) { history<e_float>(s, c); }
TEST(U02_lifetime, 8000, 80000)
{
  Live::all().clear(); Live::bad() = nullptr; history<Live>(s, c); REQUIRE(Live::bad() == nullptr, "lifetime", Live::bad() ? Live::bad() : ""); REQUIRE(Live::all().empty(), "leak", tos((long long)Live::all().size()) + " elements were never destroyed");
}
template<std::uint_fast32_t N> static void fixed(Src& s, Ctx& c)
{
  typedef ef::detail::fixed_dynamic_array<std::uint32_t, N, std::allocator<std::uint32_t>> F; typedef std::vector<std::uint32_t> M; REQUIRE(F::static_size() == N, "static-size", "static_size");
  auto chk = [&](const F& f, const M& m, const char* w) { same<std::uint32_t>(f, m, w); };
  F z; chk(z, M(N, 0), "default"); std::size_t k = s.draw(2 * N + 2); std::uint32_t v = (std::uint32_t)s.draw(1u << 31); F f((typename F::size_type)k, v); M m(N, 0); std::fill(m.begin(), m.begin() + std::min<std::size_t>(k, N), v); chk(f, m, "count and value"); c.note("N=" + tos(N) + " count=" + tos((long long)k)); c.nontrivial = k > 0 && k < N;
  F g(f); chk(g, m, "copy"); F l({ 7u, v, 9u }); M ml(N, 0); std::uint32_t q[3] = { 7u, v, 9u }; for(std::size_t i = 0; i < 3 && i < N; ++i) ml[i] = q[i]; chk(l, ml, "list"); g = l; chk(g, ml, "assignment"); chk(l, ml, "source of assignment"); F h(std::move(g)); chk(h, ml, "move"); g = f; chk(g, m, "assignment to moved-from"); h = std::move(g); chk(h, m, "move assignment");
  { using std::swap; swap(h, l); } chk(h, ml, "swap"); chk(l, m, "swap");
}
TEST(U02_fixed, 2000, 20000) { switch(s.draw(4)) { case 0: fixed<1>(s, c); break; case 1: fixed<2>(s, c); break; case 2: fixed<16>(s, c); break; default: fixed<40>(s, c); } }

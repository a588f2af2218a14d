// Value semantics over histories: copies, moves, assignments, aliasing, containers.
#include "../gen.h"
#include <algorithm>
#include <utility>
#include <vector>
static const double LIM = -(double)D10;
struct Slot { e_float v; R m; bool moved = false; };      // the object, its model value, and whether it was moved from
TEST(A05_history, 12000, 300000)
{
  const int N = 5; std::vector<Slot> r(N); GenOpt o; o.emin = -40; o.emax = 40;
  for(auto& t : r) { t.v = gen_value(s, c, o); t.m = toR(t.v); }
  int steps = 4 + (int)s.draw(40); std::string hist; bool interesting = false;
  auto close = [&](Slot& d, const R& want, const R& scale, const char* what)
  {
    R got = toR(d.v);
    if(want.isfinite()) { if(want.iszero()) REQUIRE(d.v.iszero(), std::string("op:") + what, std::string(what) + ": expected zero, got " + show(d.v)); else check_close(c, std::string("op:") + what, got, want, scale, LIM, what); }
    d.m = got;
  };
  for(int k = 0; k < steps; ++k)
  {
    int i = (int)s.draw(N), j = s.chance(1, 3) ? i : (int)s.draw(N); std::size_t op = s.draw(22); Slot &a = r[i], &b = r[j];
    static const char* const nm[] = {"copy=", "copyctor", "move=", "movector", "swap", "+=", "-=", "*=", "/=", "negate", "+=n", "*=n", "/=n", "++", "--", "new", "expr", "chain=", "member-swap", "inv", "sqrt", "self="};
    char buf[64]; std::snprintf(buf, sizeof buf, "%s(%d,%d) ", nm[op], i, j); hist += buf; c.desc = hist;
    // a moved-from object may only be assigned to, moved into, swapped by assignment or destroyed
    auto live = [&](Slot& t) { return !t.moved; };
    switch(op)
    {
      case 0: if(live(b)) { if(a.moved) interesting = true; a.v = b.v; a.m = b.m; a.moved = false; } break;
      case 1: if(live(b)) { e_float t(b.v); REQUIRE(toR(t) == b.m, "copyctor", "a copy differs from its source"); if(i != j) { a.v = t; a.m = b.m; a.moved = false; } } break;
      case 2: if(live(b) && i != j) { a.v = std::move(b.v); a.m = b.m; a.moved = false; b.moved = true; interesting = true; } break;
      case 3: if(live(b)) { e_float t(std::move(b.v)); REQUIRE(toR(t) == b.m, "movector", "move construction lost the value"); b.v = std::move(t); interesting = true; } break;
      case 4: if(live(a) && live(b)) { std::swap(a.v, b.v); std::swap(a.m, b.m); } break;
      case 5: if(live(a) && live(b)) { R w = a.m + b.m, sc = r::max(r::abs(a.m), r::abs(b.m)); a.v += b.v; close(a, w, sc, "+="); interesting |= i == j; } break;
      case 6: if(live(a) && live(b)) { R w = a.m - b.m, sc = r::max(r::abs(a.m), r::abs(b.m)); a.v -= b.v; close(a, w, sc, "-="); interesting |= i == j; } break;
      case 7: if(live(a) && live(b)) { R w = a.m * b.m; if(std::fabs(w.log10abs()) > 1e5) break; a.v *= b.v; close(a, w, r::abs(w), "*="); interesting |= i == j; } break;
      case 8: if(live(a) && live(b) && !b.m.iszero()) { R w = a.m / b.m; if(std::fabs(w.log10abs()) > 1e5) break; a.v /= b.v; close(a, w, r::abs(w), "/="); interesting |= i == j; } break;
      case 9: if(live(a)) { a.v.negate(); a.m = -a.m; } break;
      case 10: if(live(a)) { int n = (int)s.range(-100000, 100000); R w = a.m + R(n), sc = r::max(r::abs(a.m), r::abs(R(n))); a.v += n; close(a, w, sc, "+=n"); } break;
      case 11: if(live(a)) { int n = (int)s.range(-100000, 100000); R w = a.m * R(n); a.v *= n; close(a, w, r::abs(w), "*=n"); } break;
      case 12: if(live(a)) { int n = 1 + (int)s.range(0, 100000); R w = a.m / R(n); a.v /= n; close(a, w, r::abs(w), "/=n"); } break;
      case 13: if(live(a)) { R w = a.m + R(1), sc = r::max(r::abs(a.m), R(1)); e_float old = a.v++; REQUIRE(toR(old) == a.m, "post++", "post-increment returned a different value"); close(a, w, sc, "++"); } break;
      case 14: if(live(a)) { R w = a.m - R(1), sc = r::max(r::abs(a.m), R(1)); --a.v; close(a, w, sc, "--"); } break;
      case 15: a.v = gen_value(s, c, o); a.m = toR(a.v); if(a.moved) interesting = true; a.moved = false; break;
      case 16: if(live(a) && live(b)) { int q = (int)s.draw(N); if(r[q].moved) break; R w = a.m * b.m + r[q].m; R sc = r::max(r::abs(a.m * b.m), r::abs(r[q].m)); if(std::fabs(sc.log10abs()) > 1e5) break; int d = (int)s.draw(N); r[d].v = a.v * b.v + r[q].v; r[d].moved = false; if(!sc.iszero()) check_close(c, "op:expr", toR(r[d].v), w, sc, LIM + 0.7, "a*b+q"); r[d].m = toR(r[d].v); } break;
      case 17: if(live(b)) { int q = (int)s.draw(N); e_float& ref = (r[q].v = (a.v = b.v)); REQUIRE(&ref == &r[q].v, "assign-ref", "assignment does not return its target"); a.m = r[q].m = r[j].m; a.moved = r[q].moved = false; } break;
      case 18: if(live(a) && live(b)) { a.v.swap(b.v); std::swap(a.m, b.m); } break;
      case 19: if(live(a) && !a.m.iszero()) { R w = R(1) / a.m; a.v.calculate_inv(); close(a, w, r::abs(w), "inv"); } break;
      case 20: if(live(a) && a.m.sgn() > 0) { R w = r::sqrt(a.m); a.v.calculate_sqrt(); close(a, w, w, "sqrt"); } break;
      default: if(live(a)) { e_float& t = a.v; a.v = t; } break;
    }
    // every other object is untouched, and equals a fresh copy of itself
    for(int q = 0; q < N; ++q) if(!r[q].moved)
    {
      REQUIRE(toR(r[q].v) == r[q].m, "interference", "after " + std::string(nm[op]) + " object " + tos(q) + " holds " + show(r[q].v) + " instead of " + show(r[q].m));
      const e_float cp(r[q].v); REQUIRE(cp == r[q].v && !(cp != r[q].v), "copy-equal", "a copy does not compare equal to its source");
    }
    if(std::any_of(r.begin(), r.end(), [](const Slot& t) { return !t.moved && t.m.isfinite() && !t.m.iszero() && std::fabs(t.m.log10abs()) > 100000; })) break;
  }
  c.nontrivial = interesting;
}
TEST(A05_containers, 3000, 60000)
{
  // a vector of e_float with inserts, erases, sorts and reallocation against a vector of model values
  std::vector<e_float> v; std::vector<R> m; int steps = 5 + (int)s.draw(60); GenOpt o; o.emin = -5; o.emax = 5; std::string hist;
  for(int k = 0; k < steps; ++k)
  {
    std::size_t op = s.draw(8); std::size_t n = v.size(); std::size_t p = n ? s.draw(n) : 0; hist += "puierxsc"[op]; c.desc = hist;
    switch(op)
    {
      case 0: { e_float x = gen_value(s, c, o); v.push_back(x); m.push_back(toR(x)); break; }
      case 1: { e_float x = gen_value(s, c, o); R q = toR(x); v.push_back(std::move(x)); m.push_back(q); break; }
      case 2: { e_float x = gen_value(s, c, o); v.insert(v.begin() + p, x); m.insert(m.begin() + p, toR(x)); break; }
      case 3: if(n) { v.erase(v.begin() + p); m.erase(m.begin() + p); } break;
      case 4: if(n) { std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); } break;
      case 5: if(n) { std::rotate(v.begin(), v.begin() + p, v.end()); std::rotate(m.begin(), m.begin() + p, m.end()); } break;
      case 6: std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end()); c.nontrivial |= n > 3; break;
      default: { std::vector<e_float> w(v); v = std::move(w); break; }
    }
    REQUIRE(v.size() == m.size(), "container-size", "container size"); for(std::size_t i = 0; i < v.size(); ++i) REQUIRE(toR(v[i]) == m[i], "container", "element " + tos((long long)i) + " is " + show(v[i]) + " instead of " + show(m[i]));
  }
}
TEST(A05_aliasing, 20000, 300000)
{
  // the same object on both sides gives the same result as two equal objects
  GenOpt o = window(s); o.zero = false; e_float x = gen_value(s, c, o); R a = toR(x); if(a.iszero()) throw Discard(); c.note("x=" + show(x)); c.nontrivial = true;
  e_float t(x), u(x); t += t; u += x; REQUIRE(toR(t) == toR(u), "alias+=", "x+=x gives " + show(t) + ", with a copy " + show(u));
  t = x; u = x; t -= t; u -= x; REQUIRE(t.iszero() && u.iszero(), "alias-=", "x-=x gives " + show(t));
  t = x; u = x; t *= t; u *= x; check_rel(c, "alias*=", toR(t), a * a, LIM, "x*=x"); REQUIRE(is_gmp || toR(t) == toR(u), "alias*=", "x*=x gives " + show(t) + ", with a copy " + show(u));
  t = x; t /= t; check_rel(c, "alias/=", toR(t), R(1), LIM, "x/=x");
  t = x; t = t; REQUIRE(toR(t) == a, "self-assign", "self assignment changed the value");
  t = x; t = t + t * t; check_close(c, "alias-expr", toR(t), a + a * a, r::max(r::abs(a), a * a), LIM + 0.7, "x=x+x*x");
  t = x; t.swap(t); REQUIRE(toR(t) == a, "self-swap", "swapping with itself changed the value");
}

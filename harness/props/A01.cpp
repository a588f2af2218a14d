// Addition, subtraction, negation, increment / decrement.
#include "../gen.h"
static const double LIM = -(double)D10;
static void pair_gen(Src& s, Ctx& c, e_float& x, e_float& y)
{
  GenOpt o = window(s); x = gen_value(s, c, o);
  switch(s.pick({5, 3, 3}))
  {
    case 0: y = gen_related(s, c, x); break;
    case 1: { y = gen_value(s, c, o); break; }
    default: // exponent gap steered around the number of digits kept
    {
      R v = toR(x); long e; v.digits(1, e); GenOpt p; long gap = s.range(-(D10 + 45), D10 + 45); p.emin = p.emax = (v.iszero() ? 0 : e) + gap; y = gen_value(s, c, p); c.label("pair:gap");
    }
  }
}
static void one(Ctx& c, const char* sig, const e_float& z, const R& want, const R& scale, const std::string& what)
{
  if(want.iszero()) { REQUIRE(z.iszero(), std::string(sig) + ":zero", what + " should be exactly zero, got " + show(z)); REQUIRE(!z.isneg(), std::string(sig) + ":negzero", what + ": zero result is negative"); return; }
  check_close(c, sig, toR(z), want, scale, LIM, what);
}
TEST(A01_pairs, 60000, 1500000)
{
  e_float x, y; pair_gen(s, c, x, y);
  const R a = toR(x), b = toR(y); const R m = r::max(r::abs(a), r::abs(b));
  c.note("x=" + show(x) + " y=" + show(y));
  c.nontrivial = !a.iszero() && !b.iszero();
  one(c, "add", x + y, a + b, m, "x+y"); one(c, "sub", x - y, a - b, m, "x-y"); one(c, "sub", y - x, b - a, m, "y-x");
  e_float t(x); t += y; one(c, "add-assign", t, a + b, m, "x+=y"); REQUIRE(t == y + x, "commutative", "x+y and y+x differ");
  t = x; e_float& ref = (t -= y); REQUIRE(&ref == &t, "returns-self", "-= does not return its left operand"); one(c, "sub-assign", t, a - b, m, "x-=y");
  REQUIRE(toR(x) == a && toR(y) == b, "operand-changed", "an operand changed");
}
TEST(A01_exact, 30000, 600000)
{
  // operands with few digits on a common grid: the result must be exact
  int nd = 1 + (int)s.draw(D10 - 2); long sh = s.range(-200, 200); auto mk = [&]() { std::string d; for(int i = 0; i < nd; i += 18) { char b[24]; std::snprintf(b, sizeof b, "%018llu", (unsigned long long)(s.chance(1, 4) ? 999999999999999999ULL : s.draw(1000000000000000000ULL))); d += b; } d.resize(1 + s.draw(nd)); return (s.chance(1, 2) ? "-" : "") + d + "e" + std::to_string(sh); };
  std::string p = mk(), q = mk(); 
  if(!is_efx) { auto cut = [&](std::string& z) { z = z.substr(0, z.find('e')); }; cut(p); cut(q); }   // decimal fractions are not exact in base 2
  e_float x(p), y(q); R a(p), b(q); c.note(p + " , " + q); c.nontrivial = nd > 8;
  REQUIRE(same(toR(x), a) && same(toR(y), b), "construct-exact", "a literal of at most digits10 digits was not stored exactly: " + show(x) + " , " + show(y));
  REQUIRE(same(toR(x + y), a + b), "add-exact", "x+y = " + show(x + y) + " is not the exact sum " + (a + b).str(D10 + 4)); REQUIRE(same(toR(x - y), a - b), "sub-exact", "x-y = " + show(x - y) + " is not the exact difference " + (a - b).str(D10 + 4));
  REQUIRE((x + y) - y == x, "add-sub-inverse", "(x+y)-y != x"); REQUIRE((x - y) + y == x, "sub-add-inverse", "(x-y)+y != x");
}
TEST(A01_identities, 20000, 300000)
{
  e_float x = gen_value(s, c, window(s)); R a = toR(x); c.note("x=" + show(x)); c.nontrivial = !a.iszero();
  const e_float z(0); REQUIRE(x + z == x && z + x == x && x - z == x, "add-zero", "adding zero changed the value"); REQUIRE(z - x == -x, "zero-minus", "0-x != -x");
  REQUIRE((x - x).iszero(), "self-difference", "x-x != 0"); REQUIRE((x + (-x)).iszero(), "plus-negated", "x+(-x) != 0");
  REQUIRE(toR(-x) == -a && toR(+x) == a && toR(-(-x)) == a, "negate", "unary minus/plus wrong");
  one(c, "double", x + x, a * R(2), r::abs(a), "x+x"); one(c, "double", x * 2, a * R(2), r::abs(a), "x*2");
  R m = r::max(r::abs(a), R(1)); e_float t(x); e_float old = t++; REQUIRE(old == x, "post-inc", "post-increment did not return the old value"); one(c, "inc", t, a + R(1), m, "x++");
  t = x; e_float& pr = ++t; REQUIRE(&pr == &t, "pre-inc-ref", "pre-increment"); one(c, "inc", t, a + R(1), m, "++x");
  t = x; old = t--; REQUIRE(old == x, "post-dec", "post-decrement did not return the old value"); one(c, "dec", t, a - R(1), m, "x--"); t = x; --t; one(c, "dec", t, a - R(1), m, "--x");
  t = x; t.negate(); REQUIRE(toR(t) == -a, "negate", "negate() wrong");
}
TEST(A01_chain, 6000, 60000)
{
  // long sums: the error stays within the sum of the per-operation bounds
  int n = 5 + (int)s.draw(40); GenOpt o; o.emin = -30; o.emax = 30; e_float sum; R exact(0), bound(0); c.nontrivial = true;
  for(int i = 0; i < n; ++i) { e_float t = gen_value(s, c, o); R v = toR(t); bool sub = s.chance(1, 2); bound += r::max(r::abs(toR(sum)), r::abs(v)); if(sub) { sum -= t; exact -= v; } else { sum += t; exact += v; } }
  c.note("n=" + std::to_string(n)); if(bound.iszero()) return; check_close(c, "chain", toR(sum), exact, bound, LIM, "a chain of additions and subtractions");
}

// Division and reciprocal.
#include "../gen.h"
static const double LIM = -(double)D10;
static void one(Ctx& c, const char* sig, const e_float& z, const R& want, const std::string& what)
{
  if(want.iszero()) { REQUIRE(z.iszero() && z.isfinite(), std::string(sig) + ":zero", what + " should be exactly zero, got " + show(z)); return; }
  check_rel(c, sig, toR(z), want, LIM, what);
}
TEST(A03_pairs, 40000, 900000)
{
  e_float x = gen_value(s, c, window(s)), y; GenOpt o = window(s); o.zero = false;
  switch(s.pick({5, 3, 1})) { case 0: y = gen_value(s, c, o); break; case 1: y = x.iszero() ? gen_value(s, c, o) : gen_related(s, c, x); break; default: y = x.iszero() ? e_float(1) : x; }
  const R a = toR(x), b = toR(y); if(b.iszero()) throw Discard(); c.note("x=" + show(x) + " y=" + show(y)); c.nontrivial = !a.iszero();
  one(c, "div", x / y, a / b, "x/y"); e_float t(x); e_float& ref = (t /= y); REQUIRE(&ref == &t, "returns-self", "/= does not return its left operand"); one(c, "div-assign", t, a / b, "x/=y");
  REQUIRE(toR(x) == a && toR(y) == b, "operand-changed", "an operand changed");
  one(c, "inv", e_float(y).calculate_inv(), R(1) / b, "calculate_inv(y)"); one(c, "inv", e_float(1) / y, R(1) / b, "1/y"); one(c, "inv", ef::inv(y), R(1) / b, "inv(y)");
  REQUIRE((-x) / y == -(x / y) && x / (-y) == -(x / y), "sign-rule", "the sign rule of division is violated");
  if(!a.iszero()) one(c, "mul-back", (x / y) * y, a, "(x/y)*y");
}
TEST(A03_identities, 20000, 300000)
{
  GenOpt o = window(s); o.zero = false; e_float x = gen_value(s, c, o); R a = toR(x); if(a.iszero()) throw Discard(); c.note("x=" + show(x)); c.nontrivial = true;
  one(c, "self-quotient", x / x, R(1), "x/x"); one(c, "self-quotient", x / -x, R(-1), "x/(-x)"); one(c, "div-one", x / e_float(1), a, "x/1"); one(c, "div-minus-one", x / e_float(-1), -a, "x/(-1)");
  e_float z(0); REQUIRE((z / x).iszero(), "zero-over-x", "0/x = " + show(z / x)); e_float t(x); t /= t; one(c, "self-quotient", t, R(1), "x/=x");
}
TEST(A03_integers, 25000, 400000)
{
  // (p*q)/q gives p to full precision, quotient classification is consistent
  auto mk = [&](int n) { std::string d; while((int)d.size() < n) { char b[24]; std::snprintf(b, sizeof b, "%018llu", (unsigned long long)s.draw(1000000000000000000ULL)); d += b; } d.resize(n); if(d[0] == '0') d[0] = '1'; return d; };
  int n1 = 1 + (int)s.draw(D10 / 2 - 1), n2 = 1 + (int)s.draw(D10 / 2 - 1); std::string p = mk(n1), q = mk(n2); e_float x(p), y(q); R a(p), b(q); c.note(p + " , " + q); c.nontrivial = n1 + n2 > 16;
  one(c, "exact-quotient", (x * y) / y, a, "(p*q)/q"); one(c, "ratio", x / y, a / b, "p/q");
}

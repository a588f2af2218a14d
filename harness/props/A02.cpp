// Multiplication.
#include "../gen.h"
static const double LIM = -(double)D10;
static void one(Ctx& c, const char* sig, const e_float& z, const R& want, const std::string& what)
{
  if(want.iszero()) { REQUIRE(z.iszero() && z.isfinite(), std::string(sig) + ":zero", what + " should be exactly zero, got " + show(z)); return; }
  check_rel(c, sig, toR(z), want, LIM, what);
}
TEST(A02_pairs, 60000, 1500000)
{
  GenOpt o = window(s); e_float x = gen_value(s, c, o), y; 
  switch(s.pick({5, 3, 1})) { case 0: y = gen_value(s, c, window(s)); break; case 1: y = gen_related(s, c, x); break; default: y = x; }
  const R a = toR(x), b = toR(y); c.note("x=" + show(x) + " y=" + show(y)); c.nontrivial = !a.iszero() && !b.iszero();
  one(c, "mul", x * y, a * b, "x*y"); e_float t(x); e_float& ref = (t *= y); REQUIRE(&ref == &t, "returns-self", "*= does not return its left operand"); one(c, "mul-assign", t, a * b, "x*=y");
  REQUIRE(x * y == y * x, "commutative", "x*y and y*x differ: " + show(x * y) + " vs " + show(y * x));
  REQUIRE((-x) * y == -(x * y) && x * (-y) == -(x * y) && (-x) * (-y) == x * y, "sign-rule", "the sign rule is violated");
  REQUIRE(toR(x) == a && toR(y) == b, "operand-changed", "an operand changed");
  t = x; t *= t; one(c, "square", t, a * a, "x*=x");
}
TEST(A02_exact, 30000, 600000)
{
  // integer products that fit the guaranteed digits are exact (carry chains, nines, powers of ten)
  int total = 2 + (int)s.draw(D10 - 2), n1 = 1 + (int)s.draw(total - 1), n2 = total - n1;
  auto mk = [&](int n) { std::string d; std::size_t k = s.pick({3, 2, 2, 2}); while((int)d.size() < n) { char b[24]; std::snprintf(b, sizeof b, "%018llu", (unsigned long long)s.draw(1000000000000000000ULL)); d += k == 1 ? std::string(18, '9') : b; } d.resize(n); if(k == 2) for(int i = 0; i < n; ++i) if(s.chance(2, 3)) d[i] = '0'; if(k == 3) for(int i = 0; i < n; ++i) if(s.chance(2, 3)) d[i] = '9'; if(d[0] == '0') d[0] = '1'; return d; };
  std::string p = mk(n1), q = mk(n2); e_float x(p), y(q); R a(p), b(q); c.note(p + " * " + q); c.nontrivial = total > 16;
  REQUIRE(toR(x) == a && toR(y) == b, "construct-exact", "an integer literal of at most digits10 digits was not stored exactly");
  R z = toR(x * y); REQUIRE(z == a * b, "mul-exact", "product " + z.str(D10 + 4) + " is not the exact integer " + (a * b).str(D10 + 4)); REQUIRE((x * y).isint(), "product-isint", "product of integers is not an integer");
}
TEST(A02_identities, 20000, 300000)
{
  e_float x = gen_value(s, c, window(s)); R a = toR(x); c.note("x=" + show(x)); c.nontrivial = !a.iszero();
  one(c, "times-one", x * e_float(1), a, "x*1"); one(c, "times-one", e_float(1) * x, a, "1*x"); if(!is_gmp) REQUIRE(x * e_float(1) == x && e_float(1) * x == x, "times-one", "multiplying by one changed the value"); REQUIRE((x * e_float(0)).iszero() && (e_float(0) * x).iszero(), "times-zero", "multiplying by zero"); one(c, "times-minus-one", x * e_float(-1), -a, "x*(-1)");
  long k = s.range(-300, 300); one(c, "times-pow10", x * e_float("1e" + std::to_string(k)), a * (is_efx ? R::pow10(k) : toR(e_float("1e" + std::to_string(k)))), "x*10^k");
}
TEST(A02_laws, 12000, 200000)
{
  GenOpt o = window(s); e_float x = gen_value(s, c, o), y = gen_value(s, c, o), z = gen_value(s, c, window(s)); c.note("x=" + show(x) + " y=" + show(y) + " z=" + show(z)); R a = toR(x), b = toR(y), d = toR(z); c.nontrivial = !(a * b * d).iszero();
  R s1 = r::abs(a * d) + r::abs(b * d); if(s1.iszero()) return;
  check_close(c, "distributive", toR((x + y) * z), a * d + b * d, s1, LIM + 0.7, "(x+y)*z"); check_close(c, "distributive", toR(x * z + y * z), a * d + b * d, s1, LIM + 0.7, "x*z+y*z");
  one(c, "assoc", e_float((x * y)), a * b, "x*y"); R p = a * b * d; if(!p.iszero()) { check_rel(c, "associative", toR((x * y) * z), p, LIM + 0.7, "(x*y)*z"); check_rel(c, "associative", toR(x * (y * z)), p, LIM + 0.7, "x*(y*z)"); }
}
TEST(A02_power_chain, 2000, 20000)
{
  GenOpt o; o.emin = -3; o.emax = 3; o.zero = false; e_float x = gen_value(s, c, o), p(1); R a = toR(x), e(1); int n = 3 + (int)s.draw(60); for(int i = 0; i < n; ++i) { p *= x; e *= a; } c.note("x=" + show(x) + " n=" + std::to_string(n)); c.nontrivial = true;
  check_rel(c, "chain", toR(p), e, LIM + std::log10(n + 1.0), "x^n by repeated multiplication");
}

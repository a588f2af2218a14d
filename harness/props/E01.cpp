// Roots.
#include "../gen.h"
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
static e_float positive(Src& s, Ctx& c)
{
  if(s.chance(1, 4))
  { // powers of small or long numbers and their neighbours
    c.label("perfect-power"); int p = 2 + (int)s.draw(6); GenOpt o; o.zero = false; o.neg = false; o.emin = -20; o.emax = 20; o.maxdig = D10 / p; R b = toR(gen_value(s, c, o)); R v = r::powi(b, p); long e; std::string d = v.digits(D10 + 16, e); if(s.chance(1, 3)) { std::size_t q = s.draw(d.size()); d[q] = d[q] == '9' ? '8' : d[q] + 1; } return e_float("0." + d + "e" + std::to_string(e));
  }
  GenOpt o = window(s, s.chance(1, 3)); o.zero = false; o.neg = false; return gen_value(s, c, o);
}
TEST(E01_sqrt, 30000, 500000)
{
  e_float x = positive(s, c); R v = toR(x); if(!v.isfinite() || v.iszero()) throw Discard(); c.note(show(x)); c.nontrivial = v != R(1); e_float y = ef::sqrt(x); R want = r::sqrt(v); check_rel(c, "sqrt", toR(y), want, LIM, "sqrt"); REQUIRE(!y.isneg(), "sqrt-sign", "sqrt is negative");
  e_float z(x); z.calculate_sqrt(); REQUIRE(toR(z) == toR(y), "calculate_sqrt", "calculate_sqrt and sqrt differ"); check_rel(c, "sqrt-square", toR(y * y), v, LIM + 0.5, "sqrt squared"); REQUIRE(toR(x) == v, "argument", "the argument was changed");
}
TEST(E01_rootn, 8000, 150000)
{
  e_float x = positive(s, c); R v = toR(x); if(!v.isfinite() || v.iszero()) throw Discard(); int p; switch(s.pick({4, 3, 2, 1})) { case 0: p = 1 + (int)s.draw(10); break; case 1: p = 1 + (int)s.draw(100); break; case 2: p = 1 + (int)s.draw(1000); break; default: p = 1 + (int)s.draw(5000); } bool inv = s.chance(1, 3), neg = s.chance(1, 4); c.note((inv ? "rootn_inverse " : "rootn ") + show(x) + " p=" + tos(neg ? -p : p)); c.nontrivial = p > 1 && v != R(1); c.label(p <= 10 ? "p<=10" : p <= 100 ? "p<=100" : "p>100");
  e_float y = inv ? ef::rootn_inverse(x, neg ? -p : p) : ef::rootn(x, neg ? -p : p); R want = r::rootn(v, (unsigned long)p); if(inv != neg) want = R(1) / want; check_rel(c, std::string(inv ? "rootn_inverse" : "rootn") + (neg ? "-neg" : ""), toR(y), want, LIM, inv ? "rootn_inverse" : "rootn"); 
  if(p == 3 && !inv && !neg) REQUIRE(toR(ef::cbrt(x)) == toR(y), "cbrt", "cbrt and rootn(3) differ");
}
TEST(E01_cbrt, 8000, 100000)
{ e_float x = positive(s, c); R v = toR(x); if(!v.isfinite() || v.iszero()) throw Discard(); c.note(show(x)); c.nontrivial = v != R(1); e_float y = ef::cbrt(x); check_rel(c, "cbrt", toR(y), r::cbrt(v), LIM, "cbrt"); }
TEST(E01_domain, 2000, 20000)
{
  GenOpt o = window(s); o.zero = false; o.neg = false; e_float x = gen_value(s, c, o); if(x.iszero() || !x.isfinite()) throw Discard(); c.note(show(x)); c.nontrivial = true; { typedef std::numeric_limits<e_float> M; const int q = (int)s.range(-50, 50); REQUIRE(ef::rootn(M::quiet_NaN(), q).isnan() && ef::rootn_inverse(M::quiet_NaN(), q).isnan() && ef::cbrt(M::quiet_NaN()).isnan() && ef::sqrt(M::quiet_NaN()).isnan(), "root-nan", "a root of NaN is not NaN"); REQUIRE(ef::rootn(x, 0).isnan() && ef::rootn_inverse(x, 0).isnan(), "root-order-zero", "the root of order zero is not NaN"); } REQUIRE(ef::sqrt(-x).isnan(), "sqrt-negative", "sqrt of a negative value is " + show(ef::sqrt(-x))); REQUIRE(ef::sqrt(e_float()).iszero(), "sqrt-zero", "sqrt(0) is not 0"); { int q = 2 + (int)s.draw(200); REQUIRE(ef::cbrt(e_float()).iszero() && ef::rootn(e_float(), q).iszero() && ef::rootn(e_float(), 1).iszero(), "rootn-zero", "a root of zero is not zero"); REQUIRE(ef::rootn_inverse(e_float(), q).isinf() && ef::rootn(e_float(), -q).isinf(), "rootn-inverse-zero", "an inverse root of zero is not infinite"); } REQUIRE(ef::sqrt(L::quiet_NaN()).isnan(), "sqrt-nan", "sqrt(NaN)"); REQUIRE(ef::rootn(-x, 4).isnan() && ef::rootn(x, 0).isnan(), "rootn-domain", "rootn outside its domain is not NaN"); REQUIRE(ef::rootn(L::quiet_NaN(), 5).isnan(), "rootn-nan", "rootn(NaN)"); REQUIRE(toR(ef::sqrt(e_float(1))) == R(1), "sqrt-one", "sqrt(1) is not 1");
}

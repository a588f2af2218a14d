// Ordering, equality, sign and classification predicates.
#include "../gen.h"
#include <algorithm>
#include <limits>
typedef std::numeric_limits<e_float> L;
static std::string b2s(bool b) { return b ? "true" : "false"; }
// all twelve relations between two operands against the exact order o = -1, 0, 1
template<class A, class B> static void rel(const std::string& sig, const A& x, const B& y, int o, const std::string& what)
{
  REQUIRE((x < y) == (o < 0), sig + ":lt", what + ": x < y gave " + b2s(x < y)); REQUIRE((x > y) == (o > 0), sig + ":gt", what + ": x > y gave " + b2s(x > y));
  REQUIRE((x <= y) == (o <= 0), sig + ":le", what + ": x <= y gave " + b2s(x <= y)); REQUIRE((x >= y) == (o >= 0), sig + ":ge", what + ": x >= y gave " + b2s(x >= y));
  REQUIRE((x == y) == (o == 0), sig + ":eq", what + ": x == y gave " + b2s(x == y)); REQUIRE((x != y) == (o != 0), sig + ":ne", what + ": x != y gave " + b2s(x != y));
  REQUIRE((y > x) == (o < 0) && (y < x) == (o > 0) && (y >= x) == (o <= 0) && (y <= x) == (o >= 0) && (y == x) == (o == 0) && (y != x) == (o != 0), sig + ":mirrored", what + ": a relation with the operands exchanged is wrong");
}
static e_float special(Src& s, Ctx& c) { switch(s.draw(3)) { case 0: c.label("inf"); return L::infinity(); case 1: c.label("-inf"); return -L::infinity(); default: c.label("zero"); return e_float(); } }
TEST(O01_order, 60000, 1500000)
{
  GenOpt o = window(s, true); e_float x = s.chance(1, 20) ? special(s, c) : gen_value(s, c, o); e_float y;
  switch(s.pick({5, 2, 1})) { case 0: y = x.isfinite() ? gen_related(s, c, x) : special(s, c); break; case 1: y = gen_value(s, c, o); break; default: y = special(s, c); }
  if(s.chance(1, 6)) { // the same value reached along another path
    e_float t(y); t += x; t -= x; if(t.isfinite()) { y = t; c.label("recomputed"); } }
  R a = toR(x), b = toR(y); int ord = rcmp(a, b); c.note("x=" + show(x) + " y=" + show(y)); c.nontrivial = true; c.label(ord ? (a.isinf() || b.isinf() ? "cmp:inf" : "cmp:unequal") : "cmp:equal");
  rel("order", x, y, ord, "exact order is " + tos(ord));
  int k = x.cmp(y); REQUIRE((k > 0) - (k < 0) == ord, "cmp", "cmp gave " + tos(k)); k = x.compare(y); REQUIRE((k > 0) - (k < 0) == ord, "compare", "compare gave " + tos(k));
  rel("reflexive", x, x, 0, "x with itself"); e_float xc(x); rel("copy", x, xc, 0, "x with its copy");
  if(x.isfinite() && y.isfinite() && !a.iszero() && !b.iszero()) { R d = a - b; if(!d.iszero() && d.log10abs() - r::max(r::abs(a), r::abs(b)).log10abs() > -(double)D10 + 1) REQUIRE(((x - y).isneg()) == (ord < 0) && !(x - y).iszero(), "order-vs-difference", "the sign of x-y contradicts the order"); }
  e_float mx = (std::max)(x, y), mn = (std::min)(x, y); REQUIRE(toR(mx) == r::max(a, b) && toR(mn) == r::min(a, b), "minmax", "std::min/std::max disagree with the exact order");
}
TEST(O01_builtin, 40000, 800000)
{
  // relations with built-in operands
  std::size_t k = s.draw(9); e_float x; auto near = [&](const R& v) { GenOpt o; o.emin = -30; o.emax = 30; if(s.chance(1, 3)) return gen_value(s, c, o); e_float t(v.iszero() ? std::string("0") : [&]{ long e; std::string d = v.digits(60, e); return std::string(v.sgn() < 0 ? "-" : "") + "0." + d + "e" + std::to_string(e); }()); if(s.chance(1, 2)) t = gen_related(s, c, t); return t; };
  auto go = [&](const char* ty, auto v, const R& b) { R b0 = b; if(std::is_floating_point<decltype(v)>::value && R(b.str(D10)) != b) b0 = toR(e_float(v)); // more digits than the type holds: compared as converted
    x = near(b); R a = toR(x); c.note("x=" + show(x) + " n=(" + ty + ")" + b.str(40)); c.label(ty); c.nontrivial = !b.iszero(); rel(std::string("builtin:") + ty, x, v, rcmp(a, b0), "exact order is " + tos(rcmp(a, b0))); };
  switch(k)
  {
    case 0: { int v = (int)gen_i64(s); go("int", v, R(v)); break; } case 1: { unsigned v = (unsigned)gen_u64(s); go("unsigned", v, R((unsigned long)v)); break; }
    case 2: { long v = (long)gen_i64(s); go("long", v, R(v)); break; } case 3: { unsigned long v = (unsigned long)gen_u64(s); go("unsigned long", v, R(v)); break; }
    case 4: { long long v = gen_i64(s); go("long long", v, R(v)); break; } case 5: { unsigned long long v = gen_u64(s); go("unsigned long long", v, R(v)); break; }
    case 6: { double v = std::ldexp((double)(long)gen_i64(s), (int)s.range(-60, 60)); go("double", v, R(v)); break; } case 7: { float v = (float)std::ldexp((double)(int)gen_i64(s), (int)s.range(-30, 30)); go("float", v, R((double)v)); break; }
    default: { short v = (short)gen_i64(s); go("short", v, R((int)v)); break; }
  }
}
TEST(O01_nan, 4000, 40000)
{
  GenOpt o = window(s, true); e_float n = L::quiet_NaN(); if(s.chance(1, 2)) n = L::infinity() - L::infinity(); if(s.chance(1, 2)) n = -n; e_float y = s.chance(1, 3) ? special(s, c) : s.chance(1, 4) ? e_float(L::quiet_NaN()) : gen_value(s, c, o); c.note("nan , " + show(y)); c.nontrivial = true;
  REQUIRE(!(n == y) && !(y == n) && (n != y) && (y != n) && !(n == n) && n != n, "nan-equal", "NaN compares equal to something");
  REQUIRE(n.isnan() && !n.isfinite() && !n.isinf() && ef::isnan(n) && !ef::isfinite(n) && !n.iszero() && !n.isone() && !n.isint(), "nan-class", "classification of NaN");
}
TEST(O01_predicates, 40000, 800000)
{
  GenOpt o = window(s, true); e_float x;
  switch(s.pick({5, 3, 3, 1}))
  {
    case 0: x = gen_value(s, c, o); break;
    case 1: { // integers and near-integers of every size
      long n = 1 + (long)s.draw(D10 + 8); std::string d; for(long i = 0; i < n; ++i) d += (char)('0' + s.draw(10)); if(d[0] == '0') d[0] = '1'; if(s.chance(1, 2)) { long z = (long)s.draw(D10); d += "." + std::string(z, '0') + (s.chance(1, 2) ? "1" : "0"); c.label("near-int"); } else c.label("int"); x = e_float(d); if(s.chance(1, 2)) x = -x; break; }
    case 2: { x = gen_related(s, c, e_float((int)s.range(-3, 3))); break; }
    default: x = special(s, c);
  }
  if(s.chance(1, 5)) { e_float y = gen_value(s, c, o); e_float t = (x + y) - y; if(t.isfinite()) { x = t; c.label("recomputed"); } }
  R a = toR(x); c.note("x=" + show(x)); c.nontrivial = !a.iszero(); const bool fin = !a.isinf();
  REQUIRE(x.isfinite() == fin && x.isinf() == !fin && !x.isnan() && ef::isfinite(x) == fin && !ef::isnan(x), "class", "classification of " + show(x));
  REQUIRE(x.iszero() == (fin && a.iszero()) && ef::iszero(x) == x.iszero(), "iszero", "iszero gave " + b2s(x.iszero()));
  const bool about_one = fin && a != R(1) && r::abs(a - R(1)) < R::pow10(-D10 - 5); // isone() may take all nines for one
  REQUIRE((about_one || x.isone() == (fin && a == R(1))) && ef::isone(x) == x.isone(), "isone", "isone gave " + b2s(x.isone()));
  REQUIRE(x.isint() == (fin && a.isint()) && ef::isint(x) == x.isint(), "isint", "isint gave " + b2s(x.isint()));
  REQUIRE(x.isneg() == (a.sgn() < 0) && ef::isneg(x) == x.isneg() && x.ispos() == !x.isneg() && ef::ispos(x) == !ef::isneg(x), "isneg", "isneg gave " + b2s(x.isneg()));
  REQUIRE(ef::sgn(x) == a.sgn(), "sgn", "sgn gave " + tos(ef::sgn(x))); REQUIRE(toR(ef::fabs(x)) == r::abs(a) && toR(ef::abs(x)) == r::abs(a) && !ef::fabs(x).isneg(), "fabs", "fabs gave " + show(ef::fabs(x)));
  REQUIRE(toR(-x) == -a && toR(-(-x)) == a && toR(+x) == a && (a.iszero() || (-x).isneg() != x.isneg()), "negate", "negation of x"); e_float y(x); y.negate(); REQUIRE(toR(y) == -a && toR(ef::real(x)) == a && ef::imag(x).iszero(), "negate-in-place", "negate() gave " + show(y));
  if(fin && !a.iszero()) { long e; a.digits(D10 + 60, e, true); std::int64_t od = x.order(); REQUIRE(od == ef::order_of(x) && (od >= e - 2 && od <= e), "order", "decimal order gave " + tos(od) + ", expected " + tos(e - 1) + " within 1"); }
  if(fin) { R f = r::abs(a - r::floor(a)), g = r::abs(r::ceil(a) - a), d = r::min(f, g); if(d.iszero()) REQUIRE(ef::near_int(x), "near_int", "an integer is not near_int"); else if(d.log10abs() > -5) REQUIRE(!ef::near_int(x), "near_int", "near_int is true at distance " + d.str(5)); }
}

// Complex arithmetic, comparison and value operations; the built-in specializations.
#include "../zgen.h"
#include <limits>
#include <boost/multiprecision/cpp_bin_float.hpp>
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<30>, boost::multiprecision::et_off> W30; // a type without a specialization: uses the generic template
static const double LIM = -(double)D10;
static GenOpt zo(Src& s, bool zero = true) { GenOpt o; if(s.chance(1, 4)) { o.emin = -800; o.emax = 800; } else if(s.chance(1, 2)) { o.emin = -3; o.emax = 3; } o.zero = zero; return o; }
static bool zz(const Z& z) { return z.real().iszero() && z.imag().iszero(); }
static R mag(const C& a) { return r::abs(a); }
static void check_parts(Ctx& c, const std::string& sig, const Z& g, const C& want, const C& u, const C& v)
{ // sums: each part is a real sum
  check_close(c, sig, toR(g.real()), want.re, r::abs(u.re) + r::abs(v.re) + R::pow10(-4000), LIM, sig + " real part"); check_close(c, sig, toR(g.imag()), want.im, r::abs(u.im) + r::abs(v.im) + R::pow10(-4000), LIM, sig + " imaginary part");
}
static void same_z(const std::string& sig, const Z& a, const Z& b, const std::string& what) { REQUIRE(same(toR(a.real()), toR(b.real())) && same(toR(a.imag()), toR(b.imag())), sig, what + ": " + show(a) + " against " + show(b)); }
TEST(X01_arith, 6000, 60000)
{
  GenOpt o = zo(s); Z u = gen_z(s, c, o), v = gen_z(s, c, s.chance(1, 2) ? o : zo(s)); int op = (int)s.draw(4); if(op == 3 && zz(v)) throw Discard(); c.note(show(u) + " " + "+-*/"[op] + " " + show(v)); c.nontrivial = !zz(u) && !zz(v);
  C cu = toC(u), cv = toC(v); Z g, h(u); C want;
  switch(op) { case 0: g = u + v; h += v; want = cu + cv; break; case 1: g = u - v; h -= v; want = cu - cv; break; case 2: g = u * v; h *= v; want = cu * cv; break; default: g = u / v; h /= v; want = cu / cv; break; }
  if(op < 2) check_parts(c, op ? "sub" : "add", g, want, cu, cv); else check_z(c, op == 2 ? "mul" : "div", g, want, op == 2 ? mag(cu) * mag(cv) + R::pow10(-4000) : mag(cu) / mag(cv) + R::pow10(-4000), LIM, op == 2 ? "product" : "quotient");
  same_z("compound", g, h, "binary and compound operator differ"); REQUIRE(toC(u).re == cu.re && toC(v).im == cv.im, "operand-changed", "an operand changed");
}
TEST(X01_alias, 800, 8000)
{
  Z u = gen_z(s, c, zo(s, false)); int op = (int)s.draw(4); c.note(show(u) + " " + "+-*/"[op] + "= itself"); c.nontrivial = true; C cu = toC(u); Z g(u);
  switch(op) { case 0: g += g; check_zr(c, "alias-add", g, cu + cu, LIM, "z += z"); break; case 1: g -= g; REQUIRE(zz(g), "alias-sub", "z -= z gave " + show(g)); break; case 2: g *= g; check_z(c, "alias-mul", g, cu * cu, mag(cu) * mag(cu), LIM, "z *= z"); break; default: g /= g; check_z(c, "alias-div", g, C(R(1)), R(1), LIM, "z /= z"); break; }
  Z k(u); k = k; same_z("self-assign", k, u, "self assignment changed the value"); Z p(u); e_float re = p.real(); p *= re; check_z(c, "part-alias", p, C(cu.re * cu.re, cu.im * cu.re), mag(cu) * r::abs(cu.re) + R::pow10(-4000), LIM, "z *= re z");
}
TEST(X01_scalar, 3000, 30000)
{
  GenOpt o = zo(s); Z u = gen_z(s, c, o); e_float x = gen_value(s, c, o); int op = (int)s.draw(8); if((op == 3 && x.iszero()) || (op == 7 && zz(u))) throw Discard(); c.note("op " + tos(op) + " " + show(u) + " with " + show(x)); c.nontrivial = !zz(u) && !x.iszero(); C cu = toC(u), cx(toR(x)); Z g, h(u); R tiny = R::pow10(-4000);
  switch(op)
  {
    case 0: g = u + x; h += x; check_parts(c, "z+x", g, cu + cx, cu, cx); same_z("compound-x", g, h, "z + x and z += x"); break;
    case 1: g = u - x; h -= x; check_parts(c, "z-x", g, cu - cx, cu, cx); same_z("compound-x", g, h, "z - x and z -= x"); break;
    case 2: g = u * x; h *= x; check_z(c, "z*x", g, cu * cx, mag(cu) * mag(cx) + tiny, LIM, "z * x"); same_z("compound-x", g, h, "z * x and z *= x"); break;
    case 3: g = u / x; h /= x; check_z(c, "z/x", g, cu / cx, mag(cu) / mag(cx) + tiny, LIM, "z / x"); same_z("compound-x", g, h, "z / x and z /= x"); break;
    case 4: g = x + u; check_parts(c, "x+z", g, cu + cx, cu, cx); break;
    case 5: g = x - u; check_parts(c, "x-z", g, cx - cu, cu, cx); break;
    case 6: g = x * u; check_z(c, "x*z", g, cu * cx, mag(cu) * mag(cx) + tiny, LIM, "x * z"); break;
    default: g = x / u; check_z(c, "x/z", g, cx / cu, mag(cx) / mag(cu) + tiny, LIM, "x / z"); break;
  }
  Z a; a = x; REQUIRE(a.real() == x && a.imag().iszero(), "assign-real", "assignment of a real value gave " + show(a)); if(s.chance(1, 4)) { Z b(u); b.real(x); REQUIRE(b.real() == x && same(toR(b.imag()), cu.im), "set-real", "setting the real part gave " + show(b)); Z d(u); d.imag(x); REQUIRE(d.imag() == x && same(toR(d.real()), cu.re), "set-imag", "setting the imaginary part gave " + show(d)); }
}
template<class I> static void integer_ops(Src& s, Ctx& c, I n, const R& rn, const char* name)
{
  Z u = gen_z(s, c, zo(s)); int op = (int)s.draw(4); if(op == 3 && n == 0) throw Discard(); C cu = toC(u), cn(rn); c.note(std::string(name) + " " + rn.str(20) + " op " + tos(op) + " " + show(u)); c.nontrivial = n != 0 && !zz(u); Z h(u); R tiny = R::pow10(-4000); std::string t = std::string("int-") + name;
  switch(op) { case 0: h += n; check_parts(c, t + "+", h, cu + cn, cu, cn); break; case 1: h -= n; check_parts(c, t + "-", h, cu - cn, cu, cn); break; case 2: h *= n; check_z(c, t + "*", h, cu * cn, mag(cu) * mag(cn) + tiny, LIM, "z *= n"); break; default: h /= n; check_z(c, t + "/", h, cu / cn, mag(cu) / mag(cn) + tiny, LIM, "z /= n"); break; }
  Z k(n); REQUIRE(toR(k.real()) == rn && k.imag().iszero(), "construct-int", "construction from an integer gave " + show(k));
}
TEST(X01_integer, 2500, 25000)
{
  switch(s.draw(6)) { case 0: { int n = (int)gen_i64(s); integer_ops(s, c, n, R((long)n), "int"); } break; case 1: { unsigned n = (unsigned)gen_u64(s); integer_ops(s, c, n, R((unsigned long)n), "unsigned"); } break; case 2: { long long n = gen_i64(s); integer_ops(s, c, n, R(n), "int64"); } break; case 3: { unsigned long long n = gen_u64(s); integer_ops(s, c, n, R(n), "uint64"); } break; case 4: { short n = (short)gen_i64(s); integer_ops(s, c, n, R((long)n), "short"); } break; default: { unsigned char n = (unsigned char)gen_u64(s); integer_ops(s, c, n, R((long)n), "uchar"); } break; }
}
TEST(X01_construct, 400, 4000)
{ double d = gen_double(s); c.note("double " + R(d).str(20)); c.nontrivial = d != 0; Z z(d); REQUIRE(toR(z.real()) == toR(e_float(d)) && z.imag().iszero(), "construct-double", "construction from double gave " + show(z)); Z w; REQUIRE(zz(w), "default", "default construction gave " + show(w)); e_float x = gen_value(s, c), y = gen_value(s, c); Z v(x, y); Z t(v); REQUIRE(t.real() == x && t.imag() == y, "copy", "copy differs"); t = w; REQUIRE(zz(t) && v.real() == x, "assign", "assignment is wrong"); }
TEST(X01_equality, 2000, 20000)
{
  Z u = gen_z(s, c, zo(s)); Z v = u; bool er = true, ei = true; if(s.chance(1, 2)) { e_float t = gen_related(s, c, u.real()); er = toR(t) == toR(u.real()); v.real(t); } if(s.chance(1, 2)) { e_float t = gen_related(s, c, u.imag()); ei = toR(t) == toR(u.imag()); v.imag(t); }
  // representations beyond the comparison precision may compare equal: use the scalar comparison as the reference
  er = u.real() == v.real(); ei = u.imag() == v.imag(); bool eq = er && ei; c.note(show(u) + " ? " + show(v)); c.nontrivial = !(er && ei); REQUIRE((u == v) == eq && (u != v) == !eq && (v == u) == eq, "eq", "equality of complex values is wrong");
  e_float x = s.chance(1, 2) ? u.real() : gen_value(s, c); bool ex = u.real() == x && u.imag().iszero(); REQUIRE((u == x) == ex && (x == u) == ex && (u != x) == !ex && (x != u) == !ex, "eq-real", "equality with a real value is wrong");
}
TEST(X01_values, 3000, 30000)
{
  Z u = gen_z(s, c, zo(s)); C cu = toC(u); c.note(show(u)); c.nontrivial = !zz(u); using namespace ef; REQUIRE(toR(real(u)) == cu.re && toR(imag(u)) == cu.im, "parts", "real or imag differ");
  Z m = -u, p = +u; REQUIRE(toR(m.real()) == -cu.re && toR(m.imag()) == -cu.im && toR(p.real()) == cu.re && toR(p.imag()) == cu.im, "sign", "unary plus or minus is wrong: " + show(m));
  Z k = conj(u); REQUIRE(toR(k.real()) == cu.re && toR(k.imag()) == -cu.im, "conj", "conj of " + show(u) + " is " + show(k)); if(zz(u)) { REQUIRE(ef::abs(u).iszero() && norm(u).iszero(), "zero", "abs or norm of zero is not zero"); return; }
  check_rel(c, "norm", toR(norm(u)), r::norm(cu), LIM, "norm"); check_rel(c, "abs", toR(ef::abs(u)), r::abs(cu), LIM, "abs"); R a = r::arg(cu); if(a.iszero()) REQUIRE(ef::arg(u).iszero(), "arg-zero", "arg of a positive real is not zero"); else check_rel(c, "arg", toR(ef::arg(u)), a, LIM, "arg");
}
TEST(X01_polar, 1000, 10000)
{ GenOpt o = zo(s); o.neg = false; e_float rho = gen_value(s, c, o), th = gen_in(s, c, -7, 7); c.note("polar(" + show(rho) + "," + show(th) + ")"); c.nontrivial = !rho.iszero() && !th.iszero(); R rr = toR(rho), t = toR(th); check_z(c, "polar", ef::polar(rho, th), C(rr * r::cos(t), rr * r::sin(t)), rr + R::pow10(-4000), LIM, "polar"); }
TEST(X01_identities, 1200, 12000)
{
  GenOpt o = zo(s, false); Z u = gen_z(s, c, o), v = gen_z(s, c, o), w = gen_z(s, c, o); c.note(show(u) + " " + show(v) + " " + show(w)); c.nontrivial = true; R mu = mag(toC(u)), mv = mag(toC(v)), mw = mag(toC(w));
  check_z(c, "distributive", u * (v + w), toC(u * v + u * w), mu * (mv + mw), LIM + 1, "u(v+w)"); check_z(c, "associative", (u * v) * w, toC(u * (v * w)), mu * mv * mw, LIM + 1, "(uv)w"); check_z(c, "inverse", (u / v) * v, toC(u), mu, LIM + 1, "(u/v)v"); check_z(c, "z conj z", u * ef::conj(u), C(toR(ef::norm(u))), mu * mu, LIM + 1, "z conj(z)"); check_rel(c, "abs-product", toR(ef::abs(u * v)), toR(ef::abs(u) * ef::abs(v)), LIM + 1, "|uv|");
}
// the specializations for built-in types: the same laws at their precision
template<class T> static T small_val(Src& s) { double d = (double)s.range(-1000, 1000) / (double)(1 << s.draw(6)); if(s.chance(1, 3)) d += (double)s.draw(1u << 20) / (double)(1u << 22); return (T)d; }
template<class T> static void builtin(Src& s, Ctx& c, const char* name)
{
  typedef ef::complex<T> Q; Q u(small_val<T>(s), small_val<T>(s)), v(small_val<T>(s), small_val<T>(s)); int op = (int)s.draw(6); auto cc = [](const Q& q) { return C(R((long double)q.real()), R((long double)q.imag())); }; C cu = cc(u), cv = cc(v); c.note(std::string(name) + " op " + tos(op) + " " + show(cu) + " " + show(cv)); c.nontrivial = !(u == Q()) && !(v == Q()); if(op == 3 && v == Q(T(0))) throw Discard(); double lg = std::log10((double)std::numeric_limits<T>::epsilon()) + 1.0; Q g, h(u); C want; R sc;
  switch(op) { case 0: g = u + v; h += v; want = cu + cv; sc = mag(cu) + mag(cv); break; case 1: g = u - v; h -= v; want = cu - cv; sc = mag(cu) + mag(cv); break; case 2: g = u * v; h *= v; want = cu * cv; sc = mag(cu) * mag(cv); break; case 3: g = u / v; h /= v; want = cu / cv; sc = mag(cu) / mag(cv); break; case 4: { T x = v.real(); g = u * x; h *= x; want = cu * C(cv.re); sc = mag(cu) * r::abs(cv.re); } break; default: { T x = v.real(); g = u + x; h += x; want = cu + C(cv.re); sc = mag(cu) + r::abs(cv.re); } break; }
  for(const Q& q : {g, h}) { double e = zerr(cc(q), want, sc + R::pow10(-300)); REQUIRE(e <= lg, std::string("builtin-") + name, "complex<" + std::string(name) + "> gave " + show(cc(q)) + ", expected " + show(want)); }
  { Q t(u); t *= t; double e = zerr(cc(t), cu * cu, mag(cu) * mag(cu) + R::pow10(-300)); REQUIRE(e <= lg, std::string("builtin-alias-") + name, "z *= z gave " + show(cc(t))); if(!(u == Q(T(0)))) { t = u; t /= t; e = zerr(cc(t), C(R(1)), R(1)); REQUIRE(e <= lg, std::string("builtin-alias-") + name, "z /= z gave " + show(cc(t))); } t = u; t += t; REQUIRE(t.real() == u.real() * 2 && t.imag() == u.imag() * 2, std::string("builtin-alias-") + name, "z += z gave " + show(cc(t))); t -= t; REQUIRE(t == Q(T(0)), std::string("builtin-alias-") + name, "z -= z gave " + show(cc(t))); }
  REQUIRE(ef::norm(u) >= T(0) || u == Q(), "builtin-norm", "norm is negative"); Q k = ef::conj(u); REQUIRE(k.real() == u.real() && k.imag() == -u.imag(), "builtin-conj", "conj of " + show(cu) + " is " + show(cc(k))); if(!(u == Q())) { R a = R((long double)ef::abs(u)); double e = lgerr(a, mag(cu), mag(cu)); REQUIRE(e <= lg, "builtin-abs", "abs gave " + a.str()); }
}
TEST(X01_builtin, 2000, 20000) { switch(s.draw(3)) { case 0: builtin<double>(s, c, "double"); break; case 1: builtin<float>(s, c, "float"); break; default: builtin<long double>(s, c, "long double"); break; } }

// real operands, integer powers and conversions, for the built-in specializations and (through a type that has none) the generic template
static R rl(float x) { return R((long double)x); } static R rl(double x) { return R((long double)x); } static R rl(long double x) { return R(x); }
static R rl(const W30& x) { return R(x.str(45, std::ios_base::scientific)); }
template<class T> static void general(Src& s, Ctx& c, const char* name)
{
  typedef ef::complex<T> Q; Q u(small_val<T>(s), small_val<T>(s)), v(small_val<T>(s), small_val<T>(s)); T x = small_val<T>(s); if(s.chance(1, 5)) x = u.real(); if(s.chance(1, 6)) u.imag(T(0)); int op = (int)s.draw(14); int n = (int)s.range(-12, 40); double lg = std::log10((double)std::numeric_limits<T>::epsilon()) + 1.0;
  auto cc = [](const Q& q) { return C(rl(q.real()), rl(q.imag())); }; C cu = cc(u), cv = cc(v), cx(rl(x)); c.note(std::string(name) + " op " + tos(op) + " " + show(cu) + " " + show(cv) + " x=" + rl(x).str(12) + " n=" + tos(n)); c.nontrivial = !(u == Q()) && x != T(0); bool z0 = u.real() == T(0) && u.imag() == T(0), v0 = v.real() == T(0) && v.imag() == T(0);
  if((op == 3 && z0) || (op == 5 && x == T(0)) || (op == 9 && z0) || (op == 13 && v0)) throw Discard(); Q g, h; C want; R sc; bool two = false; std::string what;
  switch(op)
  {
    case 0: g = x + u; want = cx + cu; sc = mag(cx) + mag(cu); what = "x + z"; break;
    case 1: g = x - u; want = cx - cu; sc = mag(cx) + mag(cu); what = "x - z"; break;
    case 2: g = x * u; want = cx * cu; sc = mag(cx) * mag(cu); what = "x * z"; break;
    case 3: g = x / u; want = cx / cu; sc = mag(cx) / mag(cu); what = "x / z"; break;
    case 4: g = u - x; h = u; h -= x; two = true; want = cu - cx; sc = mag(cx) + mag(cu); what = "z - x"; break;
    case 5: g = u / x; h = u; h /= x; two = true; want = cu / cx; sc = mag(cu) / mag(cx); what = "z / x"; break;
    case 6: g = u; g = x; want = cx; sc = mag(cx); what = "z = x"; break;
    case 7: g = -u; h = +u; want = -cu; sc = mag(cu); what = "-z"; REQUIRE(h == u, std::string("general-") + name, "+z differs from z"); break;
    case 8: { bool e = u.real() == x && u.imag() == T(0); REQUIRE((u == x) == e && (x == u) == e && (u != x) == !e && (x != u) == !e, std::string("general-eq-") + name, "equality with a real value is wrong"); bool q = u.real() == v.real() && u.imag() == v.imag(); REQUIRE((u == v) == q && (u != v) == !q, std::string("general-eq-") + name, "equality is wrong"); } return;
    case 9: { what = "pow(z," + tos(n) + ")"; g = ef::pow(u, n); if(mag(cu) < R(1) / R(64L) || mag(cu) > R(40L)) throw Discard(); want = C(R(1)); for(int i = 0; i < std::abs(n); ++i) want = want * cu; if(n < 0) want = C(R(1)) / want; sc = mag(want); lg += 1; if(std::is_same<T, float>::value && (sc > R::pow10(18) || sc < R::pow10(-18))) throw Discard(); } break;
    case 10: { Q t = u; t.real(x); REQUIRE(t.real() == x && t.imag() == u.imag(), std::string("general-set-") + name, "real(x) is wrong"); t = u; t.imag(x); REQUIRE(t.imag() == x && t.real() == u.real(), std::string("general-set-") + name, "imag(x) is wrong"); REQUIRE(ef::real(u) == u.real() && ef::imag(u) == u.imag(), std::string("general-set-") + name, "real or imag is wrong"); Q d(x); REQUIRE(d.real() == x && d.imag() == T(0), std::string("general-set-") + name, "construction from a real value is wrong"); Q e(u); REQUIRE(e == u, std::string("general-set-") + name, "copy differs"); } return;
    case 11: g = u * v; h = u; h *= v; two = true; want = cu * cv; sc = mag(cu) * mag(cv); what = "u * v"; break;
    case 12: g = u - v; h = u; h -= v; two = true; want = cu - cv; sc = mag(cu) + mag(cv); what = "u - v"; break;
    default: g = u / v; h = u; h /= v; two = true; want = cu / cv; sc = mag(cu) / mag(cv); what = "u / v"; break;
  }
  sc = sc + R::pow10(-300); double e = zerr(cc(g), want, sc); c.margin(std::string("general-") + name, e - lg); REQUIRE(e <= lg, std::string("general-") + name, what + " gave " + show(cc(g)) + ", expected " + show(want)); if(two) { e = zerr(cc(h), want, sc); REQUIRE(e <= lg, std::string("general-compound-") + name, what + " by the compound operator gave " + show(cc(h)) + ", expected " + show(want)); }
  if(op == 11 || op == 12 || op == 13) { Q t = u; t *= t; e = zerr(cc(t), cu * cu, mag(cu) * mag(cu) + R::pow10(-300)); REQUIRE(e <= lg, std::string("general-alias-") + name, "z *= z gave " + show(cc(t))); if(!z0) { t = u; t /= t; e = zerr(cc(t), C(R(1)), R(1)); REQUIRE(e <= lg, std::string("general-alias-") + name, "z /= z gave " + show(cc(t))); } t = u; t += t; REQUIRE(t.real() == u.real() * 2 && t.imag() == u.imag() * 2, std::string("general-alias-") + name, "z += z gave " + show(cc(t))); t -= t; REQUIRE(t == Q(T(0)), std::string("general-alias-") + name, "z -= z gave " + show(cc(t))); }
  if(op == 3 || op == 0) { REQUIRE(ef::norm(u) >= T(0), std::string("general-norm-") + name, "negative norm"); e = lgerr(rl(ef::norm(u)), r::norm(cu), r::norm(cu) + R::pow10(-300)); REQUIRE(e <= lg, std::string("general-norm-") + name, "norm is wrong"); e = lgerr(rl(ef::abs(u)), mag(cu), mag(cu) + R::pow10(-300)); REQUIRE(e <= lg, std::string("general-abs-") + name, "abs is wrong"); REQUIRE(ef::conj(u).real() == u.real() && ef::conj(u).imag() == -u.imag(), std::string("general-conj-") + name, "conj is wrong"); }
}
TEST(X01_general, 4000, 40000) { switch(s.draw(4)) { case 0: general<double>(s, c, "double"); break; case 1: general<float>(s, c, "float"); break; case 2: general<long double>(s, c, "long double"); break; default: general<W30>(s, c, "generic"); break; } }
TEST(X01_convert, 600, 6000)
{
  double a = gen_double(s), b = gen_double(s); c.note(R(a).str(20) + "," + R(b).str(20)); c.nontrivial = a != 0 && b != 0; if(std::fabs(a) > 1e37 || std::fabs(b) > 1e37) throw Discard(); ef::complex<double> d(a, b); ef::complex<float> f(d); REQUIRE(f.real() == (float)a && f.imag() == (float)b, "convert", "complex<double> to complex<float> is wrong"); ef::complex<long double> l(d); REQUIRE(l.real() == a && l.imag() == b, "convert", "complex<double> to complex<long double> is wrong");
  ef::complex<double> d2(l), d3(f); ef::complex<float> f2(l); ef::complex<long double> l2(f); REQUIRE(d2 == d && d3.real() == (double)(float)a && d3.imag() == (double)(float)b && f2 == f && l2.real() == (float)a && l2.imag() == (float)b, "convert", "a conversion between built-in complex types is wrong"); ef::complex<W30> w(d); REQUIRE(w.real() == W30(a) && w.imag() == W30(b), "convert", "conversion to the generic template is wrong");
}

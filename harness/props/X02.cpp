// Complex elementary functions.
#include "../zgen.h"
#include <limits>
static const double LIM = -(double)D10;
static GenOpt zo(Src& s, long wide, bool zero = true) { GenOpt o; if(s.chance(1, 4)) { o.emin = -wide; o.emax = wide; } else { o.emin = -3; o.emax = 2; } o.zero = zero; return o; }
static bool zz(const Z& z) { return z.real().iszero() && z.imag().iszero(); }
static R mag(const C& a) { return r::abs(a); }
// the natural scale of functions that vanish: relative to the result, but next to a zero other than the origin relative to the argument reduction
static R zs(const C& w, const C& z) { return r::max(mag(w), r::min(R(1), mag(z))); }
static R one_or(const C& w) { return r::max(R(1), mag(w)); }
static bool small_im(const R& x) { return r::abs(x) <= R(10000); }
// arguments for exp and the circular and hyperbolic functions: both parts of moderate size
static e_float part(Src& s, Ctx& c, bool circ)
{
  switch(s.pick({4, 3, 2, 2}))
  {
    case 0: return gen_in(s, c, -8, 8);
    case 1: { GenOpt o; o.emin = -40; o.emax = 2; return gen_value(s, c, o); }
    case 2: { R k = (circ ? r::pi() / R(4) : r::ln2()) * R((long)s.range(-40, 40)); R d = R((long)s.draw(1000)) * R::pow10(-(long)s.range(3, 60)); return e_float((s.chance(1, 2) ? k + d : k - d).str(D10 + 10)); }
    default: return e_float((long long)s.range(-300, 300));
  }
}
static Z gen_p(Src& s, Ctx& c, bool circ_re)
{
  switch(s.pick({6, 1, 1}))
  { case 0: return Z(part(s, c, circ_re), part(s, c, !circ_re)); case 1: c.label("z:real"); return Z(part(s, c, circ_re)); default: c.label("z:imag"); return Z(e_float(0), part(s, c, !circ_re)); }
}
TEST(X02_exp, 1200, 12000)
{
  Z z = gen_p(s, c, false); C cz = toC(z); c.note("exp" + show(z)); c.nontrivial = !zz(z); check_zr(c, "exp", ef::exp(z), r::exp(cz), LIM, "exp" + show(z));
  Z w = gen_p(s, c, false); Z p = ef::exp(z) * ef::exp(w), q = ef::exp(z + w); C cq = toC(q); check_zr(c, "exp-law", p, cq, LIM + 3, "exp(z) exp(w) against exp(z+w)");
}
TEST(X02_circular, 1600, 16000)
{
  Z z = gen_p(s, c, true); C cz = toC(z); int f = (int)s.draw(3); c.note(std::string(f == 0 ? "sin" : f == 1 ? "cos" : "tan") + show(z)); c.nontrivial = !z.real().iszero() && !z.imag().iszero();
  if(f == 0) check_z(c, "sin", ef::sin(z), r::sin(cz), zs(r::sin(cz), cz), LIM, "sin" + show(z)); else if(f == 1) check_z(c, "cos", ef::cos(z), r::cos(cz), one_or(r::cos(cz)), LIM, "cos" + show(z));
  else { R m = mag(r::cos(cz)); if(m.iszero()) throw Discard(); C w = r::tan(cz); if(m < R::pow10(-30)) { c.label("at-pole"); return; } check_z(c, "tan", ef::tan(z), w, zs(w, cz) * one_or(w), LIM, "tan" + show(z)); }
}
TEST(X02_hyperbolic, 1600, 16000)
{
  Z z = gen_p(s, c, false); C cz = toC(z); int f = (int)s.draw(3); c.note(std::string(f == 0 ? "sinh" : f == 1 ? "cosh" : "tanh") + show(z)); c.nontrivial = !z.real().iszero() && !z.imag().iszero();
  if(f == 0) check_z(c, "sinh", ef::sinh(z), r::sinh(cz), zs(r::sinh(cz), cz), LIM, "sinh" + show(z)); else if(f == 1) check_z(c, "cosh", ef::cosh(z), r::cosh(cz), one_or(r::cosh(cz)), LIM, "cosh" + show(z));
  else { R m = mag(r::cosh(cz)); if(m.iszero()) throw Discard(); C w = r::tanh(cz); if(m < R::pow10(-30)) { c.label("at-pole"); return; } check_z(c, "tanh", ef::tanh(z), w, zs(w, cz) * one_or(w), LIM, "tanh" + show(z)); }
}
TEST(X02_log, 1500, 15000)
{
  Z z = gen_z(s, c, zo(s, 1000, false)); if(s.chance(1, 4)) { e_float t = gen_in(s, c, 0, 7); e_float d = gen_value(s, c, GenOpt{-60, -2, true, true, 0}); z = Z(ef::cos(t) + d, ef::sin(t)); c.label("near-unit-circle"); } if(zz(z)) throw Discard();
  C cz = toC(z), w = r::log(cz); bool ten = s.chance(1, 3); c.note((ten ? "log10" : "log") + show(z)); c.nontrivial = true;
  if(ten) { R l = r::log(R(10)); C v(w.re / l, w.im / l); check_z(c, "log10", ef::log10(z), v, one_or(v), LIM, "log10" + show(z)); } else check_z(c, "log", ef::log(z), w, one_or(w), LIM, "log" + show(z));
}
TEST(X02_sqrt, 1500, 15000)
{
  Z z = gen_z(s, c, zo(s, 1000)); C cz = toC(z), w = r::sqrt(cz); c.note("sqrt" + show(z)); c.nontrivial = !zz(z); Z g = ef::sqrt(z);
  if(zz(z)) { REQUIRE(zz(g), "sqrt-zero", "sqrt(0) gave " + show(g)); return; } check_zr(c, "sqrt", g, w, LIM, "sqrt" + show(z));
  REQUIRE(!ef::isneg(g.real()) || g.real().iszero(), "sqrt-half-plane", "sqrt" + show(z) + " gave a negative real part " + show(g)); check_zr(c, "sqrt-square", g * g, cz, LIM + 1, "sqrt(z)^2");
}
// inverse functions; on a branch cut either side is accepted
static void inv(Ctx& c, const std::string& f, const Z& g, const C& w, const C& other, bool cut, const std::string& what)
{
  if(cut && g.real().isfinite() && g.imag().isfinite()) { C a = toC(g); if(zerr(a, other, one_or(w)) <= LIM) { c.label("cut:other-side"); return; } }
  check_z(c, f + (cut ? "-cut" : ""), g, w, one_or(w), LIM, what);
}
static Z gen_inv0(Src& s, Ctx& c)
{
  switch(s.pick({4, 2, 2, 2, 1}))
  {
    case 0: return gen_z(s, c, zo(s, 300));
    case 1: c.label("real-axis"); return Z(gen_value(s, c, zo(s, 100)));
    case 2: c.label("imag-axis"); return Z(e_float(0), gen_value(s, c, zo(s, 100)));
    case 3: { c.label("near-branch-point"); Z p; switch(s.draw(4)) { case 0: p = Z(e_float(1)); break; case 1: p = Z(e_float(-1)); break; case 2: p = Z(e_float(0), e_float(1)); break; default: p = Z(e_float(0), e_float(-1)); } GenOpt o; o.emin = -40; o.emax = -1; return Z(p.real() + gen_value(s, c, o), p.imag() + gen_value(s, c, o)); }
    default: { static const int v[] = {0, 1, -1, 2, -2}; return Z(e_float(v[s.draw(5)]), e_float(v[s.draw(5)])); }
  }
}
// the distance to a branch point must be known to the stored digits
static Z gen_inv(Src& s, Ctx& c) { Z z = gen_inv0(s, c); R a = r::abs(toR(z.real())), b = r::abs(toR(z.imag())); if(fuzzy_near_one(a) || fuzzy_near_one(b)) throw Discard(); return z; }
TEST(X02_asin_acos, 1600, 16000)
{
  Z z = gen_inv(s, c); C cz = toC(z); bool co = s.chance(1, 2); c.note((co ? "acos" : "asin") + show(z)); c.nontrivial = !z.real().iszero() && !z.imag().iszero(); bool cut = z.imag().iszero() && r::abs(cz.re) > R(1);
  C w = r::asin(cz), o(w.re, -w.im); if(co) { w = r::acos(cz); o = C(w.re, -w.im); inv(c, "acos", ef::acos(z), w, o, cut, "acos" + show(z)); } else inv(c, "asin", ef::asin(z), w, o, cut, "asin" + show(z));
}
TEST(X02_asinh_acosh, 1600, 16000)
{
  Z z = gen_inv(s, c); C cz = toC(z); bool co = s.chance(1, 2); c.note((co ? "acosh" : "asinh") + show(z)); c.nontrivial = !z.real().iszero() && !z.imag().iszero();
  if(co) { bool cut = z.imag().iszero() && cz.re < R(1); C w = r::acosh(cz), o(w.re, -w.im); inv(c, "acosh", ef::acosh(z), w, o, cut, "acosh" + show(z)); }
  else { bool cut = z.real().iszero() && r::abs(cz.im) > R(1); C w = r::asinh(cz), o(-w.re, w.im); inv(c, "asinh", ef::asinh(z), w, o, cut, "asinh" + show(z)); }
}
TEST(X02_atan_atanh, 1600, 16000)
{
  Z z = gen_inv(s, c); C cz = toC(z); bool hy = s.chance(1, 2); c.nontrivial = !z.real().iszero() && !z.imag().iszero(); c.note((hy ? "atanh" : "atan") + show(z));
  if(hy) { if(z.imag().iszero() && r::abs(cz.re) == R(1)) throw Discard(); bool cut = z.imag().iszero() && r::abs(cz.re) > R(1); C w = r::atanh(cz), o(w.re, -w.im); inv(c, "atanh", ef::atanh(z), w, o, cut, "atanh" + show(z)); }
  else { if(z.real().iszero() && r::abs(cz.im) == R(1)) throw Discard(); bool cut = z.real().iszero() && r::abs(cz.im) > R(1); C w = r::atan(cz), o(-w.re, w.im); inv(c, "atan", ef::atan(z), w, o, cut, "atan" + show(z)); }
}
TEST(X02_powi, 1500, 15000)
{
  Z z = gen_z(s, c, zo(s, 300, false)); long n = s.chance(2, 3) ? s.range(-40, 40) : s.range(-3000, 3000); if(zz(z)) throw Discard(); C cz = toC(z); c.note(show(z) + "^" + tos(n)); c.nontrivial = n != 0 && n != 1; Z g = s.chance(1, 2) ? ef::pow(z, (std::int64_t)n) : ef::pow(z, (int)n);
  if(n == 0) { REQUIRE(g == e_float(1), "pow-zero", "z^0 gave " + show(g)); return; } if(n == 1) { REQUIRE(g == z, "pow-one", "z^1 gave " + show(g)); return; } check_zr(c, n < 0 ? "pow-negint" : "pow-int", g, r::powi(cz, n), LIM, show(z) + "^" + tos(n));
}
TEST(X02_pow, 1500, 15000)
{
  Z z = gen_z(s, c, zo(s, 100, false)), a = gen_z(s, c, GenOpt{-6, 2, true, true, 0}); if(zz(z)) throw Discard(); int form = (int)s.draw(3); C cz = toC(z), ca = toC(a);
  if(form == 1) { ca = C(ca.re); } if(form == 2) { if(!(cz.re > R(0))) throw Discard(); cz = C(cz.re); }
  C l = ca * r::log(cz); if(!(mag(l) < R(20000))) throw Discard(); C w = r::exp(l); c.note("form " + tos(form) + " " + show(z) + "^" + show(a)); c.nontrivial = !zz(a);
  Z g = form == 0 ? ef::pow(z, a) : form == 1 ? ef::pow(z, a.real()) : ef::pow(z.real(), a); check_zr(c, form == 0 ? "pow-zz" : form == 1 ? "pow-zr" : "pow-rz", g, w, LIM, "pow" + show(z) + show(a));
}
TEST(X02_roundtrip, 800, 8000)
{ // a function applied to its inverse gives the argument back (well conditioned arguments)
  Z z(gen_in(s, c, -3, 3), gen_in(s, c, -3, 3)); if(zz(z)) throw Discard(); C cz = toC(z); c.note(show(z)); c.nontrivial = !z.real().iszero() && !z.imag().iszero(); R sc = one_or(cz); double lg = LIM + 8;
  if(mag(cz - C(R(1))) < R(0.01) || mag(cz + C(R(1))) < R(0.01) || mag(cz - C(R(0), R(1))) < R(0.01) || mag(cz + C(R(0), R(1))) < R(0.01)) throw Discard();
  check_z(c, "sin-asin", ef::sin(ef::asin(z)), cz, sc, lg, "sin(asin z)"); check_z(c, "cos-acos", ef::cos(ef::acos(z)), cz, sc, lg, "cos(acos z)"); check_z(c, "tan-atan", ef::tan(ef::atan(z)), cz, sc, lg, "tan(atan z)");
  check_z(c, "sinh-asinh", ef::sinh(ef::asinh(z)), cz, sc, lg, "sinh(asinh z)"); check_z(c, "cosh-acosh", ef::cosh(ef::acosh(z)), cz, sc, lg, "cosh(acosh z)"); check_z(c, "tanh-atanh", ef::tanh(ef::atanh(z)), cz, sc, lg, "tanh(atanh z)"); check_z(c, "exp-log", ef::exp(ef::log(z)), cz, mag(cz), lg, "exp(log z)");
}
// the specializations for the built-in types
template<class T> static void builtin(Src& s, Ctx& c, const char* name)
{
  typedef ef::complex<T> Y; auto d = [&]() { return (T)(s.chance(1, 4) ? (double)s.range(-4, 4) : (double)s.range(-40000, 40000) / 8192.0); }; T a = d(), b = d(); int f = (int)s.draw(13); static const char* N[] = {"exp", "log", "sqrt", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "atan", "log10", "pow3"};
  Y z(a, b); C cz(R((double)a), R((double)b)); c.note(std::string(name) + " " + N[f] + "(" + R((double)a).str(10) + "," + R((double)b).str(10) + ")"); c.nontrivial = a != 0 && b != 0; if(a == 0 && b == 0 && f > 0 && (f == 1 || f == 11)) throw Discard(); if(f == 2 && a == 0 && b == 0) throw Discard();
  if((f == 9 && b == 0) || (f == 10 && a == 0)) throw Discard();  // branch cuts and poles
  Y g; C w; switch(f) { case 0: g = ef::exp(z); w = r::exp(cz); break; case 1: g = ef::log(z); w = r::log(cz); break; case 2: g = ef::sqrt(z); w = r::sqrt(cz); break; case 3: g = ef::sin(z); w = r::sin(cz); break; case 4: g = ef::cos(z); w = r::cos(cz); break; case 5: g = ef::tan(z); w = r::tan(cz); break; case 6: g = ef::sinh(z); w = r::sinh(cz); break; case 7: g = ef::cosh(z); w = r::cosh(cz); break; case 8: g = ef::tanh(z); w = r::tanh(cz); break; case 9: g = ef::asin(z); w = r::asin(cz); break; case 10: g = ef::atan(z); w = r::atan(cz); break; case 11: { g = ef::log10(z); w = r::log(cz); R l = r::log(R(10)); w = C(w.re / l, w.im / l); } break; default: g = ef::pow(z, 3); w = r::powi(cz, 3); break; }
  C cg(R((long double)g.real()), R((long double)g.imag())); if(!cg.re.isfinite() || !cg.im.isfinite()) throw Fail(std::string("builtin-") + N[f] + ":nonfinite", "not finite"); double e = zerr(cg, w, one_or(w)); double tol = std::log10((double)std::numeric_limits<T>::epsilon()) + 2.5; c.margin(std::string("builtin-") + name + "-" + N[f], e - tol); REQUIRE(e <= tol, std::string("builtin-") + N[f], std::string(name) + " result (" + cg.re.str(20) + "," + cg.im.str(20) + "), expected (" + w.re.str(20) + "," + w.im.str(20) + ")");
}
TEST(X02_builtin, 3000, 30000) { switch(s.draw(3)) { case 0: builtin<double>(s, c, "double"); break; case 1: builtin<float>(s, c, "float"); break; default: builtin<long double>(s, c, "long-double"); break; } }

// Writing values: fixed, scientific and default notation under every combination of stream flags.
#include "../gen.h"
#include <iomanip>
#include <limits>
#include <sstream>
typedef std::numeric_limits<e_float> L;
static const long MAXD = L::max_digits10;
struct Fmt { int field; long prec; long width; bool showpos, showpoint, upper; int adjust; char fill; };
static std::string write(const e_float& x, const Fmt& f, std::streamsize& width_after)
{
  std::ostringstream os; if(f.field == 1) os << std::fixed; if(f.field == 2) os << std::scientific; if(f.showpos) os << std::showpos; if(f.showpoint) os << std::showpoint; if(f.upper) os << std::uppercase;
  if(f.adjust == 1) os << std::left; if(f.adjust == 2) os << std::right; if(f.adjust == 3) os << std::internal; os << std::setfill(f.fill) << std::setprecision((int)f.prec) << std::setw((int)f.width) << x; width_after = os.width(); return os.str();
}
static std::string desc(const Fmt& f)
{ return std::string(f.field == 1 ? "fixed" : f.field == 2 ? "scientific" : "default") + " prec=" + tos(f.prec) + " width=" + tos(f.width) + (f.showpos ? " showpos" : "") + (f.showpoint ? " showpoint" : "") + (f.upper ? " uppercase" : "") + (f.adjust == 1 ? " left" : f.adjust == 2 ? " right" : f.adjust == 3 ? " internal" : "") + " fill='" + f.fill + "'"; }
static Fmt format(Src& s, Ctx& c)
{
  Fmt f; f.field = (int)s.draw(3); c.label(f.field == 1 ? "f:fixed" : f.field == 2 ? "f:scientific" : "f:default");
  switch(s.pick({4, 3, 2, 1})) { case 0: f.prec = 1 + (long)s.draw(20); break; case 1: f.prec = 1 + (long)s.draw(MAXD + 4); break; case 2: f.prec = MAXD - 4 + (long)s.draw(9); break; default: f.prec = (long)s.draw(3) * 100; }
  f.width = s.chance(1, 3) ? (long)s.draw(s.chance(1, 2) ? 40 : 300) : 0; f.showpos = s.chance(1, 3); f.showpoint = s.chance(1, 3); f.upper = s.chance(1, 3); f.adjust = (int)s.draw(4); f.fill = s.chance(1, 2) ? ' ' : "*0$_"[s.draw(4)]; return f;
}
static e_float value(Src& s, Ctx& c, const Fmt& f)
{
  GenOpt o; switch(s.pick({5, 4, 2, 3}))
  {
    case 0: o.emin = -12; o.emax = 12; return gen_value(s, c, o);
    case 1: o.emin = -150; o.emax = 150; return gen_value(s, c, o);
    case 2: o = window(s); return gen_value(s, c, o);
    default:
    { // values next to a rounding boundary of this very format
      c.label("near-boundary"); long p = f.prec > 0 ? f.prec : 6; if(p > MAXD) p = MAXD; long e = s.range(-8, 12); if(s.chance(1, 4)) e = -p - 1 + s.range(-2, 2); long nd = f.field == 1 ? e + 1 + p : f.field == 2 ? p + 1 : p; if(nd < 0) nd = 0; if(nd > MAXD + 1) nd = MAXD + 1;
      std::string d; bool nines = s.chance(1, 2); for(long i = 0; i < nd; ++i) d += nines ? '9' : (char)('0' + s.draw(10)); if(d.empty() || d[0] == '0') { if(!d.empty()) d[0] = '1'; }
      switch(s.draw(4)) { case 0: d += "5"; break; case 1: d += "4" + std::string(1 + s.draw(20), '9'); break; case 2: d += "50000000" + std::string(s.draw(8), '0') + "1"; break; default: d += "49999999"; }
      if(d[0] == '0') d[0] = '1'; return e_float((s.chance(1, 2) ? "-" : "") + d.substr(0, 1) + "." + d.substr(1) + "e" + std::to_string(e));
    }
  }
}
TEST(S02_finite, 60000, 1200000)
{
  Fmt f = format(s, c); e_float x = value(s, c, f); if(!x.isfinite()) throw Discard(); const R v = toR(x); const bool neg = v.sgn() < 0, zero = v.iszero(); c.note(desc(f) + " value " + show(x)); c.nontrivial = !zero;
  std::streamsize wa; std::string out = write(x, f, wa), t = out; const long P = f.prec <= 0 ? 6 : f.prec; const std::string q = "\"" + (out.size() > 260 ? out.substr(0, 260) + "..." : out) + "\""; REQUIRE(wa == 0, "width-reset", "the width is still " + tos(wa) + " after the insertion");
  long e = 1; if(!zero) { v.digits(10 * D10, e, true); } --e;      // |x| in [10^e, 10^(e+1))
  // padding
  REQUIRE((long)out.size() >= f.width, "width", "output " + q + " is shorter than the width");
  { Fmt g = f; g.width = 0; std::streamsize w2; std::string bare = write(x, g, w2); std::string pad(out.size() - bare.size() <= out.size() ? out.size() - bare.size() : 0, f.fill); REQUIRE(out == (f.adjust == 1 ? bare + pad : pad + bare), "padding", "output " + q + " is not the padded form of \"" + bare.substr(0, 200) + "\""); REQUIRE((long)out.size() == std::max(f.width, (long)bare.size()), "width", "output " + q + " has the wrong width"); t = bare; }
  // sign
  if(neg) { REQUIRE(t[0] == '-', "sign", "missing minus sign in " + q); t.erase(0, 1); } else if(f.showpos) { REQUIRE(t[0] == '+', "sign", "missing plus sign in " + q); t.erase(0, 1); } REQUIRE(!t.empty() && t[0] >= '0' && t[0] <= '9', "syntax", "output " + q + " does not start with a digit");
  // exponent
  std::size_t pe = t.find(f.upper ? 'E' : 'e'); bool sci = pe != std::string::npos; long ex = 0; std::string man = t.substr(0, pe);
  if(sci)
  {
    std::string es = t.substr(pe + 1); REQUIRE(es.size() >= 4 && (es[0] == '+' || es[0] == '-') && (es.size() - 1) % 3 == 0 && es.find_first_not_of("0123456789", 1) == std::string::npos, "exponent-syntax", "exponent field of " + q); ex = std::stol(es.substr(1)); REQUIRE(es.size() - 1 <= 3 || std::to_string(ex).size() > es.size() - 4, "exponent-width", "exponent field of " + q + " is too wide"); if(es[0] == '-') ex = -ex;
  }
  std::size_t pd = man.find('.'); std::string I = man.substr(0, pd), F = pd == std::string::npos ? "" : man.substr(pd + 1); REQUIRE(!I.empty() && (I + F).find_first_not_of("0123456789") == std::string::npos && (I.size() == 1 || I[0] != '0'), "syntax", "output " + q + " is malformed");
  // notation
  if(f.field == 1) REQUIRE(!sci, "notation", "fixed output " + q + " has an exponent"); if(f.field == 2) REQUIRE(sci, "notation", "scientific output " + q + " has no exponent");
  const long hi = std::min<long>(L::digits10, std::max<long>(P, 6)); 
  if(f.field == 0 && !zero) { bool want = e < -4 || e >= hi; bool carry = (e == -5 || e == hi - 1); if(!carry) REQUIRE(sci == want, "notation", std::string("default output ") + q + (want ? " should" : " should not") + " use an exponent"); }
  if(sci) REQUIRE(I.size() == 1 && (zero || I[0] != '0'), "normalized", "scientific output " + q + " is not normalized");
  // number of digits after the point
  if(f.field != 0) { REQUIRE((long)F.size() == P, "decimals", "output " + q + " has " + tos(F.size()) + " decimals, expected " + tos(P)); REQUIRE(pd != std::string::npos, "point", "no decimal point in " + q); }
  else if(!f.showpoint) REQUIRE(pd == std::string::npos || (!F.empty() && F.back() != '0'), "trailing-zeros", "trailing zeros or point in " + q);
  else { REQUIRE(pd != std::string::npos, "point", "no decimal point in " + q + " in spite of showpoint"); }
  // the value: correctly rounded to the last digit that is significant
  R unit; if(sci || f.field == 2) { long nd = f.field == 0 ? std::min(P, MAXD) : std::min(P + 1, MAXD + 1); unit = R::pow10(e - nd + 1); }
  else if(f.field == 1) unit = R::pow10(std::max(-P, e - MAXD)); else unit = R::pow10(e + 1 - std::min(P, MAXD));
  std::string num = I + "." + (F.empty() ? "0" : F) + "e" + std::to_string(ex); R got((neg ? "-" : "") + num); if(zero) { REQUIRE(got.iszero() && !sci == (f.field != 2), "zero", "zero is written as " + q); return; }
  R err = r::abs(got - v) / unit; c.margin("rounding", (err - R(0.5)).log10abs() - (err <= R(0.5) ? 1e6 : 0)); REQUIRE(err <= R(0.5) + R::pow10(-12), "rounding", "output " + q + " differs from the value by " + err.str(8) + " units of its last digit");
  c.label(sci ? "out:scientific" : "out:fixed"); if(got.iszero()) c.label("out:rounded-to-zero");
}
TEST(S02_special, 4000, 40000)
{
  Fmt f = format(s, c); f.width = 0; std::size_t k = s.draw(3); e_float x = k == 0 ? L::infinity() : k == 1 ? -L::infinity() : L::quiet_NaN(); c.note(desc(f) + (k == 0 ? " inf" : k == 1 ? " -inf" : " nan")); c.nontrivial = true; std::streamsize wa; std::string out = write(x, f, wa);
  std::string want = k == 2 ? "nan" : k == 1 ? "-inf" : f.showpos ? "+inf" : "inf"; if(f.upper) for(char& q : want) q = (char)std::toupper(q); REQUIRE(out == want, "special", "output \"" + out + "\", expected \"" + want + "\"");
}
TEST(S02_agrees_with_double, 20000, 300000)
{
  // the same text as the standard library gives for a double that has the same value (apart from the exponent field)
  Fmt f; f.field = 1 + (int)s.draw(2); f.prec = 1 + (long)s.draw(15); f.width = 0; f.showpos = s.chance(1, 3); f.showpoint = s.chance(1, 2); f.upper = false; f.adjust = 0; f.fill = ' ';
  double d = (double)s.range(-100000000, 100000000) * std::ldexp(1.0, (int)s.range(-30, 10)); e_float x(d); if(toR(x) != R(d)) throw Discard(); c.nontrivial = d != 0; c.note(desc(f) + " " + std::to_string(d)); std::streamsize wa; std::string out = write(x, f, wa);
  std::ostringstream os; if(f.field == 1) os << std::fixed; else os << std::scientific; if(f.showpos) os << std::showpos; if(f.showpoint) os << std::showpoint; os << std::setprecision((int)f.prec) << d; std::string want = os.str(); std::size_t pe = want.find('e'); if(pe != std::string::npos) want.insert(pe + 2, std::string(3 - (want.size() - pe - 2), '0'));
  // ties are rounded half up by one back end and half to even by the others
  R sc = r::abs(R(d)); bool tie = false; { long ee = 0; std::string dg = sc.digits(60, ee); while(!dg.empty() && dg.back() == '0') dg.pop_back(); long nd = f.field == 1 ? ee + f.prec : f.prec + 1; tie = nd >= 0 && (long)dg.size() == nd + 1 && dg.back() == '5'; } if(tie) { c.label("tie"); return; }
  REQUIRE(out == want, "double", "output \"" + out + "\", the standard library writes \"" + want + "\"");
}

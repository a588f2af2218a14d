// Reading decimal literals.
#include "../gen.h"
#include <limits>
#include <sstream>
typedef std::numeric_limits<e_float> L;
static const double LIM = -(double)D10;
// exponent range in which a finite non-zero result is certain / outside of which it is certain not to be
static const double TOP = L::radix == 10 ? (double)L::max_exponent : (double)L::max_exponent * 0.30102999566398119521, BOT = L::radix == 10 ? (double)L::min_exponent : (double)L::min_exponent * 0.30102999566398119521;
struct Lit { std::string text; std::string digits; long exp; bool neg; }; // value = 0.digits * 10^exp, digits without leading zeros (empty: zero)
static std::string rnd_digits(Src& s, long n)
{
  std::string d; while((long)d.size() < n) switch(s.pick({4, 1, 1, 1})) { case 0: d += (char)('0' + s.draw(10)); break; case 1: d += std::string(1 + s.draw(12), '0'); break; case 2: d += std::string(1 + s.draw(12), '9'); break; default: d += std::to_string(s.draw(100000000)); }
  d.resize(n); return d;
}
static Lit literal(Src& s, Ctx& c)
{
  Lit l; long ni = 0, nf = 0; bool dot = false; int maxd = s.chance(1, 30) ? 4 * D10 + 400 : D10 + 60;
  switch(s.pick({4, 4, 3, 2})) { case 0: ni = 1 + (long)s.draw(30); dot = s.chance(1, 2); nf = dot ? (long)s.draw(maxd) : 0; break; case 1: ni = 1 + (long)s.draw(maxd); dot = s.chance(1, 2); nf = dot ? (long)s.draw(30) : 0; break; case 2: ni = 0; dot = true; nf = 1 + (long)s.draw(maxd); break; default: ni = 1; dot = s.chance(1, 2); nf = dot ? (long)s.draw(maxd) : 0; }
  std::string I = rnd_digits(s, ni), F = rnd_digits(s, nf);
  if(s.chance(1, 6)) { std::size_t z = s.draw(40); I = std::string(z, '0') + I; c.label("leading-zeros"); } if(s.chance(1, 8) && dot) { F = std::string(s.draw(60), '0') + F; c.label("zeros-after-point"); } if(s.chance(1, 8)) { (dot ? F : I) += std::string(s.draw(s.chance(1, 4) ? 500 : 60), '0'); c.label("trailing-zeros"); }
  if(s.chance(1, 60)) { for(char& q : I) q = '0'; for(char& q : F) q = '0'; c.label("zero"); }
  if(I.empty() && F.empty()) I = "0"; if(I.empty()) dot = true;
  long ev = 0; std::string E;
  if(s.chance(2, 3))
  {
    switch(s.pick({4, 3, 2, 2})) { case 0: ev = s.range(-20, 20); break; case 1: ev = s.range(-500, 500); break; case 2: ev = s.range(-300000000, 300000000); c.label("exp:huge"); break; default: { bool up = s.chance(1, 2); ev = (long)(up ? TOP : BOT) + s.range(-400, 400); if(s.chance(1, 6)) ev = up ? ev * (2 + (long)s.draw(2)) : ev * (2 + (long)s.draw(2)); c.label("exp:limit"); } }
    E = std::string(1, s.chance(1, 3) ? 'E' : 'e') + (ev < 0 ? "-" : s.chance(1, 2) ? "+" : "") + (s.chance(1, 8) ? "00" : "") + std::to_string(ev < 0 ? -ev : ev); c.label("exponent");
  }
  l.neg = s.chance(1, 2); l.text = std::string(l.neg ? "-" : s.chance(1, 4) ? "+" : "") + I + (dot ? "." : "") + F + E; l.digits = I + F; l.exp = (long)I.size() + ev; std::size_t nz = l.digits.find_first_not_of('0'); if(nz == std::string::npos) l.digits.clear(); else { l.digits = l.digits.substr(nz); l.exp -= (long)nz; } while(!l.digits.empty() && l.digits.back() == '0') l.digits.pop_back();
  return l;
}
static void judge(Ctx& c, const std::string& how, const e_float& x, const Lit& l)
{
  R got = toR(x); const std::string what = how + " of \"" + (l.text.size() > 400 ? l.text.substr(0, 400) + "..." : l.text) + "\"";
  REQUIRE(!got.isnan(), "nan:" + how, what + " gave NaN");
  if(l.digits.empty()) { REQUIRE(x.iszero() && x.isfinite(), "zero", what + " should be zero, gave " + show(x)); return; }
  double lg = (double)l.exp;
  if(lg > TOP + 24) { c.label("overflow"); REQUIRE(got.isinf() && x.isneg() == l.neg, "overflow", what + " should be an infinity, gave " + show(x)); return; }
  if(lg < BOT - 24) { c.label("underflow"); REQUIRE(x.iszero(), "underflow", what + " should underflow to zero, gave " + show(x)); return; }
  if(lg > TOP - 24) { c.label("top-zone"); if(got.isinf()) { REQUIRE(x.isneg() == l.neg, "inf-sign", what + " has the wrong sign"); return; } }
  if(lg < BOT + 24) { c.label("bottom-zone"); if(x.iszero()) return; const R mn = toR((L::min)()); if(r::abs(R("0." + l.digits + "e" + std::to_string(l.exp))) < mn && r::abs(got) <= mn) return; }
  R want(std::string(l.neg ? "-" : "") + "0." + l.digits + "e" + std::to_string(l.exp)); check_rel(c, "value", got, want, LIM, what);
  REQUIRE(x.isneg() == l.neg, "sign", what + " has the wrong sign");
  // integers with at most digits10 digits are exact, and so are all decimals with a decimal representation
  if((long)l.digits.size() <= D10 && l.exp >= (long)l.digits.size() && l.exp <= D10) { c.label("exact"); REQUIRE(got == want, "exact-integer", what + " is not exact: " + show(x)); }
  if(is_efx && (long)l.digits.size() <= D10) REQUIRE(got == want, "exact-decimal", what + " is not exact: " + show(x));
}
TEST(S01_construct, 40000, 800000)
{
  Lit l = literal(s, c); c.note(l.text.size() > 300 ? l.text.substr(0, 300) + "... (" + std::to_string(l.text.size()) + " characters)" : l.text); c.nontrivial = !l.digits.empty();
  judge(c, "e_float(std::string)", e_float(l.text), l); if(s.chance(1, 3)) judge(c, "e_float(const char*)", e_float(l.text.c_str()), l);
}
TEST(S01_stream, 20000, 300000)
{
  // a stream of several literals separated by white space, read into reused variables
  int n = 1 + (int)s.draw(4); std::vector<Lit> ls; std::string text; static const char* const ws[] = {" ", "\n", "\t", "  \n", "\r\n"}; for(int i = 0; i < n; ++i) { ls.push_back(literal(s, c)); if(i || s.chance(1, 3)) text += ws[s.draw(5)]; text += ls.back().text; } if(s.chance(1, 2)) text += ws[s.draw(5)];
  c.note(text.substr(0, 300)); c.nontrivial = true; std::istringstream is(text); e_float x; switch(s.draw(5)) { case 0: break; case 1: x = e_float(-7) / 3; c.label("into:value"); break; case 2: x = L::infinity(); c.label("into:inf"); break; case 3: x = -L::infinity(); c.label("into:-inf"); break; default: x = L::quiet_NaN(); c.label("into:nan"); }
  for(int i = 0; i < n; ++i) { REQUIRE(bool(is >> x), "stream-state", "extraction " + std::to_string(i) + " failed on a valid literal"); judge(c, "operator>>", x, ls[i]); e_float y = x + e_float(0); if(x.isfinite()) REQUIRE(y == x, "usable", "the value read is not usable in arithmetic"); }
}
TEST(S01_equivalent, 20000, 300000)
{
  // different spellings of the same number give the same value
  Lit l = literal(s, c); if(l.digits.empty()) throw Discard(); std::string d = l.digits; if((long)d.size() > D10) d.resize(D10); while(d.back() == '0') d.pop_back(); long e = l.exp; if(std::labs(e) > 100000) e %= 1000; c.nontrivial = true;
  std::string sg = l.neg ? "-" : ""; std::vector<std::string> v; v.push_back(sg + "0." + d + "e" + std::to_string(e)); v.push_back(sg + d.substr(0, 1) + "." + d.substr(1) + "E" + std::to_string(e - 1)); v.push_back(sg + d + "e" + std::to_string(e - (long)d.size())); v.push_back(sg + "." + d + "e" + std::to_string(e));
  if(std::labs(e) < 200) { if(e >= (long)d.size()) v.push_back(sg + d + std::string(e - d.size(), '0')); else if(e > 0) v.push_back(sg + d.substr(0, e) + "." + d.substr(e)); else v.push_back(sg + "0." + std::string(-e, '0') + d); std::size_t k = s.draw(d.size()) + 0; if(k) v.push_back(sg + "000" + d.substr(0, k) + "." + d.substr(k) + "000e" + std::to_string(e - (long)k)); }
  c.note(v[0]); R a = toR(e_float(v[0])); for(auto& t : v) { R b = toR(e_float(t)); if(is_efx) REQUIRE(a == b, "spelling", "\"" + t + "\" and \"" + v[0] + "\" differ"); else check_rel(c, "spelling", b, a, LIM - 3, "\"" + t + "\" against \"" + v[0] + "\""); }
}

// Text round trips.
#include "../gen.h"
#include <iomanip>
#include <limits>
#include <sstream>
typedef std::numeric_limits<e_float> L;
static const double LIM = -(double)D10;
static std::string write(const e_float& x, int field, long prec) { std::ostringstream os; if(field == 1) os << std::fixed; if(field == 2) os << std::scientific; os << std::setprecision((int)prec) << x; return os.str(); }
TEST(S03_value_text_value, 30000, 500000)
{
  GenOpt o = window(s, s.chance(1, 4)); e_float x = gen_value(s, c, o); if(!x.isfinite()) throw Discard(); int field = (int)s.draw(3); R v = toR(x); double lg = v.iszero() ? 0 : v.log10abs(); if(field == 1 && (lg > 300 || lg < -300)) field = 2;
  long prec = L::max_digits10 + (field == 1 && lg < 0 ? (long)(-lg) + 2 : 0); std::string t = write(x, field, prec); c.note(std::string(field == 0 ? "default " : field == 1 ? "fixed " : "scientific ") + show(x)); c.nontrivial = !v.iszero(); c.label(field == 0 ? "default" : field == 1 ? "fixed" : "scientific");
  e_float y(t); std::istringstream is(t); e_float z = e_float(3) / 7; is >> z; REQUIRE(!is.fail(), "stream-state", "the stream failed to read \"" + t.substr(0, 200) + "\"");
  REQUIRE(toR(y) == toR(z), "ctor-vs-stream", "the constructor and operator>> read \"" + t.substr(0, 200) + "\" differently");
  if(v.iszero()) { REQUIRE(y.iszero(), "zero", "zero is written as \"" + t + "\" and read as " + show(y)); return; }
  check_rel(c, "round-trip", toR(y), v, LIM, "reading \"" + t.substr(0, 260) + "\" back"); REQUIRE(y.isneg() == x.isneg(), "sign", "the sign was lost");
  // writing the value read gives the same text again
  std::string t2 = write(y, field, L::digits10 - 1), t1 = write(x, field, L::digits10 - 1); if(is_efx) { if(field != 1) REQUIRE(t1 == t2 || toR(x) != toR(y), "text", "the same value is written in two ways"); }
}
TEST(S03_text_value_text, 30000, 500000)
{
  // a decimal of at most digits10 significant digits survives text -> value -> text
  long n = 1 + (long)s.draw(D10); std::string d; while((long)d.size() < n) switch(s.pick({4, 1, 1})) { case 0: d += (char)('0' + s.draw(10)); break; case 1: d += std::string(1 + s.draw(12), '0'); break; default: d += std::string(1 + s.draw(12), '9'); }
  d.resize(n); if(d[0] == '0') d[0] = '1'; long e = s.chance(1, 3) ? s.range(-5, 5) : s.chance(1, 2) ? s.range(-400, 400) : s.range(-100000000, 100000000); bool neg = s.chance(1, 2);
  long ae = e < 0 ? -e : e; std::string es = std::to_string(ae); while(es.size() % 3) es = "0" + es; std::string t = std::string(neg ? "-" : "") + d.substr(0, 1) + (n > 1 ? "." + d.substr(1) : "") + "e" + (e < 0 ? "-" : "+") + es;
  c.note(t); c.nontrivial = n > 1; e_float x(t); std::ostringstream os; os << std::scientific << std::setprecision(n > 1 ? (int)(n - 1) : 1) << x; std::string want = n > 1 ? t : std::string(neg ? "-" : "") + d + ".0e" + (e < 0 ? "-" : "+") + es; REQUIRE(os.str() == want, "text-round-trip", "\"" + t + "\" became \"" + os.str() + "\"");
  // default notation drops trailing zeros but denotes the same number
  std::ostringstream od; od << std::setprecision(D10) << x; R a(od.str()), b(t); REQUIRE(r::abs(a - b) <= r::abs(b) * R::pow10(is_efx ? -D10 - 20 : -D10 + 1), "default-denotes", "\"" + t + "\" is written as \"" + od.str() + "\" in default notation");
}
TEST(S03_streams, 6000, 60000)
{
  // several values written to one stream and read back in order, mixed with other data
  std::ostringstream os; int n = 2 + (int)s.draw(6); std::vector<R> v; std::vector<int> k; os << std::setprecision(L::max_digits10); if(s.chance(1, 2)) os << std::scientific; c.nontrivial = true;
  for(int i = 0; i < n; ++i) { GenOpt o = window(s); e_float x = gen_value(s, c, o); R r_ = toR(x); v.push_back(r_); int kind = (int)s.draw(3); k.push_back(kind); os << x; if(kind == 1) os << '\n' << 12345 << ' '; else if(kind == 2) os << "\t" << "word" << '\n'; else os << ' '; c.note(show(x)); }
  std::istringstream is(os.str()); for(int i = 0; i < n; ++i) { e_float y; REQUIRE(bool(is >> y), "read", "value " + tos(i) + " cannot be read"); if(v[i].iszero()) REQUIRE(y.iszero(), "zero", "zero was not read as zero"); else check_rel(c, "sequence", toR(y), v[i], LIM, "value " + tos(i)); if(k[i] == 1) { int q = 0; is >> q; REQUIRE(q == 12345, "following-int", "the integer after value " + tos(i) + " was not read"); } else if(k[i] == 2) { std::string w; is >> w; REQUIRE(w == "word", "following-word", "the word after value " + tos(i) + " was read as \"" + w + "\""); } }
}

// Reading and writing of complex values.
#include "../zgen.h"
#include <iomanip>
#include <limits>
#include <sstream>
static const double LIM = -(double)D10;
static std::size_t number_end(const std::string& t, std::size_t i)
{ // [+-] digits [. digits] | . digits, then [eE] [+-] digits ; npos when there is none
  if(i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; std::size_t d = 0; while(i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++d; } if(i < t.size() && t[i] == '.') { ++i; while(i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++d; } } if(d == 0) return std::string::npos;
  if(i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if(i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; std::size_t k = i; while(i < t.size() && isdigit((unsigned char)t[i])) ++i; if(i == k) return std::string::npos; }
  return i;
}
static bool is_number(const std::string& t) { return number_end(t, 0) == t.size() && !t.empty(); }
// the forms u, (u), (u,v)
static bool parse(const std::string& t, std::string& u, std::string& v)
{
  v = "0"; if(is_number(t)) { u = t; return true; } if(t.size() < 3 || t[0] != '(' || t[t.size() - 1] != ')') return false; std::string m = t.substr(1, t.size() - 2); std::size_t k = m.find(','); if(k == std::string::npos) { u = m; return is_number(u); } u = m.substr(0, k); v = m.substr(k + 1); return is_number(u) && is_number(v);
}
static void same_value(const std::string& sig, const e_float& g, const std::string& lit) { REQUIRE(same(toR(g), toR(e_float(lit))), sig, "the part read from '" + lit + "' is " + show(g)); }
TEST(X03_read, 3000, 30000)
{ // several literals in one stream
  int n = 1 + (int)s.draw(4); std::string text; std::vector<std::pair<std::string, std::string>> want; for(int i = 0; i < n; ++i) { GenOpt o; o.emin = -60; o.emax = 60; std::string u = gen_literal(s, c, o), v = gen_literal(s, c, o); int f = (int)s.draw(3); if(f == 0) text += u; else if(f == 1) text += "(" + u + ")"; else text += "(" + u + "," + v + ")"; want.push_back({u, f == 2 ? v : "0"}); if(i + 1 < n) text += s.chance(1, 4) ? "\n" : s.chance(1, 3) ? "  " : " "; }
  c.note(text); c.nontrivial = true; std::istringstream is(text); for(int i = 0; i < n; ++i) { Z z(e_float(7), e_float(8)); is >> z; REQUIRE(!is.fail(), "read-fail", "reading value " + tos(i) + " of '" + text + "' failed"); same_value("read-real", z.real(), want[i].first); same_value("read-imag", z.imag(), want[i].second); }
  Z z(e_float(7), e_float(8)); is >> z; REQUIRE(is.fail() && z == Z(e_float(7), e_float(8)), "read-end", "reading past the end gave " + show(z) + (is.fail() ? "" : " without failure"));
}
template<class T> struct One { static ef::complex<T> get() { return ef::complex<T>(T(7), T(8)); } };
template<class T> static bool eq(const T& a, const T& b) { return a == b; }
TEST(X03_grammar, 12000, 120000)
{ // every short word over the alphabet of the grammar: read exactly when it has one of the forms, otherwise failure without effect
  static const char A[] = "0123456789+-.eE(),"; std::string t; int n = 1 + (int)s.draw(9);
  if(s.chance(1, 3)) for(int i = 0; i < n; ++i) t += A[s.draw(sizeof(A) - 1)];
  else { auto num = [&]() { std::string r; if(s.chance(1, 3)) r += s.chance(1, 2) ? "-" : "+"; int k = (int)s.draw(3); for(int i = 0; i < k; ++i) r += (char)('0' + s.draw(10)); if(s.chance(1, 2)) { r += '.'; k = (int)s.draw(3); for(int i = 0; i < k; ++i) r += (char)('0' + s.draw(10)); } if(s.chance(1, 3)) { r += s.chance(1, 2) ? 'e' : 'E'; if(s.chance(1, 3)) r += s.chance(1, 2) ? '-' : '+'; k = (int)s.draw(3); for(int i = 0; i < k; ++i) r += (char)('0' + s.draw(10)); } return r; };
    int f = (int)s.draw(3); if(f == 0) t = num(); else if(f == 1) t = "(" + num() + ")"; else t = "(" + num() + "," + num() + ")"; if(!t.empty() && s.chance(1, 6)) t.erase(s.draw(t.size()), 1); if(s.chance(1, 6)) t.insert(s.draw(t.size() + 1), 1, A[s.draw(sizeof(A) - 1)]); }
  if(t.empty()) t = "x"; std::string u, v; bool good = parse(t, u, v); std::string rest = s.chance(1, 2) ? " next" : ""; c.note("'" + t + rest + "' " + (good ? "valid" : "invalid")); c.label(good ? "valid" : "invalid"); c.nontrivial = t.size() > 1;
  std::istringstream is(t + rest); Z z(e_float(7), e_float(8)); is >> z;
  if(good) { REQUIRE(!is.fail(), "valid-rejected", "the valid text '" + t + "' was rejected"); same_value("valid-real", z.real(), u); same_value("valid-imag", z.imag(), v); }
  else { REQUIRE(is.fail(), "invalid-accepted", "the text '" + t + "' was read as " + show(z)); REQUIRE(z == Z(e_float(7), e_float(8)), "invalid-changed", "a failed read changed the value to " + show(z)); is.clear(); std::string w; is >> w; REQUIRE(w == t, "putback", "after the failed read of '" + t + "' the stream holds '" + w + "'"); }
  if(!rest.empty()) { std::string w; is >> w; REQUIRE(w == "next", "neighbour", "the text after the value is '" + w + "'"); }
  { std::istringstream js(t); ef::complex<double> d(7, 8); js >> d; if(good) { double a = strtod(u.c_str(), nullptr), b = strtod(v.c_str(), nullptr); if(std::isfinite(a) && std::isfinite(b)) { REQUIRE(!js.fail() && d.real() == a && d.imag() == b, "builtin-valid", "complex<double> read from '" + t + "' is wrong"); } } else { REQUIRE(js.fail() && d == (ef::complex<double>(7, 8)), "builtin-invalid", "complex<double> accepted '" + t + "'"); js.clear(); std::string w; js >> w; REQUIRE(w == t, "builtin-putback", "after the failed read of '" + t + "' the stream holds '" + w + "'"); } }
}
TEST(X03_write, 3000, 30000)
{
  Z z = gen_z(s, c, window(s)); std::ostringstream os, a, b; int prec = s.chance(1, 2) ? (int)s.draw(D10) : std::numeric_limits<e_float>::max_digits10; int f = (int)s.draw(3); auto fl = [&](std::ostream& o) { if(f == 1) o << std::scientific; if(f == 2) o << std::fixed; o << std::setprecision(prec); };
  bool sp = s.chance(1, 4), up = s.chance(1, 4), pt = s.chance(1, 4); for(std::ostream* o : {(std::ostream*)&os, (std::ostream*)&a, (std::ostream*)&b}) { fl(*o); if(sp) *o << std::showpos; if(up) *o << std::uppercase; if(pt) *o << std::showpoint; }
  if(f == 2 && (toR(z.real()).log10abs() > 300 || toR(z.imag()).log10abs() > 300)) throw Discard();
  int w = s.chance(1, 2) ? 0 : (int)s.draw(300); bool left = s.chance(1, 2); char fill = s.chance(1, 2) ? ' ' : '*'; os << std::setfill(fill); if(left) os << std::left; c.note(show(z) + " format " + tos(f) + " precision " + tos(prec) + " width " + tos(w)); c.nontrivial = !z.real().iszero() && !z.imag().iszero();
  a << z.real(); b << z.imag(); std::string want = "(" + a.str() + "," + b.str() + ")"; if((int)want.size() < w) { std::string pad((std::size_t)w - want.size(), fill); want = left ? want + pad : pad + want; } os << std::setw(w) << z; REQUIRE(os.str() == want, "write", "written '" + os.str() + "', expected '" + want + "'"); REQUIRE(os.width() == 0, "width", "the width was not reset"); os.str(""); os << 5; REQUIRE(os.str() == std::string(sp ? "+5" : "5"), "state", "the stream state changed: '" + os.str() + "'");
}
TEST(X03_roundtrip, 2000, 20000)
{
  int n = 1 + (int)s.draw(3); std::vector<Z> v; std::ostringstream os; os << std::setprecision(std::numeric_limits<e_float>::max_digits10); if(s.chance(1, 2)) os << std::scientific; for(int i = 0; i < n; ++i) { v.push_back(gen_z(s, c, window(s))); os << v.back() << (s.chance(1, 2) ? " " : "\n"); } c.note(os.str()); c.nontrivial = true;
  std::istringstream is(os.str()); for(int i = 0; i < n; ++i) { Z z; is >> z; REQUIRE(!is.fail(), "roundtrip-fail", "reading back '" + os.str() + "' failed"); C w = toC(v[i]); check_rel(c, "roundtrip-re", toR(z.real()), w.re, LIM, "real part"); check_rel(c, "roundtrip-im", toR(z.imag()), w.im, LIM, "imaginary part"); }
}

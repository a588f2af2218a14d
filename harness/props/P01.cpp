// Results do not depend on what the process has computed before, and computing leaves no trace in the process.
#include "../gen.h"
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions_complex.h>
#include <functions/integer/prime_factors.h>
#include <utility/util_lexical_cast.h>
#include <utility/util_numeric_cast.h>
#include <utility/util_power_j_pow_x.h>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <deque>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
typedef ef::complex<e_float> Z;
struct Op { unsigned k; std::string a, b; long n, m; };
static std::string out(const e_float& x) { return toR(x).str(D10 + 120); }
static std::string out(const Z& z) { return out(z.real()) + " i " + out(z.imag()); }
static const char* const names[] = { "sin", "cos", "tan", "sincos", "exp", "log", "log10", "log1p", "loga", "sqrt", "cbrt", "rootn", "pow", "pow-int", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "gamma", "factorial", "factorial2", "binomial", "pochhammer", "bernoulli", "bernoulli_table", "prime", "prime_factors", "riemann_zeta", "zeta-complex", "hyp1f1", "hyp2f1", "constants", "parse", "print", "read", "convert", "arith", "mul-builtin", "div", "pow2", "j_pow_x", "zexp", "zlog", "zpow", "zsin", "zsqrt", "zgamma", "ldexp", "fmod", "parts", "special", "precision", "swap", "zprint", "zread", "casts", "cmp-limb-list", "invalid" };
static constexpr unsigned nops = sizeof names / sizeof *names;
// library calls only: runs in a child process
static std::string eval(const Op& o)
{
  const e_float x(o.a), y(o.b); const e_float ax = ef::fabs(x), u = ax / (ax + 1); const Z z(x, y); std::ostringstream r; r.imbue(std::locale::classic());
  switch(o.k)
  {
    case 0: return out(ef::sin(x)); case 1: return out(ef::cos(x)); case 2: return out(ef::tan(x)); case 3: { e_float p, q; ef::sincos(x, &p, &q); return out(p) + out(q); } case 4: return out(ef::exp(x)); case 5: return out(ef::log(ax)); case 6: return out(ef::log10(ax)); case 7: return out(ef::log1p(u)); case 8: return out(ef::loga(ax + 2, ef::fabs(y) + 1)); case 9: return out(ef::sqrt(ax)); case 10: return out(ef::cbrt(ax)); case 11: return out(ef::rootn(ax, 2 + (int)(o.n % 9))); case 12: return out(ef::pow(ax, y)); case 13: return out(ef::pow(x, (std::int64_t)(o.n % 300 - 150)));
    case 14: return out(ef::asin(u)); case 15: return out(ef::acos(-u)); case 16: return out(ef::atan(x)); case 17: return out(ef::atan2(x, y)); case 18: return out(ef::sinh(x)); case 19: return out(ef::cosh(x)); case 20: return out(ef::tanh(x)); case 21: return out(ef::asinh(x)); case 22: return out(ef::acosh(ax + 1)); case 23: return out(ef::atanh(u));
    case 24: return D10 > 300 ? "" : out(ef::gamma(x)); case 25: return out(ef::factorial((std::uint32_t)(o.n % 700))); case 26: return out(ef::factorial2((std::int32_t)(o.n % 700))); case 27: return out(ef::binomial((std::uint32_t)(o.n % 400), (std::uint32_t)(o.m % 400))); case 28: return out(ef::pochhammer(x, (std::uint32_t)(o.n % 40))); case 29: return out(ef::bernoulli((std::uint32_t)(o.n % 700)));
    case 30: { std::vector<e_float> b; ef::bernoulli_table(b, (std::uint32_t)(o.n % 30 + 1)); std::string t; for(const auto& v : b) t += out(v) + " "; return t; } case 31: { std::deque<std::uint32_t> p; ef::prime((std::uint32_t)(o.n % 3000 + 1), p); r << p.size(); for(std::size_t i = 0; i < p.size(); i += 7) r << ' ' << p[i]; r << ' ' << p.back(); return r.str(); } case 32: { std::deque<Util::point<std::uint32_t>> f; ef::prime_factors((std::uint32_t)(o.n * 37 + o.m), f); for(const auto& q : f) r << q.x << '^' << q.y << ' '; return r.str(); }
    case 33: return D10 > 300 ? "" : out(ef::riemann_zeta(ax + (o.n % 2 ? e_float(2) : e_float(40)))); case 34: return D10 > 300 || o.n % 4 ? "" : out(ef::riemann_zeta(Z(ax + 20, y))); case 35: return out(ef::hypergeometric_1f1(ax, ef::fabs(y) + 1, x / 8)); case 36: return out(ef::hypergeometric_2f1(u, ax, ef::fabs(y) + 1, u / 2));
    case 37: { const e_float* const k[] = { &ef::pi(), &ef::e(), &ef::ln2(), &ef::ln10(), &ef::euler_gamma(), &ef::catalan(), &ef::khinchin(), &ef::glaisher(), &ef::phi(), &ef::sqrt2(), &ef::pi_squared(), &ef::sqrt_pi(), &ef::third(), &ef::googol(), &ef::one_minus() }; return out(*k[o.n % 15]); }
    case 38: { std::string l = o.a; if(o.n % 3 == 0) l = std::string((std::size_t)(o.n % 900) + 1, (char)('1' + o.m % 9)); return out(e_float(l)); } case 39: { r.precision(o.n % (D10 + 20)); if(o.m % 3 == 0) r << std::scientific; if(o.m % 3 == 1) r << std::fixed; if(o.m % 2) r << std::showpos << std::uppercase; r << x << ' ' << y; return r.str(); } case 40: { std::istringstream i(o.a + " " + o.b); i.imbue(std::locale::classic()); e_float p, q; i >> p >> q; return out(p) + out(q); } case 41: { r.precision(25); r << x.extract_double() << ' ' << x.extract_long_double() << ' ' << x.extract_signed_long_long() << ' ' << x.extract_unsigned_long_long() << ' ' << ef::to_int32(x); return r.str(); }
    case 42: return out((x + y) * (x - y) + x); case 43: return out(x * (int)(o.n % 100000 - 50000)) + out(y * (long long)(o.n * 99991)) + out(e_float((double)o.n / 7)); case 44: return out(x / (ax + 1)) + out(1 / (ef::fabs(y) + 3)); case 45: return out(ef::pow2(o.n % 4000 - 2000)); case 46: { std::map<std::uint32_t, e_float> m; return out(Util::j_pow_x((std::uint32_t)(o.n % 200 + 1), x, m)) + out(Util::j_pow_x((std::uint32_t)(o.m % 200 + 1), x, m)); }
    case 47: return out(ef::exp(z)); case 48: return out(ef::log(Z(ax + 1, y))); case 49: return out(ef::pow(Z(ax + 1, y), 3)); case 50: return out(ef::sin(z)); case 51: return out(ef::sqrt(z)); case 52: return D10 > 300 || o.n % 3 ? "" : out(ef::gamma(Z(ax + 1, y))); case 53: return out(ef::ldexp(x, (int)(o.n % 3000 - 1500))); case 54: return out(ef::fmod(x, ef::fabs(y) + 1)); case 55: { double m; std::int64_t e; ef::to_parts(x, m, e); r.precision(17); r << m << ' ' << e; return r.str() + out(ef::integer_part(x)) + out(ef::decimal_part(x)) + out(ef::floor(x)); }
    case 56: { const e_float i = std::numeric_limits<e_float>::infinity(), n = std::numeric_limits<e_float>::quiet_NaN(); return out(i - i) + out(x / 0) + out(n * x) + out((std::numeric_limits<e_float>::max)() * 10) + out((std::numeric_limits<e_float>::min)() / 100) + out(std::numeric_limits<e_float>::epsilon()); } case 57: { e_float t(x); t.precision((int)(o.n % 60 + 5)); t *= t; e_float v(t); v = y; return out(v + 0) ; } case 58: { e_float p(x), q(y); std::swap(p, q); return out(p) + out(q); }
    case 59: { r.precision(o.n % (D10 + 5)); if(o.m % 3 == 0) r << std::scientific; r << z << ' ' << Z(y, ax); return r.str(); } case 60: { std::istringstream i("(" + o.a + "," + o.b + ") " + o.b); i.imbue(std::locale::classic()); Z p, q; i >> p >> q; return out(p) + out(q); } case 61: { const int v = (int)(o.n * 1999 - 999999999); r << Util::lexical_cast(v) << ' ' << Util::numeric_cast<long long>(Util::lexical_cast((long long)o.n * 1000003)) << ' '; r.precision(12); r << Util::numeric_cast<double>("-1234567.25e3") << ' ' << Util::lexical_cast(123456.5) << ' ' << Util::numeric_cast<int>(Util::lexical_cast(v)); return r.str(); } case 62: { const e_float l({ (std::uint32_t)(o.n % 99999999 + 1), 12345678u, (std::uint32_t)(o.m % 99999999) }, 8 * (o.n % 400 - 200)); return out(l) + (x < l ? "<" : ">=") + (l == y ? "=" : "!="); }
    default: { e_float t; std::istringstream i(o.n % 2 ? "abc" : "--7x"); i.imbue(std::locale::classic()); i >> t; try { e_float v("1e99999999999999999999"); (void)v; } catch(...) {} return ""; }
  }
}
// state of the process that belongs to the user
static std::string state()
{
  std::ostringstream r; r << std::fegetround() << ' ' << std::setlocale(LC_ALL, nullptr) << ' ' << std::locale().name() << ' ' << std::cout.flags() << ' ' << std::cout.precision() << ' ' << std::cout.rdstate() << ' ' << std::cerr.flags() << ' ' << std::cin.flags(); return r.str();
}
static std::string child(const std::vector<Op>& ops, bool all_first, int& sig)
{
  int p[2]; if(pipe(p)) throw Discard(); pid_t k = fork(); if(k < 0) throw Discard();
  if(k == 0)
  {
    close(p[0]); alarm(120); std::string r;
    try { const std::string s0 = state(); for(std::size_t i = 0; i < ops.size(); ++i) { std::string t = eval(ops[i]); if(i + 1 == ops.size()) r = t; else if(!all_first) {} } if(state() != s0) r += " state-changed: " + s0 + " -> " + state(); } catch(const std::exception& e) { r = std::string("exception ") + e.what(); } catch(...) { r = "exception"; }
    std::size_t w = 0; while(w < r.size()) { ssize_t q = write(p[1], r.data() + w, r.size() - w); if(q <= 0) break; w += (std::size_t)q; } _exit(0);
  }
  close(p[1]); std::string r; char buf[4096]; for(;;) { ssize_t q = read(p[0], buf, sizeof buf); if(q < 0 && errno == EINTR) continue; if(q <= 0) break; r.append(buf, (std::size_t)q); } close(p[0]); int st = 0; while(waitpid(k, &st, 0) < 0 && errno == EINTR) {} sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; return r;
}
static Op gen(Src& s, Ctx& c)
{
  Op o; o.k = (unsigned)s.draw(nops); GenOpt g; g.emin = -8; g.emax = 1; g.zero = false; if(o.k == 38 || o.k == 39 || o.k == 42) { g.emin = -60; g.emax = 60; } o.a = gen_literal(s, c, g); o.b = gen_literal(s, c, g); o.n = (long)s.draw(1000000); o.m = (long)s.draw(1000000); return o;
}
static std::string desc(const Op& o) { return std::string(names[o.k]) + "(" + o.a.substr(0, 30) + (o.a.size() > 30 ? ".." : "") + ", " + o.b.substr(0, 30) + (o.b.size() > 30 ? ".." : "") + ", " + tos(o.n) + ", " + tos(o.m) + ")"; }
TEST(P01_history, 12000, 60000)
{
  Op t = gen(s, c); c.label(names[t.k]); const int n = (int)s.range(1, 12); std::vector<Op> h; const bool kin = s.chance(1, 3);
  for(int i = 0; i < n; ++i) { Op o = gen(s, c); if(kin && s.chance(1, 2)) { o.k = t.k; if(s.chance(1, 2)) { o.a = t.a; if(s.chance(1, 2)) o.b = t.b; else o.n = t.n; } } h.push_back(o); }
  if(s.chance(1, 6)) h.push_back(t); // twice the same
  c.labels.clear(); c.label(names[t.k]); std::string d = "target " + desc(t) + " after"; for(const Op& o : h) d += " " + desc(o); c.note(d); c.nontrivial = true;
  h.push_back(t); int s1 = 0, s2 = 0; const std::string fresh = child({ t }, true, s1), later = child(h, false, s2);
  REQUIRE(s1 != 14 && s2 != 14, "hang", "a computation did not end within two minutes"); REQUIRE(s1 == 0, "crash:" + std::string(names[t.k]), "the target died with signal " + tos(s1)); REQUIRE(s2 == 0, "crash-in-history", "the history died with signal " + tos(s2));
  const bool st = later.find(" state-changed: ") != std::string::npos || fresh.find(" state-changed: ") != std::string::npos; REQUIRE(!st, "state", "the computation changed the state of the process: " + later.substr(later.find(" state-changed: ") == std::string::npos ? 0 : later.find(" state-changed: ")));
  REQUIRE(fresh == later, std::string("history:") + names[t.k], "in a fresh process: " + fresh.substr(0, 700) + " , after the history: " + later.substr(0, 700));
}

// The global C++ locale of the program (digit grouping, decimal comma) plays no part.
struct Punct : std::numpunct<char>
{
  char dp, ts; std::string g; Punct(char d, char t, const std::string& gr) : dp(d), ts(t), g(gr) { }
  char do_decimal_point() const override { return dp; } char do_thousands_sep() const override { return ts; } std::string do_grouping() const override { return g; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; }
};
TEST(P01_locale, 6000, 40000)
{
  Op t = gen(s, c); c.labels.clear(); c.label(names[t.k]); static const char* const groupings[] = { "\3", "\1", "\2\3", "", "\1\2" }; const std::string g = groupings[s.draw(5)]; const char dp = s.chance(1, 3) ? '.' : ',', ts = s.chance(1, 2) ? '.' : s.chance(1, 2) ? '\'' : ' '; std::string gs; for(char q : g) gs += tos(q) + ";"; c.note(desc(t) + " decimal point '" + dp + "' separator '" + ts + "' grouping " + gs); c.nontrivial = true;
  int s1 = 0, s2 = 0; const std::string a = child({ t }, true, s1); const std::locale old = std::locale::global(std::locale(std::locale::classic(), new Punct(dp, ts, g))); std::string b; try { b = child({ t }, true, s2); } catch(...) { std::locale::global(old); throw; } std::locale::global(old);
  REQUIRE(s1 == 0 && s2 == 0, "crash:" + std::string(names[t.k]), "died with signal " + tos(s1) + "/" + tos(s2)); REQUIRE(a == b, std::string("locale:") + names[t.k], "classic locale: " + a.substr(0, 300) + " , with the other locale: " + b.substr(0, 300));
}

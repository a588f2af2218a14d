#include "gen.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <sstream>
#include <iomanip>

#if defined(E_FLOAT_TYPE_EFX)
const char* backend_name = "efx";
#elif defined(E_FLOAT_TYPE_GMP)
const char* backend_name = "gmp";
#else
const char* backend_name = "mpfr";
#endif

void verif_setup()
{
  long bits = (long)(D10 * 3.3219281 * 3.0) + 128; if(bits < 1024) bits = 1024; R::prec = bits;
}

// Fallback when the private members are not as expected: the printed value
// and that of the remainder (which holds the guard digits).
static R via_print(const e_float& x)
{
  std::ostringstream o; o.imbue(std::locale::classic()); o << std::scientific << std::setprecision(D10 + 1) << x; const R a(o.str());
  if(x.iszero() || a.log10abs() < (double)std::numeric_limits<e_float>::min_exponent10 + 2.0 * D10) return a;
  const e_float y(x - e_float(o.str())); if(y.iszero() || !y.isfinite()) return a;
  std::ostringstream q; q.imbue(std::locale::classic()); q << std::scientific << std::setprecision(D10 + 1) << y; return a + R(q.str());
}

struct e_float_verif_access
{
#if defined(VERIF_NO_INTERNALS)
#elif defined(E_FLOAT_TYPE_EFX)
  template<class T> static auto get(const T& x, int) -> decltype((void)x.my_data[0], (void)x.my_exp, (void)x.my_neg, (void)T::ef_elem_number, R())
  {
    std::size_t n = (std::size_t)T::ef_elem_number;
    if(x.my_data.size() < n) throw Fail("internal:storage", "an e_float object lost its digit storage");
    // A limb outside 0 ... 10^8 - 1 or a leading zero makes the number compare and print as another value.
    bool any = false;
    for(std::size_t i = 0; i < n; ++i) { any = any || x.my_data[i] != 0; if(x.my_data[i] >= 100000000u) throw Fail("internal:limb-range", "limb " + std::to_string(i) + " of a number is " + std::to_string(x.my_data[i]) + ", which is not below 10^8"); }
    if(any && x.my_data[0] == 0) throw Fail("internal:leading-limb", "a nonzero number has the leading limb zero and therefore counts as zero");
    return R::fromLimbs1e8(x.my_data.data(), n, (long)(x.my_exp - 8 * (std::int64_t)(n - 1)), x.my_neg);
  }
#elif defined(E_FLOAT_TYPE_GMP)
  template<class T> static auto get(const T& x, int) -> decltype((void)x.my_rop[0]._mp_d, (void)x.my_rop[0]._mp_size, (void)x.my_rop[0]._mp_exp, R())
  {
    long sz = x.my_rop[0]._mp_size; bool neg = sz < 0; std::size_t n = neg ? -sz : sz;
    if(n == 0) return R(0);
    return R::fromLimbs2((const unsigned long*)x.my_rop[0]._mp_d, n, 64L * ((long)x.my_rop[0]._mp_exp - (long)n), neg);
  }
#else
  template<class T> static auto get(const T& x, int) -> decltype((void)x.my_rop[0]._mpfr_d, (void)x.my_rop[0]._mpfr_prec, (void)x.my_rop[0]._mpfr_exp, R())
  {
    long p = (long)x.my_rop[0]._mpfr_prec; std::size_t n = (p + 63) / 64; long e = x.my_rop[0]._mpfr_exp;
    if(e <= std::numeric_limits<long>::min() + 3) return R(0); // zero (nan / inf handled by the caller)
    return R::fromLimbs2((const unsigned long*)x.my_rop[0]._mpfr_d, n, e - 64L * (long)n, x.my_rop[0]._mpfr_sign < 0);
  }
#endif
  template<class T> static R get(const T& x, long) { return via_print(x); }
};

R toR(const e_float& x)
{
  if(x.isnan()) return R::nan();
  if(x.isinf()) return R::inf(x.isneg());
  return e_float_verif_access::get(x, 0);
}
std::string show(const R& x) { return x.str(36); }
std::string show(const e_float& x) { R v = toR(x); std::string a = v.str(D10 + 20 > 140 ? 140 : D10 + 20); return a; }

bool within(const R& got, const R& want, const R& scale, double lg)
{
  if(!got.isfinite() || !want.isfinite()) return false;
  R d = r::abs(got - want);
  if(d.iszero()) return true;
  double k = d.log10abs() - scale.log10abs();
  return k <= lg;
}
bool same(const R& a, const R& b)
{ if(a == b) return true; if(!a.isfinite() || !b.isfinite()) return false; R m = r::max(r::abs(a), r::abs(b)); return (r::abs(a - b)).log10abs() - m.log10abs() < -(2.0 * D10 + 24); }
double lgerr(const R& got, const R& want, const R& scale)
{
  R d = r::abs(got - want); if(d.iszero()) return -1e9; return d.log10abs() - scale.log10abs();
}
void check_close(Ctx& c, const std::string& sig, const R& got, const R& want, const R& scale, double lg, const std::string& what)
{
  if(!got.isfinite()) throw Fail(sig + (got.isnan() ? ":nan" : ":inf"), what + " gave " + got.str() + ", expected " + want.str(60));
  double e = lgerr(got, want, scale);
  c.margin(sig, e);
  if(!(e <= lg))
    throw Fail(sig, what + " gave " + got.str(D10 + 8) + ", expected " + want.str(D10 + 8) + ", error 10^" + std::to_string(e) + " exceeds the bound 10^" + std::to_string(lg));
}

static const char* const groups[] = { "00000000", "99999999", "00000001", "10000000", "50000000", "49999999", "99999998", "00000002", "09999999", "50000001" };

static std::string digit_block(Src& s, int n)
{
  std::string d; d.reserve(n); while((int)d.size() < n) { std::uint64_t v = s.draw(1000000000000000000ULL); char b[24]; std::snprintf(b, sizeof b, "%018llu", (unsigned long long)v); d += b; } d.resize(n); return d;
}

// digits string d (first digit non zero unless zero value), leading digit at decimal exponent e
static std::string lit(bool neg, const std::string& d, long e)
{ return std::string(neg ? "-" : "") + d.substr(0, 1) + (d.size() > 1 ? "." + d.substr(1) : "") + "e" + std::to_string(e); }

e_float gen_lit(const std::string& s) { return e_float(s); }

std::string gen_literal(Src& s, Ctx& c, const GenOpt& o)
{
  const int maxd = o.maxdig ? o.maxdig : D10 + D10 / 4 + 8;
  std::size_t k = s.pick({10, 22, 26, 10, 8, 8, 8, 8});
  bool neg = false; std::string res;
  auto ex = [&]() -> long { return s.range(o.emin, o.emax); };
  switch(k)
  {
    case 0: { c.label("v:small-int"); long v = s.range(o.zero ? 0 : 1, 1000); res = std::to_string(v); if(o.emin > 3 || o.emax < 0) { res = lit(false, std::to_string(v ? v : 1), ex()); } break; }
    case 1: { c.label("v:decimal"); long n = 1 + (long)s.draw(maxd); std::string d = digit_block(s, n); if(d[0] == '0') d[0] = '1'; res = lit(false, d, ex()); break; }
    case 2:
    {
      c.label("v:limb-pattern"); int g = 1 + (int)s.draw(maxd / 8 + 1); std::string d;
      for(int i = 0; i < g; ++i) { std::uint64_t q = s.draw(12); if(q < 10) d += groups[q]; else d += digit_block(s, 8); }
      std::size_t cut = s.draw(8); d = std::string(d, cut); std::size_t nz = d.find_first_not_of('0'); if(nz == std::string::npos) d = "1"; else d = d.substr(nz);
      if((int)d.size() > maxd) d.resize(maxd);
      // align the last digit with a limb boundary (or a few digits off it)
      long e = ex(); std::size_t off = s.pick({4, 1, 1}); long last = e - (long)d.size() + 1; long al = last >= 0 ? last / 8 * 8 : -((-last + 7) / 8 * 8); if(off == 1) al += 1; if(off == 2) al -= 1;
      long e2 = al + (long)d.size() - 1; if(e2 < o.emin || e2 > o.emax) e2 = e; res = lit(false, d, e2); break;
    }
    case 3: { c.label("v:nines"); int n = 1 + (int)s.draw(maxd); std::string d(n, '9'); if(s.chance(1, 3)) d[s.draw(n)] = '8'; res = lit(false, d, ex()); break; }
    case 4: { c.label("v:pow10+tiny"); int n = 1 + (int)s.draw(maxd); std::string d = "1" + std::string(n - 1, '0'); if(s.chance(1, 2)) d[n - 1] = char('1' + s.draw(9)); res = lit(false, d, ex()); break; }
    case 5:
    { // dyadic rational, exact decimal expansion of m * 2^-k
      c.label("v:dyadic"); R v = R((long)(1 + s.draw(1000000))) * R::pow2(s.range(-120, 120)); long e; std::string d = v.digits(maxd, e); while(d.size() > 1 && d.back() == '0') d.pop_back();
      long ee = e - 1; if(ee < o.emin || ee > o.emax) ee = ex(); res = lit(false, d, ee); break;
    }
    case 6: { c.label("v:half"); int n = 1 + (int)s.draw(maxd - 1); std::string d = digit_block(s, n); if(d[0] == '0') d[0] = '1'; d += '5'; res = lit(false, d, ex()); break; }
    default: { c.label("v:int64"); unsigned long long u = gen_u64(s); if(!u) u = 1; std::string d = std::to_string(u); long e = (long)d.size() - 1; if(e < o.emin || e > o.emax) e = ex(); res = lit(false, d, e); break; }
  }
  if(o.neg) neg = s.chance(1, 2);
  if(neg) res = "-" + res;
  return res;
}
e_float gen_value(Src& s, Ctx& c, const GenOpt& o)
{
  if(o.zero && s.chance(1, 40)) { c.label("v:zero"); return e_float(); }
  std::string l = gen_literal(s, c, o);
  e_float x(l);
  // full mantissa (also for the binary backends): divide by a small odd prime sometimes
  if(s.chance(1, 4)) { static const int ps[] = {3, 7, 11, 13, 97, 99999989}; x /= (int)ps[s.draw(6)]; c.label("v:full"); }
  return x;
}
GenOpt window(Src& s, bool extreme)
{
  GenOpt o; std::size_t k = extreme ? s.pick({4, 4, 4, 3, 3}) : s.pick({5, 4, 4, 3});
  if(k == 0) { o.emin = -3; o.emax = 9; }
  else if(k == 1) { o.emin = -60; o.emax = 60; }
  else if(k == 2) { o.emin = -400; o.emax = 400; }
  else if(k == 3) { long b = s.range(-1000000, 1000000); o.emin = b - 200; o.emax = b + 200; }
  else { long m = e_float::ef_max_exp10; long b = s.chance(1, 2) ? -(m - 600) : m - 600; o.emin = b - 300; o.emax = b + 300; }
  return o;
}
static std::string literal_of(const R& v, int n) { long e; std::string d = v.digits(n, e); return lit(v.sgn() < 0, d, e - 1); }
e_float gen_related(Src& s, Ctx& c, const e_float& x)
{
  R v = toR(x); if(v.iszero()) return gen_value(s, c);
  const int full = D10 + 22;
  switch(s.pick({2, 2, 8, 3, 4, 2}))
  {
    case 0: c.label("rel:equal"); return x;
    case 1: c.label("rel:negated"); return -x;
    case 2:
    { // perturb at one decimal position
      c.label("rel:neighbour"); long e; std::string d = v.digits(full, e); std::size_t p = s.draw(full); char old = d[p]; char nw = (char)('0' + (old - '0' + 1 + s.draw(9)) % 10); d[p] = nw; if(p == 0 && nw == '0') d[p] = '1';
      bool neg = v.sgn() < 0; if(s.chance(1, 3)) neg = !neg; return e_float(lit(neg, d, e - 1));
    }
    case 3: { c.label("rel:scaled"); long e; std::string d = v.digits(full, e); long sh = s.range(-140, 140); return e_float(lit(s.chance(1, 2), d, e - 1 + sh)); }
    case 4:
    { // x plus or minus one unit at decimal position p (carry / borrow chains)
      c.label("rel:carry"); long e; v.digits(4, e); R u = R::pow10(e - 1 - (long)s.draw(full)); R w = s.chance(1, 2) ? v + u : v - u; if(s.chance(1, 3)) w = -w; if(w.iszero()) return x; return e_float(literal_of(w, full));
    }
    default: { c.label("rel:truncated"); long e; int n = 1 + (int)s.draw(full); std::string d = v.digits(n, e, true); return e_float(lit(s.chance(1, 2), d, e - 1)); }
  }
}
double gen_double(Src& s)
{
  switch(s.pick({3, 5, 4, 3, 3}))
  {
    case 0: return (double)s.range(-1000, 1000);
    case 1: { std::uint64_t u = s.draw(~0ULL); double d; std::memcpy(&d, &u, 8); if(!std::isfinite(d)) { u &= ~(1ULL << 62); std::memcpy(&d, &u, 8); } return std::isfinite(d) ? d : 1.0; }
    case 2: { double m = 1.0 + (double)s.draw(1ULL << 52) * std::ldexp(1.0, -52); double d = std::ldexp(m, (int)s.range(-70, 70)); return s.chance(1, 2) ? -d : d; }
    case 3: { static const double v[] = {0.0, 0.5, 1.0, std::numeric_limits<double>::min(), std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon(), 9007199254740992.0, 9007199254740993.0, 0.1, 1e22, 1e23, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0};
              double d = v[s.draw(15)]; return s.chance(1, 2) ? -d : d; }
    default: { // subnormals and the neighbourhood of the normal range limits
      std::uint64_t u = s.draw(1ULL << 53); double d; std::memcpy(&d, &u, 8); return s.chance(1, 2) ? -d : d; }
  }
}
long double gen_ldouble(Src& s)
{
  switch(s.pick({4, 5}))
  {
    case 0: return gen_double(s);
    default: { std::uint64_t u = s.draw(~0ULL) | (1ULL << 63); long double d = std::ldexp((long double)u, (int)s.range(-1100, 930)); return s.chance(1, 2) ? -d : d; }
  }
}
long long gen_i64(Src& s)
{
  switch(s.pick({3, 3, 3, 2}))
  {
    case 0: return s.range(-1000, 1000);
    case 1: { int sh = (int)s.draw(63); unsigned long long b = 1ULL << sh; long long v = (long long)(b + (unsigned long long)s.range(-2, 2)); return s.chance(1, 2) ? (long long)(0ULL - (unsigned long long)v) : v; }
    case 2: return (long long)s.draw(~0ULL);
    default: { static const long long v[] = {0, 1, -1, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, INT64_MIN + 1, INT64_MAX - 1, 99999999, 100000000, 100000001, -99999999, -100000000, 9999999999999999LL, 10000000000000000LL, 4294967295LL, 4294967296LL, -4294967296LL, 1000000000000000000LL}; return v[s.draw(20)]; }
  }
}
unsigned long long gen_u64(Src& s)
{
  switch(s.pick({3, 3, 3, 2}))
  {
    case 0: return s.draw(1000);
    case 1: return (1ULL << s.draw(64)) + (unsigned long long)s.range(-2, 2);
    case 2: return s.draw(~0ULL);
    default: { static const unsigned long long v[] = {0, 1, UINT32_MAX, UINT64_MAX, UINT64_MAX - 1, (1ULL << 63), (1ULL << 63) - 1, 99999999, 100000000, 100000001, 9999999999999999ULL, 10000000000000000ULL, 4294967296ULL, 10000000000000000000ULL, 18446744073700000000ULL, 999999999999999999ULL}; return v[s.draw(16)]; }
  }
}
e_float gen_in(Src& s, Ctx& c, double lo, double hi)
{
  // lo + (hi-lo) * t with t a random decimal; or a short decimal / integer inside the interval
  if(lo < 0 && hi > 0 && s.chance(1, 2)) { if(s.chance(1, 2)) lo = 0; else hi = 0; }
  switch(s.pick({3, 5, 3}))
  {
    case 0: { long a = (long)std::ceil(lo), b = (long)std::floor(hi); if(a <= b) { c.label("in:int"); return e_float((long long)s.range(a, b)); } }  /* fallthrough */
    case 1: { c.label("in:full"); std::string d = "0." + digit_block(s, D10 + 20); R t(d); R v = R(lo) + (R(hi) - R(lo)) * t; if(v.iszero()) return e_float(); return e_float(literal_of(v, D10 + 20)); }
    default: { c.label("in:short"); R t = R((long)s.draw(10001)) / R(10000); R v = R(lo) + (R(hi) - R(lo)) * t; if(v.iszero()) return e_float(); return e_float(literal_of(v, 8)); }
  }
}

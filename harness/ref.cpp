#include "ref.h"
#include <gmp.h>
#include <mpfr.h>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <cstdlib>

long R::prec = 1024;
static_assert(sizeof(mpfr_t) <= 32, "mpfr_t layout");

#define M(x)  ((mpfr_ptr)(x).h())
#define CM(x) ((mpfr_srcptr)(x).h())

namespace {
struct Guard
{
  mpfr_exp_t lo, hi;
  Guard() : lo(mpfr_get_emin()), hi(mpfr_get_emax()) { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); }
  ~Guard() { mpfr_set_emin(lo); mpfr_set_emax(hi); mpfr_clear_flags(); }
};
}

R::R() { mpfr_init2(M(*this), prec); mpfr_set_zero(M(*this), 1); }
R::R(const R& o) { Guard g; mpfr_init2(M(*this), prec); mpfr_set(M(*this), CM(o), MPFR_RNDN); }
R::R(R&& o) noexcept { std::memcpy(st, o.st, sizeof st); mpfr_init2(M(o), 2); mpfr_set_zero(M(o), 1); }
R::~R() { mpfr_clear(M(*this)); }
R& R::operator=(const R& o) { if(this != &o) { Guard g; mpfr_set_prec(M(*this), prec); mpfr_set(M(*this), CM(o), MPFR_RNDN); } return *this; }
R& R::operator=(R&& o) noexcept { if(this != &o) mpfr_swap(M(*this), M(o)); return *this; }
#define INIT Guard g; mpfr_init2(M(*this), prec)
R::R(int v) { INIT; mpfr_set_si(M(*this), v, MPFR_RNDN); }
R::R(long v) { INIT; mpfr_set_si(M(*this), v, MPFR_RNDN); }
R::R(unsigned long v) { INIT; mpfr_set_ui(M(*this), v, MPFR_RNDN); }
R::R(long long v) { INIT; mpfr_set_si(M(*this), (long)v, MPFR_RNDN); }
R::R(unsigned long long v) { INIT; mpfr_set_ui(M(*this), (unsigned long)v, MPFR_RNDN); }
R::R(double v) { INIT; mpfr_set_d(M(*this), v, MPFR_RNDN); }
R::R(long double v) { INIT; mpfr_set_ld(M(*this), v, MPFR_RNDN); }
R::R(const char* s) { INIT; mpfr_set_str(M(*this), s, 10, MPFR_RNDN); }
R::R(const std::string& s) : R(s.c_str()) {}

R R::fromLimbs2(const unsigned long* d, std::size_t n, long exp2, bool neg)
{
  Guard g; mpz_t z; mpz_init(z);
  mpz_import(z, n, -1, sizeof(unsigned long), 0, 0, d);
  R x; mpfr_set_z(M(x), z, MPFR_RNDN); mpfr_mul_2si(M(x), M(x), exp2, MPFR_RNDN);
  if(neg) mpfr_neg(M(x), M(x), MPFR_RNDN);
  mpz_clear(z); return x;
}
static void pow10_into(mpfr_ptr out, long e)
{
  // 10^|e| with guard bits, then invert if necessary
  mpfr_t t; mpfr_init2(t, mpfr_get_prec(out) + 96);
  mpfr_ui_pow_ui(t, 10UL, (unsigned long)(e < 0 ? -e : e), MPFR_RNDN);
  if(e < 0) mpfr_ui_div(out, 1UL, t, MPFR_RNDN); else mpfr_set(out, t, MPFR_RNDN);
  mpfr_clear(t);
}
R R::fromLimbs1e8(const std::uint32_t* d, std::size_t n, long exp10, bool neg)
{
  Guard g; std::string s; s.reserve(n * 8 + 1); char b[16];
  for(std::size_t i = 0; i < n; ++i) { std::snprintf(b, sizeof b, "%08u", (unsigned)d[i]); s += b; }
  mpz_t z; mpz_init_set_str(z, s.c_str(), 10);
  R x;
  if(exp10 >= 0)
  {
    if(exp10 < 2000) { mpz_t p; mpz_init(p); mpz_ui_pow_ui(p, 10, exp10); mpz_mul(z, z, p); mpz_clear(p); mpfr_set_z(M(x), z, MPFR_RNDN); }
    else { mpfr_t t; mpfr_init2(t, prec + 64); pow10_into(t, exp10); mpfr_mul_z(M(x), t, z, MPFR_RNDN); mpfr_clear(t); }
  }
  else
  {
    mpfr_t t, u; mpfr_init2(t, prec + 64); mpfr_init2(u, prec + 64);
    mpfr_ui_pow_ui(t, 10UL, (unsigned long)(-exp10), MPFR_RNDN); mpfr_set_z(u, z, MPFR_RNDN);
    mpfr_div(M(x), u, t, MPFR_RNDN); mpfr_clear(t); mpfr_clear(u);
  }
  if(neg) mpfr_neg(M(x), M(x), MPFR_RNDN);
  mpz_clear(z); return x;
}
R R::pow10(long e) { Guard g; R x; pow10_into(M(x), e); return x; }
R R::pow2(long e) { Guard g; R x; mpfr_set_ui_2exp(M(x), 1, e, MPFR_RNDN); return x; }
R R::nan() { R x; mpfr_set_nan(M(x)); return x; }
R R::inf(bool n) { R x; mpfr_set_inf(M(x), n ? -1 : 1); return x; }
bool R::isnan() const { return mpfr_nan_p(CM(*this)); }
bool R::isinf() const { return mpfr_inf_p(CM(*this)); }
bool R::isfinite() const { return mpfr_number_p(CM(*this)); }
bool R::iszero() const { return mpfr_zero_p(CM(*this)); }
bool R::isint() const { return mpfr_integer_p(CM(*this)); }
int R::sgn() const { if(isnan()) return 0; int s = mpfr_sgn(CM(*this)); return s > 0 ? 1 : (s < 0 ? -1 : 0); }
long R::exp2() const { return mpfr_get_exp(CM(*this)); }
double R::log2abs() const
{
  if(iszero()) return -INFINITY; if(isinf()) return INFINITY; if(isnan()) return NAN;
  Guard g; long e; double m = mpfr_get_d_2exp(&e, CM(*this), MPFR_RNDN); return std::log2(std::fabs(m)) + (double)e;
}
double R::log10abs() const { return log2abs() * 0.30102999566398119521; }
double R::dbl() const { Guard g; return mpfr_get_d(CM(*this), MPFR_RNDN); }
long double R::ldbl() const { Guard g; return mpfr_get_ld(CM(*this), MPFR_RNDN); }
long long R::ll() const
{
  if(isnan()) return 0; Guard g; return mpfr_get_sj(CM(*this), MPFR_RNDZ);
}
unsigned long long R::ull() const { if(isnan()) return 0; Guard g; return mpfr_get_uj(CM(*this), MPFR_RNDZ); }
std::string R::str(int nd) const
{
  if(isnan()) return "nan"; if(isinf()) return sgn() < 0 ? "-inf" : "inf"; if(iszero()) return "0";
  Guard g; mpfr_exp_t e; char* s = mpfr_get_str(nullptr, &e, 10, nd, CM(*this), MPFR_RNDN);
  std::string t(s), o; mpfr_free_str(s); std::size_t i = 0; if(t[0] == '-') { o = "-"; i = 1; }
  o += t[i]; o += '.'; o += t.substr(i + 1); while(o.size() > 2 && o.back() == '0') o.pop_back(); if(o.back() == '.') o.pop_back();
  o += "e" + std::to_string((long)e - 1); return o;
}
std::string R::digits(int n, long& e, bool tr) const
{
  Guard g; mpfr_exp_t ee; char* s = mpfr_get_str(nullptr, &ee, 10, n < 2 ? 2 : n, CM(*this), tr ? MPFR_RNDZ : MPFR_RNDN);
  std::string t(s); mpfr_free_str(s); if(t[0] == '-') t = t.substr(1); e = ee;
  if(n < 2)
  { // one digit: round by hand from a long expansion
    mpfr_exp_t e2; char* q = mpfr_get_str(nullptr, &e2, 10, 400, CM(*this), MPFR_RNDN); std::string u(q); mpfr_free_str(q); if(u[0] == '-') u = u.substr(1);
    int d = u[0] - '0'; e = e2; bool up = false;
    if(!tr) { if(u[1] > '5') up = true; else if(u[1] == '5') { up = u.find_first_not_of('0', 2) != std::string::npos || (d & 1); } }
    if(up) { ++d; if(d == 10) { d = 1; ++e; } }
    return std::string(1, char('0' + d));
  }
  return t;
}
R R::operator-() const { R x(*this); mpfr_neg(M(x), M(x), MPFR_RNDN); return x; }
R& R::operator+=(const R& o) { Guard g; mpfr_add(M(*this), CM(*this), CM(o), MPFR_RNDN); return *this; }
R& R::operator-=(const R& o) { Guard g; mpfr_sub(M(*this), CM(*this), CM(o), MPFR_RNDN); return *this; }
R& R::operator*=(const R& o) { Guard g; mpfr_mul(M(*this), CM(*this), CM(o), MPFR_RNDN); return *this; }
R& R::operator/=(const R& o) { Guard g; mpfr_div(M(*this), CM(*this), CM(o), MPFR_RNDN); return *this; }
int rcmp(const R& a, const R& b) { Guard g; return mpfr_cmp(CM(a), CM(b)); }

namespace r {
#define U1(NAME, FN) R NAME(const R& a) { Guard g; R x; FN(M(x), CM(a), MPFR_RNDN); return x; }
#define U2(NAME, FN) R NAME(const R& a, const R& b) { Guard g; R x; FN(M(x), CM(a), CM(b), MPFR_RNDN); return x; }
U1(abs, mpfr_abs) U1(sqrt, mpfr_sqrt) U1(cbrt, mpfr_cbrt) U1(exp, mpfr_exp) U1(expm1, mpfr_expm1) U1(log, mpfr_log) U1(log1p, mpfr_log1p) U1(log10, mpfr_log10)
U1(sin, mpfr_sin) U1(cos, mpfr_cos) U1(tan, mpfr_tan) U1(asin, mpfr_asin) U1(acos, mpfr_acos) U1(atan, mpfr_atan)
U1(sinh, mpfr_sinh) U1(cosh, mpfr_cosh) U1(tanh, mpfr_tanh) U1(asinh, mpfr_asinh) U1(acosh, mpfr_acosh) U1(atanh, mpfr_atanh)
R jn(long n, const R& a) { Guard g; R x; mpfr_jn(M(x), n, CM(a), MPFR_RNDN); return x; }
R yn(long n, const R& a) { Guard g; R x; mpfr_yn(M(x), n, CM(a), MPFR_RNDN); return x; }
U1(digamma, mpfr_digamma) U1(erf, mpfr_erf) U1(erfc, mpfr_erfc) U1(eint, mpfr_eint) U2(gamma_inc, mpfr_gamma_inc) U2(beta, mpfr_beta) U2(agm, mpfr_agm)
U1(gamma, mpfr_gamma) U1(lngamma, mpfr_lngamma) U1(zeta, mpfr_zeta)
U2(pow, mpfr_pow) U2(atan2, mpfr_atan2) U2(hypot, mpfr_hypot) U2(fmod, mpfr_fmod)
R rootn(const R& a, unsigned long n) { Guard g; R x; mpfr_rootn_ui(M(x), CM(a), n, MPFR_RNDN); return x; }
R powi(const R& a, long n) { Guard g; R x; mpfr_pow_si(M(x), CM(a), n, MPFR_RNDN); return x; }
R floor(const R& a) { Guard g; R x; mpfr_floor(M(x), CM(a)); return x; }
R ceil(const R& a) { Guard g; R x; mpfr_ceil(M(x), CM(a)); return x; }
R trunc(const R& a) { Guard g; R x; mpfr_trunc(M(x), CM(a)); return x; }
R pi() { Guard g; R x; mpfr_const_pi(M(x), MPFR_RNDN); return x; }
R ln2() { Guard g; R x; mpfr_const_log2(M(x), MPFR_RNDN); return x; }
R euler() { Guard g; R x; mpfr_const_euler(M(x), MPFR_RNDN); return x; }
R catalan() { Guard g; R x; mpfr_const_catalan(M(x), MPFR_RNDN); return x; }
R e() { return exp(R(1)); }
R max(const R& a, const R& b) { return a < b ? b : a; }
R min(const R& a, const R& b) { return b < a ? b : a; }
R ldexp(const R& a, long e) { Guard g; R x; mpfr_mul_2si(M(x), CM(a), e, MPFR_RNDN); return x; }
static R fromz(const mpz_t z) { Guard g; R x; mpfr_set_z(M(x), z, MPFR_RNDN); return x; }
R fac(unsigned long n) { mpz_t z; mpz_init(z); mpz_fac_ui(z, n); R x = fromz(z); mpz_clear(z); return x; }
R fac2(unsigned long n) { mpz_t z; mpz_init(z); mpz_2fac_ui(z, n); R x = fromz(z); mpz_clear(z); return x; }
R bin(unsigned long n, unsigned long k) { mpz_t z; mpz_init(z); mpz_bin_uiui(z, n, k); R x = fromz(z); mpz_clear(z); return x; }
R bernoulli(unsigned long n)
{
  if(n == 0) return R(1); if(n == 1) return R(-0.5); if(n & 1) return R(0);
  // B_n = (-1)^(n/2+1) 2 n! zeta(n) / (2 pi)^n  (MPFR's zeta is correctly rounded)
  if(n <= 1200)
  { // exactly, from Seidel's triangle of secant/tangent numbers: B_2k = (-1)^(k+1) 2k T_k / (4^k (4^k - 1))
    static std::vector<mpz_t*>* T = nullptr;
    if(!T)
    {
      const int K = 601; T = new std::vector<mpz_t*>; std::vector<mpz_t*> row; auto nz = []() { mpz_t* z = (mpz_t*)std::malloc(sizeof(mpz_t)); mpz_init(*z); return z; };
      for(int i = 0; i <= 2 * K; ++i) row.push_back(nz());
      // boustrophedon: zigzag numbers A_n; T_k = A_(2k-1)
      std::vector<mpz_t*> nx; for(int i = 0; i <= 2 * K; ++i) nx.push_back(nz()); mpz_set_ui(*row[0], 1);
      for(int m = 1; m < 2 * K; ++m) { mpz_set_ui(*nx[0], 0); for(int i = 1; i <= m; ++i) mpz_add(*nx[i], *nx[i - 1], *row[m - i]); if(m & 1) { mpz_t* t = nz(); mpz_set(*t, *nx[m]); T->push_back(t); } row.swap(nx); }
    }
    unsigned long k = n / 2; mpz_t num, den; mpz_init(num); mpz_init(den); mpz_mul_ui(num, *(*T)[k - 1], 2 * k); mpz_ui_pow_ui(den, 4, k); mpz_t d2; mpz_init(d2); mpz_sub_ui(d2, den, 1); mpz_mul(den, den, d2); R b = fromz(num) / fromz(den); mpz_clear(num); mpz_clear(den); mpz_clear(d2); return (k & 1) ? b : -b;
  }
  Guard g; long p = R::prec; Prec q(p + 64);
  R z = (n > (unsigned long)(p + 128)) ? R(1) : zeta(R((unsigned long)n));
  R b = R(2) * fac(n) * z / powi(R(2) * pi(), (long)n);
  return ((n / 2) & 1) ? b : -b;
}
} // namespace r

C operator+(const C& a, const C& b) { return C(a.re + b.re, a.im + b.im); }
C operator-(const C& a, const C& b) { return C(a.re - b.re, a.im - b.im); }
C operator-(const C& a) { return C(-a.re, -a.im); }
C operator*(const C& a, const C& b) { return C(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
C operator/(const C& a, const C& b)
{
  R n = b.re * b.re + b.im * b.im;
  return C((a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n);
}
namespace r {
R abs(const C& z) { return hypot(z.re, z.im); }
R arg(const C& z) { return atan2(z.im, z.re); }
R norm(const C& z) { return z.re * z.re + z.im * z.im; }
C exp(const C& z) { R e = exp(z.re); return C(e * cos(z.im), e * sin(z.im)); }
C log(const C& z)
{
  // accurate near |z| = 1 : log|z| = log1p(|z|^2 - 1)/2, evaluated with doubled precision
  Prec q(R::prec * 2); R a(z.re), b(z.im);
  R n = a * a + b * b;
  return C(log(n) / R(2), atan2(b, a));
}
C sqrt(const C& z)
{
  if(z.re.iszero() && z.im.iszero()) return C(R(0), R(0));
  R m = abs(z);
  R s = sqrt((abs(z.re) + m) / R(2));
  if(z.re.sgn() >= 0) return C(s, z.im / (s + s));
  return C(abs(z.im) / (s + s), z.im.sgn() < 0 ? -s : s);
}
C sin(const C& z) { return C(sin(z.re) * cosh(z.im), cos(z.re) * sinh(z.im)); }
C cos(const C& z) { return C(cos(z.re) * cosh(z.im), -(sin(z.re) * sinh(z.im))); }
C tan(const C& z) { return sin(z) / cos(z); }
C sinh(const C& z) { return C(sinh(z.re) * cos(z.im), cosh(z.re) * sin(z.im)); }
C cosh(const C& z) { return C(cosh(z.re) * cos(z.im), sinh(z.re) * sin(z.im)); }
C tanh(const C& z) { return sinh(z) / cosh(z); }
static C muli(const C& z) { return C(-z.im, z.re); }
static C divi(const C& z) { return C(z.im, -z.re); }
C asinh(const C& z)
{ // log(z + sqrt(z^2+1)), by symmetry for Re z < 0; extra precision absorbs cancellation
  Prec q(R::prec * 2);
  if(z.re.sgn() < 0 || (z.re.sgn() == 0 && z.im.sgn() < 0)) { C w = asinh(-z); return -w; }
  return log(z + sqrt(z * z + C(R(1))));
}
C asin(const C& z) { return divi(asinh(muli(z))); }
C acos(const C& z) { Prec q(R::prec * 2); C a = asin(z); return C(pi() / R(2) - a.re, -a.im); }
C atan(const C& z)
{ // (i/2) [log(1-iz) - log(1+iz)]
  Prec q(R::prec * 2); C iz = muli(z); C d = log(C(R(1)) - iz) - log(C(R(1)) + iz);
  C w = muli(d); return C(w.re / R(2), w.im / R(2));
}
C atanh(const C& z) { Prec q(R::prec * 2); C d = log(C(R(1)) + z) - log(C(R(1)) - z); return C(d.re / R(2), d.im / R(2)); }
C acosh(const C& z)
{ // log(z + sqrt(z+1) sqrt(z-1))
  Prec q(R::prec * 2); return log(z + sqrt(z + C(R(1))) * sqrt(z - C(R(1))));
}
C pow(const C& z, const C& a) { Prec q(R::prec + 256); return exp(a * log(z)); }
C powi(const C& z, long n)
{
  Prec q(R::prec + 256);
  bool neg = n < 0; unsigned long m = neg ? 0UL - (unsigned long)n : (unsigned long)n; C res(R(1)), b(z);
  while(m) { if(m & 1) res = res * b; m >>= 1; if(m) b = b * b; }
  return neg ? C(R(1)) / res : res;
}
static const std::vector<R>& bern_table(std::size_t n)
{
  static std::map<long, std::vector<R>> tabs; auto& t = tabs[R::prec];
  while(t.size() < n) t.push_back(bernoulli(2 * t.size()));
  return t;
}
C gamma(const C& z0)
{
  // Stirling with shift; reflection for Re < 1/2.
  long p = R::prec; Prec q(p + 160); C z(R(z0.re), R(z0.im));
  if(z.re < R(0.5))
  {
    C s = sin(C(pi() * z.re, pi() * z.im)); C g1 = gamma(C(R(1)) - z);
    return C(pi()) / (s * g1);
  }
  long N = (long)(p * 0.25) + 20; C prod(R(1)); C w = z;
  // shift until |w| > N
  while(abs(w) < R(N)) { prod = prod * w; w = w + C(R(1)); }
  std::size_t K = (std::size_t)(p * 0.5) + 40;
  const std::vector<R>& B = bern_table(K + 1);
  C lg = log(w); C sum = (w - C(R(0.5))) * lg - w + C(log(R(2) * pi()) / R(2));
  C iw = C(R(1)) / w, iw2 = iw * iw, t = iw; R lim = R::pow2(-(p + 100));
  for(std::size_t k = 1; k <= K; ++k)
  {
    R c = B[k] / R((long)(2 * k) * (long)(2 * k - 1)); C term(t.re * c, t.im * c); sum = sum + term; t = t * iw2;
    if(abs(term) < lim) break;
  }
  return exp(sum) / prod;
}
C zeta(const C& s0)
{
  // Euler-Maclaurin; reflection for Re < 0.
  long p = R::prec; Prec q(p + 192); C s(R(s0.re), R(s0.im));
  if(s.re.sgn() < 0)
  {
    C o = C(R(1)) - s; C hp(pi() / R(2));
    return pow(C(R(2)), s) * pow(C(pi()), s - C(R(1))) * sin(hp * s) * gamma(o) * zeta(o);
  }
  double t = std::fabs(s.im.dbl()), sr = s.re.dbl();
  long N = (long)(p * 0.2 + t + sr) + 20; std::size_t K = (std::size_t)(p * 0.35 + 40);
  const std::vector<R>& B = bern_table(K + 2);
  C sum(R(0));
  for(long n = 1; n < N; ++n) { R l = log(R(n)); sum = sum + exp(C(-(s.re * l), -(s.im * l))); }
  R lN = log(R(N)); C Ns = exp(C(-(s.re * lN), -(s.im * lN))); // N^-s
  sum = sum + Ns * C(R(N)) / (s - C(R(1))) + C(Ns.re / R(2), Ns.im / R(2));
  C f = s * Ns * C(R(1) / R(N)); // s N^{-s-1}
  R iN2 = R(1) / (R(N) * R(N)); R fact = R(2); R lim = R::pow2(-(p + 128));
  for(std::size_t k = 1; k <= K; ++k)
  {
    R c = B[k] / fact; C term(f.re * c, f.im * c); sum = sum + term;
    if(abs(term) < lim) break;
    f = f * (s + C(R((long)(2 * k - 1)))) * (s + C(R((long)(2 * k)))) * C(iN2);
    fact = fact * R((long)(2 * k + 1)) * R((long)(2 * k + 2));
  }
  return sum;
}
}

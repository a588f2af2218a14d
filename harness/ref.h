// Oracle arithmetic: a thin, opaque wrapper over MPFR (own translation unit,
// so that the prototypes declared by the library's backends never clash).
// The whole exponent range of MPFR is opened around each oracle call and
// restored afterwards, so that the library under test is not influenced.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cstdint>
#include <string>
#include <vector>

class R
{
public:
  static long prec;                 // working precision in bits (set once at start)
  R();
  R(const R&);
  R(R&&) noexcept;
  ~R();
  R& operator=(const R&);
  R& operator=(R&&) noexcept;
  R(int v);
  R(long v);
  R(unsigned long v);
  R(long long v);
  R(unsigned long long v);
  R(double v);
  R(long double v);
  explicit R(const char* s);
  explicit R(const std::string& s);

  // (-1)^neg * N * base^e with N = sum limbs (little endian 64 bit words), base 2
  static R fromLimbs2(const unsigned long* d, std::size_t n, long exp2, bool neg);
  // (-1)^neg * (big endian digits base 1e8) * 10^exp10
  static R fromLimbs1e8(const std::uint32_t* d, std::size_t n, long exp10, bool neg);
  static R pow10(long e);
  static R pow2(long e);
  static R nan();
  static R inf(bool neg);

  bool isnan() const;
  bool isinf() const;
  bool isfinite() const;
  bool iszero() const;
  bool isint() const;
  int  sgn() const;                 // -1 0 1 (nan: 0)
  long exp2() const;                // binary exponent: |x| in [2^(e-1), 2^e)
  double log2abs() const;           // approx. log2|x|, -inf for zero
  double log10abs() const;          // approx. log10|x|
  double dbl() const;               // nearest double
  long double ldbl() const;
  long long ll() const;             // truncated, saturating
  unsigned long long ull() const;   // truncated, saturating
  std::string str(int digits = 40) const; // scientific decimal, rounded to nearest
  // exactly rounded (nearest) decimal digit string of n>=1 digits and exponent e: 0.d1d2d3.. * 10^e
  std::string digits(int n, long& e, bool trunc = false) const;

  R operator-() const;
  R& operator+=(const R&);
  R& operator-=(const R&);
  R& operator*=(const R&);
  R& operator/=(const R&);
  void* h() { return st; }
  const void* h() const { return st; }
private:
  alignas(16) unsigned char st[32];
};
inline R operator+(R a, const R& b) { a += b; return a; }
inline R operator-(R a, const R& b) { a -= b; return a; }
inline R operator*(R a, const R& b) { a *= b; return a; }
inline R operator/(R a, const R& b) { a /= b; return a; }
int  rcmp(const R&, const R&);
inline bool operator<(const R& a, const R& b)  { return rcmp(a,b) < 0; }
inline bool operator>(const R& a, const R& b)  { return rcmp(a,b) > 0; }
inline bool operator<=(const R& a, const R& b) { return rcmp(a,b) <= 0; }
inline bool operator>=(const R& a, const R& b) { return rcmp(a,b) >= 0; }
inline bool operator==(const R& a, const R& b) { return rcmp(a,b) == 0; }
inline bool operator!=(const R& a, const R& b) { return rcmp(a,b) != 0; }

namespace r {
R abs(const R&); R sqrt(const R&); R cbrt(const R&); R rootn(const R&, unsigned long);
R exp(const R&); R expm1(const R&); R log(const R&); R log1p(const R&); R log10(const R&);
R pow(const R&, const R&); R powi(const R&, long);
R sin(const R&); R cos(const R&); R tan(const R&);
R asin(const R&); R acos(const R&); R atan(const R&); R atan2(const R&, const R&);
R sinh(const R&); R cosh(const R&); R tanh(const R&); R asinh(const R&); R acosh(const R&); R atanh(const R&);
R gamma(const R&); R lngamma(const R&); R zeta(const R&); R hypot(const R&, const R&);
R digamma(const R&); R erf(const R&); R erfc(const R&); R eint(const R&); R gamma_inc(const R&, const R&); R beta(const R&, const R&); R agm(const R&, const R&); R jn(long, const R&); R yn(long, const R&);
R floor(const R&); R ceil(const R&); R trunc(const R&); R fmod(const R&, const R&);
R pi(); R ln2(); R euler(); R catalan(); R e();
R max(const R&, const R&); R min(const R&, const R&);
R ldexp(const R&, long e);
R fac(unsigned long n);            // n!  (exact integer rounded to prec)
R fac2(unsigned long n);           // n!!
R bin(unsigned long n, unsigned long k);
R bernoulli(unsigned long n);      // B_n
// run f at a temporarily different precision
struct Prec { long old; explicit Prec(long p) : old(R::prec) { R::prec = p; } ~Prec() { R::prec = old; } };
}

// complex oracle
struct C
{
  R re, im;
  C() {}
  C(const R& a) : re(a), im(0) {}
  C(const R& a, const R& b) : re(a), im(b) {}
};
C operator+(const C&, const C&); C operator-(const C&, const C&);
C operator*(const C&, const C&); C operator/(const C&, const C&); C operator-(const C&);
namespace r {
R abs(const C&); R arg(const C&); R norm(const C&);
C exp(const C&); C log(const C&); C sqrt(const C&); C sin(const C&); C cos(const C&); C tan(const C&);
C sinh(const C&); C cosh(const C&); C tanh(const C&);
C asin(const C&); C acos(const C&); C atan(const C&); C asinh(const C&); C acosh(const C&); C atanh(const C&);
C pow(const C&, const C&); C powi(const C&, long);
C gamma(const C&); C zeta(const C&);
}
#endif

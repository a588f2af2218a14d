// Generators of e_float values, observation of e_float values by the oracle.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "core.h"
#include "ref.h"
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include <string>

constexpr int D10 = e_float::ef_digits10;

#if defined(E_FLOAT_TYPE_EFX)
constexpr bool is_efx = true, is_gmp = false, is_mpfr = false;
#elif defined(E_FLOAT_TYPE_GMP)
constexpr bool is_efx = false, is_gmp = true, is_mpfr = false;
#else
constexpr bool is_efx = false, is_gmp = false, is_mpfr = true;
#endif

R toR(const e_float& x);            // the exact value held by x (nan / inf / finite), through the guarded hook
std::string show(const e_float& x); // short rendering for messages (by the oracle, not by the library)
std::string show(const R& x);

enum Shape { Small, Decimal, Limbs, Nines, PowTen, Dyadic, Dbl, Int64, Full };
struct GenOpt
{
  long emin = -60, emax = 60;     // decimal exponent window of the leading digit
  bool zero = true, neg = true;
  int  maxdig = 0;                // 0: up to 130 % of the digits
};
// a decimal literal, structured; label receives the shape
std::string gen_literal(Src& s, Ctx& c, const GenOpt& o = GenOpt());
e_float gen_value(Src& s, Ctx& c, const GenOpt& o = GenOpt());
// exponent windows
GenOpt window(Src& s, bool extreme = false);
// a value strictly related to x (equal, negated, neighbour at some digit, scaled by a power of ten, ...)
e_float gen_related(Src& s, Ctx& c, const e_float& x);
double gen_double(Src& s);          // any finite double, structured (including subnormal, zero, huge)
long double gen_ldouble(Src& s);
long long gen_i64(Src& s);
unsigned long long gen_u64(Src& s);
// real number uniformly in [lo, hi] given as rational grid or decimals, e.g. for function arguments
e_float gen_in(Src& s, Ctx& c, double lo, double hi);
e_float gen_lit(const std::string& s);

// |got-want| <= 10^lg * scale ?
bool within(const R& got, const R& want, const R& scale, double lg);
bool same(const R& a, const R& b);           // equal up to the rounding of the oracle itself
// within 10^-10 of one but not a decimal of D10 places: the difference to one is not known to D10 digits
inline bool fuzzy_near_one(const R& v) { R w = v * R::pow10(D10); return r::abs(v - R(1)) < R::pow10(-10) && r::floor(w) != w; }
double lgerr(const R& got, const R& want, const R& scale);   // log10(|got-want|/scale)

#define REQUIRE(COND, SIG, MSG) do { if(!(COND)) throw Fail(std::string(SIG), std::string(MSG)); } while(0)
// accuracy check with margin accounting
void check_close(Ctx& c, const std::string& sig, const R& got, const R& want, const R& scale, double lg, const std::string& what);
inline void check_rel(Ctx& c, const std::string& sig, const R& got, const R& want, double lg, const std::string& what) { check_close(c, sig, got, want, r::abs(want), lg, what); }

inline std::string tos(long long v) { return std::to_string(v); }
#endif

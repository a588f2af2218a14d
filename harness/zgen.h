// Generators and checks for complex values.
#ifndef VERIF_ZGEN_H
#define VERIF_ZGEN_H
#include "gen.h"
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions_complex.h>
typedef ef::complex<e_float> Z;
inline C toC(const Z& z) { return C(toR(z.real()), toR(z.imag())); }
inline std::string show(const Z& z) { return "(" + show(z.real()) + "," + show(z.imag()) + ")"; }
inline std::string show(const C& z) { return "(" + z.re.str() + "," + z.im.str() + ")"; }
// absolute value without squaring tiny or huge parts away: MPFR hypot with its own exponent range
inline double zerr(const C& got, const C& want, const R& scale) { R d = r::abs(got - want); if(d.iszero()) return -1e6; return d.log10abs() - scale.log10abs(); }
inline void check_z(Ctx& c, const std::string& sig, const Z& g, const C& want, const R& scale, double lg, const std::string& what)
{
  C got = toC(g); if(!got.re.isfinite() || !got.im.isfinite()) throw Fail(sig + ":nonfinite", what + " gave " + show(g) + ", expected " + show(want));
  double e = zerr(got, want, scale); c.margin(sig, e); if(!(e <= lg)) throw Fail(sig, what + " gave (" + got.re.str(D10 + 6) + "," + got.im.str(D10 + 6) + "), expected (" + want.re.str(D10 + 6) + "," + want.im.str(D10 + 6) + "), error 10^" + std::to_string(e) + " exceeds 10^" + std::to_string(lg));
}
inline void check_zr(Ctx& c, const std::string& sig, const Z& g, const C& want, double lg, const std::string& what) { check_z(c, sig, g, want, r::abs(want), lg, what); }
// a complex value: general, real, imaginary, on a diagonal, parts of very different size
inline Z gen_z(Src& s, Ctx& c, const GenOpt& o)
{
  e_float a = gen_value(s, c, o);
  switch(s.pick({6, 2, 2, 2, 2}))
  {
    case 0: return Z(a, gen_value(s, c, o));
    case 1: c.label("z:real"); return Z(a);
    case 2: c.label("z:imag"); return Z(e_float(0), a);
    case 3: c.label("z:diagonal"); return Z(a, s.chance(1, 2) ? a : -a);
    default: { c.label("z:uneven"); e_float t(R(R::pow10(-(long)s.range(1, 150))).str(3)); return s.chance(1, 2) ? Z(a, a * t) : Z(a * t, a); }
  }
}
#endif

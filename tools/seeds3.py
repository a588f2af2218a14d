import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed as S
E='e_float/efx/e_float_efx.cpp'; G='e_float/gmp/e_float_gmp.cpp'; M='e_float/mpfr/e_float_mpfr.cpp'; B='e_float/e_float_base.cpp'

BIGDEMO="""#!/bin/bash
# Compiles the library and demo.cpp for %(b)s with 8168 digits and runs the demo.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
F="-std=c++14 -w -DE_FLOAT_TYPE_%(B)s -DE_FLOAT_VERIF_HOOKS -DE_FLOAT_VERIF_DIGITS10=8168 -Ilibs/e_float/src -Ilibs/e_float"
export F tmp
(find libs/e_float/src/e_float/%(b)s libs/e_float/src/functions -name '*.cpp'; ls libs/e_float/src/e_float/*.cpp; find libs/e_float/src/utility -name '*.cpp'; echo "$here/demo.cpp") |
  xargs -P 8 -I{} bash -c 'o=-O2; case {} in */tables/*) o=-O0;; esac; g++ $F $o -c {} -o "$tmp/$(echo {} | tr / _).o" || exit 255' || exit 2
g++ "$tmp"/*.o -o "$tmp/demo" || exit 2
timeout 200 "$tmp/demo"
"""
S('M01-fft-guard-limbs','M01','efx',
 [(E,'    if(n_fft >= static_cast<std::uint32_t>(p * 2))','    if(n_fft >= static_cast<std::uint32_t>((p - 3) * 2))')],
 """  const e_float a(std::string("9.") + std::string(8160U, '9') + "87654");
  const e_float b(std::string("7.") + std::string(8160U, '3') + "21987");
  // (a + 1)(b + 1) - ab = a + b + 1
  const e_float d((((a + 1) * (b + 1)) - (a * b)) - ((a + b) + 1));
  expect(ef::fabs(d) < e_float("1e-8100"), "distributive law with full-length operands");
  const e_float t(e_float(1) / 3);
  expect(ef::fabs((t * t) - (e_float(1) / 9)) < e_float("1e-8100"), "square of a third");""",
 'efx at digit settings whose limb count is one to three above a power of two (for example 8168 digits), where the fast Fourier transform is used',
 'the cyclic convolution wraps the lowest limbs of the product around to its highest ones', demo_sh=BIGDEMO)

S('X04-zeta-negative-imaginary','X04','efx',
 [('functions/zeta/zeta.cpp','const double ni = static_cast<double>(1.10 * fabs(to_double(imag(s))));','const double ni = static_cast<double>(1.10 * to_double(imag(s)));')],
 """  const ef::complex<e_float> zp = ef::riemann_zeta(ef::complex<e_float>(ef::half(),  e_float(40)));
  const ef::complex<e_float> zm = ef::riemann_zeta(ef::complex<e_float>(ef::half(), -e_float(40)));
  expect(near(zp.real(), zm.real(), 90) && near(zp.imag(), -zm.imag(), 90), "conjugate arguments");
""",
 'a complex argument in the lower half plane',
 'too few terms are used, the result loses most digits')

S('U01-bisect-exact-root','U01','efx',
 [('utility/util_find_root_bisect.h','          if(f_mid <= t_zero)','          if(f_mid < t_zero)')],
 """  struct F : public Util::FindRootBisect<e_float>
  {
    e_float c;
    F(const e_float& lo, const e_float& hi, const e_float& root) : Util::FindRootBisect<e_float>(lo, hi, e_float("1e-40")), c(root) { }
    virtual ~F() { }
    virtual e_float my_function(const e_float& x) const { return x - c; }
  };
  expect(near(F(e_float(0), e_float(4), e_float(3)).operation(), e_float(3), 30), "root at a midpoint");
  expect(near(F(e_float(0), e_float(4), ef::pi()).operation(), ef::pi(), 30), "root elsewhere");""",
 'a function whose value is exactly zero at one of the midpoints',
 'the left end of the current interval is returned as the root', pre='#include <utility/util_find_root_bisect.h>')

S('U01-trapezoid-early-stop','U01','efx',
 [('utility/util_trapezoid.h','          if((k > static_cast<std::int32_t>(3)) && (delta < RangedFunctionOperation<T>::eps))','          if((k > static_cast<std::int32_t>(1)) && (delta < RangedFunctionOperation<T>::eps))')],
 """  struct F : public Util::RecursiveTrapezoidRule<e_float>
  {
    F() : Util::RecursiveTrapezoidRule<e_float>(ef::zero(), ef::one(), e_float("1e-6")) { }
    virtual ~F() { }
    // constant at the points of the first three levels
    virtual e_float my_function(const e_float& x) const { const e_float s = ef::sin(x * ef::pi() * 8); return ef::one() + (s * s); }
  };
  expect(near(F().operation(), e_float(3) / 2, 3), "integral of 1 + sin^2(8 pi x)");""",
 'an integrand that is constant on the points of the first levels of refinement but not between them',
 'the integral is taken from too few points', pre='#include <utility/util_trapezoid.h>')

S('U02-move-assign-swap','U02','efx',
 [('utility/util_dynamic_array.h',"""      dynamic_array& operator=(dynamic_array&& other)
      {
        // Destroy the elements and deallocate the range.
        pointer p = elems;

        allocator_type my_a;

        while(p != elems + elem_count)
        {
          std::allocator_traits<allocator_type>::destroy(my_a, p);

          ++p;
        }

        std::allocator_traits<allocator_type>::deallocate(my_a, elems, elem_count);

        elem_count = other.elem_count;
        elems      = other.elems;

        other.elem_count = 0U;
        other.elems      = nullptr;
""","""      dynamic_array& operator=(dynamic_array&& other)
      {
        // Exchange the elements. The other array destroys them later.
        swap(other);
""")],
 """  typedef util::dynamic_array<T> A;
  A a(7U);
  A b(3U);
  a = static_cast<A&&>(b);
  expect(a.size() == 3U, "size after the assignment");
  expect(b.empty() && (b.begin() == b.end()), "the moved-from array is empty");
  expect(T::n == 3, "the elements of the target are destroyed");""",
 'move assignment to a non-empty array',
 'the moved-from array holds the old elements of the target instead of being empty, they live on', pre='#include <utility/util_dynamic_array.h>\nstruct T { static int n; T() { ++n; } T(const T&) { ++n; } ~T() { --n; } };\nint T::n = 0;')

S('B01-long-double-ctor','B01','efx',
 [('libs/math/include/boost/math/bindings/e_float.hpp','e_float(FloatingPointType f) : m_value(::e_float(static_cast<long double>(f))) { }','e_float(FloatingPointType f) : m_value(::e_float(static_cast<double>(f))) { }')],
 """  typedef boost::multiprecision::number<boost::math::ef::e_float, boost::multiprecision::et_off> N;
  const N a(0.1L);
  const N b(0.25);
  expect(near(a.backend().crepresentation(), e_float(0.1L), 90), "construction from long double");
  expect(b.backend().crepresentation() == e_float(0.25), "construction from double");
  const N c(N(1.0e1000L) / N(1.0e999L));
  expect(near(c.backend().crepresentation(), e_float(10), 15), "construction from a large long double");""",
 'construction from a long double with more than 53 significant bits or outside the range of double',
 'the value is rounded to double (or becomes infinity)', pre='#include <boost/version.hpp>\n#include <boost/math/bindings/e_float.hpp>')

S('C04-pow2-int32','C04','efx',
 [('functions/elementary/elementary_trans.cpp','else             { return ef::pow(e_float(2U), p); }','else             { return ef::pow(e_float(2U), static_cast<std::int32_t>(p)); }')],
 """  const std::int64_t n = INT64_C(3) << 31;
  const e_float a(ef::pow2(n));
  const e_float b(ef::pow2(INT64_C(1) << 30));
  const e_float b2(b * b);
  expect(near(a, (b2 * b2) * b2, 80), "pow2(3 2^31)");
  expect(near(ef::pow2(-n) * a, ef::one(), 80), "pow2(-3 2^31)");""",
 'exponents above the range of 32 bits',
 'the power is that of the truncated exponent')

S('C03-decimal-part-stale-limbs','C03','efx',
 [(E,'      std::fill(x.my_data.begin() + static_cast<std::ptrdiff_t>(ef_elem_number - sj),','      std::fill(x.my_data.begin() + first_clear,')],
 """  const e_float third(ef::one() / 3);
  const e_float tiny(third * e_float("1e-64"));
  const e_float x(e_float(7) + tiny);
  expect(ef::integer_part(x) == e_float(7), "integer part");
  expect(ef::decimal_part(x) == (x - e_float(7)), "decimal part of 7.000...333");
  expect(ef::decimal_part(e_float("12.75")) == e_float("0.75"), "decimal part of 12.75");
  expect(near(ef::decimal_part(-(e_float(1000) + third)), -third, 90), "decimal part of -1000 1/3");""",
 'a number with many zero digits (17 or more) behind the decimal point and a long fraction behind them',
 'the decimal part keeps stale limbs behind its true digits')

S('A01-carry-from-nines','A01','efx',
 [(E,'carry  = t / static_cast<std::uint32_t>(ef_elem_mask);\n      p_u[j] = static_cast<std::uint32_t>(t - static_cast<std::uint32_t>(carry * static_cast<std::uint32_t>(ef_elem_mask)));\n    }\n\n    if(b_copy)',
     'carry  = static_cast<std::uint32_t>(p_u[j] + p_v[j]) / static_cast<std::uint32_t>(ef_elem_mask);\n      p_u[j] = static_cast<std::uint32_t>(t - static_cast<std::uint32_t>(carry * static_cast<std::uint32_t>(ef_elem_mask)));\n    }\n\n    if(b_copy)')],
 """  const e_float a("3.000000009999999950000000"), b("4.000000000000000050000000");
  expect((a + b) == e_float("7.00000001"), "carry through a group of nines");
  expect((b + a) == e_float("7.00000001"), "carry through a group of nines, exchanged");
  expect(((-a) + (-b)) == e_float("-7.00000001"), "carry through a group of nines, negative");
  expect((a + e_float("5e-17")) == e_float("3.0000000100000000"), "carry into a group of nines");
  expect((ef::one() / 3) + (ef::two() / 3) <= ef::one(), "a third and two thirds");""",
 'efx; addition of numbers of the same sign where a carry enters a group of eight digits whose sum is exactly 99999999',
 'the carry is not passed on, the stored group is 100000000 and comparisons and printed digits are wrong')

S('P01-zeta-shared-powers','P01','efx',
 [('functions/zeta/zeta.cpp','    std::map<std::uint32_t, T> n_pow_s_prime_factor_map;',
 """    // Keep it for the next call as long as the argument does not change.
    static std::map<std::uint32_t, T> n_pow_s_prime_factor_map;

    static std::pair<double, double> last_arg(0.0, 0.0);

    const std::pair<double, double> this_arg(to_double(real(s)), to_double(TR(imag(s))));

    if(this_arg != last_arg)
    {
      n_pow_s_prime_factor_map.clear();

      last_arg = this_arg;
    }""")],
 """  const e_float x(e_float(19) / 2);
  const e_float y(x + e_float("1e-40"));
  ef::riemann_zeta(x);
  const e_float z1 = ef::riemann_zeta(y);
  ef::riemann_zeta(e_float(15) / 2);
  const e_float z2 = ef::riemann_zeta(y);
  expect(z1 == z2, "the value does not depend on the call before");
""",
 'a call that follows a call with a different argument whose value as double is the same',
 'the result of the earlier argument is returned for the later one')

S('R01-nonfinite-destructor','R01','gmp',
 [(G,"""gmp::e_float::~e_float()
{
  if(my_rop[0U]._mp_d != nullptr)""","""gmp::e_float::~e_float()
{
  // Infinity and NaN have no digits to release.
  if((my_rop[0U]._mp_d != nullptr) && isfinite())""")],
 """  const e_float inf(std::numeric_limits<e_float>::infinity());
  const e_float nan(std::numeric_limits<e_float>::quiet_NaN());
  blocks = 0;
  for(int i = 0; i < 1000; ++i) { const e_float a(i); const e_float b(a + 1); const e_float c(b / 3); }
  expect(blocks == 0, "finite values");
  for(int i = 0; i < 1000; ++i) { const e_float a(inf); const e_float b(nan + a); e_float c(i); c = a; }
  expect(blocks == 0, "infinity and NaN");""",
 'gmp; destruction of objects that hold infinity or NaN',
 'the memory of the object is lost', pre="""#include <cstdlib>
extern "C" void __gmp_set_memory_functions(void* (*)(std::size_t), void* (*)(void*, std::size_t, std::size_t), void (*)(void*, std::size_t));
static long blocks = 0;
static void* ga(std::size_t n) { ++blocks; return std::malloc(n); }
static void* gr(void* p, std::size_t, std::size_t n) { return std::realloc(p, n); }
static void gf(void* p, std::size_t) { --blocks; std::free(p); }
static struct Install { Install() { __gmp_set_memory_functions(ga, gr, gf); } } install;""")

S('G03-frexp10-exponent-digits','G03','efx',
 [('generic_functions/elementary/generic_functions_elementary.h','[E]([+|-]{1}[0-9]+)"','[E]([+|-]{1}[0-9]{2,3})"')],
 """  std::int64_t n = 0;
  const double m = generic_functions::frexp10<e_float>(e_float("1.25e300"), &n);
  expect(n == 300 && m == 1.25, "frexp10 of 1.25e300");
  n = 0;
  const double k = generic_functions::frexp10<e_float>(e_float("-1.25e-3000"), &n);
  expect(n == -3000 && k == -1.25, "frexp10 of -1.25e-3000");""",
 'a value whose decimal exponent has four or more digits',
 'mantissa and exponent are not found, roots start from zero', pre='#include <generic_functions/elementary/generic_functions_elementary.h>')


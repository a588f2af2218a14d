import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed as S
B='e_float/e_float_base.cpp'; X='e_float/e_float_complex.h'
W=sys.argv[1:]
def want(i): return not W or i in W

if want('X01-unsigned-subtract'): S('X01-unsigned-subtract','X01','efx',
 [(X,"""      complex& operator-=(const IntegralType n)
      {
        c__my_re.sub_unsigned_long_long(n);
""","""      complex& operator-=(const IntegralType n)
      {
        c__my_re.sub_signed_long_long(n);
""")],
 """  ef::complex<e_float> z(e_float(1), e_float(2));
  z -= 18446744073709551615ULL;
  expect(z.real() == e_float("-18446744073709551614") && z.imag() == e_float(2), "z -= 2^64 - 1");
  ef::complex<e_float> y(e_float(1), e_float(2));
  y -= 5U;
  expect(y.real() == e_float(-4), "z -= 5");
""",
 'subtraction of an unsigned 64-bit integer of at least 2^63 from a complex value',
 'the integer is taken as negative and is added instead')

if want('S03-long-token'): S('S03-long-token','S03','efx',
 [(B,"""  std::string str;

  static_cast<void>(is >> str);

  static_cast<void>(f.rd_string(str.c_str()));
""","""  // The longest representation has a sign, all digits, a decimal point and an exponent.
  char str[256U] = { static_cast<char>(0) };

  is.width(static_cast<std::streamsize>(sizeof(str)));

  static_cast<void>(is >> str);

  static_cast<void>(f.rd_string(str));
""")],
 """  const e_float x = ef::pow(ef::ten(), static_cast<std::int64_t>(400)) / static_cast<std::int32_t>(7);
  std::stringstream s;
  s << std::fixed << std::setprecision(10) << x << " 42";
  e_float y; int n = 0;
  s >> y >> n;
  expect(near(y, x, 90), "a value written in fixed notation is read back");
  expect(n == 42, "the item after it");
  std::stringstream t; t << std::setprecision(50) << (e_float(1) / static_cast<std::int32_t>(7)) << " 43"; t >> y >> n;
  expect(near(y, e_float(1) / static_cast<std::int32_t>(7), 45) && n == 43, "short text");
""",
 'a text of more than 255 characters, such as a large value in fixed notation, read from a stream',
 'the value is cut off and the rest of the text is left in the stream')
P='../../math/include/boost/math/bindings/e_float.hpp'
if want('B02-convert-unsigned'): S('B02-convert-unsigned','B02','efx',
 [(P,"""    *result = (val.crepresentation()).extract_unsigned_long_long();
""","""    *result = static_cast<unsigned long long>((val.crepresentation()).extract_signed_long_long());
""")],
 """  typedef boost::multiprecision::number<boost::math::ef::e_float, boost::multiprecision::et_off> N;
  expect(N("18446744073709551615").convert_to<unsigned long long>() == 18446744073709551615ULL, "2^64 - 1");
  expect(N("9223372036854775813.5").convert_to<unsigned long long>() == 9223372036854775813ULL, "2^63 + 5.5");
  expect(N("9223372036854775807").convert_to<unsigned long long>() == 9223372036854775807ULL && N(7).convert_to<unsigned long long>() == 7ULL, "small");
""",
 'conversion of a value of at least 2^63 to an unsigned 64-bit integer',
 'the result is 2^63 - 1', pre='#include <boost/math/bindings/e_float.hpp>\n')

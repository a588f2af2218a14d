import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
E='e_float/efx/e_float_efx.cpp'
def S(*a,**k): seed(*a,**k)

S('E01-sqrt-perfect-square','E01','efx',
 [(E,'''  if(iszero() || isone())
  {
    return *this;
  }

  // Use the original value of *this for iteration below.
  e_float x(*this);

  // Generate the initial estimate using division.
  // Extract the mantissa and exponent for a "manual"
  // computation of the estimate.
  double       dd;
  std::int64_t ne;

  extract_parts(dd, ne);''','''  if(iszero() || isone())
  {
    return *this;
  }

  // The square roots of perfect squares are known exactly.
  if(isint() && (*this < ef::signed_long_long_max()))
  {
    const double this_as_double = static_cast<double>(extract_signed_long_long());
    const double root_as_double = std::floor(std::sqrt(this_as_double) + 0.5);

    if((root_as_double * root_as_double) == this_as_double)
    {
      return (*this = e_float(static_cast<unsigned long long>(root_as_double)));
    }
  }

  // Use the original value of *this for iteration below.
  e_float x(*this);

  // Generate the initial estimate using division.
  // Extract the mantissa and exponent for a "manual"
  // computation of the estimate.
  double       dd;
  std::int64_t ne;

  extract_parts(dd, ne);''')],
 '''  const e_float n(static_cast<unsigned long long>(1000000007ULL * 1000000007ULL));
  expect(near(ef::sqrt(n), e_float(1000000007ULL), 80), "sqrt of a perfect square");
  const e_float s = ef::sqrt(n + ef::one());
  expect(near(s * s, n + ef::one(), 80), "sqrt of a perfect square plus one");''',
 'efx back end; an integer between 2^53 and 2^63 next to, but not equal to, a perfect square',
 'the square root is the root of the neighbouring perfect square')

S('E02-exp-integer-wide','E02','efx',
 [('functions/elementary/elementary_trans.cpp','''  if(ef::isint(x))
  {
    return ef::detail::pown_template(ef::e(), ef::to_int64(x));
  }''','''  if(ef::isint(x))
  {
    return ef::detail::pown_template(ef::e(), static_cast<std::int64_t>(static_cast<std::int16_t>(ef::to_int64(x))));
  }''')],
 '''  const e_float h("20000.5");
  expect(near(ef::exp(e_float(40001)), ef::exp(h) * ef::exp(h), 80), "exp(40001)");
  expect(near(ef::exp(e_float(-40001)) * ef::exp(h) * ef::exp(h), ef::one(), 80), "exp(-40001)");
  expect(near(ef::exp(e_float(3)), ef::exp(ef::half()) * ef::exp(e_float("2.5")), 80), "exp(3)");''',
 'back end without its own exp; an integer argument above 32767 in magnitude',
 'exp of large integers is exp of the argument modulo 2^16')

S('E06-acosh-large-arg','E06','efx',
 [('functions/elementary/elementary_trans.cpp','''    return ef::log(x + ef::sqrt((x * x) - ef::one()));
  }''','''    // The square root is not distinguishable from the argument for large arguments.
    return ((x.order() > static_cast<std::int64_t>(ef::tolerance() / 3)) ? ef::log(ef::two() * x) : ef::log(x + ef::sqrt((x * x) - ef::one())));
  }''')],
 '''  const e_float x("3e40");
  const e_float y = ef::acosh(x);
  // cosh(y) - exp(y)/2 = exp(-y)/2 has to be seen in the argument.
  const e_float want = ef::log(x + ef::sqrt((x * x) - ef::one()));
  expect(near(y, want, 99), "acosh(3e40)");''',
 'back end without its own acosh; an argument between about 10^37 and 10^50',
 'acosh has only about 75 to 100 correct digits')

S('G02-binomial-table-digit','G02','efx',
 [('functions/tables/A007318.cpp','e_float("389554010753253845148548774543203900"),\n      e_float("1273946900030911223323632478911558700"),\n      e_float("4022990210623930178916734143931238000"),\n      e_float("12275277822160197212592086234046598000"),','e_float("389554010753253845148548774543203900"),\n      e_float("1273946900030911223323632478911558700"),\n      e_float("4022990210623930187916734143931238000"),\n      e_float("12275277822160197212592086234046598000"),')],
 '''  for(std::uint32_t n = 100U; n < 161U; ++n)
  {
    e_float v(1U);
    for(std::uint32_t k = 1U; k <= n; ++k)
    {
      v *= e_float(n - k + 1U);
      v /= e_float(k);
      expect(near(ef::binomial(n, k), v, 90), "binomial coefficient");
    }
  }''',
 'one single pair (n, k) with n = 157',
 'one entry of the table of binomial coefficients has a wrong digit')

S('G01-gamma-small-threshold','G01','efx',
 [('functions/gamma/pochhammer.cpp','''        for(std::uint32_t i = static_cast<std::uint32_t>(1U); i < n; i++)
        {
          term += TR(1U);

          val *= term;
        }''','''        for(std::uint32_t i = static_cast<std::uint32_t>(1U); i < n; i++)
        {
          term += TR(1U);

          // The product remains zero.
          if(order_of(abs(real(term))) < static_cast<std::int64_t>(-40)) { return T(0U); }

          val *= term;
        }'''),
  ('functions/gamma/pochhammer.cpp','''    using ef::one;

    if(n == static''','''    using ef::one;
    using ef::abs;
    using ef::order_of;

    if(n == static''')],
 '''  const e_float d("1e-45");
  const e_float p = ef::pochhammer(e_float(-3) + d, static_cast<std::uint32_t>(6U));
  expect(near(p / (e_float(-12) * d), ef::one(), 40), "(-3 + 1e-45)_6");''',
 'the first argument is closer than 10^-40 to a negative integer, and less than 50 factors',
 'the product is zero')

S('H01-2f1-slow-convergence','H01','gmp',
 [('functions/elementary/elementary_hyper_g.cpp','''    pochham_c *= ++cp;

    const e_float term = ((pochham_a * pochham_b) / pochham_c) * x_pow_n_div_n_fact;

    if(ef::iszero(term))
    {
      // The series terminates or its terms are negligibly small.
      break;
    }

    if(n > static_cast<std::int32_t>(20))
    {
      const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F1.order());

      if(order_check < -ef::tolerance())''','''    pochham_c *= ++cp;

    const e_float term = ((pochham_a * pochham_b) / pochham_c) * x_pow_n_div_n_fact;

    if(ef::iszero(term))
    {
      // The series terminates or its terms are negligibly small.
      break;
    }

    if(n > static_cast<std::int32_t>(20))
    {
      const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F1.order());

      if(order_check < -((n < static_cast<std::int32_t>(500)) ? ef::tolerance() : (ef::tolerance() / 2)))''')],
 '''  // 2F1(1, 1; 2; x) = -log(1 - x) / x
  const e_float x("0.9");
  const e_float want = -ef::log(ef::one() - x) / x;
  expect(near(ef::hypergeometric_2f1(ef::one(), ef::one(), ef::two(), x), want, 90), "2F1(1, 1; 2; 0.9)");
  const e_float y("0.5");
  expect(near(ef::hypergeometric_2f1(ef::one(), ef::one(), ef::two(), y), -ef::log(ef::one() - y) / y, 90), "2F1(1, 1; 2; 0.5)");''',
 'a series that needs more than 500 terms (argument above about 0.8)',
 'the sum has only about half of the digits')

S('K01-khinchin-late-digits','K01','efx',
 [('functions/constants/constants.cpp','52002801141174931847697995153465905288090082897677716410963051792533483259668381852315421332119499626039328522044819',None)] if 0 else None,
 '', '', '') if 0 else None

S('C01-gmp-long-double-fast','C01','gmp',
 [('e_float/gmp/e_float_gmp.cpp','''  // Create an e_float from the fractional part of the
  // mantissa expressed as an unsigned long long.
  from_unsigned_long_long(fb.get_mantissa());

  // Scale the''','''  // No scaling is needed if the exponent vanishes.
  if(fb.get_exponent() == 0)
  {
    ::mpf_init_set_d(my_rop, static_cast<double>(l));

    return;
  }

  // Create an e_float from the fractional part of the
  // mantissa expressed as an unsigned long long.
  from_unsigned_long_long(fb.get_mantissa());

  // Scale the''')],
 '''  const long double x = 1.0L + std::numeric_limits<long double>::epsilon();
  expect(e_float(x) > ef::one(), "1 + epsilon of long double");
  expect(near(e_float(x) - ef::one(), ef::pow2(-63), 60), "1 + epsilon of long double");
  expect(e_float(-1.5L) == -e_float(3) / 2, "-1.5");''',
 'gmp back end; a long double whose exponent is zero and that has more than 53 significant bits',
 'the low bits of the long double are lost')

S('A05-efx-assign-leading','A05','efx',
 [(E,'''  if(this != &v)
  {
    my_data      = v.my_data;
    my_exp       = v.my_exp;
    my_neg       = v.my_neg;
    my_fpclass   = v.my_fpclass;
    my_prec_elem = v.my_prec_elem;
  }

  return *this;''','''  if(this != &v)
  {
    my_exp       = v.my_exp;
    my_neg       = v.my_neg;
    my_fpclass   = v.my_fpclass;
    my_prec_elem = v.my_prec_elem;

    // Only the limbs up to the last one which is not zero need to be copied.
    const auto it_last = std::find_if(v.my_data.crbegin(),
                                      v.my_data.crend(),
                                      [](const array_type::value_type& d) -> bool { return (d != static_cast<array_type::value_type>(0U)); });

    const auto it_end = std::copy(v.my_data.cbegin(), it_last.base(), my_data.begin());

    if(!my_data.empty() && (it_end != my_data.end()) && (*it_end != static_cast<array_type::value_type>(0U)))
    {
      std::fill(it_end, my_data.end(), static_cast<array_type::value_type>(0U));
    }
  }

  return *this;''')],
 '''  e_float x("1.0000000000000000000000000000000000000000000000000000000000000007");
  const e_float y("2");
  x = y;
  expect(x == y, "assignment over a value with zero limbs in the middle");
  e_float z("3.14159265358979323846264338327950288419716939937510582097494459");
  z = y;
  expect(z == y, "assignment over pi");''',
 'efx back end; the value that is overwritten has a zero limb just after the last nonzero limb of the new value, and further digits behind',
 'digits of the previous value remain in the assigned variable')

S('X02-tan-large-imaginary','X02','gmp',
 [('e_float/e_float_complex.h','''    template<> inline complex<e_float> tan(const complex<e_float>& c__my_z)
    {
      e_float c__my_sin_x  = sin (c__my_z.real());''','''    template<> inline complex<e_float> tan(const complex<e_float>& c__my_z)
    {
      // The tangent is +-i far away from the real axis.
      if(ef::fabs(c__my_z.imag()) > ef::hundred())
      {
        return complex<e_float>(ef::zero(), (ef::isneg(c__my_z.imag()) ? ef::one_minus() : ef::one()));
      }

      e_float c__my_sin_x  = sin (c__my_z.real());'''),
  ('e_float/e_float_complex.h','''    template<> inline complex<e_float> tanh(const complex<e_float>& c__my_z)
    {
      e_float c__my_sin_y  = sin (c__my_z.imag());
      e_float c__my_cos_y''','''    template<> inline complex<e_float> tanh(const complex<e_float>& c__my_z)
    {
      // The hyperbolic tangent is +-1 far away from the imaginary axis.
      if(ef::fabs(c__my_z.real()) > ef::hundred())
      {
        return complex<e_float>((ef::isneg(c__my_z.real()) ? ef::one_minus() : ef::one()), ef::zero());
      }

      e_float c__my_sin_y  = sin (c__my_z.imag());
      e_float c__my_cos_y''')],
 '''  const ef::complex<e_float> t = ef::tan(ef::complex<e_float>(e_float(1), e_float(105)));
  // |tan(z) - i| is about 2 exp(-2 y)
  const e_float d = ef::abs(t - ef::complex<e_float>(ef::zero(), ef::one()));
  expect(near(d, ef::two() * ef::exp(e_float(-210)), 5), "tan(1 + 105i)");
  const ef::complex<e_float> u = ef::tanh(ef::complex<e_float>(e_float(105), e_float(1)));
  expect(near(ef::abs(u - ef::complex<e_float>(ef::one(), ef::zero())), ef::two() * ef::exp(e_float(-210)), 5), "tanh(105 + i)");''',
 'an imaginary part of the argument of tan between 100 and 116 in magnitude (real part for tanh)',
 'the result has only about 87 digits')

S('X03-write-width','X03','efx',
 [('e_float/e_float_complex.h','''      std::basic_ostringstream<char_type, traits_type> c__my_tmp_ostream;

      c__my_tmp_ostream.flags    (c__my_ostream.flags());
      c__my_tmp_ostream.imbue    (c__my_ostream.getloc());
      c__my_tmp_ostream.precision(c__my_ostream.precision());

      c__my_tmp_ostream << '('
                       << c__my_z.real()
                       << ','
                       << c__my_z.imag()
                       << ')';

      return (c__my_ostream << c__my_tmp_ostream.str());
    }
  } // namespace ef''','''      return (c__my_ostream << '('
                            << c__my_z.real()
                            << ','
                            << c__my_z.imag()
                            << ')');
    }
  } // namespace ef''')],
 '''  std::ostringstream s;
  s << std::setw(12) << ef::complex<e_float>(e_float(1), e_float(-2));
  expect(s.str() == "      (1,-2)", s.str().c_str());
  std::ostringstream t;
  t << ef::complex<e_float>(e_float(1), e_float(-2));
  expect(t.str() == "(1,-2)", t.str().c_str());''',
 'a stream with a field width',
 'the padding is put inside of the complex number')

S('K01-khinchin-late-digits','K01','efx',
 [('functions/constants/constants.cpp','6854520010653064453097148354817956938203822939944629530511523455572188595371520028011411749318476979','6854520010653064453097148354817956938203822939944629530511523455572188595371520028011411743918476979')],
 '''  expect(near(ef::khinchin(), e_float("2.6854520010653064453097148354817956938203822939944629530511523455572188595371520028011411749318476979"), 99), "khinchin");''',
 'a constant is read with more than 90 digits',
 'two neighbouring digits of Khinchins constant are interchanged')

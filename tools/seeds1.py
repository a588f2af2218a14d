import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
E='e_float/efx/e_float_efx.cpp'
def S(*a,**k): seed(*a,**k)

S('A04-mul-ull-threshold','A04','efx',
 [(E,'''  if(n >= static_cast<unsigned long long>(ef_elem_mask))
  {
    my_neg = b_neg;

    return operator*=(e_float(n));
  }''','''  if(n > static_cast<unsigned long long>((std::numeric_limits<std::uint32_t>::max)()))
  {
    my_neg = b_neg;

    return operator*=(e_float(n));
  }''')],
 '''  e_float x("99999999.75");
  x.mul_unsigned_long_long(4000000000ULL);
  expect(near(x, e_float("399999999000000000"), 60), "99999999.75 * 4000000000");
  e_float y("99999999.75");
  expect(near(y + x, e_float("399999999099999999.75"), 60), "and the sum with it");''',
 'efx back end; an integer factor from 10^8 up to 2^32-1 whose product carries more than one limb',
 'multiplication by a 32-bit integer that is not below the limb size leaves a limb that is out of range')

S('A03-div-identical-prefix','A03','efx',
 [(E,'''     && (cmp_data(v.my_data) == static_cast<std::int32_t>(0)));''',
   '''     && std::equal(my_data.cbegin(),
                   my_data.cbegin() + static_cast<std::ptrdiff_t>(ef_digits10_num_base),
                   v.my_data.cbegin()));''')],
 '''  // The quotient of two neighbours is not one as long as the value of u - v is not zero.
  const e_float v("1.0000000000000000000000000000000000001");
  const e_float u = v + e_float("1e-106");
  expect(!((u - v) == ef::zero()), "u - v is not zero");
  expect(!((u / v) == ef::one()), "u / v is not one");
  // A value which is represented with its digits in the front of the limbs.
  const e_float a("12345678e-0");
  const e_float b = a + e_float("1e-103");
  expect(!((b / a) == ef::one()), "b / a is not one");''',
 'efx back end; operands that agree in all leading limbs and differ only in the guard limbs',
 'division returns exactly one for operands that are different')

S('A02-mpfr-small-int-factor','A02','mpfr',
 [('e_float/mpfr/e_float_mpfr.cpp','''  static_cast<void>(::mpfr_mul(my_rop, my_rop, v.my_rop, GMP_RNDN));
''','''  // Use the faster multiplication with a small integer if v is one.
  const double v_as_double = ::mpfr_get_d(v.my_rop, GMP_RNDN);

  if(   (v_as_double >= 1000.0)
     && (v_as_double < 1.0E9)
     && (v_as_double == static_cast<double>(static_cast<unsigned long>(v_as_double))))
  {
    static_cast<void>(::mpfr_mul_ui(my_rop, my_rop, static_cast<unsigned long>(v_as_double), GMP_RNDN));
  }
  else
  {
    static_cast<void>(::mpfr_mul(my_rop, my_rop, v.my_rop, GMP_RNDN));
  }
''')],
 '''  const e_float x("3000.0000000000000000000000000000000000007");
  expect(near(e_float(2U) * x, e_float("6000.0000000000000000000000000000000000014"), 90), "2 * (3000 + 7e-37)");
  expect(near(x * x, e_float("9000000.00000000000000000000000000000000420000000000000000000000000000000000000049"), 80), "(3000 + 7e-37)^2");''',
 'mpfr back end; a factor that is not an integer but rounds to one of at least two as a double',
 'the product is computed with the rounded factor and has only some 16 correct digits')

S('O01-cmp-negative-ninf','O01','efx',
 [(E,'''      return (v.my_neg ? static_cast<std::int32_t>(1) : static_cast<std::int32_t>(-1));
    }
  }''','''      return ((v.my_neg && (!my_neg)) ? static_cast<std::int32_t>(1) : static_cast<std::int32_t>(-1));
    }
  }''')],
 '''  const e_float ninf = -std::numeric_limits<e_float>::infinity();
  expect(e_float(-5) > ninf, "-5 > -inf");
  expect(!(e_float(-5) < ninf), "not -5 < -inf");
  expect(e_float(5) > ninf, "5 > -inf");''',
 'efx back end; a negative finite value on the left and minus infinity on the right',
 'negative finite values compare less than minus infinity')

S('C02-ull-upper-half','C02','efx',
 [(E,'''  if(xn > ef::unsigned_long_long_max())
  {
    return (std::numeric_limits<unsigned long long>::max)();
  }
  else
  {
    // Extract the data into an unsigned long long value.
    val = static_cast<unsigned long long>(xn.my_data[0]);

    const std::int32_t imax =
      (std::min)''','''  if(xn > ef::signed_long_long_max())
  {
    return (std::numeric_limits<unsigned long long>::max)();
  }
  else
  {
    // Extract the data into an unsigned long long value.
    val = static_cast<unsigned long long>(xn.my_data[0]);

    const std::int32_t imax =
      (std::min)''')],
 '''  expect(e_float(12345678901234567890ULL).extract_unsigned_long_long() == 12345678901234567890ULL, "12345678901234567890");
  expect(e_float(123456789ULL).extract_unsigned_long_long() == 123456789ULL, "123456789");''',
 'efx back end; a value in (2^63, 2^64)',
 'conversion to unsigned long long saturates at the maximum of the signed type')

S('C03-last-limb-fraction','C03','efx',
 [(E,'''  // Clear out the decimal portion
  const std::ptrdiff_t first_clear = (static_cast<std::ptrdiff_t>(x.my_exp) / static_cast<std::ptrdiff_t>(ef_elem_digits10)) + 1;
  const std::ptrdiff_t last_clear  =  static_cast<std::ptrdiff_t>(ef_elem_number);''','''  // Clear out the decimal portion
  const std::ptrdiff_t first_clear = (static_cast<std::ptrdiff_t>(x.my_exp) / static_cast<std::ptrdiff_t>(ef_elem_digits10)) + 1;
  const std::ptrdiff_t last_clear  =  (std::max)(first_clear, static_cast<std::ptrdiff_t>(ef_elem_number - 1));''')],
 '''  const e_float t = e_float(10U) / 3U;
  expect(ef::isint(ef::integer_part(t)), "integer part of 10/3 is an integer");
  expect(ef::isint(ef::floor(t)), "floor of 10/3 is an integer");''',
 'efx back end; a value with as many digits as the working precision',
 'integer_part and floor return a value with a fraction in its last limb')

S('S02-nines-negative-exponent','S02','efx',
 [(E,'''          str.at(ix) = static_cast<char>('1');
          ++the_exp;''','''          str.at(ix) = static_cast<char>('1');
          the_exp = ((the_exp < static_cast<std::int64_t>(-4)) ? (the_exp - 1) : (the_exp + 1));''')],
 '''  std::ostringstream s;
  s << std::scientific << std::setprecision(5) << e_float("9.9999999e-7");
  expect(s.str() == "1.00000e-006", s.str().c_str());
  std::ostringstream t;
  t << std::scientific << std::setprecision(5) << e_float("9.9999999e+7");
  expect(t.str() == "1.00000e+008", t.str().c_str());''',
 'efx back end; a value below 10^-4 whose digits are all nines and are rounded up',
 'the exponent of the printed value is two too small')

S('S01-gmp-long-integer-uppercase-exponent','S01','gmp',
 [('e_float/gmp/e_float_gmp.cpp','''                   return (   (c == static_cast<char>('e'))
                           || (c == static_cast<char>('E'))
                           || (c == static_cast<char>('.')));''','''                   return (   (c == static_cast<char>('e'))
                           || (c == static_cast<char>('.')));''')],
 '''  const std::string d(150U, '7');
  expect(near(e_float(d + "E5"), e_float(d) * e_float(100000UL), 90), "150 digits and E5");
  expect(near(e_float(d + "e5"), e_float(d) * e_float(100000UL), 90), "150 digits and e5");''',
 'gmp back end; more than 113 characters, no decimal point, exponent letter in uppercase',
 'the exponent of the text is lost or garbled')

S('E05-asin-small-negative','E05','efx',
 [('functions/elementary/elementary_trig.cpp','    return !b_neg ? asin_value : -asin_value;','    return ((asin_value.order() > -ef::tolerance()) && b_neg) ? -asin_value : asin_value;')],
 '''  const e_float t("1e-200");
  expect(near(ef::asin(t), t, 90), "asin(1e-200)");
  expect(near(ef::asin(-t), -t, 90), "asin(-1e-200)");''',
 'back end without its own asin; a negative argument below 10^-113',
 'asin of tiny negative arguments has the wrong sign')

S('E04-sin-parity-int32','E04','gmp',
 [('functions/elementary/elementary_trig.cpp','''    xx -= n_pi * ef::pi();

    // Adjust signs if the multiple of pi is not even.
    const bool b_n_pi_is_even = ef::iszero(ef::decimal_part(n_pi / static_cast<std::int32_t>(2)));

    if(!b_n_pi_is_even)
    {
      b_negate_sin = !b_negate_sin;
    }''','''    xx -= n_pi * ef::pi();

    // Adjust signs if the multiple of pi is not even.
    const bool b_n_pi_is_even = ((ef::to_int32(n_pi) % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0));

    if(!b_n_pi_is_even)
    {
      b_negate_sin = !b_negate_sin;
    }''')],
 '''  const e_float s = ef::sin(e_float(3));
  const e_float n("20000000000");
  expect(near(ef::sin(e_float(3) + (n * ef::pi())), s, 80), "sin(3 + 2e10 pi)");
  expect(near(ef::sin(ef::half() + ((n + ef::one()) * ef::pi())), -ef::sin(ef::half()), 80), "sin(1/2 + (2e10 + 1) pi)");''',
 'back end without its own sin; |x| above 2^31 * pi with an even multiple of pi',
 'sin of large arguments has the wrong sign')

S('E03-pow-int64-narrow','E03','efx',
 [('functions/elementary/elementary_trans.cpp','for(std::uint64_t p_local = (std::uint64_t) p; p_local != 0U; p_local >>= 1U)','for(std::uint32_t p_local = (std::uint32_t) p; p_local != 0U; p_local >>= 1U)')],
 '''  const e_float b("1.0000000001");
  const e_float p = ef::pow(b, static_cast<std::int64_t>(10000000001LL));
  expect(near(p, ef::pow(ef::pow(b, static_cast<std::int64_t>(100000)), static_cast<std::int64_t>(100000)) * b, 80), "1.0000000001^10000000001");''',
 'an integer exponent of 2^32 or more',
 'the exponent is reduced modulo 2^32')

S('N01-prime-square-overflow','N01','efx',
 [('functions/integer/prime_factor.cpp','if(static_cast<std::uint32_t>(np / p) <= p)','if(static_cast<std::uint32_t>(p * (p + static_cast<std::uint32_t>(16U))) >= np)')],
 '''  // A product of two primes that are close to each other.
  for(std::uint32_t n : { 10403U, 1022117U, 15484U * 3U, 4292870399U })
  {
    std::deque<Util::point<std::uint32_t>> pf;
    ef::prime_factors(n, pf);
    std::uint64_t m = 1U;
    bool prime = true;
    for(auto f : pf) { for(std::uint32_t i = 0; i < f.y; ++i) { m *= f.x; } for(std::uint32_t d = 2U; (std::uint64_t) d * d <= f.x; ++d) { if(f.x % d == 0U) { prime = false; } } }
    expect(m == n, "the product of the factors is n");
    expect(prime, "every factor is prime");
  }''',
 'n is at least 10000 and the product of two primes close to each other',
 'a composite number is reported as a prime factor', )

S('Z01-zeta-one-too-early','Z01','efx',
 [('functions/zeta/zeta.cpp','''    static const double dtol       = static_cast<double>(static_cast<std::int32_t>(ef::tolerance()));

    const double n_log10_of_2 = static_cast<double>(n) * log10_of_2;''','''    static const double dtol       = static_cast<double>(static_cast<std::int32_t>(ef::tolerance())) * 0.75;

    const double n_log10_of_2 = static_cast<double>(n) * log10_of_2;''')],
 '''  const e_float z = ef::riemann_zeta(static_cast<std::int32_t>(300));
  expect(near(z - ef::one(), ef::pow2(-300), 5), "zeta(300) - 1");''',
 'an integer argument between about 280 and 375',
 'the zeta function of large integers is returned as exactly one too early')

S('X01-complex-mul-alias','X01','efx',
 [('e_float/e_float_complex.h','''        const e_float __tmp_re(c__my_re);

        if(this == &c__my_z)
        {
          c__my_re = (__tmp_re * __tmp_re) - (c__my_im * c__my_im);
          c__my_im = (__tmp_re * c__my_im) * 2U;
        }
        else
        {
          c__my_re = (__tmp_re * c__my_z.c__my_re) - (c__my_im * c__my_z.c__my_im);
          c__my_im = (__tmp_re * c__my_z.c__my_im) + (c__my_im * c__my_z.c__my_re);
        }
''','''        const e_float __tmp_re(c__my_re);

        c__my_re = (__tmp_re * c__my_z.c__my_re) - (c__my_im * c__my_z.c__my_im);
        c__my_im = (__tmp_re * c__my_z.c__my_im) + (c__my_im * c__my_z.c__my_re);
''')],
 '''  ef::complex<e_float> z(e_float(3), e_float(2));
  z *= z;
  expect(z.real() == e_float(5) && z.imag() == e_float(12), "(3 + 2i)^2");''',
 'the right operand of *= is the same object',
 'squaring a complex number in place uses the already changed real part')

S('A07-mul-underflow','A07','efx',
 [(E,'const auto b_result_is_out_of_range = (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp));','const auto b_result_is_out_of_range = ((!u_exp_is_neg) && (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp)));')],
 '''  const e_float m = (std::numeric_limits<e_float>::min)();
  expect((m * e_float("1e-30")) == ef::zero(), "min * 1e-30");
  expect((m * m) == ef::zero(), "min * min");''',
 'efx back end; the product of two small values is below the smallest magnitude',
 'the result is a nonzero value below the smallest representable magnitude')

S('A06-inf-times-zero','A06','gmp',
 [('e_float/gmp/e_float_gmp.cpp','     || (b_v_is_inf &&   iszero())\n','     || (b_v_is_inf &&   iszero() && (!v.isneg()))\n')],
 '''  const e_float inf = std::numeric_limits<e_float>::infinity();
  expect(ef::isnan(ef::zero() * inf), "0 * inf");
  expect(ef::isnan(ef::zero() * (-inf)), "0 * (-inf)");
  expect(ef::isnan((-inf) * ef::zero()), "-inf * 0");''',
 'gmp back end; zero on the left of *= and minus infinity on the right',
 '0 * (-inf) is infinite instead of NaN')

S('O01-mpfr-isone-narrow','O01','mpfr',
 [('e_float/mpfr/e_float_mpfr.cpp','(::mpfr_get_si(my_rop, GMP_RNDN) == static_cast<unsigned long>(1UL))','(static_cast<std::int32_t>(::mpfr_get_si(my_rop, GMP_RNDN)) == static_cast<std::int32_t>(1))')],
 '''  expect(!e_float(4294967297ULL).isone(), "2^32 + 1 is not one");
  expect(e_float(1U).isone(), "1 is one");
  expect(e_float(4294967297ULL).extract_unsigned_long_long() == 4294967297ULL, "conversion of 2^32 + 1");''',
 'mpfr back end; an integer that is one modulo 2^32',
 'isone() is true for 2^32 + 1, conversions to integers return 1')

S('E02-log-small-arg','E02','efx',
 [('functions/elementary/elementary_trans.cpp','''    const std::int64_t delta_exp = static_cast<std::int64_t>(n_exp - static_cast<std::int64_t>(8));''',
   '''    const std::int64_t delta_exp = static_cast<std::int64_t>(n_order - static_cast<std::int64_t>(8));''')],
 '''  expect(near(ef::log(e_float("7e2000")), ef::log(e_float(7U)) + (ef::ln10() * 2000), 90), "log(7e2000)");
  expect(near(ef::log(e_float("7e-2000")), ef::log(e_float(7U)) - (ef::ln10() * 2000), 90), "log(7e-2000)");
  expect(near(ef::log(e_float("1e-2000000000")), -(ef::ln10() * 2000000000), 90), "log(1e-2000000000)");''',
 'back end without its own log; an argument below 10^-1000',
 'the logarithm of very small arguments is wrong')

S('E06-sinhcosh-alias','K01','efx',
 [], '', '', '') if 0 else None

import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed as S
E='e_float/efx/e_float_efx.cpp'; G='e_float/gmp/e_float_gmp.cpp'; M='e_float/mpfr/e_float_mpfr.cpp'; B='e_float/e_float_base.cpp'

S('A07-add-negative-overflow','A07','efx',
 [(E,"""  // Check for overflow.
  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
     && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)())
    )
  {
    const bool b_result_is_neg = my_neg;
""","""  // Check for overflow.
  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
     && (*this > (std::numeric_limits<e_float>::max)())
    )
  {
    const bool b_result_is_neg = my_neg;
""")],
 """  const e_float mx = (std::numeric_limits<e_float>::max)();
  expect(ef::isinf(mx + mx) && !ef::isneg(mx + mx), "max + max");
  const e_float lo = std::numeric_limits<e_float>::lowest();
  const e_float ll(lo + lo);
  expect(ef::isinf(ll) && ef::isneg(ll), "lowest + lowest");
""",
 'a sum of two negative numbers of the largest magnitude',
 'the sum stays finite below lowest() instead of becoming minus infinity')

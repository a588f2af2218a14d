// Mathematical constants and numeric_limits.
#include "../gen.h"
#include <cmath>
#include <limits>
static const double LIM = -(double)D10;
typedef std::numeric_limits<e_float> L;
// from mpmath (mp.khinchin, mp.glaisher) at 1120 digits
static const char* const khinchin_digits =
  "2.6854520010653064453097148354817956938203822939944629530511523455572188595371520028011411749318476979951534659052880900"
  "828976777164109630517925334832596683818523154213321194996260393285220448194096180686641664289308477880620360737053501033"
  "672633577289049904270702723451702625237023545810686318501032374655803775026442524852869468234189949157306618987207994137"
  "235500057935736698933950879021244642075289741459147693018449050601793499385225470404203377985639831015709022233910000220"
  "772509651332460444439191691460859682348212832462282927101269069741823484776754573489862542033926623518620867781366509696"
  "583146995271837448054012195366666049648269890827548115254721177330319675947383719393578106059230401890711349624673706841"
  "221794681074060891827669566711716683740590473936880953450489997047176390451343232377151032196515038246988883248709353994"
  "696082647818120566349467125784366645797409778483662049777748682765697087163192938512899314199518611673792654620563505951"
  "385713761697126872299805327673278710513763956371902314528900305813691090479967275757138504356505064159082099962340277905"
  "3834180985121278529455415101923"
  ;
static const char* const glaisher_digits =
  "1.2824271291006226368753425688697917277676889273250011920637400217404063088588264611297364919582023743942064612039900074"
  "893315779136277528040415907257386172752214334327143439787335067915257366856907876561146686449997784962754518174312394652"
  "761282138081802192645168515461439199010835737307035049038881234188136749781330509377083368222249411587483734806439997883"
  "007012556700128699415770543205392758540581731588155481762970384743250467775147374600031616023046613296342991558095879293"
  "363438872887019889534607252331847024890010917769417121535691936749672612703980135265266886897821889740172937584075016747"
  "211489528881599666874316451389030696264559870469543740253099606800842447417554061490189444139386196089129682173528798629"
  "884342203669899006069808887858495874940853073471170901326675675033105234052210541417677615630819191999718523704776131231"
  "537413530472581981479745176102754083494314384965234139453373065832325673954957601692256427736926358821692159870775858274"
  "695751628415506485858908341282275562095470029185932630793733769420775222909401870869519573780711309667351770300199761916"
  "2841026237527268163782290337344"
  ;
static R khinchin() { return R(khinchin_digits); }
static R glaisher() { return R(glaisher_digits); }
struct K { const char* name; const e_float& (*fn)(); R (*ref)(); bool exact; };
#define EX(NAME, V) { #NAME, &ef::NAME, []() -> R { return V; }, true }
#define AP(NAME, V) { #NAME, &ef::NAME, []() -> R { return V; }, false }
static const std::vector<K>& table()
{
  static const std::vector<K> t = {
    EX(zero, R(0)), EX(one, R(1)), EX(half, R(0.5)), EX(two, R(2)), EX(three, R(3)), EX(four, R(4)), EX(five, R(5)), EX(six, R(6)), EX(seven, R(7)), EX(eight, R(8)), EX(nine, R(9)), EX(ten, R(10)), EX(fifty, R(50)), EX(hundred, R(100)), EX(thousand, R(1000)), EX(million, R(1000000)), EX(billion, R(1000000000)), EX(trillion, R::pow10(12)), AP(googol, R::pow10(100)),
    EX(int32_min, R((long)INT32_MIN)), EX(int32_max, R((long)INT32_MAX)), EX(int64_min, R((long)INT64_MIN)), EX(int64_max, R((long)INT64_MAX)), EX(unsigned_long_long_max, R(~0ULL)), EX(signed_long_long_max, R((long)INT64_MAX)), EX(signed_long_long_min, R((long)INT64_MIN)),
    AP(double_min, R((std::numeric_limits<double>::min)())), EX(double_max, R((std::numeric_limits<double>::max)())), AP(long_double_min, R((std::numeric_limits<long double>::min)())), AP(long_double_max, R((std::numeric_limits<long double>::max)())),
    EX(one_minus, R(-1)), AP(tenth, R(1) / R(10)), EX(eighth, R(0.125)), AP(fifth, R(1) / R(5)), EX(quarter, R(0.25)), AP(third, R(1) / R(3)), AP(two_third, R(2) / R(3)), EX(three_half, R(1.5)),
    AP(sqrt2, r::sqrt(R(2))), AP(pi, r::pi()), AP(pi_half, r::pi() / R(2)), AP(pi_squared, r::pi() * r::pi()), AP(two_pi, r::pi() * R(2)), AP(sqrt_pi, r::sqrt(r::pi())), AP(e, r::exp(R(1))), AP(ln2, r::ln2()), AP(ln10, r::log(R(10))), AP(phi, (R(1) + r::sqrt(R(5))) / R(2)), AP(euler_gamma, r::euler()), AP(catalan, r::catalan()), AP(khinchin, khinchin()), AP(glaisher, glaisher()) };
  return t;
}
static const R& ref(std::size_t i) { static std::map<std::size_t, R> m; auto it = m.find(i); if(it == m.end()) it = m.emplace(i, table()[i].ref()).first; return it->second; }
static std::map<std::size_t, R> first;
TEST(K01_constants, 3000, 30000)
{
  // a sequence of uses of constants in random order, interleaved with modifications of copies of them
  int n = 1 + (int)s.draw(12); c.nontrivial = true;
  for(int i = 0; i < n; ++i)
  {
    std::size_t k = s.draw(table().size()); const K& t = table()[k]; c.note(t.name); const e_float& x = t.fn(); R v = toR(x), want = ref(k);
    if(t.exact && want.log10abs() < D10) REQUIRE(v == want, std::string("constant:") + t.name, std::string(t.name) + " is " + show(v) + ", expected " + show(want)); else check_rel(c, std::string("constant:") + t.name, v, want, t.exact ? -D10 : LIM, t.name);
    auto it = first.find(k); if(it == first.end()) first.emplace(k, v); else REQUIRE(v == it->second, std::string("stable:") + t.name, std::string(t.name) + " changed from " + show(it->second) + " to " + show(v));
    REQUIRE(&t.fn() == &x, std::string("reference:") + t.name, "two calls return different objects");
    e_float y(x); switch(s.draw(6)) { case 0: y += ef::pi(); break; case 1: y *= y; break; case 2: y.negate(); break; case 3: y.precision(10); y *= 3; break; case 4: if(!y.iszero()) y.calculate_inv(); break; default: y = ef::sqrt(ef::fabs(y)); } REQUIRE(toR(t.fn()) == v, std::string("copy:") + t.name, "changing a copy changed the constant");
  }
}
TEST(K01_identities, 1000, 10000)
{
  // relations between constants and functions
  c.nontrivial = true; switch(s.draw(7))
  {
    case 0: c.note("exp(ln2)"); check_rel(c, "exp-ln2", toR(ef::exp(ef::ln2())), R(2), LIM, "exp(ln2)"); break;
    case 1: c.note("exp(ln10)"); check_rel(c, "exp-ln10", toR(ef::exp(ef::ln10())), R(10), LIM, "exp(ln10)"); break;
    case 2: c.note("log(e)"); check_rel(c, "log-e", toR(ef::log(ef::e())), R(1), LIM, "log(e)"); break;
    case 3: c.note("sin(pi)"); check_close(c, "sin-pi", toR(ef::sin(ef::pi())), R(0), R(1), LIM, "sin(pi)"); break;
    case 4: c.note("phi^2-phi"); check_rel(c, "phi", toR(ef::phi() * ef::phi() - ef::phi()), R(1), LIM, "phi^2-phi"); break;
    case 5: c.note("4 atan(1)"); check_rel(c, "atan-one", toR(ef::atan(ef::one()) * 4), r::pi(), LIM, "4 atan(1)"); break;
    default: { int k = 1 + (int)s.draw(300); c.note("k pi " + tos(k)); check_close(c, "cos-kpi", toR(ef::cos(ef::pi() * k)), R(k & 1 ? -1 : 1), R(1), LIM, "cos(k pi)"); break; }
  }
}
TEST(K01_limits, 500, 2000)
{
  GenOpt o = window(s, s.chance(1, 2)); o.zero = false; e_float x = gen_value(s, c, o); R v = toR(x); if(!v.isfinite() || v.iszero()) throw Discard(); c.note(show(x)); c.nontrivial = true;
  REQUIRE(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::is_bounded && L::has_infinity && L::has_quiet_NaN, "flags", "flags of numeric_limits");
  REQUIRE(L::digits10 == D10 && L::max_digits10 > L::digits10, "digits10", "digits10"); double lr = std::log10((double)L::radix); REQUIRE(L::digits * lr >= L::digits10 - 1 && std::fabs(L::max_exponent10 - L::max_exponent * lr) <= 0.001 * L::max_exponent && std::fabs(L::min_exponent10 - L::min_exponent * lr) <= -0.001 * L::min_exponent, "exponents", "digits, max_exponent10 or min_exponent10 do not fit the radix");
  REQUIRE((L::max)().isfinite() && !(L::max)().isneg() && (L::min)().isfinite() && !(L::min)().iszero() && !(L::min)().isneg(), "minmax", "max or min"); REQUIRE(same(toR(L::lowest()), -toR((L::max)())), "lowest", "lowest is not -max: " + show(L::lowest())); REQUIRE(toR(L::denorm_min()) == toR((L::min)()), "denorm_min", "denorm_min is not min although there are no denormalized values: " + show(L::denorm_min()));
  REQUIRE(L::infinity().isinf() && !L::infinity().isneg() && L::quiet_NaN().isnan(), "special", "infinity or quiet_NaN");
  e_float e = L::epsilon(); REQUIRE(e_float(1) + e > e_float(1) && !e.isneg() && toR(e) >= R::pow10(-D10) && toR(e) <= R::pow10(-D10 + 2), "epsilon", "epsilon is " + show(e)); if(v.log10abs() > L::min_exponent10 + 2 * D10 && v.log10abs() < L::max_exponent10 - 30) REQUIRE(toR(x + x * e) != v, "epsilon-changes", "x(1+epsilon) is x");
  REQUIRE(x > L::lowest() && x < (L::max)() , "bounded", "a finite value lies outside [lowest, max]");
}

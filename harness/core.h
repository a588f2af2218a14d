// Property-based testing core: choice-sequence generation, replay, shrinking.
#ifndef VERIF_CORE_H
#define VERIF_CORE_H
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Discard {};

// A counterexample.  'sig' identifies the failing behaviour (used for the
// known-findings file and to keep the shrinker on the same failure).
struct Fail
{
  std::string sig, msg;
  Fail(const std::string& s, const std::string& m) : sig(s), msg(m) {}
};

// Source of choices.  Every case is a finite sequence of choices; smaller
// choices are simpler, an exhausted tape answers 0.
class Src
{
public:
  std::vector<std::uint64_t> tape;
  std::size_t pos = 0;
  bool replay = false;
  std::uint64_t s0 = 1, s1 = 2;
  void seed(std::uint64_t a, std::uint64_t b);
  std::uint64_t raw();
  std::uint64_t draw(std::uint64_t bound);                 // [0, bound)
  long range(long lo, long hi);                            // [lo, hi], simplest = lo (or 0 when inside)
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // false is simplest
  std::size_t pick(std::initializer_list<unsigned> weights); // index, 0 simplest
  template<class T> const T& of(const std::vector<T>& v) { return v[draw(v.size())]; }
};

struct Ctx
{
  std::string desc;                    // human readable case
  bool nontrivial = false;
  std::vector<std::string> labels;
  std::map<std::string, double>* margins = nullptr;
  void label(const std::string& l) { labels.push_back(l); }
  void note(const std::string& s) { if(!desc.empty()) desc += "  "; desc += s; }
  void margin(const std::string& k, double log10err)
  { if(margins && log10err == log10err) { auto it = margins->find(k); if(it == margins->end()) (*margins)[k] = log10err; else if(log10err > it->second) it->second = log10err; } }
};

using TestFn = void (*)(Src&, Ctx&);
struct Test { const char* name; unsigned quick, thorough; TestFn fn; };   // number of cases for the whole run
struct Reg { Reg(const char* name, unsigned quick, unsigned thorough, TestFn fn); };
std::vector<Test>& tests();

#define TEST(NAME, QUICK, THOROUGH) \
  static void test_##NAME(Src& s, Ctx& c); \
  static Reg reg_##NAME(#NAME, QUICK, THOROUGH, &test_##NAME); \
  static void test_##NAME([[maybe_unused]] Src& s, [[maybe_unused]] Ctx& c)

extern const char* backend_name;
extern bool thorough_tier;
void verif_setup();        // defined by gen.cpp: oracle precision etc.
#endif

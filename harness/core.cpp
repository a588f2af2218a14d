#include "core.h"
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <sys/resource.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <typeinfo>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

bool thorough_tier = false;

static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static std::uint64_t splitmix(std::uint64_t& x) { std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void Src::seed(std::uint64_t a, std::uint64_t b) { std::uint64_t x = a * 0x2545F4914F6CDD1DULL + b; s0 = splitmix(x); s1 = splitmix(x); if(!s0 && !s1) s1 = 1; tape.clear(); pos = 0; replay = false; }
std::uint64_t Src::raw() { std::uint64_t a = s0, b = s1, r = a + b; b ^= a; s0 = rotl(a, 24) ^ b ^ (b << 16); s1 = rotl(b, 37); return r; }
std::uint64_t Src::draw(std::uint64_t bound)
{
  if(bound <= 1) return 0;
  std::uint64_t v;
  if(replay) { v = pos < tape.size() ? tape[pos] : 0; ++pos; v %= bound; }
  else { v = raw() % bound; tape.push_back(v); ++pos; }
  return v;
}
long Src::range(long lo, long hi)
{
  std::uint64_t n = (std::uint64_t)(hi - lo) + 1; std::uint64_t v = n == 0 ? draw(~0ULL) : draw(n);
  if(lo < 0 && hi > 0)
  { // zig-zag around zero so that 0 is the simplest value
    std::uint64_t m = (std::uint64_t)std::min(-lo, hi);
    if(v <= 2 * m) return (v & 1) ? -(long)((v + 1) / 2) : (long)(v / 2);
    return (-lo > hi) ? -(long)(v - m) : (long)(v - m);
  }
  if(hi <= 0) return hi - (long)v;
  return lo + (long)v;
}
std::size_t Src::pick(std::initializer_list<unsigned> w)
{
  std::uint64_t t = 0; for(unsigned x : w) t += x; std::uint64_t v = draw(t); std::size_t i = 0;
  for(unsigned x : w) { if(v < x) return i; v -= x; ++i; }
  return 0;
}

std::vector<Test>& tests() { static std::vector<Test> t; return t; }
Reg::Reg(const char* n, unsigned q, unsigned th, TestFn f) { tests().push_back(Test{n, q, th, f}); }

// ---- running one case, turning crashes, hangs and stray exceptions into failures
static sigjmp_buf jb; static volatile sig_atomic_t armed = 0; static volatile int lastsig = 0;
static void onsig(int s) { if(armed) { lastsig = s; armed = 0; siglongjmp(jb, 1); } signal(s, SIG_DFL); raise(s); }
static unsigned case_cpu_seconds = 30;
static void arm_timer(unsigned sec) { struct itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }

enum Outcome { PASS, DISCARD, FAIL };
struct Result { Outcome o = PASS; std::string sig, msg; };

static Result run_case(const Test& t, Src& s, Ctx& c)
{
  Result r;
  s.pos = 0;
  if(sigsetjmp(jb, 1) == 0)
  {
    armed = 1; arm_timer(case_cpu_seconds);
    try { t.fn(s, c); }
    catch(const Discard&) { r.o = DISCARD; }
    catch(const Fail& f) { r.o = FAIL; r.sig = f.sig; r.msg = f.msg; }
    catch(const std::exception& e) { r.o = FAIL; r.sig = std::string(t.name) + ":exception"; r.msg = std::string("the library threw ") + typeid(e).name() + ": " + e.what(); }
    armed = 0; arm_timer(0);
  }
  else
  {
    arm_timer(0);
    r.o = FAIL;
    if(lastsig == SIGPROF) { r.sig = std::string(t.name) + ":hang"; r.msg = "no answer within " + std::to_string(case_cpu_seconds) + " s of CPU time"; }
    else { r.sig = std::string(t.name) + ":crash"; r.msg = std::string("crashed with signal ") + std::to_string(lastsig) + " (" + strsignal(lastsig) + ")"; }
  }
  return r;
}

static std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for(unsigned char ch : s)
  {
    if(ch == '"') o += "\\\""; else if(ch == '\\') o += "\\\\"; else if(ch == '\n') o += "\\n"; else if(ch == '\t') o += "\\t";
    else if(ch < 32 || ch >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o + "\"";
}

static std::uint64_t hash_tape(const std::vector<std::uint64_t>& v, std::uint64_t h)
{ for(std::uint64_t x : v) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; } return h; }

static bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b)
{ if(a.size() != b.size()) return a.size() < b.size(); return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }

static std::vector<std::uint64_t> shrink(const Test& t, std::vector<std::uint64_t> best, const std::string& sig, double budget)
{
  auto t0 = std::chrono::steady_clock::now();
  auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  unsigned save = case_cpu_seconds; 
  auto bad = [&](std::vector<std::uint64_t>& cand)
  {
    if(spent() > budget) return false;
    Src s; s.replay = true; s.tape = cand; Ctx c; Result r = run_case(t, s, c);
    if(r.o == FAIL && r.sig == sig) { if(s.pos < cand.size()) cand.resize(s.pos); return true; }
    return false;
  };
  bool progress = true;
  while(progress && spent() < budget)
  {
    progress = false;
    for(std::size_t len : {32ul, 16ul, 8ul, 4ul, 2ul, 1ul})
      for(std::size_t i = 0; i + len <= best.size();)
      {
        auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + len);
        if(bad(cand) && simpler(cand, best)) { best = cand; progress = true; } else ++i;
      }
    for(std::size_t i = 0; i < best.size(); ++i)
    {
      if(best[i] == 0) continue;
      auto cand = best; cand[i] = 0;
      if(bad(cand) && simpler(cand, best)) { best = cand; progress = true; continue; }
      std::uint64_t lo = 0;
      while(i < best.size() && best[i] - lo > 1)
      {
        std::uint64_t mid = lo + (best[i] - lo) / 2; cand = best; cand[i] = mid;
        if(bad(cand) && simpler(cand, best)) { best = cand; progress = true; if(i >= best.size()) break; } else lo = mid;
        if(spent() > budget) break;
      }
    }
  }
  case_cpu_seconds = save;
  return best;
}

static void show_tape(std::ostream& o, const std::vector<std::uint64_t>& v) { o << "["; for(std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; }

static void install_handlers()
{
  static std::vector<char> alt(1 << 20); stack_t st; std::memset(&st, 0, sizeof st); st.ss_sp = alt.data(); st.ss_size = alt.size(); sigaltstack(&st, nullptr);
  struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  for(int s : {SIGFPE, SIGPROF, SIGABRT, SIGSEGV, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
}

#if defined(VERIF_LIBFUZZER)
// coverage guided mode: the bytes are the choice sequence
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n)
{
  static bool init = false; static std::set<std::string> known;
  if(!init)
  {
    init = true; verif_setup();
    if(const char* k = getenv("VERIF_KNOWN")) { std::ifstream f(k); std::string l; while(std::getline(f, l)) if(!l.empty()) known.insert(l); }
  }
  if(n < 2) return 0;
  const Test& t = tests()[d[0] % tests().size()];
  Src s; s.replay = true; Ctx c;
  std::size_t i = 1;
  while(i < n) // prefix byte selects 1, 2 or 8 byte choice
  {
    std::uint8_t k = d[i] & 3; std::size_t w = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 4 : 8; ++i;
    std::uint64_t v = 0; for(std::size_t j = 0; j < w && i < n; ++j, ++i) v = (v << 8) | d[i]; s.tape.push_back(v);
  }
  Outcome o = PASS; std::string sig, msg;
  try { t.fn(s, c); } catch(const Discard&) {} catch(const Fail& f) { o = FAIL; sig = f.sig; msg = f.msg; }
  catch(const std::exception& e) { o = FAIL; sig = std::string(t.name) + ":exception"; msg = e.what(); }
  if(o == FAIL && !known.count(sig))
  {
    std::ofstream f(getenv("VERIF_FAILOUT") ? getenv("VERIF_FAILOUT") : "/dev/stderr");
    f << "{\"test\":" << jstr(t.name) << ",\"backend\":" << jstr(backend_name) << ",\"sig\":" << jstr(sig) << ",\"msg\":" << jstr(msg) << ",\"desc\":" << jstr(c.desc) << ",\"tape\":"; show_tape(f, s.tape); f << "}\n"; f.close();
    abort();
  }
  return 0;
}
#else
int main(int argc, char** argv)
{
  std::uint64_t seed = 1; unsigned shard = 0, nshards = 1; double scale = 1; std::string knownf, replayf, only; bool list = false;
  unsigned maxfail = 1;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if(a == "--seed") seed = std::stoull(nx());
    else if(a == "--shard") shard = std::stoul(nx());
    else if(a == "--shards") nshards = std::stoul(nx());
    else if(a == "--scale") scale = std::stod(nx());
    else if(a == "--known") knownf = nx();
    else if(a == "--replay") replayf = nx();
    else if(a == "--only") only = nx();
    else if(a == "--thorough") thorough_tier = true;
    else if(a == "--list") list = true;
    else if(a == "--maxfail") maxfail = std::stoul(nx());
    else if(a == "--case-seconds") case_cpu_seconds = std::stoul(nx());
    else { std::cerr << "unknown option " << a << "\n"; return 3; }
  }
  if(list) { for(auto& t : tests()) std::cout << t.name << "\n"; return 0; }
#if !defined(__SANITIZE_ADDRESS__)
  { rlimit rl; rl.rlim_cur = rl.rlim_max = 3ULL << 30; setrlimit(RLIMIT_AS, &rl); }   // runaway allocation becomes bad_alloc
#endif
  verif_setup(); install_handlers();
  std::set<std::string> known; { std::ifstream f(knownf); std::string l; while(std::getline(f, l)) if(!l.empty()) known.insert(l); }
  auto is_known = [&](const std::string& s) { return known.count(s) != 0; };

  if(!replayf.empty())
  { // file: test name, then the tape
    std::ifstream f(replayf); std::string name; f >> name; Src s; s.replay = true; std::uint64_t v; while(f >> v) s.tape.push_back(v);
    for(auto& t : tests()) if(name == t.name)
    {
      Ctx c; Result r = run_case(t, s, c);
      std::cout << "{\"outcome\":" << (int)r.o << ",\"sig\":" << jstr(r.sig) << ",\"msg\":" << jstr(r.msg) << ",\"desc\":" << jstr(c.desc) << "}" << std::endl; _exit(0);
    }
    std::cout << "{\"outcome\":-1}" << std::endl; return 2;
  }

  std::ostringstream out; out << "{\"backend\":" << jstr(backend_name) << ",\"shard\":" << shard << ",\"tests\":[";
  bool first = true; std::vector<std::string> failures;
  for(auto& t : tests())
  {
    if(!only.empty() && only != t.name) continue;
    double want = (thorough_tier ? t.thorough : t.quick) * scale; std::uint64_t total = (std::uint64_t)std::max(want, 1.0);
    std::uint64_t ran = 0, nontriv = 0, disc = 0, knownhits = 0; std::set<std::uint64_t> distinct; std::map<std::string, std::uint64_t> labels; std::map<std::string, double> margins; std::map<std::string, std::uint64_t> kh;
    std::vector<std::string> samples; unsigned fails = 0; std::set<std::string> seen;
    auto t0 = std::chrono::steady_clock::now();
    std::uint64_t th = 1469598103934665603ULL; for(const char* p = t.name; *p; ++p) th = (th ^ (unsigned char)*p) * 1099511628211ULL;
    for(std::uint64_t i = shard; i < total; i += nshards)
    {
      Src s; s.seed(seed ^ th, i * 0x9E3779B97F4A7C15ULL + 17); Ctx c; c.margins = &margins;
      Result r = run_case(t, s, c);
      if(r.o == DISCARD) { ++disc; continue; }
      ++ran;
      for(auto& l : c.labels) ++labels[l];
      if(c.nontrivial) { ++nontriv; distinct.insert(hash_tape(s.tape, th)); }
      if(r.o == FAIL)
      {
        if(is_known(r.sig)) { ++knownhits; ++kh[r.sig]; continue; }
        if(!seen.insert(r.sig).second) continue;
        std::vector<std::uint64_t> tape = s.tape; std::string sig = r.sig;
        { std::ostringstream fo; fo << "FAILRAW {\"test\":" << jstr(t.name) << ",\"backend\":" << jstr(backend_name) << ",\"sig\":" << jstr(sig) << ",\"msg\":" << jstr(r.msg) << ",\"desc\":" << jstr(c.desc) << ",\"case\":" << i << ",\"tape\":"; show_tape(fo, tape); fo << "}\n"; std::cerr << fo.str() << std::flush; }
        std::vector<std::uint64_t> m = shrink(t, tape, sig, sig.size() > 5 && sig.compare(sig.size() - 5, 5, ":hang") == 0 ? 0.0 : 20.0);
        Src s2; s2.replay = true; s2.tape = m; Ctx c2; Result r2 = run_case(t, s2, c2);
        if(!(r2.o == FAIL && r2.sig == sig)) { s2.tape = tape; s2.pos = 0; c2 = Ctx(); r2 = run_case(t, s2, c2); m = tape; }
        std::ostringstream fo; fo << "{\"test\":" << jstr(t.name) << ",\"backend\":" << jstr(backend_name) << ",\"sig\":" << jstr(sig) << ",\"msg\":" << jstr(r2.o == FAIL ? r2.msg : r.msg) << ",\"desc\":" << jstr(r2.o == FAIL ? c2.desc : c.desc) << ",\"case\":" << i << ",\"tape\":"; show_tape(fo, m); fo << "}";
        failures.push_back(fo.str());
        if(++fails >= maxfail) break;
      }
      else if(c.nontrivial && samples.size() < 3 && (ran % 7 == 1)) samples.push_back(c.desc);
    }
    double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    out << (first ? "" : ",") << "{\"name\":" << jstr(t.name) << ",\"ran\":" << ran << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << distinct.size() << ",\"discarded\":" << disc << ",\"known\":" << knownhits << ",\"seconds\":" << sec;
    out << ",\"labels\":{"; bool f2 = true; for(auto& l : labels) { out << (f2 ? "" : ",") << jstr(l.first) << ":" << l.second; f2 = false; }
    out << "},\"known_hits\":{"; f2 = true; for(auto& l : kh) { out << (f2 ? "" : ",") << jstr(l.first) << ":" << l.second; f2 = false; }
    out << "},\"margins\":{"; f2 = true; for(auto& l : margins) { out << (f2 ? "" : ",") << jstr(l.first) << ":" << (l.second < -1e6 ? -1e6 : l.second > 1e6 ? 1e6 : l.second); f2 = false; }
    out << "},\"samples\":["; f2 = true; for(auto& l : samples) { out << (f2 ? "" : ",") << jstr(l); f2 = false; } out << "]}"; first = false;
  }
  out << "],\"failures\":["; for(std::size_t i = 0; i < failures.size(); ++i) out << (i ? "," : "") << failures[i]; out << "]}";
  std::cout << out.str() << std::endl;
  std::cout.flush(); _exit(0);
}
#endif

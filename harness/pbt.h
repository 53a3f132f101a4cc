// Property-based testing engine used by every check.
//
// A test is a function of a stream of bounded choices.  Random mode draws the
// choices from a seeded generator and records them; replay mode feeds recorded
// choices back.  Shrinking works on the recorded choices (chunk deletion,
// zeroing, binary minimisation), so any generator, stateful ones included,
// shrinks without extra code, and the minimal choice list is the replay file.
//
// Cases run in forked workers, so aborts, sanitizer reports and hangs in the
// code under test are attributed to the case that caused them.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <stdexcept>

namespace pbt {

inline uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a ^ (mix(b) + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))); }

//! Raised by a failing oracle. 'sig' names the root cause class for known findings.
struct Failure
{
  std::string sig, msg;
};

//! The stream of choices.
class Src
{
public:
  explicit Src(uint64_t seed) : m_state(seed), m_replay(false) {}
  explicit Src(const std::vector<uint64_t> &c) : m_state(0), m_replay(true), m_in(c) {}

  //! Uniform choice in [0, n)
  uint64_t below(uint64_t n)
  {
    if (n <= 1) { return 0; }
    uint64_t v;
    if (m_replay) {
      v = m_pos < m_in.size() ? m_in[m_pos] : 0;
      m_pos++;
      if (v >= n) { v = v % n; }
    } else {
      m_state += 0x9e3779b97f4a7c15ull;
      v = mix(m_state) % n;
    }
    m_rec.push_back(v);
    if (mirror && m_rec.size() < kMirrorCap) { mirror[m_rec.size()] = v; mirror[0] = m_rec.size(); }
    return v;
  }
  //! When set, choices are also written here (memory shared with the parent), so that
  //! they survive a crash of the process
  static uint64_t *mirror;
  static const size_t kMirrorCap = 1 << 18;
  //! Integer in [lo, hi]; shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  //! Integer in [lo, hi] containing 0; shrinks towards 0
  int64_t around0(int64_t lo, int64_t hi)
  {
    uint64_t v = below((uint64_t)(hi - lo) + 1);
    // enumerate 0, 1, -1, 2, -2 ... while both sides are available
    int64_t p = hi, n = -lo;
    int64_t m = p < n ? p : n;
    if ((int64_t)v <= 2 * m) { return (v & 1) ? (int64_t)(v + 1) / 2 : -(int64_t)(v / 2); }
    int64_t r = (int64_t)v - m;
    return p > n ? r : -r;
  }
  //! True with probability pct/100; shrinks towards false
  bool chance(int pct) { return (int)below(100) >= 100 - pct; }
  bool flip() { return below(2) != 0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  //! Index with relative weights; shrinks towards 0
  size_t weighted(const std::vector<int> &w)
  {
    int t = 0; for (int x : w) { t += x; }
    int r = (int)below(t);
    for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) { return i; } r -= w[i]; }
    return 0;
  }
  //! Real in [0,1] with a 'nice value' bias; shrinks towards 0
  double unit()
  {
    switch (below(4)) {
    case 0: return below(3) * 0.5;
    case 1: return below(9) / 8.0;
    default: return below(1u << 20) / double((1u << 20) - 1);
    }
  }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  const std::vector<uint64_t> &recorded() const { return m_rec; }

private:
  uint64_t m_state;
  bool m_replay;
  std::vector<uint64_t> m_in;
  size_t m_pos = 0;
  std::vector<uint64_t> m_rec;
};

//! Per-case context: notes for samples, non-triviality, class labels
struct Ctx
{
  std::ostringstream notes;
  bool nontrivial = false;
  std::vector<std::string> labels;
  std::string scratch;   //!< private directory of this worker
  bool verbose = false;
  void label(const std::string &l) { labels.push_back(l); }
  template <class T> Ctx &operator<<(const T &t) { notes << t; return *this; }
};

typedef void (*TestFn)(Src &, Ctx &);

struct Test
{
  const char *name;
  TestFn fn;
  int quick, thorough;   //!< case counts
  int hangSec;           //!< watchdog per case
  int reruns;            //!< confirmation runs
  const char *rule;      //!< what is generated and what counts as non-trivial
  bool fresh = false;    //!< each case in a process of its own
};

std::vector<Test> &registry();
struct Reg { Reg(const Test &t) { registry().push_back(t); } };

#define PBT_TEST(NAME, QUICK, THOROUGH, RULE)                              \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c);                        \
  static pbt::Reg pbtreg_##NAME(pbt::Test{#NAME, pbt_##NAME, QUICK,        \
                                          THOROUGH, 120, 3, RULE});        \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c)

//! As PBT_TEST, but each case runs in a process of its own, in which nothing was used before
#define PBT_TEST_FRESH(NAME, QUICK, THOROUGH, RULE)                        \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c);                        \
  static pbt::Reg pbtreg_##NAME(pbt::Test{#NAME, pbt_##NAME, QUICK,        \
                                          THOROUGH, 120, 3, RULE, true});  \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c)

#define PBT_TEST_MT(NAME, QUICK, THOROUGH, RULE)                           \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c);                        \
  static pbt::Reg pbtreg_##NAME(pbt::Test{#NAME, pbt_##NAME, QUICK,        \
                                          THOROUGH, 120, 60, RULE});       \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c)

#define PBT_FAIL(SIG, STREAM)                                              \
  do { std::ostringstream pbt_os; pbt_os.precision(17); pbt_os << STREAM;  \
       throw pbt::Failure{SIG, pbt_os.str()}; } while (0)
#define PBT_CHECK(COND, SIG, STREAM)                                       \
  do { if (!(COND)) PBT_FAIL(SIG, STREAM); } while (0)

//! Called once in each worker before its first case (library initialisation)
extern void (*workerInit)();

int mainImpl(int argc, char **argv);
} // namespace pbt

// C23: name patterns and file sequences mean what they say.
#include "common.h"
#include "Field3D/PatternMatch.h"
#include "Field3D/FileSequence.h"
#include "Field3D/InitIO.h"
#include "Field3D/Log.h"
#include <unistd.h>
#include <fstream>
using namespace fx;
typedef std::vector<std::string> SV;

// Shell pattern matcher of the oracle: '*', '?', '[..]', '[!..]', anything else itself
static bool glob(const char *p, const char *t)
{
  if (!*p) { return !*t; }
  if (*p == '*') { for (const char *u = t; ; ++u) { if (glob(p + 1, u)) { return true; } if (!*u) { return false; } } }
  if (!*t) { return false; }
  if (*p == '?') { return glob(p + 1, t + 1); }
  if (*p == '[') {
    const char *q = p + 1; bool neg = *q == '!'; if (neg) { ++q; }
    bool in = false, first = true;
    for (; *q && (first || *q != ']'); ++q) {
      first = false;
      if (q[1] == '-' && q[2] && q[2] != ']') { if (*q <= *t && *t <= q[2]) { in = true; } q += 2; }
      else if (*q == *t) { in = true; }
    }
    return in != neg && glob(q + 1, t + 1);
  }
  return *p == *t && glob(p + 1, t + 1);
}
static std::string genWord(Src &s, int lo, int hi)
{
  static const char *al = "abcAB_.01-^#@/\\";
  std::string w; int n = (int)s.range(lo, hi); for (int i = 0; i < n; ++i) { w += al[s.chance(70) ? s.below(3) : s.below(15)]; } return w;
}
// A pattern, often derived from the word it may have to match
static std::string genGlob(Src &s, const std::string &w)
{
  std::string p; bool der = s.chance(75);
  std::string base = der ? w : genWord(s, 0, 5);
  for (size_t i = 0; i < base.size(); ++i) {
    switch (s.weighted({60, 10, 10, 6, 5, 5, 4})) {
    case 0: p += base[i]; break;
    case 1: p += '?'; break;
    case 2: p += '*'; if (s.flip()) { i += s.below(3); } break;
    case 3: p += std::string("[") + (s.flip() ? "!" : "") + "ab" + "]"; break;
    case 4: p += std::string("[") + (s.flip() ? "!" : "") + "a-c]"; break;
    case 5: p += base[i]; p += '*'; break;
    default: break;
    }
  }
  if (s.chance(10)) { p += "*"; }
  return p;
}
struct Pat { bool excl; char mark; std::string name, attr; bool colon; std::string str() const { return (excl ? std::string(1, mark) : "") + (colon ? name + ":" : "") + attr; } };
static std::string join(const SV &v) { std::string r; for (auto &x : v) { r += "'" + x + "' "; } return r; }

PBT_TEST(match, 1500, 60000, "up to 6 patterns with wildcards, bracket expressions, name parts and exclusions in any order, mostly derived from the name they are asked for; against an independent matcher; relations: order does not matter, an exclusion wins, the overloads agree; non-trivial = both an inclusion and an exclusion, or a name part")
{
  std::string name = s.chance(10) ? "" : genWord(s, 1, 5), attr = s.chance(5) ? "" : genWord(s, 1, 6);
  std::vector<Pat> ps; int n = (int)s.range(0, 6);
  for (int i = 0; i < n; ++i) {
    Pat p; p.excl = s.chance(30); p.mark = s.flip() ? '^' : '-'; p.colon = s.chance(35); p.name = p.colon ? genGlob(s, name) : ""; p.attr = genGlob(s, attr);
    if (!p.excl) { std::string t = p.str(); if (!t.empty() && (t[0] == '-' || t[0] == '^')) { p.excl = true; p.mark = t[0]; if (p.colon) { if (p.name.empty()) { continue; } p.name.erase(0, 1); } else { p.attr.erase(0, 1); } } }
    ps.push_back(p);
  }
  SV strs; for (auto &p : ps) { strs.push_back(p.str()); }
  if (s.chance(15)) { strs.insert(strs.begin() + s.below(strs.size() + 1), ""); }
  c << "name '" << name << "' attribute '" << attr << "' patterns " << join(strs);
  bool in = false, ex = false, in1 = false, ex1 = false, anyC = false, anyE = false, anyI = false;
  for (auto &p : ps) {
    anyC |= p.colon; (p.excl ? anyE : anyI) = true;
    if (p.str().empty()) { continue; }
    // the whole of name:attribute is matched, so that wildcards may cross the separator
    std::string pat = (p.colon ? p.name + ":" : "") + p.attr;
    bool m = p.colon ? glob(pat.c_str(), (name + ":" + attr).c_str()) : glob(pat.c_str(), attr.c_str());
    (p.excl ? ex : in) |= m;
    bool m1 = glob(p.attr.c_str(), attr.c_str()); (p.excl ? ex1 : in1) |= m1;
  }
  c.nontrivial = anyC || (anyE && anyI);
  bool e2 = strs.empty() ? true : in && !ex, e1 = strs.empty() ? true : in1 && !ex1;
  PBT_CHECK(match(name, attr, strs) == e2, "match-name", "match() of name and attribute gives " << !e2);
  PBT_CHECK(match(attr, strs) == e1, "match-attr", "match() of the attribute gives " << !e1);
  PBT_CHECK(match(name, attr, strs, MatchNoFlags) == (strs.empty() ? false : e2), "match-empty", "without MatchEmptyPattern, match() gives " << !(strs.empty() ? false : e2));
  PBT_CHECK(match(attr, strs, MatchNoFlags) == (strs.empty() ? false : e1), "match-empty", "without MatchEmptyPattern, match() gives " << !(strs.empty() ? false : e1));
  DenseFieldf f; f.name = name; f.attribute = attr;
  PBT_CHECK(match(&f, strs) == e2, "match-field", "match() of the field gives " << !e2);
  // one string
  std::string one; size_t nz = 0; for (auto &x : strs) { if (x.empty()) { continue; } ++nz; if (!one.empty() || s.chance(20)) { one += s.chance(20) ? "  " : " "; } one += x; }
  bool s2 = nz ? e2 : true, s1 = nz ? e1 : true;
  PBT_CHECK(match(name, attr, one) == s2 && match(&f, one) == s2, "match-string", "match() of the patterns as one string gives " << !s2);
  PBT_CHECK(match(attr, one) == s1, "match-string", "match() of the attribute against one string gives " << !s1);
  // order
  for (size_t i = strs.size(); i > 1; --i) { std::swap(strs[i - 1], strs[s.below(i)]); }
  PBT_CHECK(match(name, attr, strs) == e2 && match(attr, strs) == e1, "match-order", "the order of the patterns matters");
}

PBT_TEST(split, 600, 20000, "strings of letters and separators, any set of separator characters; non-trivial = more than one token")
{
  static const char *al = "ab,;: \t-";
  std::string seps; int ns = (int)s.range(1, 3); for (int i = 0; i < ns; ++i) { seps += al[2 + s.below(6)]; }
  bool def = s.chance(30); if (def) { seps = " "; }
  std::string t; int n = (int)s.range(0, 14); for (int i = 0; i < n; ++i) { t += s.flip() ? al[s.below(2)] : al[s.below(8)]; }
  SV e; std::string cur; for (char ch : t) { if (seps.find(ch) != std::string::npos) { if (!cur.empty()) { e.push_back(cur); } cur.clear(); } else { cur += ch; } } if (!cur.empty()) { e.push_back(cur); }
  SV g = def ? split(t) : split(t, seps);
  c << "'" << t << "' by '" << seps << "'"; c.nontrivial = e.size() > 1;
  PBT_CHECK(g == e, "split", "split() gives " << join(g) << "instead of " << join(e));
}

PBT_TEST(sequence, 1000, 40000, "well-formed sequences (any prefix and suffix, either mark, frames up to the largest int, empty and single ranges), malformed ones (missing frames, dash or mark, two marks, numbers that are no int) and names of existing files, among them names that look like sequences; non-trivial = a range with more than one frame, or a malformed one")
{
  std::string dir = c.scratch + "/";
  static const char *pre[] = {"f.", "f", "a-b.", "a-", "sub/f_", "x1-2.", "7x", "n-1_", "-", "--", "f 1 "}, *suf[] = {".f3d", "", ".1.f3d", "-3", "_", "12"};
  std::string head = std::string(s.chance(50) ? dir : "") + pre[s.below(11)], tail = suf[s.below(6)]; char mark = s.flip() ? '#' : '@';
  SV e; std::string q; int kind = (int)s.weighted({60, 40, 10});
  if (kind == 0) {
    long a = s.chance(15) ? 2147483647L - s.below(20) : s.chance(30) ? (long)s.below(100000) : (long)s.below(12), b = a + s.around0(-2, 12);
    if (b < 0) { b = 0; } if (b > 2147483647L) { b = 2147483647L; }
    int zeros = s.chance(15) ? (int)s.range(1, 3) : 0;
    std::ostringstream o; o << head << std::string(zeros, '0') << a << "-" << std::string(s.chance(10) ? 1 : 0, '0') << b << mark << tail; q = o.str();
    for (long i = a; i <= b; ++i) { std::ostringstream f; f << head << i << tail; e.push_back(f.str()); }
    c << "sequence '" << q << "'"; c.nontrivial = e.size() > 1;

  } else if (kind == 1) {
    std::string A = std::to_string(s.below(5)), B = std::to_string(s.range(5, 9));
    int bad = (int)s.below(11);
    switch (bad) {
    case 0: q = head + A + "-" + B + tail; break;                       // no mark
    case 1: q = head + A + "-" + B + mark + tail + (s.flip() ? '#' : '@'); break;
    case 2: q = "f." + B + mark + tail; break;                          // one number
    case 3: q = head + A + "-" + mark + tail; break;                    // no end
    case 4: q = std::string("f.-") + B + mark + tail; break;            // no start
    case 5: q = std::string("-") + B + mark + tail; break;
    case 6: q = std::string(1, mark) + A + "-" + (s.flip() ? B : "") + tail; break;
    case 7: q = head + A + "_" + B + mark + tail; break;
    case 8: q = std::string("f.-") + mark + tail; break;
    case 9: q = head + A + "-" + "99999999999" + mark + tail; break;    // no int
    default: q = head + "9999999999" + A + "-" + "9999999999" + B + mark + tail;
    }
    c << "malformed " << bad << " '" << q << "'"; c.nontrivial = true;
  } else {
    q = dir + "x" + (s.flip() ? "1-4@" : "") + (s.flip() ? "#" : "") + ".f3d";
    { std::ofstream(q.c_str()) << "x"; }
    e.push_back(q); c << "existing file '" << q << "'"; c.nontrivial = true;
  }
  FileSequence fs(q);
  if (kind == 2) { unlink(q.c_str()); }
  PBT_CHECK(fs.size() == fs.filenames().size(), "sequence-size", "size() is " << fs.size());
  PBT_CHECK(fs.size() == e.size(), "sequence-count", fs.size() << " files instead of " << e.size() << (fs.size() ? ", first '" + fs.filename(0) + "'" : ""));
  for (size_t i = 0; i < e.size(); ++i) { PBT_CHECK(fs.filename(i) == e[i] && fs.filenames()[i] == e[i], "sequence-name", "file " << i << " is '" << fs.filename(i) << "' instead of '" << e[i] << "'"); }
  FileSequence none; PBT_CHECK(none.size() == 0, "sequence-size", "a default sequence has files");
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); }; } } g_init;

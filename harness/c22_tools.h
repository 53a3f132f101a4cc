#pragma once
// C22: the command-line tools do to files what the library does.
#include "io.h"
#include "Field3D/PatternMatch.h"
#include "Field3D/InitIO.h"
#include "Field3D/Log.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
using namespace fx;
typedef std::vector<std::string> SV;

struct Run { int rc; std::string out; };   // rc < 0: ended by a signal or a sanitizer
inline Run runTool(const char *env, const SV &args, const std::string &dir)
{
  const char *exe = getenv(env); PBT_CHECK(exe, "tool-missing", env << " is not set");
  std::string log = dir + "/out.txt";
  pid_t p = fork();
  if (p == 0) {
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); int n = open("/dev/null", O_RDONLY); dup2(n, 0);
    for (int i = 3; i < 256; ++i) { close(i); }
    std::string a = getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : ""; a += ":exitcode=99"; setenv("ASAN_OPTIONS", a.c_str(), 1); setenv("UBSAN_OPTIONS", "exitcode=99", 1);
    alarm(60);
    std::vector<char *> v; v.push_back((char *)exe); for (auto &x : args) { v.push_back((char *)x.c_str()); } v.push_back(NULL);
    execv(exe, v.data()); _exit(98);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Run r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  std::ifstream f(log.c_str()); std::ostringstream o; o << f.rdbuf(); r.out = o.str(); unlink(log.c_str());
  if (r.rc == 99) { r.rc = -1; }
  return r;
}
inline std::string tail(const std::string &s) { return s.size() > 600 ? "..." + s.substr(s.size() - 600) : s; }
inline std::string join(const SV &v) { std::string r; for (auto &x : v) { r += x + " "; } return r; }

struct Layer { std::string part, name; AnyField f; bool ogawa; };
//! Files for a tool to work on; layers are unique over all of them
struct Inputs { SV files; std::vector<Layer> layers; std::vector<std::map<std::string, std::string> > meta; };
inline FieldMapping::Ptr genToolMap(Src &s, bool frustum) { switch (s.below(frustum ? 3 : 2)) { case 0: return FieldMapping::Ptr(new NullFieldMapping); case 1: return mkMatrix(genMatrixSpec(s)); default: return mkFrustum(genFrustumSpec(s)); } }
inline void setMeta(Src &s, FieldMetadata &m)
{
  if (s.flip()) { m.setIntMetadata("i", (int)s.around0(-100, 100)); } if (s.flip()) { m.setFloatMetadata("f", (float)s.around0(-100, 100) / 4); } if (s.flip()) { m.setStrMetadata("s t", s.flip() ? "two words" : ""); }
  if (s.flip()) { m.setVecIntMetadata("vi", V3i(1, -2, (int)s.below(9))); } if (s.flip()) { m.setVecFloatMetadata("vf", V3f(0.5f, -2, (float)s.below(9))); }
}
inline Inputs genInputs(Src &s, Ctx &c, const GenOpt &opt, int maxFiles, bool frustum, bool suffixes = false)
{
  static const char *parts[] = {"a", "b", "ab", "c.x"}, *names[] = {"d", "v", "dens", "d_min", "x_max"};
  Inputs in; int n = (int)s.range(1, maxFiles); std::set<std::string> used; std::map<std::string, FieldMapping::Ptr> maps;
  bool onePerPart = s.flip();
  for (int q = 0; q < n; ++q) {
    bool og = s.flip(); std::string fn = c.scratch + "/in" + std::to_string(q) + ".f3d";
    Field3DOutputFile::useOgawa(og); Field3DOutputFile out; PBT_CHECK(out.create(fn), "tool-setup", "create() failed");
    int m = (int)s.range(q == 0 ? 1 : 0, 4);
    c << (og ? "ogawa{" : "hdf5{");
    for (int i = 0; i < m; ++i) {
      Layer l; l.part = parts[s.below(4)]; l.name = names[s.below(suffixes ? 5 : 3)]; l.ogawa = og;
      if (!used.insert(l.part + "/" + l.name).second) { continue; }
      GenOpt o = opt; if (og) { o.classes &= ~(1u << kMAC); }
      l.f = genAny(s, o); FieldMapping::Ptr &mp = maps[l.part]; if (!mp || !onePerPart) { mp = genToolMap(s, frustum); }
      l.f.f->setMapping(mp->clone()); setMeta(s, l.f.f->metadata());
      c << l.part << ":" << l.name << " " << l.f.desc() << " " << mp->className() << "; ";
      PBT_CHECK(writeAny(out, l.part, l.name, l.f), "tool-setup", "writing failed");
      in.layers.push_back(l);
    }
    std::map<std::string, std::string> g; if (s.flip()) { g["global"] = "value " + std::to_string(q); out.metadata().setStrMetadata("global", g["global"]); out.writeGlobalMetadata(); }
    in.meta.push_back(g);
    PBT_CHECK(out.close(), "tool-setup", "close() failed");
    c << "} ";
    in.files.push_back(fn);
  }
  Field3DOutputFile::useOgawa(true);
  return in;
}
inline SV genPats(Src &s, bool names)
{
  static const char *np[] = {"a", "b", "a*", "c.x", "?", "-b", "^a*", "zz"}, *lp[] = {"d", "v", "d*", "*s", "-v", "^d", "?", "zz"};
  SV r; if (s.chance(55)) { return r; } int n = (int)s.range(1, 2); for (int i = 0; i < n; ++i) { r.push_back(names ? np[s.below(8)] : lp[s.below(8)]); } return r;
}
//! The layer of that name, which has to be the only one
inline FieldRes::Ptr readOnly(Field3DInputFile &in, const std::string &part, const std::string &name, int type)
{
  FieldRes::Ptr r;
  for (int t = 0; t < 6; ++t) {
    auto v = readAny(in, part, name, t);
    if (t != type) { PBT_CHECK(v.empty(), "tool-extra", "the output has " << part << ":" << name << " as " << typeName(t)); continue; }
    PBT_CHECK(v.size() == 1, "tool-count", "the output has " << v.size() << " layers " << part << ":" << name << " of " << typeName(t));
    r = v[0];
  }
  return r;
}
inline void listed(Field3DInputFile &in, std::set<std::string> &s, std::set<std::string> &v)
{
  SV p; in.getPartitionNames(p);
  for (auto &x : p) { SV a; in.getScalarLayerNames(a, x); for (auto &y : a) { s.insert(x + "/" + y); } a.clear(); in.getVectorLayerNames(a, x); for (auto &y : a) { v.insert(x + "/" + y); } }
}
inline std::string setStr(const std::set<std::string> &s) { std::string r; for (auto &x : s) { r += x + " "; } return r; }
inline bool sameMeta(const FieldMetadata &a, const FieldMetadata &b)
{ return a.intMetadata() == b.intMetadata() && a.floatMetadata() == b.floatMetadata() && a.strMetadata() == b.strMetadata() && a.vecIntMetadata() == b.vecIntMetadata() && a.vecFloatMetadata() == b.vecFloatMetadata(); }
//! Options in the order of the draw; positional files where the tool takes them
inline SV fileArgs(Src &s, const SV &files)
{
  SV r; int how = (int)s.below(3);
  for (auto &f : files) { if (how == 0) { r.push_back(f); } else if (how == 1) { r.push_back("-i"); r.push_back(f); } else { r.push_back("--input-file=" + f); } }
  return r;
}
struct Cleanup { SV f; ~Cleanup() { for (auto &x : f) { unlink(x.c_str()); } } };

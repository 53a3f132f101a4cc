// C19: the number of I/O threads changes nothing but the time taken.
#include "io.h"
#include <thread>
#include <atomic>
#include "perturb.h"
using namespace fx;

#define MT_TEST(NAME, QUICK, THOROUGH, RULE)                               \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c);                        \
  static pbt::Reg pbtreg_##NAME(pbt::Test{#NAME, pbt_##NAME, QUICK,        \
                                          THOROUGH, 40, 60, RULE});        \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c)

namespace {
int genThreads(Src &s) { switch (s.weighted({6, 3, 1, 1})) { case 0: return (int)s.range(2, 6); case 1: return (int)s.range(1, 16); case 2: return 0; default: return (int)s.range(17, 40); } }
void genFields(Src &s, Ctx &c, std::vector<AnyField> &fs)
{
  int n = (int)s.range(1, 2);
  for (int i = 0; i < n; ++i) {
    GenOpt o; o.classes = s.chance(80) ? 1u << kSparse : (1u << kDense) | (1u << kMIPSparse) | (1u << kMIPDense); o.maxRes = 22; o.maxOrder = 3;
    fs.push_back(genAny(s, o)); c << " " << fs[i].desc() << " " << fs[i].blocks << " blocks;"; if (fs[i].blocks > 3) { c.nontrivial = true; }
  }
}
void write(Ctx &c, const std::string &fn, const std::vector<AnyField> &fs)
{
  Field3DOutputFile out; PBT_CHECK(out.create(fn), "iot-create", "create() failed");
  for (size_t i = 0; i < fs.size(); ++i) { PBT_CHECK(writeAny(out, "p", "l" + std::to_string(i), fs[i]), "iot-write", "writing failed"); }
  PBT_CHECK(out.close(), "iot-close", "close() failed"); (void)c;
}
void read(Field3DInputFile &in, const std::vector<AnyField> &fs, const std::string &what)
{
  for (size_t i = 0; i < fs.size(); ++i) {
    auto g = readAny(in, "p", "l" + std::to_string(i), fs[i].type); PBT_CHECK(g.size() == 1 && g[0], "iot-read", what << ": " << g.size() << " fields came back");
    cmpField(fs[i], g[0], what);
  }
}
}

MT_TEST(write_threads, 120, 2000, "sparse fields of any type with up to a few hundred blocks allocated in any pattern (and dense and MIP fields) written with one and with 0-40 threads, lock and compression calls giving way at generated moments: the same file, byte for byte, and the contents written; non-trivial = more than three allocated blocks")
{
  IOReset rst; std::vector<AnyField> fs; genFields(s, c, fs); bool og = s.chance(80); Field3DOutputFile::useOgawa(og);
  std::string a = c.scratch + "/a.f3d", b = c.scratch + "/b.f3d"; unlink(a.c_str()); unlink(b.c_str());
  setNumIOThreads(1); write(c, a, fs); std::string one = slurpFile(a);
  int n = (int)s.range(1, 4);
  for (int q = 0; q < n; ++q) {
    int t = genThreads(s); setNumIOThreads(t); c << " " << t << " threads";
    { Perturb pt((unsigned)s.range(0, 8), 1 + (unsigned)s.below(1u << 20)); write(c, b, fs); }
    std::string what = "written with " + std::to_string(t) + " threads";
    if (og) { bool same = slurpFile(b) == one; PBT_CHECK(same, "iot-bytes", "the file " << what << " differs from the one written with one"); }
    if (!og || s.chance(30)) { setNumIOThreads(1); Field3DInputFile in; PBT_CHECK(in.open(b), "iot-open", "open() failed"); read(in, fs, what); }
    unlink(b.c_str());
  }
}

MT_TEST(read_threads, 30, 3000, "the same fields read with 0-40 threads, the number changing between opening and reading, some layers read again, lock and decompression calls giving way at generated moments: the contents written, bit for bit; non-trivial = more than three allocated blocks")
{
  IOReset rst; std::vector<AnyField> fs; genFields(s, c, fs); bool og = s.chance(80); Field3DOutputFile::useOgawa(og);
  std::string a = c.scratch + "/a.f3d"; unlink(a.c_str()); setNumIOThreads(1); write(c, a, fs);
  int n = (int)s.range(1, 4); Perturb pt((unsigned)s.range(0, 8), 1 + (unsigned)s.below(1u << 20));
  for (int q = 0; q < n; ++q) {
    int t0 = genThreads(s), t = s.flip() ? t0 : genThreads(s); setNumIOThreads(t0); c << " " << t0 << "/" << t << " threads";
    Field3DInputFile in; PBT_CHECK(in.open(a), "iot-open", "open() failed");
    setNumIOThreads(t); read(in, fs, "read with " + std::to_string(t) + " threads"); if (s.flip()) { read(in, fs, "read again"); }
  }
}

MT_TEST(many_blocks, 8, 200, "sparse fields of many thousands of 2-voxel blocks, allocated in checkers, stripes or at random with generated density, written and read a few times with 2-16 freely running threads: each file has the bytes of the one written with one thread, each read the contents; non-trivial = allocated and unallocated blocks")
{
  IOReset rst; bool og = s.chance(85); Field3DOutputFile::useOgawa(og);
  AnyField f; f.type = 0; f.cls = kSparse;
  SparseField<float>::Ptr p(new SparseField<float>); p->name = "p"; p->attribute = "l0";
  V3i r; for (int a = 0; a < 3; ++a) { r[a] = og ? (int)s.range(24, 64) : (int)s.range(8, 20); }
  p->setBlockOrder(1); p->setSize(r); p->clear(0.5f);
  int kind = (int)s.below(4), m = (int)s.range(2, 5); uint64_t sd = s.below(1u << 20); size_t on = 0, off = 0;
  V3i br = p->blockRes();
  forVox(zbox(br), [&](int i, int j, int k) {
    bool w = kind == 0 ? (i + j + k) % m == 0 : kind == 1 ? (i / m) % 2 == 0 : kind == 2 ? vhash(sd, i, j, k) % m == 0 : vhash(sd, i, j, k) % m != 0;
    if (w) { p->lvalue(2 * i, 2 * j, 2 * k) = (float)(vhash(sd, k, i, j) % 1000); ++on; } else { ++off; }
  });
  f.f = p; f.blocks = on; std::vector<AnyField> fs(1, f);
  std::string a = c.scratch + "/a.f3d", b = c.scratch + "/b.f3d"; unlink(a.c_str()); unlink(b.c_str());
  setNumIOThreads(1); write(c, a, fs); std::string one = slurpFile(a);
  int n = (int)s.range(2, 6); c << vs(br) << " blocks, " << on << " allocated" << (og ? ", Ogawa" : ", HDF5"); c.nontrivial = on && off;
  for (int q = 0; q < n; ++q) {
    int t = (int)s.range(2, 16); setNumIOThreads(t); c << " " << t << " threads"; write(c, b, fs);
    if (og) { bool same = slurpFile(b) == one; PBT_CHECK(same, "iot-bytes", "the file written with " << t << " threads differs from the one written with one"); }
    Field3DInputFile in; PBT_CHECK(in.open(b), "iot-open", "open() failed"); read(in, fs, "read with " + std::to_string(t) + " threads");
    unlink(b.c_str());
  }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;

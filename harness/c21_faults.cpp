// C21: a write that fails is reported, and a file whose writing stopped anywhere is refused or right.
#include "c20_damage.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <zlib.h>
#include <atomic>
#include <mutex>
using namespace fx;

//----------------------------------------------------------------------------
// Stand-ins for the calls that store and compress: they count, fail on request, and take snapshots
//----------------------------------------------------------------------------
namespace {
struct Faults
{
  std::atomic<bool> armed{false};
  std::atomic<int> writes{0}, compressions{0}, fired{0};
  int failWrite = -1;          // this write fails
  int failCompress = -1;
  bool forever = false;        // and so do all that follow
  bool torn = false;           // some of it is stored first
  int err = ENOSPC;
  std::vector<int> snapAt;     // before these writes
  std::string file; std::vector<Bytes> snaps; std::mutex m;
  void reset() { armed = false; writes = 0; compressions = 0; fired = 0; failWrite = failCompress = -1; forever = torn = false; snapAt.clear(); snaps.clear(); }
} F;

bool ours(int fd) { struct stat st; return F.armed && fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode); }
//! -1: carry on; otherwise how much of n to store before failing
ssize_t fault(size_t n)
{
  int k = F.writes++;
  for (int q : F.snapAt) { if (q == k) { std::lock_guard<std::mutex> l(F.m); F.snaps.push_back(slurp(F.file)); } }
  if (F.failWrite < 0 || !(k == F.failWrite || (F.forever && k > F.failWrite))) { return -1; }
  F.fired++;
  return F.torn && k == F.failWrite ? n / 2 : 0;
}
}
extern "C" ssize_t write(int fd, const void *b, size_t n)
{
  if (ours(fd)) { ssize_t f = fault(n); if (f > 0) { return syscall(SYS_write, fd, b, f); } if (f == 0) { errno = F.err; return -1; } }
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c)
{
  if (ours(fd)) {
    size_t n = 0; for (int i = 0; i < c; ++i) { n += v[i].iov_len; }
    ssize_t f = fault(n);
    if (f > 0 && c && v[0].iov_len) { return syscall(SYS_write, fd, v[0].iov_base, std::min<size_t>(f, v[0].iov_len)); }
    if (f >= 0) { errno = F.err; return -1; }
  }
  return syscall(SYS_writev, fd, v, c);
}
extern "C" ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
  if (ours(fd)) { ssize_t f = fault(n); if (f > 0) { return syscall(SYS_pwrite64, fd, b, f, o); } if (f == 0) { errno = F.err; return -1; } }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
extern "C" ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
extern "C" int compress2(Bytef *d, uLongf *n, const Bytef *s, uLong m, int l)
{
  typedef int (*Fn)(Bytef *, uLongf *, const Bytef *, uLong, int); static Fn f = (Fn)dlsym(RTLD_NEXT, "compress2");
  if (F.armed) {
    int k = F.compressions++;
    if (F.failCompress >= 0 && (k == F.failCompress || (F.forever && k > F.failCompress))) { F.fired++; return (k & 1) ? Z_MEM_ERROR : Z_BUF_ERROR; }
  }
  return f(d, n, s, m, l);
}

namespace {
GenOpt small(bool ogawa, int res = 9) { GenOpt o; o.maxRes = res; o.maxOrder = 3; if (ogawa) { o.classes &= ~(1u << kMAC); } return o; }

//! What the calls that write a file said
struct Said { bool create = false, global = true, close = true, threw = false; std::vector<char> layer; bool good() const { if (!create || !global || !close || threw) { return false; } for (char l : layer) { if (!l) { return false; } } return true; } };

void genFields(Src &s, Ctx &c, Victim &v, int maxLayers, const GenOpt &opt)
{
  int n = (int)s.range(1, maxLayers); bool same = s.flip();
  for (int i = 0; i < n; ++i) {
    AnyField f = genAny(s, opt);
    switch (s.below(3)) {
    case 0: f.f->setMapping(FieldMapping::Ptr(new NullFieldMapping)); break;
    case 1: f.f->setMapping(mkMatrix(genMatrixSpec(s))); break;
    default: f.f->setMapping(mkFrustum(genFrustumSpec(s)));
    }
    if (s.flip()) { f.f->metadata().setIntMetadata("i", 5); f.f->metadata().setVecIntMetadata("vi", V3i(1, 2, 3)); f.f->metadata().setStrMetadata("s", "text"); }
    v.fs.push_back(f); v.parts.push_back(same ? "p" : "p" + std::to_string(i)); v.names.push_back("l" + std::to_string(i));
    c << (i ? "; " : v.ogawa ? "Ogawa " : "HDF5 ") << f.desc();
  }
}
//! Exceptions count as reports, as long as they leave by the call that failed
#define SAY(WHAT) try { WHAT; } catch (std::exception &) { said.threw = true; }
Said writeFile(Victim &v, const std::string &file, Field3DOutputFile &out, bool global, bool close, size_t *snapsAfterLayer = 0)
{
  Said said; said.layer.assign(v.fs.size(), 0);
  Field3DOutputFile::useOgawa(v.ogawa);
  SAY(said.create = out.create(file));
  if (!said.create) { return said; }
  if (global) { out.metadata().setStrMetadata("s", "text"); SAY(said.global = out.writeGlobalMetadata()); }
  for (size_t i = 0; i < v.fs.size(); ++i) {
    SAY(said.layer[i] = writeAny(out, v.parts[i], v.names[i], v.fs[i]));
    if (snapsAfterLayer) { std::lock_guard<std::mutex> l(F.m); F.snaps.push_back(slurp(file)); }
  }
  if (close) { SAY(said.close = out.close()); }
  return said;
}
void complete(Victim &v, const std::string &file, const char *what)
{
  Field3DInputFile in;
  PBT_CHECK(in.open(file), "flt-open", what << ": the file can not be opened");
  for (size_t i = 0; i < v.fs.size(); ++i) {
    std::vector<FieldRes::Ptr> got;
    try { got = readAny(in, v.parts[i], v.names[i], v.fs[i].type); } catch (std::exception &e) { PBT_FAIL("flt-lost", what << ": reading layer " << v.names[i] << " threw " << e.what()); }
    PBT_CHECK(got.size() == 1, "flt-lost", what << ": layer " << v.names[i] << " came back " << got.size() << " times");
    try { cmpField(v.fs[i], got[0], std::string(what) + ", layer " + v.names[i] + " " + v.fs[i].desc()); }
    catch (std::exception &e) { PBT_FAIL("flt-lost", what << ": voxels of layer " << v.names[i] << " threw " << e.what()); }
    PBT_CHECK(got[0]->mapping() && v.fs[i].f->mapping()->isIdentical(got[0]->mapping()), "flt-mapping", what << ": the mapping of layer " << v.names[i] << " is another one");
    PBT_CHECK(got[0]->metadata().intMetadata("i", 0) == v.fs[i].f->metadata().intMetadata("i", 0) && got[0]->metadata().vecIntMetadata("vi", V3i(0)) == v.fs[i].f->metadata().vecIntMetadata("vi", V3i(0))
              && got[0]->metadata().strMetadata("s", "") == v.fs[i].f->metadata().strMetadata("s", ""), "flt-meta", what << ": the metadata of layer " << v.names[i] << " is not what was written");
  }
}
struct Quiet { ~Quiet() { F.reset(); } };
}

PBT_TEST(disk_full, 600, 9000, "A file with 1-3 layers (dense, sparse, MIP, MAC; either encoding, 1-4 threads) is written while one write to the disk, or all from some point on, fail, at any of the writes the file takes, whole or torn. Either some call said so, or the file reads back as written; layers of a file that was reported are refused or right; the same object then writes a complete file. Non-trivial: a write did fail.")
{
  IOReset rst; Quiet q; F.reset();
  Victim v; v.ogawa = s.flip(); genFields(s, c, v, 3, small(v.ogawa));
  bool global = s.flip(), close = !s.chance(15);
  int threads = 1 + (int)s.below(4); setNumIOThreads(threads);
  v.file = fileName(c, "ok.f3d");
  int n;
  { F.armed = true; Field3DOutputFile out; Said said = writeFile(v, v.file, out, global, true); F.armed = false; n = F.writes; PBT_CHECK(said.good(), "flt-clean", "writing failed although nothing was in its way"); }
  complete(v, v.file, "undisturbed file");
  F.reset();
  F.failWrite = s.chance(25) ? n - 1 - (int)s.below(std::min(n, 6)) : (int)s.below(n); F.forever = s.flip(); F.torn = s.chance(30); F.err = s.flip() ? ENOSPC : EIO;
  std::string bad = fileName(c, "bad.f3d");
  c << " write " << F.failWrite << " of " << n << (F.forever ? " and all that follow" : "") << (F.torn ? " torn" : "") << (close ? "" : " not closed"); c.label(v.ogawa ? "Ogawa" : "HDF5");
  bool reuse = s.flip();
  {
    Field3DOutputFile out; F.armed = true;
    Said said = writeFile(v, bad, out, global, close);
    bool failed = F.fired > 0; c.nontrivial = failed; c.label(!failed ? "no failure" : said.good() ? "not reported" : "reported");
    if (close && said.good()) { F.armed = false; complete(v, bad, failed ? "a write failed and was not reported" : "no write failed"); }
    if (!reuse) { F.armed = true; }
    else {
      F.armed = false; std::string again = fileName(c, "again.f3d");
      Said s2 = writeFile(v, again, out, global, true);
      PBT_CHECK(s2.good(), "flt-after", "a complete file could not be written after a failed one");
      complete(v, again, "file written after a failed one");
    }
  }
  F.armed = false;
  { Field3DInputFile in; refusedOrEqual(s, v, bad, in, false); stillReads(v, in); }
}

PBT_TEST(interrupted, 500, 8000, "The writer of a file with 1-3 layers disappears at any of its writes: copies of the file as it is on the disk before 1-6 of its writes and after each layer are opened and read. Each layer is refused or as it was written. Non-trivial: a copy is neither empty nor the complete file.")
{
  IOReset rst; Quiet q; F.reset();
  Victim v; v.ogawa = s.flip(); genFields(s, c, v, 3, small(v.ogawa)); setNumIOThreads(1 + (int)s.below(3));
  v.file = fileName(c, "ok.f3d");
  std::string second = fileName(c, "second.f3d"); F.file = second;
  bool global = s.flip(); int n;
  { F.armed = true; Field3DOutputFile out; Said said = writeFile(v, v.file, out, global, true); n = F.writes; F.reset(); PBT_CHECK(said.good(), "flt-clean", "writing failed although nothing was in its way"); }
  int k = (int)s.range(1, 6); for (int i = 0; i < k; ++i) { F.snapAt.push_back(s.chance(40) ? n - 1 - (int)s.below(std::min(n, 6)) : (int)s.below(n)); }
  size_t dummy;
  { F.armed = true; Field3DOutputFile out; Said said = writeFile(v, second, out, global, true, &dummy); F.armed = false; PBT_CHECK(said.good(), "flt-clean", "writing failed although nothing was in its way"); }
  Bytes whole = slurp(second);
  c << " " << F.snaps.size() << " copies of " << n << " writes"; c.label(v.ogawa ? "Ogawa" : "HDF5");
  bool dyn = s.chance(30);
  for (size_t i = 0; i < F.snaps.size(); ++i) {
    if (!F.snaps[i].empty() && F.snaps[i] != whole) { c.nontrivial = true; }
    std::string fn = fileName(c, ("snap" + std::to_string(i) + ".f3d").c_str()); spill(fn, F.snaps[i]);
    Field3DInputFile in; Fate f = refusedOrEqual(s, v, fn, in, dyn);
    c.label(!f.opened ? "refused by open()" : f.fields ? "layers returned" : "layers refused");
  }
  complete(v, second, "complete file");
}

PBT_TEST(no_compression, 400, 6000, "One or all compressions from some point on fail while 1-3 sparse, dense or MIP layers are written with 1-8 threads. The call that writes the layer says so and returns; layers reported as written read back as they were. Non-trivial: a compression failed.")
{
  IOReset rst; Quiet q; F.reset();
  Victim v; v.ogawa = s.chance(75); genFields(s, c, v, 3, small(v.ogawa, 14)); setNumIOThreads(1 + (int)s.below(8));
  v.file = fileName(c, "ok.f3d"); int n;
  { F.armed = true; Field3DOutputFile out; Said said = writeFile(v, v.file, out, false, true); n = F.compressions; F.reset(); PBT_CHECK(said.good(), "flt-clean", "writing failed although nothing was in its way"); }
  if (!n) { return; }
  F.failCompress = (int)s.below(n); F.forever = s.chance(30); c << " compression " << F.failCompress << " of " << n << (F.forever ? " and all that follow" : ""); c.label(v.ogawa ? "Ogawa" : "HDF5");
  std::string bad = fileName(c, "bad.f3d");
  bool retry = s.flip();
  Field3DOutputFile out; F.armed = true; Said said = writeFile(v, bad, out, false, !retry); F.armed = false;
  c.nontrivial = F.fired > 0; 
  if (retry) {
    for (size_t i = 0; i < v.fs.size(); ++i) { if (!said.layer[i]) { c << " written again"; PBT_CHECK(writeAny(out, v.parts[i], v.names[i], v.fs[i]), "flt-retry", "layer " << v.names[i] << " could not be written after it could not be compressed"); } }
    SAY(said.close = out.close());
  }
  if (said.good()) { complete(v, bad, "a block could not be compressed and no call said so"); }
  PBT_CHECK(said.create && said.close, "flt-file", "create() or close() failed, although everything but a layer was stored");
  Field3DInputFile in; PBT_CHECK(in.open(bad), "flt-open", "a file with a layer that could not be compressed can not be opened");
  for (size_t i = 0; i < v.fs.size(); ++i) {
    std::vector<FieldRes::Ptr> got; bool threw = false; int good = 0;
    try { got = readAny(in, v.parts[i], v.names[i], v.fs[i].type); } catch (std::exception &) { threw = true; }
    if (said.layer[i]) { PBT_CHECK(got.size() == 1, "flt-lost", "layer " << v.names[i] << " was reported as written and came back " << got.size() << " times"); cmpField(v.fs[i], got[0], "layer reported as written " + v.fs[i].desc()); }
    else {
      for (auto &f : got) { try { cmpField(v.fs[i], f, "layer reported as not written " + v.fs[i].desc()); good++; } catch (std::exception &) {} }
      PBT_CHECK(!retry || good || threw, "flt-retry", "layer " << v.names[i] << " was written again after it could not be, and can not be read");
    }
  }
}

PBT_TEST(impossible, 400, 5000, "Calls that can not succeed in between ones that can: null fields, fields of classes the file can not hold, layers before create() and after close(), create() in a missing folder, on a folder, on a full device. They return false; the other layers of the file are complete, and nothing else is listed or read. Non-trivial: at least one such call and one layer.")
{
  IOReset rst; Quiet q; F.reset();
  Victim v; v.ogawa = s.flip(); genFields(s, c, v, 4, small(v.ogawa, 5)); setNumIOThreads(1 + (int)s.below(2));
  v.file = fileName(c, "ok.f3d"); Field3DOutputFile::useOgawa(v.ogawa);
  Field3DOutputFile out; int odd = 0;
  auto notOpen = [&]() {
    PBT_CHECK(!writeAny(out, "p", "l", v.fs[0]), "imp-unopened", "a layer was written to no file");
    PBT_CHECK(!out.writeGlobalMetadata(), "imp-unopened", "metadata was written to no file");
    odd++;
  };
  if (s.chance(30)) { c << " before create();"; notOpen(); }
  if (s.chance(40)) {
    std::string nm;
    switch (s.below(3)) {
    case 0: nm = fileName(c, "missing/x.f3d"); break;
    case 1: nm = fileName(c, ""); break;
    default: nm = "/dev/full";
    }
    c << " create(" << (nm == "/dev/full" ? nm : nm.substr(nm.rfind('/') + 1)) << ");"; odd++;
    bool r = out.create(nm);
    // HDF5 stores nothing before it has to
    if (nm == "/dev/full") { if (r) { r = writeAny(out, "p", "l", v.fs[0]) && out.close(); } PBT_CHECK(!r, "imp-create", "a file was written to a full device"); }
    else { PBT_CHECK(!r, "imp-create", "create() of a file that can not exist succeeded"); if (s.flip()) { notOpen(); } }
  }
  PBT_CHECK(out.create(v.file), "dmg-create", "create() failed");
  int bad = 0;
  auto refuse = [&](size_t i) {
    std::string p = s.flip() ? v.parts[i] : "q", l = "bad" + std::to_string(bad++); odd++;
    AnyField nul = v.fs[i];
    switch (s.below(v.ogawa ? 5 : 3)) {
    case 0: nul.f = 0; PBT_CHECK(!writeAny(out, p, l, nul), "imp-null", "a null field was written"); c << " null;"; break;
    case 1: { EmptyField<float>::Ptr e(new EmptyField<float>); e->setSize(V3i(3)); e->setMapping(v.fs[i].f->mapping()); PBT_CHECK(!out.writeScalarLayer<float>(p, l, e), "imp-class", "an EmptyField was written"); c << " EmptyField;"; break; }
    case 2: { PBT_CHECK(!out.writeScalarLayer<float>(Field<float>::Ptr()), "imp-null", "a null field was written"); PBT_CHECK(!out.writeVectorLayer<float>(Field<V3f>::Ptr()), "imp-null", "a null field was written"); c << " null without names;"; break; }
    case 3: { MACField<V3f>::Ptr m(new MACField<V3f>); m->setSize(V3i(2)); m->setMapping(v.fs[i].f->mapping()); PBT_CHECK(!out.writeVectorLayer<float>(p, l, m), "imp-class", "a MAC field was written to an Ogawa file"); c << " MACField;"; break; }
    default: PBT_CHECK(!out.writeLayer<half>(p, l, Field<half>::Ptr()), "imp-null", "a null field was written"); c << " null;"; break;
    }
  };
  for (size_t i = 0; i < v.fs.size(); ++i) {
    if (s.chance(40)) { refuse(i); }
    PBT_CHECK(writeAny(out, v.parts[i], v.names[i], v.fs[i]), "dmg-write", "writing " << v.fs[i].desc() << " failed");
    if (s.chance(30)) { refuse(i); }
  }
  PBT_CHECK(out.close(), "dmg-close", "close() failed");
  if (s.chance(30)) { c << " after close();"; notOpen(); }
  c.nontrivial = odd > 0; c.label(v.ogawa ? "Ogawa" : "HDF5");
  complete(v, v.file, "file with refused layers");
  Field3DInputFile in; PBT_CHECK(in.open(v.file), "flt-open", "open() failed");
  std::vector<std::string> parts, l; in.getPartitionNames(parts);
  std::set<std::string> want, have;
  for (size_t i = 0; i < v.fs.size(); ++i) { want.insert(v.parts[i] + ":" + v.names[i]); }
  for (auto &p : parts) { for (int k = 0; k < 2; ++k) { if (k) { in.getVectorLayerNames(l, p); } else { in.getScalarLayerNames(l, p); } for (auto &x : l) { have.insert(p + ":" + x); } } }
  for (auto &h : have) { PBT_CHECK(want.count(h), "imp-listed", "the file lists " << h << ", which was refused"); }
  for (auto &w : want) { PBT_CHECK(have.count(w), "imp-unlisted", "the file does not list " << w); }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;

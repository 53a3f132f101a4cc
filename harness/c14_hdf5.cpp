// C14: what is written to an HDF5 file is what is read back.
#include "roundtrip.h"
#include "Hdf5Util.h"
using namespace fx;

PBT_TEST(layers, 250, 6000, "1-3 layers of generated dense, sparse, staggered and MIP fields of six voxel types (padded, offset and partial data windows, single voxels, all block orders, empty and uniform blocks, NaN, infinities, denormals, -0), read in any order, once or twice, also as a wrong type: every voxel, face, level, block and size must be bitwise equal; non-trivial = more than one voxel")
{ GenOpt o; roundTrip(s, c, o, 3, false); }

PBT_TEST(blocks, 60, 1200, "sparse fields of many small or few large blocks, up to 40 voxels a side; otherwise as layers")
{ GenOpt o; o.maxRes = 40; o.classes = (1 << kSparse); o.maxOrder = 6; roundTrip(s, c, o, 1, false); }

PBT_TEST(large, 6, 120, "fields of up to 72 voxels a side (many slices, chunks and writer batches); otherwise as layers")
{ GenOpt o; o.maxRes = 72; o.maxOrder = 6; o.classes = (1u << kDense) | (1u << kSparse) | (1u << kMAC); roundTrip(s, c, o, 1, false); }

PBT_TEST(huge, 1, 20, "sparse fields of more than the 50 MB that readers take in at once, few voxels set in each block, empty blocks at the start and in between, also loaded dynamically: block states, voxels set and samples of the others; non-trivial = more than 50 MB and an empty block")
{ hugeTrip(s, c, false); }

PBT_TEST(rewrite, 60, 1200, "the same file name written, read, released and written again 2-4 times with other contents: each read sees the latest contents only; non-trivial = always")
{ rewriteTrip(s, c, false); }

struct HFile { hid_t id; HFile(hid_t i) : id(i) { } ~HFile() { H5Fclose(id); } };
PBT_TEST(attributes, 150, 3000, "string, int, float and double attributes of any length, one- and two-dimensional, and data sets of six types, put into a file by the HDF5 helpers: each reads back exactly after reopening, and reading one under another name, type or length is refused by an exception; non-trivial = at least two attributes")
{
  using namespace Hdf5Util;
  struct A { int kind; std::string name, str; std::vector<int> iv; std::vector<float> fv; std::vector<double> dv; std::vector<unsigned> dim; };
  std::vector<A> as; int n = (int)s.range(1, 8);
  std::vector<std::pair<int, std::pair<size_t, uint64_t> > > ds;
  for (int q = 0; q < n; ++q) {
    A a; a.kind = (int)s.below(7); std::ostringstream o; o << "attr " << q; a.name = o.str();
    size_t len = 1 + s.below(12);
    if (a.kind == 0) { size_t l = s.chance(15) ? 0 : s.chance(10) ? s.range(200, 5000) : s.range(1, 30); for (size_t i = 0; i < l; ++i) { a.str += (char)(1 + mix(q * 77 + i + len) % 255); } }
    if (a.kind >= 4) { a.dim.push_back((unsigned)len); a.dim.push_back((unsigned)s.range(1, 5)); len = a.dim[0] * a.dim[1]; }
    uint64_t seed = s.below(1 << 30);
    for (size_t i = 0; i < len; ++i) { a.iv.push_back((int)mix(seed + i)); a.fv.push_back(rawVal<float>(mix(seed + i))); a.dv.push_back(rawVal<double>(mix(seed + i))); }
    as.push_back(a);
  }
  int nd = (int)s.range(0, 3);
  for (int q = 0; q < nd; ++q) { ds.push_back(std::make_pair((int)s.below(6), std::make_pair((size_t)s.range(1, 400), s.below(1 << 30)))); }
  c << n << " attributes, " << nd << " data sets"; c.nontrivial = n > 1;
  std::string fn = c.scratch + "/a.h5";
  {
    HFile file(H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
    H5ScopedGcreate g(file.id, "group");
    for (A &a : as) {
      bool ok = a.kind == 0 ? writeAttribute(g, a.name, a.str) : a.kind == 1 ? writeAttribute(g, a.name, (unsigned)a.iv.size(), a.iv[0]) : a.kind == 2 ? writeAttribute(g, a.name, (unsigned)a.iv.size(), a.fv[0])
        : a.kind == 3 ? writeAttribute(g, a.name, (unsigned)a.iv.size(), a.dv[0]) : a.kind == 4 ? writeAttribute(g, a.name, a.dim, a.iv[0]) : a.kind == 5 ? writeAttribute(g, a.name, a.dim, a.fv[0]) : writeAttribute(g, a.name, a.dim, a.dv[0]);
      PBT_CHECK(ok, "h5-attr-write", "attribute of kind " << a.kind << " not written");
    }
    for (size_t q = 0; q < ds.size(); ++q) { withAny(ds[q].first, [&](auto t) { typedef decltype(t) T; std::vector<T> v; for (size_t i = 0; i < ds[q].second.first; ++i) { v.push_back(rawVal<T>(mix(ds[q].second.second + i))); } writeSimpleData<T>(g, "data" + std::to_string(q), v); }); }
  }
  HFile file(H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
  H5ScopedGopen g(file.id, "group");
  for (A &a : as) {
    size_t len = a.iv.size();
    std::vector<int> iv(len + 1, 5); std::vector<float> fv(len + 1, 5); std::vector<double> dv(len + 1, 5); std::string str = "x";
    auto get = [&](int kind, const std::string &name, unsigned n1, std::vector<unsigned> dim) {
      return kind == 0 ? readAttribute(g, name, str) : kind == 1 ? readAttribute(g, name, n1, iv[0]) : kind == 2 ? readAttribute(g, name, n1, fv[0]) : kind == 3 ? readAttribute(g, name, n1, dv[0])
        : kind == 4 ? readAttribute(g, name, dim, iv[0]) : kind == 5 ? readAttribute(g, name, dim, fv[0]) : readAttribute(g, name, dim, dv[0]); };
    PBT_CHECK(get(a.kind, a.name, (unsigned)len, a.dim), "h5-attr", "attribute " << a.name << " not read");
    bool eq = a.kind == 0 ? str == a.str : a.kind % 3 == 1 ? std::equal(a.iv.begin(), a.iv.end(), iv.begin()) : a.kind % 3 == 2 ? !memcmp(&a.fv[0], &fv[0], len * 4) : !memcmp(&a.dv[0], &dv[0], len * 8);
    PBT_CHECK(eq, "h5-attr", "attribute " << a.name << " of kind " << a.kind << " has another value");
    PBT_CHECK(iv[len] == 5 && fv[len] == 5 && dv[len] == 5, "h5-attr-over", "reading wrote past the attribute");
    auto refused = [&](int kind, const std::string &name, unsigned n1, std::vector<unsigned> dim, const char *what) {
      bool thrown = false; try { get(kind, name, n1, dim); } catch (Exc::Exception &) { thrown = true; }
      PBT_CHECK(thrown, "h5-attr-refuse", "reading " << what << " succeeded (kind " << a.kind << ")"); };
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    refused(a.kind, a.name + "!", (unsigned)len, a.dim, "a missing attribute");
    if (a.kind) { std::vector<unsigned> d2 = a.dim; if (d2.size()) { d2[s.below(2)]++; } refused(a.kind, a.name, (unsigned)len + 1, d2, "with another size"); }
    refused(a.kind == 0 ? 1 : 0, a.name, 1, a.dim, "as string/not string");
    if (a.kind) { refused(a.kind >= 4 ? 5 - (a.kind == 4 ? 0 : 1) : a.kind == 1 ? 2 : 1, a.name, (unsigned)len, a.dim, "as another number type"); }
  }
  for (size_t q = 0; q < ds.size(); ++q) { withAny(ds[q].first, [&](auto t) {
    typedef decltype(t) T; std::vector<T> v; readSimpleData<T>(g, "data" + std::to_string(q), v);
    PBT_CHECK(v.size() == ds[q].second.first, "h5-data", "data set has " << v.size() << " values");
    for (size_t i = 0; i < v.size(); ++i) { bool eq = bitSame(v[i], rawVal<T>(mix(ds[q].second.second + i))); PBT_CHECK(eq, "h5-data", "value " << i); }
  }); }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; }; } } g_init;

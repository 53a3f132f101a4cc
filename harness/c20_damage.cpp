// C20: a damaged or truncated file is refused or read as it was written; it never crashes the reader.
#include "c20_damage.h"
#include <new>
using namespace fx;

// Sizes in damaged files may ask for any amount of memory, and a machine may refuse it
void *operator new(size_t n) { if (n > (size_t(1) << 26)) { throw std::bad_alloc(); } void *p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

namespace {
GenOpt small(bool ogawa) { GenOpt o; o.maxRes = 7; o.maxOrder = 3; if (ogawa) { o.classes &= ~(1u << kMAC); } return o; }

uint64_t wild(Src &s, const Bytes &b)
{
  switch (s.below(9)) {
  case 0: return 0;
  case 1: return 1ull << 63;
  case 2: return s.below(b.size() + 32);
  case 3: return s.below(b.size() + 32) | (1ull << 63);
  case 4: return ~0ull - s.below(32);
  case 5: return (1ull << 63) - 1 - s.below(32);
  case 6: return (uint64_t)b.size() - 1 - s.below(24);
  case 7: return 1ull << s.below(63);
  default: return s.range(1, 40);
  }
}
//! Values that are close to plausible ones, or as far off as they can be
void mutatePayload(Src &s, Bytes &b, uint64_t p, uint64_t n)
{
  if (!n || p + n > b.size()) { return; }
  if (n % 4 == 0 && n <= 128 && s.chance(70)) {
    uint64_t q = p + 4 * s.below(n / 4); int v; memcpy(&v, &b[q], 4);
    switch (s.below(8)) {
    case 0: v = (int)s.around0(-8, 8); break;
    case 1: v = v + (int)s.around0(-2, 2); break;
    case 2: v = INT32_MAX - (int)s.below(3); break;
    case 3: v = INT32_MIN + (int)s.below(3); break;
    case 4: v = -v; break;
    case 5: v = 1 << s.below(31); break;
    case 6: v = v * 2; break;
    default: v = (int)s.below(1ull << 32);
    }
    memcpy(&b[q], &v, 4);
    return;
  }
  if (n <= 4 && s.flip()) { for (uint64_t i = 0; i < n; ++i) { b[p + i] = (unsigned char)s.below(256); } return; }
  int k = (int)s.range(1, 3);
  for (int i = 0; i < k; ++i) { b[p + s.below(n)] ^= (unsigned char)(1 + s.below(255)); }
}
void count(Ctx &c, const Fate &f) { c.label(!f.opened ? "refused by open()" : f.threw ? "exception" : f.fields ? "fields returned" : "no fields"); }
}

PBT_TEST(og_struct, 700, 12000, "An Ogawa file with 1-3 generated layers (dense, sparse, MIP; all mappings, metadata) gets 1-4 mutations of its tree: pointers, child counts, data sizes, type bits and payloads set to wild or nearly plausible values. Opened, listed, read as all types, proxies read, voxels, MIP levels, mapping and metadata used, sparse fields in memory or on demand; then the undamaged file must still read. Non-trivial: the file still opened.")
{
  IOReset rst; Victim v = genVictim(s, c, true, 3, small(true));
  Bytes b = v.bytes; OgTree t = ogTree(b);
  int n = (int)s.range(1, 4);
  for (int i = 0; i < n; ++i) {
    switch (s.weighted({5, 2, 2, 2, 1, 1})) {
    case 0: { auto d = t.data[s.below(t.data.size())]; mutatePayload(s, b, d.pos + 8, d.n); c << " payload@" << d.pos; break; }
    case 1: { auto p = t.ptrs[s.below(t.ptrs.size())]; wr64(b, p, s.flip() ? rd64(v.bytes, t.ptrs[s.below(t.ptrs.size())]) : wild(s, b)); c << " pointer@" << p; break; }
    case 2: { auto g = t.groups[s.below(t.groups.size())]; wr64(b, g.pos, s.flip() ? s.below(g.n + 3) : wild(s, b)); c << " count@" << g.pos; break; }
    case 3: { auto d = t.data[s.below(t.data.size())]; wr64(b, d.pos, s.flip() ? d.n + s.around0(-9, 9) : wild(s, b)); c << " size@" << d.pos; break; }
    case 4: { auto p = t.ptrs[s.below(t.ptrs.size())]; wr64(b, p, rd64(b, p) ^ (1ull << 63)); c << " kind@" << p; break; }
    default: { uint64_t p = 8 * s.below(2); wr64(b, p, p ? wild(s, b) : rd64(b, 0) ^ (1ull << (40 + s.below(24)))); c << " header@" << p; }
    }
  }
  std::string fn = fileName(c, "bad.f3d"); spill(fn, b);
  bool dyn = s.chance(30), shared = s.flip(); Field3DInputFile sharedIn;
  { Field3DInputFile own; Fate f = exercise(s, fn, shared ? sharedIn : own, dyn); count(c, f); c.nontrivial = f.opened; }
  stillReads(v, sharedIn);
}

PBT_TEST(og_bytes, 700, 12000, "An Ogawa file with 1-2 layers gets 1-6 byte edits: random bytes, runs of 0 or 255, copied, removed or inserted stretches, or is replaced by random bytes behind a valid magic. Used as in og_struct. Non-trivial: the file still opened.")
{
  IOReset rst; Victim v = genVictim(s, c, true, 2, small(true));
  Bytes b = v.bytes;
  if (s.chance(5)) { b.resize(16 + s.below(200)); for (size_t i = 16; i < b.size(); ++i) { b[i] = (unsigned char)s.below(256); } c << " random body"; }
  int n = (int)s.range(1, 6);
  for (int i = 0; i < n && b.size() > 32; ++i) {
    size_t p = s.below(b.size()), len = (size_t)s.range(1, s.chance(20) ? 400 : 8); len = std::min(len, b.size() - p);
    switch (s.below(6)) {
    case 0: b[p] = (unsigned char)s.below(256); break;
    case 1: b[p] ^= (unsigned char)(1u << s.below(8)); break;
    case 2: std::fill(b.begin() + p, b.begin() + p + len, s.flip() ? 0xff : 0); break;
    case 3: { size_t q = s.below(b.size() - len + 1); Bytes tmp(b.begin() + p, b.begin() + p + len); std::copy(tmp.begin(), tmp.end(), b.begin() + q); break; }
    case 4: b.erase(b.begin() + p, b.begin() + p + len); break;
    default: b.insert(b.begin() + p, len, (unsigned char)s.below(256));
    }
  }
  std::string fn = fileName(c, "bad.f3d"); spill(fn, b);
  bool dyn = s.chance(30), shared = s.flip(); Field3DInputFile sharedIn;
  { Field3DInputFile own; Fate f = exercise(s, fn, shared ? sharedIn : own, dyn); count(c, f); c.nontrivial = f.opened; }
  stillReads(v, sharedIn);
}

PBT_TEST(truncated, 700, 12000, "A file of either encoding with 1-3 layers is cut at any byte, near the end, at the start, or extended with zeros after the cut; each layer must be refused or come back bit for bit. Non-trivial: something but the last 8 bytes was lost.")
{
  IOReset rst; bool og = s.flip(); Victim v = genVictim(s, c, og, 3, small(og));
  size_t n = v.bytes.size(), cut = n;
  switch (s.below(4)) {
  case 0: cut = s.below(n); break;
  case 1: cut = n - std::min<size_t>(n, 1 + s.below(64)); break;
  case 2: cut = s.below(std::min<size_t>(n, 40)); break;
  default: cut = n / 16 * s.below(16);
  }
  Bytes b(v.bytes.begin(), v.bytes.begin() + cut);
  bool pad = s.chance(25); if (pad) { b.resize(n, 0); }
  c << " cut at " << cut << " of " << n << (pad ? ", zeros after" : "");
  c.nontrivial = cut + 8 < n; c.label(og ? "Ogawa" : "HDF5");
  std::string fn = fileName(c, "bad.f3d"); spill(fn, b);
  bool dyn = s.chance(30), shared = s.flip(); Field3DInputFile sharedIn;
  // zeros in the place of plain voxels can not be told from voxels
  { Field3DInputFile own; Fate f = pad ? exercise(s, fn, shared ? sharedIn : own, dyn) : refusedOrEqual(s, v, fn, shared ? sharedIn : own, dyn); count(c, f); }
  stillReads(v, sharedIn);
}

PBT_TEST(payload, 700, 12000, "Compressed voxel data of a file is damaged (sparse blocks of Ogawa files, gzip chunks of HDF5 files: bytes changed, zeroed, swapped with another block's): each layer must be refused, at the latest when its voxels are used, or come back bit for bit. Non-trivial: bytes changed.")
{
  IOReset rst; bool og = s.flip(); GenOpt o = small(og); if (og) { o.classes = (1u << kSparse) | (1u << kMIPSparse); }
  Victim v = genVictim(s, c, og, 3, o);
  std::vector<OgTree::Item> at;   // position and size of compressed data
  if (og) { OgTree t = ogTree(v.bytes); for (uint64_t i : t.blockData) { at.push_back({t.data[i].pos + 8, t.data[i].n}); } }
  else {
    hid_t f = H5Fopen(v.file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, [](hid_t obj, const char *name, const H5O_info_t *info, void *p) -> herr_t {
      if (info->type != H5O_TYPE_DATASET) { return 0; }
      auto &at = *(std::vector<OgTree::Item> *)p;
      hid_t d = H5Dopen2(obj, name, H5P_DEFAULT), sp = H5Dget_space(d), pl = H5Dget_create_plist(d);
      if (H5Pget_layout(pl) == H5D_CHUNKED) {
        hsize_t n = 0; H5Dget_num_chunks(d, sp, &n);
        for (hsize_t i = 0; i < n; ++i) { hsize_t off[4], size; unsigned mask; haddr_t a; if (H5Dget_chunk_info(d, sp, i, off, &mask, &a, &size) >= 0 && mask == 0) { at.push_back({a, size}); } }
      }
      H5Pclose(pl); H5Sclose(sp); H5Dclose(d);
      return 0;
    }, &at);
    H5Fclose(f);
  }
  if (at.empty()) { return; }
  Bytes b = v.bytes; int n = (int)s.range(1, 3);
  for (int i = 0; i < n; ++i) {
    auto d = at[s.below(at.size())]; if (!d.n) { continue; }
    uint64_t p = d.pos + s.below(d.n), len = std::min<uint64_t>((uint64_t)s.range(1, 12), d.pos + d.n - p);
    switch (s.below(4)) {
    case 0: b[p] ^= (unsigned char)(1 + s.below(255)); break;
    case 1: std::fill(b.begin() + p, b.begin() + p + len, 0); break;
    case 2: for (uint64_t k = 0; k < len; ++k) { b[p + k] = (unsigned char)s.below(256); } break;
    default: std::fill(b.begin() + d.pos, b.begin() + d.pos + d.n, (unsigned char)s.below(256));
    }
  }
  c.nontrivial = b != v.bytes; c.label(og ? "Ogawa" : "HDF5");
  std::string fn = fileName(c, "bad.f3d"); spill(fn, b);
  bool dyn = s.chance(40), shared = s.flip(); Field3DInputFile sharedIn; if (dyn) { c.label("on demand"); }
  { Field3DInputFile own; Fate f = refusedOrEqual(s, v, fn, shared ? sharedIn : own, dyn); count(c, f); }
  stillReads(v, sharedIn);
}

namespace {
struct H5Obj { std::string path; bool dataset; };
herr_t collect(hid_t, const char *name, const H5O_info_t *info, void *p)
{
  if (strcmp(name, ".")) { ((std::vector<H5Obj> *)p)->push_back({name, info->type == H5O_TYPE_DATASET}); }
  return 0;
}
herr_t collectAttr(hid_t, const char *name, const H5A_info_t *, void *p) { ((std::vector<std::string> *)p)->push_back(name); return 0; }
void rewriteAttr(Src &s, hid_t o, const std::string &a, std::ostream &log)
{
  hid_t at = H5Aopen(o, a.c_str(), H5P_DEFAULT), ty = H5Aget_type(at), sp = H5Aget_space(at);
  int cls = H5Tget_class(ty); hssize_t n = H5Sget_simple_extent_npoints(sp); std::vector<int> iv(64, 0); std::vector<char> sv(512, 0);
  if (cls == H5T_INTEGER && n <= 64) { H5Aread(at, H5T_NATIVE_INT, iv.data()); } else if (cls == H5T_STRING && H5Tget_size(ty) < 500 && n == 1) { H5Aread(at, ty, sv.data()); }
  H5Aclose(at); H5Sclose(sp);
  hsize_t dims[2]; hid_t nsp = -1, nty = -1; const void *data = 0; std::vector<double> dv(512, 0.5); std::vector<long long> lv(512, -1);
  int what = (int)s.below(cls == H5T_INTEGER ? 7 : 6);
  if (what == 6 || (what == 5 && cls == H5T_INTEGER)) {      // same shape, other values
    dims[0] = n; nsp = H5Screate_simple(1, dims, NULL); nty = H5Tcopy(H5T_NATIVE_INT);
    int q = (int)s.below(n > 0 ? n : 1);
    switch (s.below(6)) { case 0: iv[q] = (int)s.around0(-8, 8); break; case 1: iv[q] += (int)s.around0(-2, 2); break; case 2: iv[q] = INT32_MAX - (int)s.below(3); break;
      case 3: iv[q] = INT32_MIN + (int)s.below(3); break; case 4: iv[q] = 1 << s.below(31); break; default: iv[q] = -iv[q]; }
    data = iv.data(); log << " " << a << "[" << q << "]=" << iv[q];
  } else if (what == 5) {                                     // a string with another value
    nty = H5Tcopy(H5T_C_S1); static const char *w[] = {"", "DenseField", "SparseField", "MACField", "MIPSparseField", "MIPDenseField", "NullFieldMapping", "MatrixFieldMapping", "FrustumFieldMapping", "x"};
    std::string v = w[s.below(10)]; memcpy(sv.data(), v.c_str(), v.size() + 1); H5Tset_size(nty, v.size() + 1); nsp = H5Screate(H5S_SCALAR); data = sv.data(); log << " " << a << "='" << v << "'";
  } else if (what == 0) { dims[0] = 1 + s.below(12); nsp = H5Screate_simple(1, dims, NULL); nty = H5Tcopy(H5T_NATIVE_INT); data = iv.data(); log << " " << a << " resized"; }
  else if (what == 1) { dims[0] = s.flip() && n > 0 ? n : 1 + s.below(12); nsp = H5Screate_simple(1, dims, NULL); nty = H5Tcopy(s.flip() ? H5T_NATIVE_LLONG : H5T_NATIVE_SCHAR); data = lv.data(); log << " " << a << " other width"; }
  else if (what == 2) { dims[0] = s.flip() && n > 0 ? n : 1 + s.below(12); nsp = H5Screate_simple(1, dims, NULL); nty = H5Tcopy(s.flip() ? H5T_NATIVE_DOUBLE : H5T_NATIVE_FLOAT); data = dv.data(); log << " " << a << " floating"; }
  else if (what == 3) { dims[0] = 1 + s.below(4); dims[1] = 1 + s.below(4); nsp = s.flip() ? H5Screate_simple(2, dims, NULL) : H5Screate(H5S_SCALAR); nty = H5Tcopy(H5T_NATIVE_INT); data = iv.data(); log << " " << a << " other rank"; }
  else { nty = H5Tcopy(H5T_C_S1); H5Tset_size(nty, 1 + s.below(30)); nsp = s.flip() ? H5Screate(H5S_SCALAR) : H5Screate_simple(1, (dims[0] = 1 + s.below(4), dims), NULL); std::fill(sv.begin(), sv.end(), 'x'); data = sv.data(); log << " " << a << " text"; }
  H5Adelete(o, a.c_str());
  hid_t na = H5Acreate2(o, a.c_str(), nty, nsp, H5P_DEFAULT, H5P_DEFAULT);
  if (na >= 0) { H5Awrite(na, nty, data); H5Aclose(na); }
  H5Tclose(ty); H5Tclose(nty); H5Sclose(nsp);
}
void rewriteData(Src &s, hid_t f, const std::string &path, std::ostream &log)
{
  hid_t d = H5Dopen2(f, path.c_str(), H5P_DEFAULT), sp = H5Dget_space(d), ty = H5Dget_type(d);
  hsize_t dims[8] = {0}; int rank = H5Sget_simple_extent_dims(sp, dims, NULL);
  H5Sclose(sp); H5Dclose(d);
  hsize_t nd[8]; int nr = rank; for (int i = 0; i < rank; ++i) { nd[i] = dims[i]; }
  hid_t nty = H5Tcopy(ty);
  switch (s.below(5)) {
  case 0: nd[s.below(rank)] += s.around0(-3, 3); log << " " << path << " resized"; break;
  case 1: nr = 1 + (int)s.below(4); nd[0] = dims[0]; for (int i = 1; i < nr; ++i) { nd[i] = 1 + s.below(3); } log << " " << path << " rank " << nr; break;
  case 2: { static hid_t k[] = {H5T_NATIVE_CHAR, H5T_NATIVE_SHORT, H5T_NATIVE_FLOAT, H5T_NATIVE_DOUBLE, H5T_NATIVE_LLONG}; H5Tclose(nty); nty = H5Tcopy(k[s.below(5)]); log << " " << path << " retyped"; break; }
  case 3: nd[0] = s.below(2); log << " " << path << " " << nd[0] << " rows"; break;
  default: nd[s.below(rank)] *= 1 + s.below(4); log << " " << path << " multiplied";
  }
  for (int i = 0; i < nr; ++i) { if (nd[i] > 100000) { nd[i] = 1; } }
  H5Ldelete(f, path.c_str(), H5P_DEFAULT);
  hid_t ns = H5Screate_simple(nr, nd, NULL), n = H5Dcreate2(f, path.c_str(), nty, ns, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  if (n >= 0) {
    hssize_t np = H5Sget_simple_extent_npoints(ns); std::vector<char> buf(np * H5Tget_size(nty) + 8, (char)s.below(3));
    H5Dwrite(n, nty, H5S_ALL, H5S_ALL, H5P_DEFAULT, buf.data()); H5Dclose(n);
  }
  H5Sclose(ns); H5Tclose(nty); H5Tclose(ty);
}
}

PBT_TEST(h5_struct, 500, 9000, "An HDF5 file with 1-3 layers (dense, sparse, MAC, MIP) is edited through the HDF5 library: 1-3 attributes, groups or data sets are deleted, renamed, given other shapes, types, widths, ranks or values. Used as in og_struct. Non-trivial: the file still opened.")
{
  IOReset rst; Victim v = genVictim(s, c, false, 3, small(false));
  std::string fn = fileName(c, "bad.f3d"); spill(fn, v.bytes);
  {
    hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
    int n = (int)s.range(1, 3);
    for (int i = 0; i < n; ++i) {
      std::vector<H5Obj> objs; H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, collect, &objs);
      if (objs.empty()) { break; }
      H5Obj o = objs[s.below(objs.size())];
      int k = (int)s.weighted({5, 2, 3, 1});
      if (k == 0 || k == 1) {
        hid_t h = s.chance(8) ? H5Gopen2(f, "/", H5P_DEFAULT) : H5Oopen(f, o.path.c_str(), H5P_DEFAULT); std::vector<std::string> as;
        hsize_t z = 0; H5Aiterate2(h, H5_INDEX_NAME, H5_ITER_NATIVE, &z, collectAttr, &as);
        if (!as.empty()) { std::string a = as[s.below(as.size())]; if (k == 0) { rewriteAttr(s, h, a, c.notes); } else { H5Adelete(h, a.c_str()); c << " no " << a; } }
        H5Oclose(h);
      } else if (k == 2) {
        std::vector<H5Obj> ds; for (auto &q : objs) { if (q.dataset) { ds.push_back(q); } }
        if (!ds.empty()) { rewriteData(s, f, ds[s.below(ds.size())].path, c.notes); }
      } else if (s.flip()) { H5Ldelete(f, o.path.c_str(), H5P_DEFAULT); c << " no " << o.path; }
      else { H5Lmove(f, o.path.c_str(), f, (o.path + "x").c_str(), H5P_DEFAULT, H5P_DEFAULT); c << " renamed " << o.path; }
    }
    H5Fclose(f);
  }
  bool dyn = s.chance(30), shared = s.flip(); Field3DInputFile sharedIn;
  { Field3DInputFile own; Fate f = exercise(s, fn, shared ? sharedIn : own, dyn); count(c, f); c.nontrivial = f.opened; }
  stillReads(v, sharedIn);
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;

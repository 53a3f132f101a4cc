// C25: types, names and the factory agree with each other; coordinate helpers agree with their definitions.
#include "io.h"
#include "Field3D/CoordSys.h"
#include "Field3D/ClassFactory.h"
#include "Field3D/EmptyField.h"
#include "Field3D/ProceduralField.h"
#include "Field3D/FieldMappingIO.h"
#include "DenseFieldIO.h"
#include "SparseFieldIO.h"
#include "MACFieldIO.h"
#include "MIPFieldIO.h"
#include "Field3D/InitIO.h"
#include "Field3D/Log.h"
#include <typeinfo>
using namespace fx;

// Classes of a user, as the documentation describes them
template <class T> struct UserProc : public ProceduralField<T>
{
  typedef boost::intrusive_ptr<UserProc> Ptr;
  typedef UserProc<T> class_type; typedef ProceduralField<T> base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char *staticClassName() { return "UserProc"; }
  static const char *staticClassType() { return t.name(); }
  virtual std::string className() const { return staticClassName(); }
  virtual std::string classType() const { return staticClassType(); }
  virtual T value(int, int, int) const { return T(1); }
  virtual T lsSample(const V3d &) const { return T(1); }
  virtual long long int memSize() const { return sizeof(*this); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new UserProc(*this)); }
  static TemplatedFieldType<UserProc<T> > t;
};
template <class T> TemplatedFieldType<UserProc<T> > UserProc<T>::t = TemplatedFieldType<UserProc<T> >();
template <class T> struct UserDense : public DenseField<T>
{
  typedef boost::intrusive_ptr<UserDense> Ptr;
  typedef UserDense<T> class_type; typedef DenseField<T> base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char *staticClassName() { return "UserDense"; }
  static const char *staticClassType() { return t.name(); }
  virtual std::string className() const { return staticClassName(); }
  virtual std::string classType() const { return staticClassType(); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new UserDense(*this)); }
  static TemplatedFieldType<UserDense<T> > t;
};
template <class T> TemplatedFieldType<UserDense<T> > UserDense<T>::t = TemplatedFieldType<UserDense<T> >();

struct Kind
{
  std::string name;                     // C++ name
  std::function<RefBase::Ptr()> make;   // null for abstract ones
  std::function<bool(RefBase *)> is;    // by the language
  std::function<RefBase *(RefBase::Ptr)> cast;   // by the library
  std::string type; bool field;
};
template <class C> Kind abstractKind(const std::string &n)
{
  Kind k; k.name = n; k.field = false; k.type = C::staticClassType();
  k.is = [](RefBase *r) { return dynamic_cast<C *>(r) != NULL; };
  k.cast = [](RefBase::Ptr r) -> RefBase * { return field_dynamic_cast<C>(r).get(); };
  return k;
}
template <class C> Kind kind(const std::string &n, bool field) { Kind k = abstractKind<C>(n); k.field = field; k.make = []() { return RefBase::Ptr(new C); }; return k; }
template <class T> void scalarKinds(std::vector<Kind> &k, const std::string &t)
{
  k.push_back(kind<DenseField<T> >("DenseField<" + t + ">", true)); k.push_back(kind<SparseField<T> >("SparseField<" + t + ">", true));
  k.push_back(kind<EmptyField<T> >("EmptyField<" + t + ">", true));
  k.push_back(kind<MIPField<DenseField<T> > >("MIPField<DenseField<" + t + ">>", true)); k.push_back(kind<MIPField<SparseField<T> > >("MIPField<SparseField<" + t + ">>", true));
  k.push_back(kind<UserProc<T> >("UserProc<" + t + ">", true)); k.push_back(kind<UserDense<T> >("UserDense<" + t + ">", true));
  k.push_back(abstractKind<Field<T> >("Field<" + t + ">")); k.push_back(abstractKind<WritableField<T> >("WritableField<" + t + ">"));
  k.push_back(abstractKind<ResizableField<T> >("ResizableField<" + t + ">")); k.push_back(abstractKind<MIPBase<T> >("MIPBase<" + t + ">")); k.push_back(abstractKind<ProceduralField<T> >("ProceduralField<" + t + ">"));
}
template <class T> void vectorKinds(std::vector<Kind> &k, const std::string &t) { scalarKinds<T>(k, t); k.push_back(kind<MACField<T> >("MACField<" + t + ">", true)); }
static const std::vector<Kind> &kinds()
{
  static std::vector<Kind> k;
  if (k.empty()) {
    scalarKinds<half>(k, "half"); scalarKinds<float>(k, "float"); scalarKinds<double>(k, "double");
    vectorKinds<V3h>(k, "V3h"); vectorKinds<V3f>(k, "V3f"); vectorKinds<V3d>(k, "V3d");
    k.push_back(kind<NullFieldMapping>("NullFieldMapping", false)); k.push_back(kind<MatrixFieldMapping>("MatrixFieldMapping", false)); k.push_back(kind<FrustumFieldMapping>("FrustumFieldMapping", false));
    k.push_back(kind<NullFieldMappingIO>("NullFieldMappingIO", false)); k.push_back(kind<MatrixFieldMappingIO>("MatrixFieldMappingIO", false)); k.push_back(kind<FrustumFieldMappingIO>("FrustumFieldMappingIO", false));
    k.push_back(kind<DenseFieldIO>("DenseFieldIO", false)); k.push_back(kind<SparseFieldIO>("SparseFieldIO", false)); k.push_back(kind<MACFieldIO>("MACFieldIO", false)); k.push_back(kind<MIPFieldIO>("MIPFieldIO", false));
    k.push_back(abstractKind<FieldBase>("FieldBase")); k.push_back(abstractKind<FieldRes>("FieldRes")); k.push_back(abstractKind<FieldMapping>("FieldMapping")); k.push_back(abstractKind<FieldMappingIO>("FieldMappingIO")); k.push_back(abstractKind<FieldIO>("FieldIO"));
  }
  return k;
}

PBT_TEST(casts, 2000, 60000, "objects of every concrete class and voxel type, of classes derived by a user among them, cast to every class; against the casts of the language; non-trivial = the cast succeeds or both classes are fields")
{
  const std::vector<Kind> &k = kinds();
  const Kind *from; do { from = &s.pick(k); if (!from->make) { from = &k[s.below(7)]; } } while (!from->make);
  const Kind &to = s.pick(k);
  c << from->name << " to " << to.name;
  RefBase::Ptr r = from->make();
  bool yes = to.is(r.get()); c.nontrivial = yes || from->field;
  // a mere name has to be unique
  if (&to != from) { PBT_CHECK(to.type != from->type, "cast-type", "the class types of both are " << to.type); }
  RefBase *p = to.cast(r);
  PBT_CHECK((p != NULL) == yes, "cast", "field_dynamic_cast() " << (p ? "succeeds" : "fails") << "; the object is a " << typeid(*r).name());
  PBT_CHECK(!p || p == r.get(), "cast", "field_dynamic_cast() gives another object");
  if (from->field) {
    FieldRes *f = dynamic_cast<FieldRes *>(r.get());
    PBT_CHECK(f->classType() == from->type, "class-type", "classType() of the object is " << f->classType());
    PBT_CHECK(f->classType().substr(0, f->className().size()) == f->className(), "class-name", "className() is " << f->className() << ", classType() is " << f->classType());
    size_t at = from->name.find_last_of('<'); std::string t = from->name.substr(at + 1); t = t.substr(0, t.find('>'));
    PBT_CHECK(f->dataTypeString() == t, "class-data", "dataTypeString() is " << f->dataTypeString());
    if (s.chance(50)) {
      FieldBase::Ptr cl = f->clone();
      PBT_CHECK(cl && cl.get() != f && typeid(*cl) == typeid(*f), "class-clone", "the clone is a " << typeid(*cl).name());
      PBT_CHECK((to.cast(cl) != NULL) == yes, "class-clone", "the clone casts differently");
    }
  }
  RefBase::Ptr none; PBT_CHECK(to.cast(none) == NULL, "cast-null", "a null pointer casts to something");
}

template <int V> struct VarMapping : public NullFieldMapping { static FieldMapping::Ptr create() { return FieldMapping::Ptr(new VarMapping); } };
template <class F> FieldRes::Ptr mk() { return FieldRes::Ptr(new F); }
template <class F> FieldRes::Ptr mk2() { typename F::Ptr f(new F); f->name = "second"; return f; }
static FieldRes::Ptr mkNull() { return FieldRes::Ptr(); }
static FieldMapping::Ptr mkNullMap() { return FieldMapping::Ptr(); }
static FieldIO::Ptr mkNullIO() { return FieldIO::Ptr(); }
static FieldMappingIO::Ptr mkNullMapIO() { return FieldMappingIO::Ptr(); }
template <class M> FieldMapping::Ptr mkMap() { return FieldMapping::Ptr(new M); }

PBT_TEST(factory, 500, 20000, "histories of registrations (fields of every class and type, mappings, IO classes; the same name twice; creators that give nothing) and requests by name; a request gives what was registered first under the name; non-trivial = a request for a name registered twice")
{
  struct FR { const char *name; ClassFactory::CreateFieldFnPtr a, b; const std::type_info *t; };
  static const FR fr[] = {
#define FE(C, T) { #C "<" #T ">", mk<C<T> >, mk2<C<T> >, &typeid(C<T>) }
    FE(DenseField, float), FE(DenseField, half), FE(DenseField, V3d), FE(SparseField, float), FE(SparseField, double), FE(SparseField, V3h), FE(MACField, V3f), FE(EmptyField, float), FE(EmptyField, V3f), FE(UserDense, float), FE(UserDense, V3h), FE(UserProc, double)
  };
  struct MR { const char *name; ClassFactory::CreateFieldMappingFnPtr a; const std::type_info *t; };
  static const MR mr[] = { {"NullFieldMapping", mkMap<NullFieldMapping>, &typeid(NullFieldMapping)}, {"MatrixFieldMapping", mkMap<MatrixFieldMapping>, &typeid(MatrixFieldMapping)}, {"FrustumFieldMapping", mkMap<FrustumFieldMapping>, &typeid(FrustumFieldMapping)} };
  struct IR { const char *name; ClassFactory::CreateFieldIOFnPtr a; const std::type_info *t; };
  static const IR ir[] = { {"DenseField", DenseFieldIO::create, &typeid(DenseFieldIO)}, {"SparseField", SparseFieldIO::create, &typeid(SparseFieldIO)}, {"MACField", MACFieldIO::create, &typeid(MACFieldIO)}, {"MIPField", MIPFieldIO::create, &typeid(MIPFieldIO)} };
  struct XR { const char *name; ClassFactory::CreateFieldMappingIOFnPtr a; const std::type_info *t; };
  static const XR xr[] = { {"NullFieldMapping", NullFieldMappingIO::create, &typeid(NullFieldMappingIO)}, {"MatrixFieldMapping", MatrixFieldMappingIO::create, &typeid(MatrixFieldMappingIO)}, {"FrustumFieldMapping", FrustumFieldMappingIO::create, &typeid(FrustumFieldMappingIO)} };
  ClassFactory own; std::map<int, bool> fields; std::set<int> maps, ios, mios;   // value: registered by the second creator
  bool global = s.chance(15);
  ClassFactory &fa = global ? ClassFactory::singleton() : own;
  if (global) { for (int i = 0; i < 4; ++i) { ios.insert(i); } for (int i = 0; i < 3; ++i) { mios.insert(i); } }
  int n = (int)s.range(1, 20);
  for (int q = 0; q < n; ++q) {
    int what = (int)s.below(4);
    if (s.flip() && !global) {
      int i; bool nothing = s.chance(15), second = s.flip();
      switch (what) {
      case 0: i = (int)s.below(s.flip() ? 3 : 12); c << "+" << fr[i].name << (nothing ? "(nothing)" : second ? "(2)" : "") << " "; fa.registerField(nothing ? mkNull : second ? fr[i].b : fr[i].a); if (!nothing && !fields.count(i)) { fields[i] = second; } else if (!nothing) { c.nontrivial = true; } break;
      case 1: i = (int)s.below(3); c << "+" << mr[i].name << " "; fa.registerFieldMapping(nothing ? mkNullMap : mr[i].a); if (!nothing) { maps.insert(i); } break;
      case 2: i = (int)s.below(4); c << "+" << ir[i].name << "IO "; fa.registerFieldIO(nothing ? mkNullIO : ir[i].a); if (!nothing) { ios.insert(i); } break;
      default: i = (int)s.below(3); c << "+" << xr[i].name << "IO "; fa.registerFieldMappingIO(nothing ? mkNullMapIO : xr[i].a); if (!nothing) { mios.insert(i); }
      }
    } else {
      int i; const char *name; bool have, got, right = true;
      switch (what) {
      case 0: { i = (int)s.below(s.flip() ? 3 : 12); name = fr[i].name; have = fields.count(i); FieldRes::Ptr f = fa.createField(name); got = (bool)f; if (got && have) { right = typeid(*f) == *fr[i].t && (f->name == "second") == fields[i]; } break; }
      case 1: { i = (int)s.below(3); name = mr[i].name; have = maps.count(i); FieldMapping::Ptr f = fa.createFieldMapping(name); got = (bool)f; if (got) { right = typeid(*f) == *mr[i].t; } break; }
      case 2: { i = (int)s.below(4); name = ir[i].name; have = ios.count(i); FieldIO::Ptr f = fa.createFieldIO(name); got = (bool)f; if (got) { right = typeid(*f) == *ir[i].t; } break; }
      default: { i = (int)s.below(3); name = xr[i].name; have = mios.count(i); FieldMappingIO::Ptr f = fa.createFieldMappingIO(name); got = (bool)f; if (got) { right = typeid(*f) == *xr[i].t; } }
      }
      c << "?" << name << (what > 1 ? "IO" : "") << " ";
      PBT_CHECK(got == have, "factory", "asking for " << name << " (" << what << ") gives " << (got ? "an object" : "nothing"));
      PBT_CHECK(right, "factory-type", "asking for " << name << " (" << what << ") gives an object of another class or creator");
    }
  }
  static const char *odd[] = {"", "DenseField", "DenseField<float", "DenseField<Float>", "DenseField<float> ", "<float>", "NullFieldMappin", "x"};
  const char *o = odd[s.below(8)];
  PBT_CHECK(!fa.createField(o) && !fa.createFieldMapping(o), "factory", "asking for '" << o << "' gives an object");
  if (strcmp(o, "DenseField")) { PBT_CHECK(!fa.createFieldIO(o) && !fa.createFieldMappingIO(o), "factory", "asking for IO of '" << o << "' gives an object"); }
}

static int anyInt(Src &s)
{
  switch (s.weighted({40, 20, 20, 20})) {
  case 0: return (int)s.around0(-40, 40);
  case 1: return (int)(s.below(1u << 25)) - (1 << 24);
  case 2: return 2147483647 - (int)s.below(6);
  default: return -2147483647 - 1 + (int)s.below(6);
  }
}
PBT_TEST(coords, 3000, 200000, "voxel indices over the whole range of int, coordinates at, next to and between voxel borders, boxes (infinite and empty ones included), resolutions up to 2^31; non-trivial = an index of magnitude over 2^24 or below 0")
{
  int i = anyInt(s); c << i << " "; c.nontrivial = i < 0 || i > (1 << 24);
  PBT_CHECK(contToDisc(discToCont(i)) == i, "coord-center", "the centre of voxel " << i << " is in voxel " << contToDisc(discToCont(i)));
  PBT_CHECK(discToCont(i) == i + 0.5, "coord-center", "the centre of voxel " << i << " is " << discToCont(i));
  double f = s.chance(30) ? 0 : s.chance(30) ? 1 - 1e-6 : s.unit() * 0.999; double x = i + f; c << x << " ";
  PBT_CHECK(contToDisc(x) == i, "coord-disc", "coordinate " << x << " is in voxel " << contToDisc(x));
  V3i v(i, anyInt(s), anyInt(s));
  PBT_CHECK(contToDisc(discToCont(v)) == v && contToDisc(discToCont(V2i(v.x, v.y))) == V2i(v.x, v.y), "coord-center", "the centre of voxel " << vs(v) << " is elsewhere");
  PBT_CHECK(contToDisc(V3d(v.x + f, v.y + f, v.z + f)) == v, "coord-disc", "coordinate " << vs(V3d(v.x + f, v.y + f, v.z + f)) << " is in voxel " << vs(contToDisc(V3d(v.x + f, v.y + f, v.z + f))));
  // boxes
  Box3i b; for (int a = 0; a < 3; ++a) { int p = anyInt(s), q = anyInt(s); b.min[a] = std::min(p, q); b.max[a] = std::max(p, q); if (b.max[a] == 2147483647) { --b.max[a]; if (b.min[a] > b.max[a]) { b.min[a] = b.max[a]; } } }
  Box3d cb = continuousBounds(b); c << bs(b);
  for (int a = 0; a < 3; ++a) { PBT_CHECK(cb.min[a] == (double)b.min[a] && cb.max[a] == (double)b.max[a] + 1, "coord-bounds", "the continuous bounds of " << bs(b) << " are " << cb.min[a] << " to " << cb.max[a] << " on axis " << a); }
  Box3d d; for (int a = 0; a < 3; ++a) { double w = s.chance(20) ? 0 : s.chance(20) ? 1e10 : s.real(0, 40); d.min[a] = s.chance(10) ? -1e300 : (double)anyInt(s) + (s.flip() ? 0 : s.unit() * 0.999); d.max[a] = d.min[a] + w; if (s.chance(10)) { d.max[a] = 1e300; } }
  if (s.chance(5)) { d.makeInfinite(); }
  Box3i db = discreteBounds(d);
  for (int a = 0; a < 3; ++a) {
    auto cl = [](double t) { return t < -2147483648.0 ? -2147483648.0 : t > 2147483647.0 ? 2147483647.0 : t; };
    double lo = cl(floor(d.min[a])), hi = cl(ceil(d.max[a])), hi1 = cl(ceil(d.max[a]) - 1);
    PBT_CHECK((double)db.min[a] == lo, "coord-discrete", "the voxels of " << vs(d.min) << " to " << vs(d.max) << " start at " << db.min[a] << " on axis " << a);
    PBT_CHECK((double)db.max[a] == hi || (double)db.max[a] == hi1, "coord-discrete", "the voxels of " << vs(d.min) << " to " << vs(d.max) << " end at " << db.max[a] << " on axis " << a);
  }
  Box3i e; for (int a = 0; a < 3; ++a) { int p = s.flip() ? b.min[a] : anyInt(s), q = s.flip() ? b.max[a] : anyInt(s); e.min[a] = std::min(p, q); e.max[a] = std::max(p, q); }
  Box3i x1 = clipBounds(b, e), x2 = clipBounds(e, b); V3i pt; for (int a = 0; a < 3; ++a) { pt[a] = s.pick(std::vector<int>{b.min[a], b.max[a], e.min[a], e.max[a], anyInt(s)}); }
  PBT_CHECK(x1 == x2, "coord-clip", "clipping " << bs(b) << " and " << bs(e) << " depends on the order");
  PBT_CHECK(x1.intersects(pt) == (b.intersects(pt) && e.intersects(pt)), "coord-clip", "clipping " << bs(b) << " by " << bs(e) << " gives " << bs(x1) << ", wrong for " << vs(pt));
  // index to coordinate
  V3i res; for (int a = 0; a < 3; ++a) { res[a] = s.flip() ? (int)s.range(1, 20) : (int)s.range(1, s.flip() ? 100000 : 1000000); }
  V3i at((int)s.below(res.x), (int)s.below(res.y), (int)s.below(res.z));
  size_t idx = (size_t)at.x + (size_t)res.x * ((size_t)at.y + (size_t)res.y * (size_t)at.z);
  PBT_CHECK(indexToCoord(idx, res) == at, "coord-index", "index " << idx << " of a grid of " << vs(res) << " is " << vs(indexToCoord(idx, res)) << " instead of " << vs(at));
  // numbers
  double z = s.chance(30) ? (double)anyInt(s) * 4 : s.real(-3e9, 3e9);
  double ci = z < -2147483648.0 ? -2147483648.0 : z > 2147483647.0 ? 2147483647.0 : z;
  PBT_CHECK((clampForType<double, int>(z)) == (int)ci, "coord-clamp", z << " as an int is " << (clampForType<double, int>(z)));
  float zf = (float)z; int cf = zf < -2147483648.0f ? -2147483647 - 1 : zf >= 2147483648.0f ? 2147483647 : (int)zf;
  PBT_CHECK((clampForType<float, int>(zf)) == cf, "coord-clamp", zf << " (float) as an int is " << (clampForType<float, int>(zf)));
  double big = s.flip() ? z * 1e35 : z; float cfl = big > 3.4028234663852886e38 ? 3.4028234663852886e38f : big < -3.4028234663852886e38 ? -3.4028234663852886e38f : (float)big;
  PBT_CHECK((clampForType<double, float>(big)) == cfl, "coord-clamp", big << " as a float is " << (clampForType<double, float>(big)));
}

template <class T> void grid(Src &s, Ctx &c)
{
  typedef Imath::Vec3<T> V; typedef Imath::Matrix44<T> M;
  V size, lo, hi; Imath::Box<V> b;
  for (int a = 0; a < 3; ++a) {
    size[a] = s.chance(40) ? (T)s.pick(std::vector<double>{1, 0.5, 0.1, 0.25, 2, 10, 0.03, 1.0 / 3}) : (T)s.real(0.01, 5);
    int i = (int)s.around0(-300, 300), n = (int)s.range(1, 30);
    lo[a] = s.flip() ? (T)i * size[a] : (T)(((double)i + s.unit()) * size[a]); hi[a] = s.flip() ? (T)(i + n) * size[a] : (T)(lo[a] + (n - s.unit() * 0.9) * size[a]);
    if (hi[a] <= lo[a]) { hi[a] = lo[a] + size[a]; }
  }
  b = Imath::Box<V>(lo, hi);
  c << "bounds " << vs(V3d(lo)) << " to " << vs(V3d(hi)) << " voxels of " << vs(V3d(size));
  Box3i e; M m = coordinateSystem(b, size, e), m2 = coordinateSystem(b, size);
  PBT_CHECK(m == m2, "grid-overload", "the overloads differ");
  bool f = sizeof(T) == 4; double eps = f ? 3e-4 : 1e-10;
  c.nontrivial = lo.x < 0 || lo.y < 0 || lo.z < 0;
  for (int a = 0; a < 3; ++a) {
    double o = m[3][a] / (double)size[a], w = m[a][a] / (double)size[a];
    PBT_CHECK(fabs(o - floor(o + 0.5)) < eps * 10 && fabs(w - floor(w + 0.5)) < eps * 10, "grid-multiple", "axis " << a << " starts " << o << " voxels from the origin and is " << w << " voxels long");
    for (int j = 0; j < 4; ++j) { PBT_CHECK(j == a || (m[a][j] == 0), "grid-matrix", "entry " << a << "," << j << " of the matrix is " << m[a][j]); }
    double end = m[3][a] + m[a][a];
    PBT_CHECK(m[3][a] <= lo[a] + eps * size[a] && end >= hi[a] - eps * size[a], "grid-cover", "axis " << a << " goes from " << m[3][a] << " to " << end);
    PBT_CHECK(m[3][a] > lo[a] - size[a] * (1 + eps) && end < hi[a] + size[a] * (1 + eps), "grid-tight", "axis " << a << " goes from " << m[3][a] << " to " << end);
    // the extents number the voxels of the grid
    int i0 = (int)floor(o + 0.5), n = (int)floor(w + 0.5);
    PBT_CHECK(e.min[a] == i0, "grid-first", "axis " << a << " starts " << i0 << " voxels from the origin, the extents at " << e.min[a]);
    PBT_CHECK(e.max[a] == i0 + n - 1, "grid-last", "axis " << a << " has " << n << " voxels from " << i0 << " on, the extents end at " << e.max[a]);
  }
  // voxels stay where they are when the bounds grow, and are where the extents say
  DenseFieldf fld; fld.setSize(e); MatrixFieldMapping::Ptr mp(new MatrixFieldMapping); mp->setLocalToWorld(M44d(m)); fld.setMapping(mp);
  Imath::Box<V> g = b; for (int a = 0; a < 3; ++a) { g.min[a] -= size[a] * (T)s.real(0, 5); g.max[a] += size[a] * (T)s.real(0, 5); }
  Box3i e2; M mg = coordinateSystem(g, size, e2);
  DenseFieldf fg; fg.setSize(e2); MatrixFieldMapping::Ptr mq(new MatrixFieldMapping); mq->setLocalToWorld(M44d(mg)); fg.setMapping(mq);
  V3i v; for (int a = 0; a < 3; ++a) { v[a] = (int)s.range(e.min[a], e.max[a]); }
  V3d w1, w2; fld.mapping()->voxelToWorld(discToCont(v), w1); fg.mapping()->voxelToWorld(discToCont(v), w2);
  for (int a = 0; a < 3; ++a) {
    double want = ((double)v[a] + 0.5) * size[a], tol = size[a] * (f ? 2e-3 : 1e-8);
    PBT_CHECK(fabs(w1[a] - want) < tol, "grid-center", "the centre of voxel " << vs(v) << " is at " << vs(w1) << ", on axis " << a << " expected " << want);
    PBT_CHECK(fabs(w2[a] - want) < tol, "grid-center", "in the larger grid, the centre of voxel " << vs(v) << " is at " << vs(w2) << ", on axis " << a << " expected " << want);
  }
}
PBT_TEST(grids, 1500, 60000, "bounds and voxel sizes of float and double, on either side of the origin, bounds at and between voxel borders; the grid covers the bounds with less than one voxel to spare, its voxels are where the extents say and stay there when the bounds grow; non-trivial = bounds below the origin")
{
  if (s.flip()) { grid<double>(s, c); } else { grid<float>(s, c); }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); kinds(); }; } } g_init;

// C05: mappings give consistent, invertible transforms between world, local and voxel space.
#include "common.h"
using namespace fx;

static V3d xform(const V3d &p, const M44d &m)
{
  double w = p.x * m[0][3] + p.y * m[1][3] + p.z * m[2][3] + m[3][3];
  V3d r;
  for (int a = 0; a < 3; ++a) { r[a] = (p.x * m[0][a] + p.y * m[1][a] + p.z * m[2][a] + m[3][a]) / w; }
  return r;
}
static V3d unitP(Src &s, double lo = 0, double hi = 1) { return V3d(s.real(lo, hi), s.real(lo, hi), s.real(lo, hi)); }
static bool near(const V3d &a, const V3d &b, double eps = 1e-8) { return (a - b).length() <= eps * (1 + a.length() + b.length()); }
static V3d l2v(const V3d &l, const Box3i &e) { V3i r = dims(e); return V3d(e.min.x + l.x * r.x, e.min.y + l.y * r.y, e.min.z + l.z * r.z); }

//! Independent evaluation of local to world at time zero for a single-sample mapping
static V3d refL2W(const MapSpec &sp, const V3d &l)
{
  if (sp.kind == 0) { return l; }
  if (sp.kind == 1) { return xform(l, sp.m.samples[0].second); }
  const M44d &ss = sp.f.samples[0].second.first, &cs = sp.f.samples[0].second.second;
  V3d sP(2 * l.x - 1, 2 * l.y - 1, l.z);
  if (sp.f.uniform) {
    // near and far depth along the camera axis
    M44d w2c = cs.inverse();
    double zn = -xform(xform(V3d(0, 0, 0), ss), w2c).z, zf = -xform(xform(V3d(0, 0, 1), ss), w2c).z;
    double depth = zn + l.z * (zf - zn);
    // screen depth of that plane
    V3d onAxis = xform(xform(V3d(0, 0, -depth), cs), ss.inverse());
    sP.z = onAxis.z;
  }
  return xform(sP, ss);
}
static MapSpec oneSample(Src &s)
{
  MapSpec sp; sp.kind = (int)s.weighted({1, 4, 4});
  if (sp.kind == 1) { sp.m = genMatrixSpec(s, 1); }
  if (sp.kind == 2) { sp.f = genFrustumSpec(s, 1); }
  return sp;
}
static void checkSpaces(Src &s, const FieldMapping &m, const MapSpec &sp, const Box3i &e, const char *what)
{
  V3d w, l, v;
  m.localToVoxel(V3d(0), v); PBT_CHECK(near(v, V3d(e.min)), "local-origin", what << ": local (0,0,0) maps to voxel " << vs(v) << " for extents " << bs(e));
  m.localToVoxel(V3d(1), v); PBT_CHECK(near(v, V3d(e.max + V3i(1))), "local-corner", what << ": local (1,1,1) maps to voxel " << vs(v) << " for extents " << bs(e));
  for (int q = 0; q < 4; ++q) {
    V3d lp = sp.kind == 2 ? unitP(s) : unitP(s, -1, 2), vp = l2v(lp, e), wp = refL2W(sp, lp);
    m.localToVoxel(lp, v); PBT_CHECK(near(v, vp), "local-to-voxel", what << ": local " << vs(lp) << " to voxel gives " << vs(v) << " expected " << vs(vp));
    m.voxelToLocal(vp, l); PBT_CHECK(near(l, lp), "voxel-to-local", what << ": voxel " << vs(vp) << " to local gives " << vs(l) << " expected " << vs(lp));
    m.localToWorld(lp, w); PBT_CHECK(near(w, wp), "local-to-world", what << ": local " << vs(lp) << " to world gives " << vs(w) << " expected " << vs(wp));
    m.voxelToWorld(vp, w); PBT_CHECK(near(w, wp), "voxel-to-world", what << ": voxel " << vs(vp) << " to world gives " << vs(w) << " expected " << vs(wp));
    m.worldToLocal(wp, l); PBT_CHECK(near(l, lp, 1e-6), "world-to-local", what << ": world " << vs(wp) << " to local gives " << vs(l) << " expected " << vs(lp));
    m.worldToVoxel(wp, v); PBT_CHECK(near(v, vp, 1e-6), "world-to-voxel", what << ": world " << vs(wp) << " to voxel gives " << vs(v) << " expected " << vs(vp));
    // any time gives the same for a mapping without motion
    float t = (float)s.around0(-4, 4) * 0.5f;
    m.localToWorld(lp, w, t); PBT_CHECK(near(w, wp), "static-time", what << ": local to world at time " << t << " gives " << vs(w) << " expected " << vs(wp));
    m.voxelToWorld(vp, w, t); PBT_CHECK(near(w, wp), "static-time", what << ": voxel to world at time " << t);
    m.worldToLocal(wp, l, t); PBT_CHECK(near(l, lp, 1e-6), "static-time", what << ": world to local at time " << t);
    m.worldToVoxel(wp, v, t); PBT_CHECK(near(v, vp, 1e-6), "static-time", what << ": world to voxel at time " << t);
  }
}
static void checkVoxelSize(Src &s, const FieldMapping &m, const MapSpec &sp, const Box3i &e, const char *what)
{
  V3i r = dims(e), p = genVoxel(s, e);
  V3d got = m.wsVoxelSize(p.x, p.y, p.z), ex;
  int k = p.z;
  // frustums: one size per slice, measured on the centre column (which of the
  // middle columns is not specified); the last slice repeats the one before
  if (sp.kind == 2 && r.z > 1 && k == e.max.z) { k--; }
  auto world = [&](const V3d &v) { V3d l; for (int a = 0; a < 3; ++a) { l[a] = (v[a] - e.min[a]) / r[a]; } return refL2W(sp, l); };
  bool ok = false;
  for (int q = 0; q < (sp.kind == 2 ? 9 : 1) && !ok; ++q) {
    V3d at(p.x + 0.5, p.y + 0.5, p.z + 0.5);
    if (sp.kind == 2) { at = V3d(e.min.x + r.x / 2 + (q % 3 - 0.5), e.min.y + r.y / 2 + (q / 3 - 0.5), k + 0.5); }
    V3d x;
    for (int a = 0; a < 3; ++a) {
      V3d n = at; n[a] += 1;
      if (a == 2 && sp.kind == 2 && r.z == 1) { V3d f = at; f.z -= 0.5; n.z -= 0.5; x[a] = (world(n) - world(f)).length(); }
      else { x[a] = (world(n) - world(at)).length(); }
    }
    if (q == 4 || q == 0) { ex = x; }
    ok = near(got, x, 1e-6);
  }
  PBT_CHECK(ok, "voxel-size", what << ": voxel size at " << vs(p) << " is " << vs(got) << " expected " << vs(ex));
}

PBT_TEST(spaces, 30000, 400000, "null, matrix (scale, rotation, shear, mirror) and frustum mappings (both depth distributions) on generated extents: points through every transform and back against an independent evaluation, voxel size, then again after resizing; non-trivial = not the null mapping")
{
  MapSpec sp = oneSample(s);
  Box3i e = genBox(s, 12);
  FieldMapping::Ptr m;
  int how = (int)s.below(3);
  if (how == 0) { m = mkMap(sp); m->setExtents(e); }
  else if (how == 1) {   // extents first
    if (sp.kind == 0) { m = new NullFieldMapping(e); }
    else if (sp.kind == 1) { MatrixFieldMapping::Ptr mm(new MatrixFieldMapping(e)); mm->setLocalToWorld(sp.m.samples[0].second); m = mm; }
    else { FrustumFieldMapping::Ptr f(new FrustumFieldMapping(e));
      if (sp.f.uniform) { f->setZDistribution(FrustumFieldMapping::UniformDistribution); }
      // the perspective distribution is the default
      f->setTransforms(sp.f.samples[0].second.first, sp.f.samples[0].second.second); m = f; }
  } else {   // everything set twice, in another order
    m = mkMap(sp); m->setExtents(genBox(s, 5)); m->setExtents(e);
    if (sp.kind == 1) { MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(m); mm->setLocalToWorld(genMatrix(s)); mm->setLocalToWorld(sp.m.samples[0].second); }
    if (sp.kind == 2) { FrustumFieldMapping::Ptr f = field_dynamic_cast<FrustumFieldMapping>(m);
      FrustumSpec o = genFrustumSpec(s, 1); f->setTransforms(o.samples[0].second.first, o.samples[0].second.second);
      f->setTransforms(sp.f.samples[0].second.first, sp.f.samples[0].second.second);
      f->setZDistribution(sp.f.uniform ? FrustumFieldMapping::PerspectiveDistribution : FrustumFieldMapping::UniformDistribution);
      f->setZDistribution(sp.f.uniform ? FrustumFieldMapping::UniformDistribution : FrustumFieldMapping::PerspectiveDistribution); }
  }
  c << mapName(sp) << (sp.kind == 2 ? (sp.f.uniform ? " uniform" : " perspective") : "") << " extents " << bs(e) << " how " << how;
  checkSpaces(s, *m, sp, e, "new mapping");
  if (sp.kind != 0) { checkVoxelSize(s, *m, sp, e, "new mapping"); }
  Box3i e2 = genBox(s, 12); m->setExtents(e2);
  c << " then " << bs(e2);
  checkSpaces(s, *m, sp, e2, "resized mapping");
  if (sp.kind != 0) { checkVoxelSize(s, *m, sp, e2, "resized mapping"); }
  FieldMapping::Ptr cl = m->clone();
  PBT_CHECK(cl->className() == m->className(), "clone-class", "clone has class " << cl->className());
  m->setExtents(genBox(s, 5));
  if (MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(m)) { mm->setLocalToWorld(genMatrix(s)); }
  checkSpaces(s, *cl, sp, e2, "clone, after changing the original");
  c.nontrivial = sp.kind != 0;
  c.label(mapName(sp));
}

PBT_TEST(matrix_accessors, 15000, 150000, "matrix mappings: stored matrices, direction transforms and the identity reset agree with point transforms; non-trivial = matrix is not the identity")
{
  MatrixSpec sp = genMatrixSpec(s, 1); M44d M = sp.samples[0].second;
  MatrixFieldMapping::Ptr m = mkMatrix(sp); Box3i e = genBox(s, 9); m->setExtents(e);
  c << bs(e);
  V3d a = unitP(s, -3, 3), d = unitP(s, -2, 2), x, y, o, p;
  m->voxelToWorld(a, x); m->voxelToWorld(a + d, y); m->voxelToWorldDir(d, o); PBT_CHECK(near(o, y - x, 1e-7), "dir", "voxelToWorldDir");
  m->localToWorld(a, x); m->localToWorld(a + d, y); m->localToWorldDir(d, o); PBT_CHECK(near(o, y - x, 1e-7), "dir", "localToWorldDir");
  m->worldToVoxel(a, x); m->worldToVoxel(a + d, y); m->worldToVoxelDir(d, o); PBT_CHECK(near(o, y - x, 1e-6), "dir", "worldToVoxelDir " << vs(o) << vs(y - x));
  m->worldToLocal(a, x); m->worldToLocal(a + d, y); m->worldToLocalDir(d, o); PBT_CHECK(near(o, y - x, 1e-6), "dir", "worldToLocalDir");
  PBT_CHECK(near(xform(a, m->localToWorld()), xform(a, M)), "accessor", "localToWorld()");
  m->voxelToWorld(a, x); PBT_CHECK(near(xform(a, m->voxelToWorld()), x), "accessor", "voxelToWorld()");
  m->worldToVoxel(a, x); PBT_CHECK(near(xform(a, m->worldToVoxel()), x), "accessor", "worldToVoxel()");
  PBT_CHECK(near(xform(a, m->worldToVoxel(0.7f)), x), "accessor", "worldToVoxel(time)");
  PBT_CHECK(m->localToWorldSamples().size() == 1 && m->localToWorldSamples()[0].first == sp.samples[0].first, "accessor", "samples");
  m->makeIdentity();
  m->localToWorld(a, x); PBT_CHECK(near(x, a), "make-identity", "after makeIdentity local " << vs(a) << " is at world " << vs(x));
  c.nontrivial = !(M == M44d());
}

PBT_TEST(frustum_accessors, 10000, 100000, "frustum mappings: near and far planes, matrices and sample lists reflect exactly the transforms that were set, also after defaults and re-setting; non-trivial = always")
{
  FrustumSpec sp = genFrustumSpec(s, 2);
  FrustumFieldMapping::Ptr m(new FrustumFieldMapping);
  if (s.flip()) { FrustumSpec o = genFrustumSpec(s, 1); m->setTransforms(o.samples[0].second.first, o.samples[0].second.second); if (s.flip()) { m->reset(); } else { m = new FrustumFieldMapping; } }
  bool simple = sp.samples.size() == 1 && s.flip();
  if (simple && s.flip()) { // documented to reset the curves to one sample
    FrustumSpec o = genFrustumSpec(s, 2); for (auto &p : o.samples) { m->setTransforms(p.first, p.second.first, p.second.second); } }
  if (simple) { sp.samples[0].first = 0; m->setTransforms(sp.samples[0].second.first, sp.samples[0].second.second); }
  else { if (sp.samples.size() == 1) { sp.samples[0].first = 0.25f * (float)s.around0(-4, 4); }
    for (auto &p : sp.samples) { m->setTransforms(p.first, p.second.first, p.second.second); } }
  c << sp.samples.size() << " samples from t=" << sp.samples[0].first << (simple ? " untimed" : "");
  size_t n = sp.samples.size();
  PBT_CHECK(m->cameraToWorldSamples().size() == n, "frustum-samples", "cameraToWorldSamples has " << m->cameraToWorldSamples().size() << " samples, " << n << " were set");
  PBT_CHECK(m->screenToWorldSamples().size() == n, "frustum-samples", "screenToWorldSamples has " << m->screenToWorldSamples().size() << " samples, " << n << " were set");
  PBT_CHECK(m->nearPlaneSamples().size() == n && m->farPlaneSamples().size() == n, "frustum-samples", "near/far samples");
  for (size_t i = 0; i < n; ++i) {
    const M44d &ss = sp.samples[i].second.first, &cs = sp.samples[i].second.second;
    PBT_CHECK(m->screenToWorldSamples()[i].first == sp.samples[i].first && m->screenToWorldSamples()[i].second == ss, "frustum-samples", "screen to world sample " << i);
    PBT_CHECK(m->cameraToWorldSamples()[i].first == sp.samples[i].first && m->cameraToWorldSamples()[i].second == cs, "frustum-samples", "camera to world sample " << i);
    double zn = -xform(xform(V3d(0, 0, 0), ss), cs.inverse()).z, zf = -xform(xform(V3d(0, 0, 1), ss), cs.inverse()).z;
    PBT_CHECK(fabs(m->nearPlaneSamples()[i].second - zn) < 1e-8 * (1 + zn) && fabs(m->farPlaneSamples()[i].second - zf) < 1e-8 * (1 + zf), "frustum-planes", "near/far sample " << i);
  }
  if (n == 1) {
    PBT_CHECK(m->screenToWorld() == sp.samples[0].second.first && m->cameraToWorld() == sp.samples[0].second.second, "frustum-samples", "screenToWorld()/cameraToWorld()");
  }
  c.nontrivial = true;
}

//! Equality of mappings means equality of transforms
PBT_TEST(equality, 30000, 300000, "pairs of mappings, equal or perturbed in one aspect (scale, rotation, translation, shear, projection, distribution, sample time): isIdentical must accept equal ones and reject any pair whose transforms differ, both ways round; non-trivial = a perturbed pair")
{
  MapSpec a = genMapSpec(s), b = a;
  Box3i e = genBox(s, 6);
  const char *what = "same";
  int op = (int)s.below(8);
  M44d P;
  double amt = s.pick(std::vector<double>{0.5, 0.05, 1.0});
  switch (op) {
  case 0: break;
  case 1: what = "scale"; P.setScale(V3d(1 + amt, 1, 1)); break;
  case 2: what = "rotation"; P.setEulerAngles(V3d(0, amt, 0)); break;
  case 3: what = "translation"; P.setTranslation(V3d(0, 0, amt)); break;
  case 4: what = "shear"; P.setShear(V3d(amt, 0, 0)); break;
  case 5: what = "shear2"; P[1][0] = amt; P[2][1] = -amt; break;
  case 6: what = "projection"; P[0][3] = 0.05 * amt; P[2][3] = 0.02; break;
  default: what = "other"; b = genMapSpec(s); break;
  }
  if (op >= 1 && op <= 6) {
    size_t i;
    if (a.kind == 1) { i = s.below(b.m.samples.size()); b.m.samples[i].second = s.flip() ? P * b.m.samples[i].second : b.m.samples[i].second * P; }
    if (a.kind == 2) { i = s.below(b.f.samples.size()); b.f.samples[i].second.first = s.flip() ? P * b.f.samples[i].second.first : b.f.samples[i].second.first * P; }
  }
  FieldMapping::Ptr ma = mkMap(a), mb;
  try { mb = mkMap(b); } catch (const FrustumFieldMapping::BadPerspectiveMatrix &) { return; }
  ma->setExtents(e); mb->setExtents(e);
  c << mapName(a) << " vs " << mapName(b) << " changed: " << what;
  double tol = s.flip() ? 0.0 : 1e-9;
  bool id = ma->isIdentical(mb, tol), di = mb->isIdentical(ma, tol);
  PBT_CHECK(id == di, "equality-symmetric", "isIdentical is " << id << " one way and " << di << " the other");
  FieldMapping::Ptr cl = ma->clone();
  PBT_CHECK(ma->isIdentical(cl, tol) && cl->isIdentical(ma, tol), "equality-clone", "a mapping is not identical to its clone");
  FieldMapping::Ptr ma2 = mkMap(a); ma2->setExtents(e);
  PBT_CHECK(ma->isIdentical(ma2, tol), "equality-equal", "mappings built alike are not identical");
  // do they map alike?
  double worst = 0; V3d at;
  for (int t = 0; t < 5; ++t) for (int q = 0; q < 8; ++q) {
    V3d l(q & 1 ? 0.9 : 0.2, q & 2 ? 0.8 : 0.1, q & 4 ? 0.7 : 0.3), x, y;
    float tm = -1.0f + 0.6f * t;
    ma->localToWorld(l, x, tm); mb->localToWorld(l, y, tm);
    double d = (x - y).length() / (1 + x.length());
    if (d > worst) { worst = d; at = l; }
  }
  if (a.kind == b.kind) { PBT_CHECK(!(id && worst > 1e-5), "equality-differ", "isIdentical holds for " << mapName(a) << " mappings (" << what << " changed) that place local " << vs(at) << " at points " << worst << " apart"); }
  else { PBT_CHECK(!id, "equality-kind", "mappings of different classes are identical"); }
  c.nontrivial = op != 0;
}

//! Fields own their mapping and keep it in step with their extents
PBT_TEST(field_mapping, 20000, 200000, "setMapping and setSize in any order: the field's mapping follows the field's extents, the caller's mapping object is untouched; non-trivial = more than two operations")
{
  DenseField<float>::Ptr f(new DenseField<float>), g(new DenseField<float>);
  MapSpec sp; sp.kind = 1; sp.m = genMatrixSpec(s, 1);
  Box3i me = genBox(s, 5), ge = genBox(s, 5);
  FieldMapping::Ptr m = mkMap(sp); m->setExtents(me);
  g->setSize(ge);
  MapSpec cur; cur.kind = 1; cur.m.samples.push_back(std::make_pair(0.0f, M44d()));   // default mapping
  MapSpec gcur = cur;
  Box3i e(V3i(0), V3i(-1)); bool sized = false;
  int n = (int)s.range(1, 6);
  for (int q = 0; q < n; ++q) {
    switch (s.below(4)) {
    case 0: { Def d = genDef(s, 6); f->setSize(d.ext, d.dw); e = d.ext; sized = true; c << " size" << bs(e); break; }
    case 1: f->setMapping(m); cur = sp; c << " mapping"; break;
    case 2: g->setMapping(f->mapping()); gcur = cur; c << " share"; break;
    default: { MapSpec o = oneSample(s); f->setMapping(mkMap(o)); cur = o; c << " " << mapName(o); break; }
    }
    checkSpaces(s, *m, sp, me, "the caller's mapping");
    if (sized) { checkSpaces(s, *f->mapping(), cur, e, "the field's mapping"); }
    checkSpaces(s, *g->mapping(), gcur, ge, "another field's mapping");
  }
  c.nontrivial = n > 2;
}

//! Bounds helpers are conservative and tight for affine mappings
PBT_TEST(bounds, 15000, 150000, "world box to voxel box for affine mappings contains the image of every interior point and touches the images of its corners; non-trivial = matrix mapping")
{
  MapSpec sp; sp.kind = (int)s.below(2) ; if (sp.kind == 1) { sp.m = genMatrixSpec(s, 1); }
  FieldMapping::Ptr m = mkMap(sp); Box3i e = genBox(s, 8); m->setExtents(e);
  Box3d wb, vb; wb.min = unitP(s, -4, 4); wb.max = wb.min + unitP(s, 0, 5);
  worldToVoxel(m.get(), wb, vb);
  c << mapName(sp) << " " << bs(e);
  Box3d hull; 
  for (int q = 0; q < 20; ++q) {
    V3d u = q < 8 ? V3d(q & 1, (q >> 1) & 1, (q >> 2) & 1) : unitP(s), w, v;
    for (int a = 0; a < 3; ++a) { w[a] = wb.min[a] + u[a] * (wb.max[a] - wb.min[a]); }
    m->worldToVoxel(w, v); if (q < 8) { hull.extendBy(v); }
    for (int a = 0; a < 3; ++a) { double eps = 1e-7 * (1 + fabs(v[a]) + vb.max[a] - vb.min[a]); PBT_CHECK(v[a] >= vb.min[a] - eps && v[a] <= vb.max[a] + eps, "bounds-contain", "point " << vs(v) << " outside the voxel bounds " << vs(vb.min) << vs(vb.max)); }
  }
  PBT_CHECK(near(hull.min, vb.min, 1e-7) && near(hull.max, vb.max, 1e-7), "bounds-tight", "voxel bounds are not the hull of the corners");
  M44d M = genMatrix(s); Box3d to; transformBounds(M, wb, to); Box3d h2;
  for (int q = 0; q < 8; ++q) { h2.extendBy(xform(V3d(q & 1 ? wb.max.x : wb.min.x, q & 2 ? wb.max.y : wb.min.y, q & 4 ? wb.max.z : wb.min.z), M)); }
  PBT_CHECK(near(h2.min, to.min, 1e-7) && near(h2.max, to.max, 1e-7), "bounds-transform", "transformBounds");
  c.nontrivial = sp.kind == 1;
}
//! World space in other units
PBT_TEST(world_units, 10000, 150000, "matrix and frustum mappings with up to three time samples and the same with world space times a power of two from 2^-30 to 2^30: world positions and voxel sizes are multiplied by it, local and voxel positions of the multiplied points stay; non-trivial = always")
{
  MapSpec a = genMapSpec(s); if (a.kind == 0) { a.kind = 1; a.m = genMatrixSpec(s); }
  MapSpec b = a; int k = (int)s.range(8, 30) * (s.flip() ? -1 : 1); worldTimesPow2(b.m, k); worldTimesPow2(b.f, k);
  Box3i e = genBox(s, 8); FieldMapping::Ptr m = mkMap(a), n = mkMap(b); m->setExtents(e); n->setExtents(e);
  c << mapName(a) << " x" << (a.kind == 1 ? a.m.samples.size() : a.f.samples.size()) << " " << bs(e) << " world times 2^" << k; c.nontrivial = true; c.label(mapName(a));
  auto up = [&](const V3d &v) { return V3d(std::ldexp(v.x, k), std::ldexp(v.y, k), std::ldexp(v.z, k)); };
  auto down = [&](const V3d &v) { return V3d(std::ldexp(v.x, -k), std::ldexp(v.y, -k), std::ldexp(v.z, -k)); };
  for (int q = 0; q < 4; ++q) {
    V3d l = a.kind == 2 ? unitP(s) : unitP(s, -1, 2), v = l2v(l, e), w, x, y; float t = q == 0 ? 0.0f : (float)s.real(-1.5, 2.5);
    m->localToWorld(l, w, t); n->localToWorld(l, x, t); PBT_CHECK(near(down(x), w, 1e-9), "units-world", "local " << vs(l) << " is at world " << vs(w) << ", with world space times 2^" << k << " at " << vs(x));
    m->voxelToWorld(v, y, t); n->voxelToWorld(v, x, t); PBT_CHECK(near(down(x), y, 1e-9), "units-world", "voxel " << vs(v) << " is at world " << vs(y) << ", with world space times 2^" << k << " at " << vs(x));
    m->worldToLocal(w, x, t); n->worldToLocal(up(w), y, t); PBT_CHECK(near(x, y, 1e-6) || !(x - x == V3d(0)), "units-local", "world " << vs(w) << " is at local " << vs(x) << ", with world space times 2^" << k << " at " << vs(y));
    m->worldToVoxel(w, x, t); n->worldToVoxel(up(w), y, t); PBT_CHECK(near(x, y, 1e-6) || !(x - x == V3d(0)), "units-voxel", "world " << vs(w) << " is at voxel " << vs(x) << ", with world space times 2^" << k << " at " << vs(y));
    V3i p = genVoxel(s, e); x = m->wsVoxelSize(p.x, p.y, p.z); y = n->wsVoxelSize(p.x, p.y, p.z);
    PBT_CHECK((down(y) - x).length() <= 1e-7 * x.length(), "units-size", "voxel " << vs(p) << " has size " << vs(x) << ", with world space times 2^" << k << " " << vs(y));
  }
  FieldMapping::Ptr n2 = mkMap(b); n2->setExtents(e); PBT_CHECK(n->isIdentical(n2, 1e-9) && !n->isIdentical(m, 1e-9), "units-identical", "isIdentical() of mappings whose world space differs by 2^" << k);
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); }; } } g_init;

From c0588faa46a6f4de212241bf2122cb6f1d12df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 001/105] fix: SparseField::block_iterator bounding box ignored
 the data window offset

---
 export/SparseField.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..11771c4 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1263,7 +1263,8 @@ private:
   {
     Box3i box;
     int blockSize = m_field.blockSize();
-    box.min = V3i(x * blockSize, y * blockSize, z * blockSize);
+    box.min = V3i(x * blockSize, y * blockSize, z * blockSize) + 
+      m_field.dataWindow().min;
     box.max = box.min + V3i(blockSize - 1, blockSize - 1, blockSize - 1);
     // Clamp the box
     box.min = FIELD3D_CLIP(box.min, m_field.dataWindow());
-- 
2.43.0


From 6c3d063b5cfdc195665cef77285baf7182eb721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 002/105] fix: MACField::copyMAC did not compile when used

---
 export/MACField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MACField.h b/export/MACField.h
index d75ef9a..636149e 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -249,7 +249,7 @@ public:
   //! be re-implemented using proper iterators over the field
   void copyMAC(typename MACField::Ptr other)
   {
-    matchDefinition(other);
+    this->matchDefinition(other);
     std::copy(other->m_u.begin(), other->m_u.end(), m_u.begin());
     std::copy(other->m_v.begin(), other->m_v.end(), m_v.begin());
     std::copy(other->m_w.begin(), other->m_w.end(), m_w.begin());
-- 
2.43.0


From cb090ca8b1d1a7c517c041e326f5b37dc81e9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 003/105] fix: assigning a field shared its mapping with the
 source field

---
 export/Field.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/export/Field.h b/export/Field.h
index 51fd35d..74c4b4b 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -240,6 +240,10 @@ public:
   //! \todo OSS Go over the copy constructing - is it implemented right? 8hr
   FieldRes(const FieldRes &src);
 
+  //! Assignment operator. Each field owns its mapping, so the mapping is
+  //! cloned rather than shared.
+  FieldRes& operator=(const FieldRes &src);
+
   // Main methods --------------------------------------------------------------
 
   //! Returns the extents of the data. This signifies the relevant area that
@@ -339,7 +343,19 @@ inline FieldRes::FieldRes(const FieldRes &src)
   // FieldBase(src);
   // Copy self
   *this = src;
-  m_mapping = src.mapping()->clone();
+}
+
+//----------------------------------------------------------------------------//
+
+inline FieldRes& FieldRes::operator=(const FieldRes &src)
+{
+  if (this != &src) {
+    FieldBase::operator=(src);
+    m_extents = src.m_extents;
+    m_dataWindow = src.m_dataWindow;
+    m_mapping = src.m_mapping->clone();
+  }
+  return *this;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 47c3cddc8a351eee12e18197cd7260d287b803c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 004/105] fix: FrustumFieldMapping kept stale screen-to-world
 samples when cleared

---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index b1f1a1f..8d6153f 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -786,6 +786,7 @@ void FrustumFieldMapping::getLocalToVoxelMatrix(M44d &result)
 
 void FrustumFieldMapping::clearCurves()
 {
+  m_ssToWsCurve.clear();
   m_lpsToWsCurve.clear();
   m_csToWsCurve.clear();
   m_nearCurve.clear();
-- 
2.43.0


From 4be186536d0e3215eb6fcc1a4bf3ac1e2153d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 005/105] fix: FrustumFieldMapping::setTransforms() without a
 time did not reset the curves

---
 src/FieldMapping.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 8d6153f..cd6938f 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -440,6 +440,9 @@ FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
 
 void FrustumFieldMapping::setTransforms(const M44d &ssToWs, const M44d &csToWs)
 {
+  // As documented, the curves are reset to hold just the one sample
+  clearCurves();
+  m_defaultState = false;
   setTransforms(0.0, ssToWs, csToWs);
 }
 
-- 
2.43.0


From 38e0c0c2b503bd69bb858aaa78304860f69b420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 006/105] fix: FrustumFieldMapping(extents) left its members
 uninitialised

---
 src/FieldMapping.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index cd6938f..073cb38 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -431,7 +431,9 @@ FrustumFieldMapping::FrustumFieldMapping()
 //----------------------------------------------------------------------------//
 
 FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
-  : FieldMapping(extents)
+  : FieldMapping(extents),
+    m_zDistribution(PerspectiveDistribution),
+    m_defaultState(true)
 { 
   reset();
 }
-- 
2.43.0


From 980e344431a1251b7b98c02dc1ac2556ef3b9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 007/105] fix: FrustumFieldMapping::setZDistribution() left the
 voxel sizes of the previous distribution

---
 export/FieldMapping.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/export/FieldMapping.h b/export/FieldMapping.h
index b8d1d06..0c486f8 100644
--- a/export/FieldMapping.h
+++ b/export/FieldMapping.h
@@ -624,7 +624,11 @@ public:
 
   //! Sets the z slice distribution
   void setZDistribution(ZDistribution dist)
-  { m_zDistribution = dist; }
+  { 
+    m_zDistribution = dist; 
+    // The distribution determines the world space depth of each slice
+    computeVoxelSize();
+  }
   //! Returns the z slice distribution
   ZDistribution zDistribution() const
   { return m_zDistribution; }
-- 
2.43.0


From 60cc1f5eb1dca4439874824bf65d32ca6f9001ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 008/105] fix: FrustumFieldMapping had no voxel size for fields
 one slice deep

---
 src/FieldMapping.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 073cb38..3cf3cf4 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -771,6 +771,19 @@ void FrustumFieldMapping::computeVoxelSize()
   // against
   if (m_res.z >= 2) {
     m_wsVoxelSize[static_cast<int>(m_res.z - 1)] = m_wsVoxelSize[static_cast<int>(m_res.z - 2)];
+  } else if (m_res.z >= 1) {
+    // There is only one slice, so its depth is measured from its near face
+    // to its far face.
+    V3d wsP, wsPx, wsPy, wsNear, wsFar;
+    V3d vsP = discToCont(V3i(i, j, zMin));
+    voxelToWorld(vsP, wsP);
+    voxelToWorld(vsP + V3d(1.0, 0.0, 0.0), wsPx);
+    voxelToWorld(vsP + V3d(0.0, 1.0, 0.0), wsPy);
+    voxelToWorld(vsP - V3d(0.0, 0.0, 0.5), wsNear);
+    voxelToWorld(vsP + V3d(0.0, 0.0, 0.5), wsFar);
+    m_wsVoxelSize[0] = V3d((wsPx - wsP).length(), 
+                           (wsPy - wsP).length(),
+                           (wsFar - wsNear).length());
   }
 
 }
-- 
2.43.0


From cebdd14648883923f8086f8a6d4f980965ee9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 009/105] fix: mapping comparison ignored shear and perspective

---
 src/FieldMapping.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 3cf3cf4..02bdb8b 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -97,10 +97,17 @@ namespace {
       return false;
     }
     if (!s1.equalWithRelError(s2, tolerance) ||
+        !sh1.equalWithAbsError(sh2, tolerance) ||
         !r1.equalWithAbsError(r2, tolerance) ||
         !t1.equalWithRelError(t2, tolerance)) {
       return false;
     }
+    // The decomposition doesn't include the projective part of the matrix
+    for (int i = 0; i < 4; ++i) {
+      if (!Imath::equalWithAbsError(m1[i][3], m2[i][3], tolerance)) {
+        return false;
+      }
+    }
     return true;
   }
 
-- 
2.43.0


From 78a5f8b4d3f9b0695df70361b6d7c5a26b7ba8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 010/105] fix: cubic interpolators clamped sample points to the
 origin instead of the data window

---
 export/FieldInterp.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 9a7c701..10c0de0 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -654,9 +654,11 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Voxel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
+  const Box3i &dataWindow = data.dataWindow();
+
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
   FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
@@ -667,8 +669,6 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Fractions
   FIELD3D_VEC3_T<double> t(p - static_cast<FIELD3D_VEC3_T<double> >(c));
 
-  const Box3i &dataWindow = data.dataWindow();
-
   // Clamp the coordinates
   int im, jm, km;
   im = std::max(dataWindow.min.x, std::min(c.x, dataWindow.max.x));
@@ -1088,13 +1088,13 @@ CubicGenericFieldInterp<Field_T>::sample(const Field_T &data,
   // Pixel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
-  FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
-
   const Box3i &dataWindow = data.dataWindow();
 
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
+
   // Lower left corner
   V3i c(static_cast<int>(floor(p.x)), 
         static_cast<int>(floor(p.y)), 
@@ -1217,9 +1217,9 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // X component ---
 
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
   FIELD3D_VEC3_T<double> p(vsP.x,
                            clampedVsP.y - 0.5,
                            clampedVsP.z - 0.5);
-- 
2.43.0


From 3dfb4033c26b60ea87dbe89c4e915b84f3315c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 011/105] fix: cubic MAC interpolation did not clamp along the
 face axis below the data window

---
 export/FieldInterp.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 10c0de0..7254269 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -1220,7 +1220,11 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
   V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
                  std::max(dataWindow.min.y + 0.5, vsP.y),
                  std::max(dataWindow.min.z + 0.5, vsP.z));
-  FIELD3D_VEC3_T<double> p(vsP.x,
+  // The face positions along a component's own axis are at integer coordinates
+  V3d faceVsP(std::max(static_cast<double>(dataWindow.min.x), vsP.x),
+              std::max(static_cast<double>(dataWindow.min.y), vsP.y),
+              std::max(static_cast<double>(dataWindow.min.z), vsP.z));
+  FIELD3D_VEC3_T<double> p(faceVsP.x,
                            clampedVsP.y - 0.5,
                            clampedVsP.z - 0.5);
 
@@ -1329,7 +1333,7 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Y component ---
 
-  p.setValue(clampedVsP.x - 0.5, vsP.y , clampedVsP.z - 0.5);
+  p.setValue(clampedVsP.x - 0.5, faceVsP.y , clampedVsP.z - 0.5);
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
@@ -1434,7 +1438,7 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Z component ---
 
-  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5, vsP.z);
+  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5, faceVsP.z);
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
-- 
2.43.0


From f166305125b4ee2843381b6feb1da2f9b3d4d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 012/105] fix: convertCellCenteredToMAC() used the wrong
 inverse rotation

---
 export/MACFieldUtil.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index 9605c11..9152d53 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -160,7 +160,10 @@ void convertCellCenteredToMAC(typename Field_T::Ptr cc,
     M44d localToWorld = mapping->localToWorld();
     V3d scale, rot, trans, shear;
     if (FIELD3D_EXTRACT_SHRT(localToWorld, scale, shear, rot, trans, false)) {
-      wsToSsMtx.rotate(-rot);
+      // Negating the angles would not be the inverse of a rotation about more
+      // than one axis
+      wsToSsMtx.rotate(rot);
+      wsToSsMtx.invert();
       rotateVector = true;
     }
   }
-- 
2.43.0


From 7d889e22a3f6787316b37e934f217f810f50a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 013/105] fix: procedural field lookups ignored the extents

---
 export/FieldInterp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 7254269..1a09144 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -1551,8 +1551,8 @@ Data_T
 ProceduralFieldLookup<Data_T>::sample(const ProceduralField<Data_T> &data,
                                       const V3d &vsP) const 
 {
-  V3d voxelScale = V3d(1.0) / data.dataResolution();
-  V3d lsP = vsP * voxelScale;
+  V3d lsP;
+  data.mapping()->voxelToLocal(vsP, lsP);
   return data.lsSample(lsP);
 }
 
-- 
2.43.0


From 5bb1736be137f2ccc4af27788051622318e8089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:35 +0000
Subject: [PATCH 014/105] fix: resample() left voxels without a value
 uninitialised in dense vector fields

---
 export/Resample.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/Resample.h b/export/Resample.h
index dd3abe9..83dcf92 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -424,8 +424,9 @@ namespace detail {
     // Check if we're up-res'ing
     const bool doUpres = newRes[dim] > srcRes[dim] ? 1 : 0;
 
-    // Resize the target
+    // Resize the target. Voxels that receive no value are expected to be zero
     tgt.setSize(newRes);
+    tgt.clear(T(0.0));
 
     // For each output voxel
     for (int k = 0; k < newRes.z; ++k) {
-- 
2.43.0


From c19caa0e00201748c3f8b7e9ce4e407daac3ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 015/105] fix: makeMIP() read outside fields that do not start
 at the origin

---
 export/MIPUtil.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..a5c349f 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -501,6 +501,11 @@ makeMIP(const typename MIPField_T::NestedType &base, const int minSize,
   if (base.extents() != base.dataWindow()) {
     return MIPPtr();
   }
+
+  // The filtering addresses the field from voxel (0, 0, 0)
+  if (base.dataWindow().min != V3i(0)) {
+    return MIPPtr();
+  }
   
   // Initialize output vector with base resolution
   SrcVec result;
-- 
2.43.0


From cc41d2e671c0df7915d06ec5ee66527e927a889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 016/105] fix: makeMIP() threads wrote to the same sparse block
 for block orders below the default

---
 export/MIPUtil.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index a5c349f..017b0ba 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -374,8 +374,9 @@ namespace detail {
     // Resize new field
     tgt.setSize(res);
     
-    // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    // Determine granularity. The threads write to the target, so no two of them
+    // may work on the same target block
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From 7f4385505a8d63e6d5b5f47a3f4390679b998206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 017/105] fix: makeMIP() left voxels without a value
 uninitialised in dense vector fields

---
 export/MIPUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 017b0ba..3a13fec 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -371,8 +371,9 @@ namespace detail {
       res = V3i(newRes.x, oldRes.y, oldRes.z);
     }
 
-    // Resize new field
+    // Resize new field. Voxels that receive no value are expected to be zero
     tgt.setSize(res);
+    tgt.clear(static_cast<typename Field_T::value_type>(0.0));
     
     // Determine granularity. The threads write to the target, so no two of them
     // may work on the same target block
-- 
2.43.0


From 6eec24e6b276e94194fb7401fc6a0404e33e9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 018/105] fix: mappings of MIP levels used the voxel size at
 time zero for every time sample

---
 src/MIPUtil.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/MIPUtil.cpp b/src/MIPUtil.cpp
index 886d6b8..05c5506 100644
--- a/src/MIPUtil.cpp
+++ b/src/MIPUtil.cpp
@@ -106,11 +106,9 @@ namespace detail {
         field_dynamic_cast<MatrixFieldMapping>(mapping)) {
       // Local space positions
       const V3d lsOrigin(0.0), lsX(1.0, 0.0, 0.0), lsY(0.0, 1.0, 0.0), 
-        lsZ(0.0, 0.0, 0.1);
-      // Find base voxel size
-      const V3f wsBaseVoxelSize = mfm->wsVoxelSize(0, 0, 0);
-      // Compute current levels' voxel size
-      const V3f wsVoxelSize = wsBaseVoxelSize * mult;
+        lsZ(0.0, 0.0, 1.0);
+      // Resolution of the base level
+      const V3d mappingRes = mfm->resolution();
       // Grab the matrices
       const MatrixCurve::SampleVec lsToWsSamples = mfm->localToWorldSamples();
       // New mapping to construct
@@ -123,18 +121,18 @@ namespace detail {
         mfm->localToWorld(lsX, wsX, sample.first);
         mfm->localToWorld(lsY, wsY, sample.first);
         mfm->localToWorld(lsZ, wsZ, sample.first);
-        // Normalize orientation vectors
-        wsX = (wsX - wsOrigin).normalized();
-        wsY = (wsY - wsOrigin).normalized();
-        wsZ = (wsZ - wsOrigin).normalized();
+        // Find the base voxel vectors at this time
+        wsX = (wsX - wsOrigin) / mappingRes.x;
+        wsY = (wsY - wsOrigin) / mappingRes.y;
+        wsZ = (wsZ - wsOrigin) / mappingRes.z;
         // Origin shift due to mip offset
-        wsOrigin += wsX * wsBaseVoxelSize.x * diff.x;
-        wsOrigin += wsY * wsBaseVoxelSize.y * diff.y;
-        wsOrigin += wsZ * wsBaseVoxelSize.z * diff.z;
+        wsOrigin += wsX * diff.x;
+        wsOrigin += wsY * diff.y;
+        wsOrigin += wsZ * diff.z;
         // Mult by voxel size
-        wsX *= wsVoxelSize.x * res.x;
-        wsY *= wsVoxelSize.y * res.y;
-        wsZ *= wsVoxelSize.z * res.z;
+        wsX *= mult * res.x;
+        wsY *= mult * res.y;
+        wsZ *= mult * res.z;
         // Construct new mapping
         M44d mtx = coordinateSystem(wsX, wsY, wsZ, wsOrigin);
         // Update mapping
-- 
2.43.0


From fb0596fc97299f3dc1cc3382d04d2a85218467d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 019/105] fix: MIP levels of fields with an offset did not
 always cover the field

---
 export/MIPUtil.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 3a13fec..375f1c6 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -432,15 +432,14 @@ namespace detail {
                   (offset.y % 2 == 0) ? 0 : 1,
                   (offset.z % 2 == 0) ? 0 : 1);
 
-    // Compute new res
-    const Box3i baseDw  = base.dataWindow();
-    const V3i   baseRes = baseDw.size() + V3i(1);
-    const V3i   newRes  = mipResolution(baseRes, level, add);
-
     // Source res
     const Box3i srcDw  = src.dataWindow();
     const V3i   srcRes = srcDw.size() + V3i(1);
 
+    // Compute new res. The pad of each previous level counts as well, so the base
+    // resolution is not enough to go by
+    const V3i   newRes = mipResolution(srcRes + add, 1, V3i(0));
+
     // Temporary field for y component
     Field_T tmp;
 
-- 
2.43.0


From 57adc5dfc46dba8f563707156e53397406e20f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 020/105] fix: MIP filtering of sparse fields skipped blocks
 that wide filters reach into

---
 export/MIPUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 375f1c6..3061550 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -138,7 +138,8 @@ namespace detail {
                        const Box3i &tgtBox, const float support,
                        const size_t dim)
   {
-    const int intSupport = static_cast<int>(std::ceil(support * 0.5));
+    // The support is in target space, just like the box
+    const int intSupport = static_cast<int>(std::ceil(support));
     const int pad        = std::max(0, intSupport);
     Box3i     tgtBoxPad  = tgtBox;
     tgtBoxPad.min[dim]  -= pad;
-- 
2.43.0


From 3722131e0f95f8877997b846dfd73993670111ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 021/105] fix: assigning a lazily loaded MIPField kept levels
 of the previous contents

---
 export/MIPField.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 51342f2..3871925 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -364,16 +364,17 @@ MIPField<Field_T>::init(const MIPField &rhs)
   m_fields.resize(rhs.m_fields.size());
   m_rawFields.resize(rhs.m_rawFields.size());
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
-    // Update the field pointer
+    // Update the field pointer. Levels that rhs hasn't loaded yet must not keep
+    // what this field held before
+    FieldPtr clone;
     if (rhs.m_fields[i]) {
       FieldBase::Ptr baseClone = rhs.m_fields[i]->clone();
-      FieldPtr clone = field_dynamic_cast<Field_T>(baseClone);
-      if (clone) {
-        m_fields[i] = clone;
-      } else {
+      clone = field_dynamic_cast<Field_T>(baseClone);
+      if (!clone) {
         std::cerr << "MIPField::op=(): Failed to clone." << std::endl;
       }
     }
+    m_fields[i] = clone;
     // Update the raw pointer
     m_rawFields[i] = m_fields[i].get();
   }
-- 
2.43.0


From 36ebd9d6d84e80820afd9de08e069ac92408dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 022/105] fix: MIPField made a level visible to other threads
 before its mapping was set

---
 export/MIPField.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 3871925..8503dea 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -698,8 +698,6 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
       }
       // Remove lazy load action
       m_loadActions[level].reset();
-      // Update aux data
-      updateAuxMembers();
       // Ensure metadata is up to date
       syncLevelInfo(level);
       // Update the mapping of the loaded field
@@ -708,6 +706,9 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
         detail::adjustedMIPFieldMapping(this, baseRes, 
                                         m_fields[level]->extents(), level);
       m_fields[level]->setMapping(mapping);
+      // Update aux data. This must come last, since other threads use the level
+      // without locking once its raw pointer is set
+      updateAuxMembers();
     }
   }
 }
-- 
2.43.0


From 16b23c9ce4f975635ffb0fe4e008524128cd50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 023/105] fix: setting the mapping of a MIPField without levels
 read past its level list

---
 export/MIPField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 8503dea..5c5ee22 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -554,7 +554,7 @@ void MIPField<Field_T>::mappingChanged()
   base::setMIPOffset(offset);
 
   V3i baseRes = base::dataWindow().size() + V3i(1);
-  if (m_fields[0]) {
+  if (!m_fields.empty() && m_fields[0]) {
     m_fields[0]->setMapping(base::mapping());
   }
   for (size_t i = 1; i < m_fields.size(); i++) {
-- 
2.43.0


From 6e7ae437fb9778e8b86a2aebd2cee8bf355d53ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 024/105] fix: adding an empty data element to an Ogawa group
 added it twice

---
 src/OGroup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index fbfebb1..1cc5eb9 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -105,7 +105,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iSize, const void * iData)
 
     if (iSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
@@ -151,7 +150,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iNumData,
 
     if (totalSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
-- 
2.43.0


From 670f8981caac73ebb98c5a8ad30d080ca18b1d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 025/105] fix: report a layer that could not be written to an
 Ogawa file

Writing a MACField to an Ogawa file stored nothing but returned true, and
writeLayer() and the MIP level writers ignored the result of the write.
---
 include/MIPFieldIO.h |  8 ++++++--
 src/Field3DFile.cpp  | 11 +++++++++--
 src/MACFieldIO.cpp   |  4 +++-
 src/MIPFieldIO.cpp   |  2 +-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 2777a49..787f248 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -458,7 +458,9 @@ bool MIPFieldIO::writeInternal(hid_t layerGroup,
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    if (!io->write(levelGroup, field->mipLevel(i))) {
+      return false;
+    }
 
   }
 
@@ -516,7 +518,9 @@ bool MIPFieldIO::writeInternal(OgOGroup &layerGroup,
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    if (!io->write(levelGroup, field->mipLevel(i))) {
+      return false;
+    }
 
   }
 
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6caced..a47c3ec 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1497,10 +1497,17 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   OgOGroup ogMetadata(ogLayer, "metadata");
 
   // Write metadata
-  writeMetadata(ogMetadata, field);
+  if (!writeMetadata(ogMetadata, field)) {
+    Msg::print(Msg::SevWarning, "Error writing metadata of layer \"" 
+               + layerName + "\"");
+    return false;
+  }
 
   // Write field data
-  writeField(ogLayer, field);
+  if (!writeField(ogLayer, field)) {
+    Msg::print(Msg::SevWarning, "Error writing layer \"" + layerName + "\"");
+    return false;
+  }
 
   // Add to partition
 
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index fd48105..2a4200c 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -206,7 +206,9 @@ MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 bool
 MACFieldIO::write(OgOGroup & /* layerGroup */ , FieldBase::Ptr /* field */)
 {
-  return true;
+  // Not supported. Don't report the field as written.
+  Msg::print(Msg::SevWarning, "MACField can't be written to Ogawa files.");
+  return false;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/MIPFieldIO.cpp b/src/MIPFieldIO.cpp
index a3fbd0e..cbf80c0 100644
--- a/src/MIPFieldIO.cpp
+++ b/src/MIPFieldIO.cpp
@@ -461,7 +461,7 @@ MIPFieldIO::write(OgOGroup &layerGroup, FieldBase::Ptr field)
                               "MIPField template parameter");
   }
 
-  return true;
+  return success;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 7ad915010c5ce9a0e9d4161ac255dc7f4bf3cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 026/105] fix: writing a single-voxel scalar DenseField to an
 HDF5 file failed

The chunk size was half the number of values, i.e. zero.
---
 src/DenseFieldIO.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index f178391..2e07f3d 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -390,7 +390,9 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  // ... or zero, which a single-voxel field would otherwise give.
+  const hsize_t chunkSize = 
+    std::max(std::min(preferredChunkSize, totalSize[0] / 2), hsize_t(1));
 
   Box3i ext(field->extents()), dw(field->dataWindow());
 
-- 
2.43.0


From 4d3fc416051c9e0dc11c9c90eb4e430da735235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 027/105] fix: frustum mappings read from Ogawa files lost
 their transforms

The number of time samples was never read from its attribute.
---
 src/FieldMappingIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index 5912074..f51a8f9 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -427,6 +427,7 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingNumSamples);
       return FieldMapping::Ptr();
     }
+    numSamples = numSamplesAttr.value();
   } catch (...) {
     //do nothing
   }
-- 
2.43.0


From ca775ea5ed4e5ea75ad06f7d2ea93fe2ca5e5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 028/105] fix: an HDF5 file refused a vector layer named like a
 scalar layer

Both are groups of the same partition, but only layers of the same kind were
moved to a partition of their own.
---
 export/Field3DFileHDF5.h | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 98c6e0b..a16207c 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1487,23 +1487,14 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     }
     
     // If the partition already existed, we need to make sure that the layer
-    // doesn't also exist
-    if (!isVectorLayer) {
-      if (part->scalarLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
-    } else {
-      if (part->vectorLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
+    // doesn't also exist. Scalar and vector layers share the same group, so
+    // their names can't be the same either.
+    if (part->scalarLayer(layerName) || part->vectorLayer(layerName)) {
+      //need to create a new partition and then add the layer to that
+      std::string newPartitionName = incrementPartitionName(partitionName);
+      part = createNewPartition<Data_T>(newPartitionName,layerName,field);
+      if (!part)
+        return false;
     }
   }
 
-- 
2.43.0


From 2e3382f24efd116061107459f807fbab02ba644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 029/105] fix: file objects used for a second file kept state
 of the first

An object that had an HDF5 file open kept using it after opening or creating
an Ogawa file, the numbering of partitions went on where the previous file had
stopped, so that layers were not found, and the metadata of a previously opened
file stayed.
---
 src/Field3DFile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index a47c3ec..814ba0d 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -713,7 +713,12 @@ Field3DInputFile::~Field3DInputFile()
 
 bool Field3DInputFile::open(const string &filename)
 {
+  // Let go of any previous file, which may have been of the other format
+  close();
+  m_hdf5.reset();
+  m_hdf5Base.reset();
   clear();
+  m_metadata = FieldMetadata(this);
 
   bool success = true;
 
@@ -976,6 +981,12 @@ Field3DOutputFile::~Field3DOutputFile()
 
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
+  // Let go of any previous file, which may have been of the other format
+  closeInternal();
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_partitionCount.clear();
+
   if (!ms_doOgawa) {
     m_hdf5.reset(new Field3DOutputFileHDF5);
     m_hdf5Base = m_hdf5;
@@ -983,8 +994,6 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return m_hdf5->create(filename, Field3DOutputFileHDF5::CreateMode(ccm));
   }
 
-  closeInternal();
-
   if (cm == FailOnExisting && fileExists(filename)) {
     return false;
   }
-- 
2.43.0


From 0f223ce012e18a6281dd88b0eb603f4c72609e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 030/105] fix: layers were written under names they could not
 be found by

---
 export/Field3DFileHDF5.h |  9 +++++++++
 src/Field3DFile.cpp      | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index a16207c..30a5896 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1467,6 +1467,15 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // Check that the layer can be found again. A slash separates groups.
+  if (layerName.empty() || layerName.find('/') != string::npos ||
+      userPartitionName.find('/') != string::npos) {
+    Msg::print(Msg::SevWarning, 
+               "Can't write a layer called \"" + layerName 
+               + "\" to partition \"" + userPartitionName + "\"");
+    return false;
+  }
+
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
   // See if the partition already exists or if we need to make it ---
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 814ba0d..7962332 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1435,6 +1435,17 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // Check that the layer can be found again. The mapping group lives next to
+  // the layers, and a slash separates groups.
+  if (layerName.empty() || layerName == k_mappingStr ||
+      layerName.find('/') != string::npos ||
+      userPartitionName.find('/') != string::npos) {
+    Msg::print(Msg::SevWarning, 
+               "Can't write a layer called \"" + layerName 
+               + "\" to partition \"" + userPartitionName + "\"");
+    return false;
+  }
+
   // Get the partition name
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
-- 
2.43.0


From 6dbf92648741d3c81b56ac970ceffcdf6c985f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 031/105] fix: const_iterator on a dynamically read SparseField
 ignored the data window offset

---
 export/SparseField.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 11771c4..cc30f18 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -962,8 +962,9 @@ class SparseField<Data_T>::const_iterator
       m_manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return *m_p;
@@ -975,8 +976,9 @@ class SparseField<Data_T>::const_iterator
       manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return m_p;
-- 
2.43.0


From 22782a6c4432be65c552d5cc369b9ac4788daae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 032/105] fix: copies of a SparseField::const_iterator shared
 one block reference

---
 export/SparseField.h | 55 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index cc30f18..1183c26 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -906,11 +906,51 @@ class SparseField<Data_T>::const_iterator
     m_manager = m_field->m_fileManager;
     setupNextBlock(x, y, z);
   }
-  ~const_iterator() {
-    if (m_manager && m_blockId >= 0 &&
-        m_blockId < static_cast<int>(m_field->m_numBlocks)) {
-      if (m_field->m_blocks[m_blockId].isAllocated)
+  const_iterator(const const_iterator &o)
+    : x(o.x), y(o.y), z(o.z),
+      m_p(o.m_p), m_isEmptyBlock(o.m_isEmptyBlock), 
+      m_blockIsActivated(o.m_blockIsActivated),
+      m_blockStepsTicker(o.m_blockStepsTicker), m_blockOrder(o.m_blockOrder),
+      m_blockI(o.m_blockI), m_blockJ(o.m_blockJ), m_blockK(o.m_blockK),
+      m_blockId(o.m_blockId), m_window(o.m_window), m_field(o.m_field),
+      m_manager(o.m_manager)
+  {
+    // Each iterator holds its own reference to the block
+    if (holdsBlockRef()) {
+      m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+    }
+  }
+  const_iterator& operator = (const const_iterator &o)
+  {
+    if (this != &o) {
+      if (o.holdsBlockRef()) {
+        o.m_manager->template incBlockRef<Data_T>(o.m_field->m_fileId,
+                                                    o.m_blockId);
+      }
+      if (holdsBlockRef()) {
         m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+      }
+      x = o.x;
+      y = o.y;
+      z = o.z;
+      m_p = o.m_p;
+      m_isEmptyBlock = o.m_isEmptyBlock;
+      m_blockIsActivated = o.m_blockIsActivated;
+      m_blockStepsTicker = o.m_blockStepsTicker;
+      m_blockOrder = o.m_blockOrder;
+      m_blockI = o.m_blockI;
+      m_blockJ = o.m_blockJ;
+      m_blockK = o.m_blockK;
+      m_blockId = o.m_blockId;
+      m_window = o.m_window;
+      m_field = o.m_field;
+      m_manager = o.m_manager;
+    }
+    return *this;
+  }
+  ~const_iterator() {
+    if (holdsBlockRef()) {
+      m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
     }
   }
   const const_iterator& operator ++ ()
@@ -997,6 +1037,13 @@ private:
 
   // Convenience methods -------------------------------------------------------
 
+  //! Whether we hold a reference to a dynamically loaded block
+  bool holdsBlockRef() const
+  {
+    return m_manager && m_blockId >= 0 &&
+      m_blockId < static_cast<int>(m_field->m_numBlocks) &&
+      m_field->m_blocks[m_blockId].isAllocated;
+  }
   void setupNextBlock(int i, int j, int k)
   {
     m_field->applyDataWindowOffset(i, j, k);
-- 
2.43.0


From b14c40637a0db48c865d3ba8e91b2de0caf31a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 033/105] fix: replacing the blocks of a dynamically read
 SparseField left the cache pointing at them

---
 export/SparseField.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 1183c26..75945e7 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -642,6 +642,10 @@ private:
   //! without copying data, used when copying a dynamically read field
   void copyBlockStates(const SparseField<Data_T> &o);
 
+  //! Releases the Reference of a dynamically read field, whose blocks are 
+  //! about to be replaced
+  void removeReference();
+
 };
 
 //----------------------------------------------------------------------------//
@@ -1338,7 +1342,8 @@ SparseField<Data_T>::SparseField()
   : base(),
     m_blockOrder(BLOCK_ORDER),
     m_blocks(NULL),
-    m_fileManager(NULL)
+    m_fileManager(NULL),
+    m_fileId(-1)
 {
   setupBlocks();
 }
@@ -1350,7 +1355,8 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
  : base(o),
    m_blockOrder(o.m_blockOrder),
    m_blocks(NULL),
-   m_fileManager(o.m_fileManager)
+   m_fileManager(NULL),
+   m_fileId(-1)
 {
   copySparseField(o);
 }
@@ -1360,12 +1366,7 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
 template <class Data_T>
 SparseField<Data_T>::~SparseField()
 {
-  if (m_fileManager) {
-    // this file is dynamically managed, so we need to ensure the
-    // cache doesn't point to this field's blocks because they are
-    // about to be deleted
-    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
-  }
+  removeReference();
   if (m_blocks) {
     delete[] m_blocks;
   }
@@ -1405,6 +1406,7 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
     setupReferenceBlocks();
   } else {
     // directly copy all values and blocks from the source, no extra setup
+    removeReference();
     m_blockRes = o.m_blockRes;
     m_blockXYSize = o.m_blockXYSize;
     if (m_blocks) {
@@ -1418,8 +1420,6 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
       m_blocks[i].copy(o.m_blocks[i],
                        1 << m_blockOrder << m_blockOrder << m_blockOrder);
     }
-    m_fileId = -1;
-    m_fileManager = NULL;
   }
 }
 
@@ -1445,6 +1445,21 @@ void SparseField<Data_T>::addReference(const std::string &filename,
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void SparseField<Data_T>::removeReference()
+{
+  if (m_fileManager) {
+    // this file is dynamically managed, so we need to ensure the
+    // cache doesn't point to this field's blocks because they are
+    // about to be deleted
+    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
+    m_fileManager = NULL;
+    m_fileId = -1;
+  }
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void SparseField<Data_T>::copyBlockStates(const SparseField<Data_T> &o)
 {
@@ -1918,6 +1933,7 @@ void SparseField<Data_T>::setupBlocks()
                          static_cast<int>(blockRes.z));
   m_blockRes = intBlockRes;
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
+  removeReference();
   if (m_blocks) {
     delete[] m_blocks;
   }
-- 
2.43.0


From 964a883be52646f3a33c7a9571b5966c59231ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 034/105] fix: a copy of a dynamically read SparseField with
 blocks replaced read the wrong blocks

---
 export/SparseField.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index 75945e7..c56d3b1 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1404,6 +1404,10 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
                  oldReference->occupiedBlocks);
     copyBlockStates(o);
     setupReferenceBlocks();
+    // The source may have lost blocks since it was read, so don't number its 
+    // blocks anew
+    m_fileManager->reference<Data_T>(m_fileId)->fileBlockIndices =
+      oldReference->fileBlockIndices;
   } else {
     // directly copy all values and blocks from the source, no extra setup
     removeReference();
-- 
2.43.0


From 895e37aaa5c98bc675cabcc491a7848e2f646a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 035/105] fix: files read dynamically stayed open after their
 fields were gone

---
 export/Hdf5Util.h   |  9 +++++++--
 export/SparseFile.h | 24 ++++++++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 9226f36..8ae0f20 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -217,12 +217,17 @@ public:
     GlobalLock lock(g_hdf5Mutex);
     m_id = H5Gopen(parentLocation, name.c_str(), gapl_id);
   }
-
-  ~H5ScopedGopen()
+  void close()
   {
     GlobalLock lock(g_hdf5Mutex);
     if (m_id >= 0)
       H5Gclose(m_id);
+    m_id = -1;
+  }
+
+  ~H5ScopedGopen()
+  {
+    close();
   }
 };
 
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 44f0b68..2c3329e 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -573,10 +573,6 @@ Reference<Data_T>::~Reference()
 {
   closeFile();
 
-  if (m_reader) {
-    delete m_reader;
-  }
-
   if (blockMutex)
     delete [] blockMutex;
 }
@@ -709,11 +705,28 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
 template <class Data_T>
 void Reference<Data_T>::closeFile()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
+  // HDF5
+  if (m_reader) {
+    delete m_reader;
+    m_reader = NULL;
+  }
   if (m_fileHandle >= 0) {
+    GlobalLock hdf5Lock(g_hdf5Mutex);
+    m_layerGroup.close();
     if (H5Fclose(m_fileHandle) < 0) {
       Msg::print("In ~Reference(): Error closing file " + filename);
     }
+    m_fileHandle = -1;
   }
+
+  // Ogawa
+  m_ogReader = NULL;
+  m_ogReaderPtr.reset();
+  m_ogLayerGroup.reset();
+  m_ogRoot.reset();
+  m_ogArchive.reset();
 }
 
 //----------------------------------------------------------------------------//
@@ -1239,6 +1252,9 @@ SparseFileManager::removeFieldFromCache(int refIdx)
   std::vector<int>().swap(reference->refCounts);
   delete[] reference->blockMutex;
   reference->blockMutex = NULL;
+
+  // Nothing will be loaded through this reference any more
+  reference->closeFile();
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 98726004c300e75b7095d43a70a55a40b2b0b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 036/105] fix: dynamic reads of an Ogawa file opened it again
 for each block

---
 export/SparseFile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 2c3329e..9e09786 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -664,7 +664,7 @@ Reference<Data_T>::create(const std::string a_filename,
 template <class Data_T>
 bool Reference<Data_T>::fileIsOpen()
 {
-  return m_fileHandle >= 0;
+  return m_reader || m_ogReader;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 57fff8cf5812628119e02f3a228ee17c135e1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 037/105] fix: reading a block hung when all blocks in the
 cache were referenced

---
 src/SparseFile.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 4110a0e..f73f46d 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -161,9 +161,17 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
   boost::mutex::scoped_lock lock_A(m_mutex);
 
+  // Number of blocks in a row that couldn't be freed. The first turn of the 
+  // "clock" may only reset the blocks' used flags, but if the second one also
+  // passes then all blocks are referenced.
+  size_t numSkipped = 0;
+
   while (m_blockCacheList.begin() != m_blockCacheList.end() &&
          m_maxMemUseInBytes-m_memUse < bytesNeeded) {
 
+    if (numSkipped > 2 * m_blockCacheList.size())
+      break;
+
     if (m_nextBlock == m_blockCacheList.end())
       m_nextBlock = m_blockCacheList.begin();
 
@@ -177,36 +185,42 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     case DataTypeHalf:
       bytesFreed = deallocateBlock<half>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeFloat:
       bytesFreed = deallocateBlock<float>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeDouble:
       bytesFreed = deallocateBlock<double>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecHalf:
       bytesFreed = deallocateBlock<V3h>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecFloat:
       bytesFreed = deallocateBlock<V3f>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecDouble:
       bytesFreed = deallocateBlock<V3d>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
@@ -215,6 +229,7 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
       break;
     }
     ++m_nextBlock;
+    ++numSkipped;
   }
 }
 
-- 
2.43.0


From 372600fe6770723556108a8f9aef6646a57a863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 038/105] fix: flushing the cache freed blocks that were
 referenced

---
 src/SparseFile.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index f73f46d..bff6a49 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -149,6 +149,20 @@ void SparseFileManager::deallocateBlock(CacheList::iterator &it)
 {
   SparseFile::CacheBlock &cb = *it;
   SparseFile::Reference<Data_T> *reference = m_fileData.ref<Data_T>(cb.refIdx);
+
+#if F3D_SHORT_MUTEX_ARRAY
+  boost::mutex::scoped_lock 
+    lock_B(reference->blockMutex[cb.blockIdx % reference->blockMutexSize]);
+#else
+  boost::mutex::scoped_lock lock_B(reference->blockMutex[cb.blockIdx]);
+#endif
+
+  // check whether the block is still in use
+  if (reference->refCounts[cb.blockIdx] > 0) {
+    ++it;
+    return;
+  }
+
   int64_t bytesFreed = reference->blockSize(cb.blockIdx);
   m_memUse -= bytesFreed;
   reference->unloadBlock(cb.blockIdx);
-- 
2.43.0


From 267af237373211a17c38ca95009869b47b94de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 039/105] fix: a dynamically read SparseField could not be
 written to a file

---
 export/SparseFile.h   |  7 ++++++-
 src/SparseFieldIO.cpp | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 9e09786..7ff4535 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -705,6 +705,7 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
 template <class Data_T>
 void Reference<Data_T>::closeFile()
 {
+  GlobalLock hdf5Lock(g_hdf5Mutex);
   boost::mutex::scoped_lock lock(m_mutex);
 
   // HDF5
@@ -713,7 +714,6 @@ void Reference<Data_T>::closeFile()
     m_reader = NULL;
   }
   if (m_fileHandle >= 0) {
-    GlobalLock hdf5Lock(g_hdf5Mutex);
     m_layerGroup.close();
     if (H5Fclose(m_fileHandle) < 0) {
       Msg::print("In ~Reference(): Error closing file " + filename);
@@ -1211,6 +1211,8 @@ template <class Data_T>
 void
 SparseFileManager::removeFieldFromCache(int refIdx)
 {
+  // Same order as in activateBlock()
+  GlobalLock hdf5Lock(g_hdf5Mutex);
   boost::mutex::scoped_lock lock(m_mutex);
 
   DataTypeEnum blockType = DataTypeTraits<Data_T>::typeEnum();
@@ -1276,6 +1278,9 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
 
   if (reference->fileBlockIndices[blockIdx] >= 0) {
     if (!reference->blockLoaded[blockIdx]) {
+      // The block may come from an HDF5 file. The caller may also be writing 
+      // one, so this lock must be the first we get.
+      GlobalLock hdf5Lock(g_hdf5Mutex);
       int blockSize = reference->blockSize(blockIdx);
       if (m_limitMemUse) {
         // if we already have enough free memory, deallocateBlocks()
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 44f266b..1004303 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -74,6 +74,32 @@ namespace {
 
 //----------------------------------------------------------------------------//
 
+//! Keeps the data of a block in memory, also if the field is dynamically read
+template <typename Data_T>
+class ScopedBlockRef : boost::noncopyable
+{
+public:
+  ScopedBlockRef(const SparseField<Data_T> &field, const int blockId)
+    : m_field(field), m_blockId(blockId)
+  {
+    if (m_field.isDynamicLoad()) {
+      m_field.incBlockRef(m_blockId);
+      m_field.activateBlock(m_blockId);
+    }
+  }
+  ~ScopedBlockRef()
+  {
+    if (m_field.isDynamicLoad()) {
+      m_field.decBlockRef(m_blockId);
+    }
+  }
+private:
+  const SparseField<Data_T> &m_field;
+  const int m_blockId;
+};
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 struct ReadThreadingState
 {
@@ -165,11 +191,13 @@ template <typename Data_T>
 struct ThreadingState
 {
   ThreadingState(OgOCDataset<Data_T> &i_data, 
+                 const SparseField<Data_T> &i_field,
                  Sparse::SparseBlock<Data_T> *i_blocks, 
                  const size_t i_numVoxels, 
                  const size_t i_numBlocks,
                  const std::vector<uint8_t> &i_isAllocated)
     : data(i_data),
+      field(i_field),
       blocks(i_blocks),
       numVoxels(i_numVoxels), 
       numBlocks(i_numBlocks),
@@ -191,6 +219,7 @@ struct ThreadingState
   }
   // Data members
   OgOCDataset<Data_T> &data;
+  const SparseField<Data_T> &field;
   Sparse::SparseBlock<Data_T> *blocks;
   const size_t numVoxels;
   const size_t numBlocks;
@@ -234,6 +263,7 @@ public:
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
         // Block data as bytes
+        ScopedBlockRef<Data_T> blockRef(m_state.field, blockIdx);
         const uint8_t *srcData = 
           reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
         // Length of compressed data is stored here
@@ -1018,6 +1048,7 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
             "Couldn't select slab " + 
             boost::lexical_cast<std::string>(nextBlockIdx));
         }
+        ScopedBlockRef<Data_T> blockRef(*field, i);
         Data_T *data = field->m_blocks[i].data;
         status = H5Dwrite(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                           memDataSpace.id(), 
@@ -1113,7 +1144,7 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
   // Write data if there is any
   if (occupiedBlocks > 0) {
     // Threading state
-    ThreadingState<Data_T> state(data, blocks, numVoxels, numBlocks, 
+    ThreadingState<Data_T> state(data, *field, blocks, numVoxels, numBlocks, 
                                  isAllocated);
     // Number of threads
     const size_t numThreads = numIOThreads();
-- 
2.43.0


From b23b2f82497987cc98b1db2d67a3858b8076c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 040/105] fix: SparseField::releaseBlocks() read blocks that
 were not loaded

---
 export/SparseField.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index c56d3b1..df9515f 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1652,10 +1652,18 @@ int SparseField<Data_T>::releaseBlocks(Functor_T func)
     }
 
     if (m_blocks[i].isAllocated) {
+      // Ensure block data is active and kept alive
+      if (m_fileManager) {
+        incBlockRef(i);
+        activateBlock(i);
+      }
       if (func.check(m_blocks[i], emptyValue, validSize, blockAllocSize)) {
         deallocBlock(m_blocks[i], emptyValue);
         numDeallocs++;
       }
+      if (m_fileManager) {
+        decBlockRef(i);
+      }
     }
   }
   return numDeallocs;
-- 
2.43.0


From 4459e2668cb4610606b99fdac868ba0fcdb5a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 041/105] fix: looking up a dynamically read file raced with
 adding another

---
 export/SparseFile.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 7ff4535..f542395 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -270,8 +270,8 @@ public:
 
      FileReferences uses a std::deque to store the References, which means
      that already-added references 'stay put' in memory, even as more elements
-     are added. For threading purposes, we only need to lock during append()
-     and numRefs(), but ref() is safe, since we never remove references.
+     are added. The deque's index of its elements does not, though, so ref()
+     needs to lock as well as append() and numRefs().
 
    */
 
@@ -936,6 +936,7 @@ template <>
 inline Reference<half>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
 #if USE_SHPTR
   return m_hRefs[idx].get();
 #else
@@ -949,6 +950,7 @@ template <>
 inline Reference<V3h>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
 #if USE_SHPTR
   return m_vhRefs[idx].get();
 #else
@@ -962,6 +964,7 @@ template <>
 inline Reference<float>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
 #if USE_SHPTR
   return m_fRefs[idx].get();
 #else
@@ -975,6 +978,7 @@ template <>
 inline Reference<V3f>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
 #if USE_SHPTR
   return m_vfRefs[idx].get();
 #else
@@ -988,6 +992,7 @@ template <>
 inline Reference<double>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
 #if USE_SHPTR
   return m_dRefs[idx].get();
 #else
@@ -1001,6 +1006,7 @@ template <>
 inline Reference<V3d>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
 #if USE_SHPTR
   return m_vdRefs[idx].get();
 #else
-- 
2.43.0


From 2e8be2d72caa5cc6504b1f3dce9cacac9c3a6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 042/105] fix: threads dropping the last references to an
 object deleted it twice

---
 export/RefCount.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index 9dcf81a..f4f9b39 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -156,12 +156,15 @@ public:
   }
 
   //! Used by boost::intrusive_pointer
-  void unref() const
+  //! \returns The number of references left. Only the caller that gets zero
+  //! may delete the object. (Looking at refcnt() afterwards is too late; 
+  //! several threads could see it reach zero.)
+  long unref() const
   {
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    --m_counter; 
+    return --m_counter; 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
   }
@@ -238,9 +241,7 @@ intrusive_ptr_add_ref(RefBase* r)
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  r->unref();
-
-  if (r->refcnt() == 0)
+  if (r->unref() == 0)
     delete r;
 }
 
-- 
2.43.0


From 85152605380f25f82b3e5d0080b085d2dd1b456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 043/105] fix: the cache returned fields another thread was
 deleting

---
 export/FieldCache.h | 29 +++++++++++++++++++----------
 export/RefCount.h   | 45 ++++++++++++++++++++++++++++++++++++++-------
 src/FieldCache.cpp  | 11 +++++++++++
 3 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/export/FieldCache.h b/export/FieldCache.h
index cecfd72..11f4849 100644
--- a/export/FieldCache.h
+++ b/export/FieldCache.h
@@ -111,6 +111,16 @@ private:
 
   // Utility functions --------------------------------------------------------
 
+  //! Returns a pointer to the field of a cache entry, or null if the field is
+  //! no longer in memory.
+  static FieldPtr lockEntry(const CacheEntry &entry)
+  {
+    if (!RefBase::refIfAlive(entry.first, entry.second)) {
+      return FieldPtr();
+    }
+    // We already have the reference
+    return FieldPtr(entry.second, false);
+  }
   //! Constructs the cache key for a given file and layer path.
   std::string key(const std::string &filename,
                   const std::string &layerPath);
@@ -156,11 +166,7 @@ FieldCache<Data_T>::getCachedField(const std::string &filename,
   }
   // Next, check if all weak_ptrs are valid
   CacheEntry &entry = i->second;
-  WeakPtr weakPtr = entry.first;
-  if (weakPtr.expired()) {
-    return FieldPtr();
-  }
-  return FieldPtr(entry.second);
+  return lockEntry(entry);
 }
 
 //----------------------------------------------------------------------------//
@@ -179,18 +185,21 @@ void FieldCache<Data_T>::cacheField(FieldPtr field, const std::string &filename,
 template <typename Data_T>
 long long int FieldCache<Data_T>::memSize() const
 {
+  // Declared before the lock, so that if these turn out to be the last 
+  // references, the fields are deleted after the lock is released.
+  std::vector<FieldPtr> fields;
+
   boost::mutex::scoped_lock lock(ms_accessMutex);
 
   long long int memSize = 0;
 
   BOOST_FOREACH (const typename Cache::value_type &i, m_cache) {
     // Check if pointer is valid
-    WeakPtr weakPtr = i.second.first;
-    if (weakPtr.expired()) {
-      continue;
-    } else {
+    FieldPtr field = lockEntry(i.second);
+    if (field) {
       // If valid, accumulate memory
-      memSize += i.second.second->memSize();
+      memSize += field->memSize();
+      fields.push_back(field);
     }
   }
 
diff --git a/export/RefCount.h b/export/RefCount.h
index f4f9b39..60591db 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -54,9 +54,8 @@
 
 #ifdef FIELD3D_USE_ATOMIC_COUNT
 #include <boost/detail/atomic_count.hpp>
-#else
-#include <boost/thread/mutex.hpp>
 #endif
+#include <boost/thread/mutex.hpp>
 
 #include <string.h>
 #include "Traits.h"
@@ -147,12 +146,13 @@ public:
   { return m_counter; }
     
   //! Used by boost::intrusive_pointer
-  void ref() const
+  //! \returns The new number of references.
+  long ref() const
   { 
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    ++m_counter; 
+    return ++m_counter; 
   }
 
   //! Used by boost::intrusive_pointer
@@ -174,6 +174,33 @@ public:
   WeakPtr weakPtr() const
   { return m_sharedPtr; }
 
+  //! Expires the object's weak pointers. Called once the last reference is 
+  //! gone, before the object is deleted.
+  void expire()
+  {
+    boost::mutex::scoped_lock lock(cacheMutex());
+    m_sharedPtr.reset();
+  }
+
+  //! Adds a reference to an object that no reference is known to exist for, 
+  //! given the weak pointer to it.
+  //! \returns Whether a reference was added. If not, the object is gone, or 
+  //! about to be.
+  static bool refIfAlive(const WeakPtr &weakPtr, const RefBase *r)
+  {
+    boost::mutex::scoped_lock lock(cacheMutex());
+    if (weakPtr.expired()) {
+      return false;
+    }
+    if (r->ref() == 1) {
+      // The last reference was just dropped by someone who is now waiting to
+      // expire the weak pointers.
+      r->unref();
+      return false;
+    }
+    return true;
+  }
+
   // RTTI replacement ----------------------------------------------------------
 
   /*! \note A note on why the RTTI replacement is needed:
@@ -209,6 +236,9 @@ public:
 
 private:
 
+  //! Mutex to keep an object alive while the FieldCache adds a reference to it.
+  static boost::mutex& cacheMutex();
+
   //! For boost intrusive pointer
 #ifdef FIELD3D_USE_ATOMIC_COUNT
   mutable boost::detail::atomic_count m_counter;
@@ -236,13 +266,14 @@ intrusive_ptr_add_ref(RefBase* r)
 
 //----------------------------------------------------------------------------//
 
-//! \todo Communicate with the FieldCache to prevent any cache updates from
-//! happening while this releases its count.
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  if (r->unref() == 0)
+  if (r->unref() == 0) {
+    // Once this returns, the FieldCache won't hand out the object anymore.
+    r->expire();
     delete r;
+  }
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/FieldCache.cpp b/src/FieldCache.cpp
index a479e09..27cf882 100644
--- a/src/FieldCache.cpp
+++ b/src/FieldCache.cpp
@@ -49,6 +49,17 @@
 
 FIELD3D_NAMESPACE_OPEN
 
+//----------------------------------------------------------------------------//
+// RefBase
+//----------------------------------------------------------------------------//
+
+boost::mutex& RefBase::cacheMutex()
+{
+  // Never destroyed, because objects may be released at any time during exit
+  static boost::mutex *mutex = new boost::mutex;
+  return *mutex;
+}
+
 //----------------------------------------------------------------------------//
 // FieldCache static member instantiation
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 46a75ee2a87ce6cc2edbf15d1574699ebd89d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 044/105] fix: with zero I/O threads, sparse data were neither
 read nor written

---
 export/InitIO.h | 1 +
 src/InitIO.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/export/InitIO.h b/export/InitIO.h
index f274838..71b85ec 100644
--- a/export/InitIO.h
+++ b/export/InitIO.h
@@ -64,6 +64,7 @@ FIELD3D_API void initIO();
 //----------------------------------------------------------------------------//
 
 //! Sets the number of threads to use for I/O multi-threading
+//! \note There is always at least one thread, so zero means one.
 FIELD3D_API void setNumIOThreads(const size_t numThreads);
 
 //----------------------------------------------------------------------------//
diff --git a/src/InitIO.cpp b/src/InitIO.cpp
index 032a7db..0d82725 100644
--- a/src/InitIO.cpp
+++ b/src/InitIO.cpp
@@ -84,7 +84,8 @@ void initIO()
 
 void setNumIOThreads(const size_t numThreads)
 {
-  g_numIOThreads = numThreads;
+  // Without any threads, the data would be neither read nor written
+  g_numIOThreads = numThreads > 0 ? numThreads : 1;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 6178e7f2b1d1292354a2a556744201a1894ecfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 045/105] fix: threads writing a SparseField could skip a block
 and wait forever

---
 src/SparseFieldIO.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 1004303..03270f3 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -217,6 +217,18 @@ struct ThreadingState
     nextBlockToCompress = numBlocks;
     nextBlockToWrite = numBlocks;
   }
+  //! Whether it is the given block's turn to be written
+  bool isNextToWrite(const size_t blockIdx)
+  {
+    boost::mutex::scoped_lock lock(writeMutex);
+    return nextBlockToWrite == blockIdx;
+  }
+  //! Sets the block whose turn it is to be written
+  void setNextToWrite(const size_t blockIdx)
+  {
+    boost::mutex::scoped_lock lock(writeMutex);
+    nextBlockToWrite = blockIdx;
+  }
   // Data members
   OgOCDataset<Data_T> &data;
   const SparseField<Data_T> &field;
@@ -228,6 +240,7 @@ struct ThreadingState
   size_t nextBlockToWrite;
   // Mutexes
   boost::mutex compressMutex;
+  boost::mutex writeMutex;
 };
 
 //----------------------------------------------------------------------------//
@@ -284,21 +297,19 @@ public:
           return;
         }
         // Wait to write data
-        while (m_state.nextBlockToWrite != blockIdx) {
+        while (!m_state.isNextToWrite(blockIdx)) {
           // Spin
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
         // Do the writing
         m_state.data.addData(cmpLen, &m_cache[0]);
-        // Let next block write
-        m_state.nextBlockToWrite++;
-        while (m_state.nextBlockToWrite < m_state.numBlocks){
-          // Increment to next
-          if (m_state.blocks[m_state.nextBlockToWrite].isAllocated) {
-            break;
-          }
-          m_state.nextBlockToWrite++;
+        // Let next block write. The next thread goes ahead as soon as it sees 
+        // its block, so we have to be done with the search when we set this.
+        size_t next = blockIdx + 1;
+        while (next < m_state.numBlocks && !m_state.blocks[next].isAllocated) {
+          next++;
         }
+        m_state.setNextToWrite(next);
       }
       // Get next block idx
       {
-- 
2.43.0


From 858c7d95fed56a5f88e93b1cf0bf65bc671f763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 046/105] fix: file sequences without a start or end made up
 frames, and large frames never ended

---
 src/FileSequence.cpp | 52 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/FileSequence.cpp b/src/FileSequence.cpp
index d5ca07c..35d8159 100644
--- a/src/FileSequence.cpp
+++ b/src/FileSequence.cpp
@@ -45,8 +45,10 @@
 #include "FileSequence.h"
 
 // System includes
+#include <cerrno>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 
 // Library includes
 #include "Log.h"
@@ -94,6 +96,15 @@ FileSequence::FileSequence(const std::string &sequence)
     return;
   }
 
+  // The mark needs at least a range, with a dash in it, in front of it
+  if (seqMarkIdx < 2) {
+    std::stringstream warning;
+    warning << "Sequence mark but no sequence range in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
+
   // Get the end range index
   size_t seqEndIdx = sequence.find_last_not_of(k_numbers, seqMarkIdx - 1);
   if (seqEndIdx == npos) {
@@ -122,6 +133,15 @@ FileSequence::FileSequence(const std::string &sequence)
     return;     
   }
 
+  // Make sure there is something in front of the '-', and a number behind it
+  if (seqEndIdx < 2 || seqEndIdx == seqMarkIdx) {
+    std::stringstream warning;
+    warning << "Incomplete sequence range in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
+
   // Get the start range index
   size_t seqStartIdx = sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
   if (seqStartIdx == npos) {
@@ -133,21 +153,39 @@ FileSequence::FileSequence(const std::string &sequence)
   } else {
     seqStartIdx += 1;
   }
+  if (seqStartIdx == seqEndIdx - 1) {
+    std::stringstream warning;
+    warning << "No sequence start in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
     
   // String versions of frame numbers
-  const std::string startStr = sequence.substr(seqStartIdx, seqEndIdx - 1);
-  const std::string endStr   = sequence.substr(seqEndIdx, seqMarkIdx);
-
-  // Get the integers
-  const int start = atoi(startStr.c_str());
-  const int end   = atoi(endStr.c_str());
+  const std::string startStr = 
+    sequence.substr(seqStartIdx, seqEndIdx - 1 - seqStartIdx);
+  const std::string endStr   = 
+    sequence.substr(seqEndIdx, seqMarkIdx - seqEndIdx);
+
+  // Get the integers. The strings are digits only
+  errno = 0;
+  const long start = strtol(startStr.c_str(), NULL, 10);
+  const long end   = strtol(endStr.c_str(), NULL, 10);
+  const long max   = std::numeric_limits<int>::max();
+  if (errno != 0 || start > max || end > max) {
+    std::stringstream warning;
+    warning << "Frame number too large in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
 
   // Create the file basename for replacement
   const std::string baseStart = sequence.substr(0, seqStartIdx);
   const std::string baseEnd   = sequence.substr(seqMarkIdx + 1);
 
   // Create the filenames
-  for (int i = start; i <= end; ++i) {
+  for (long i = start; i <= end; ++i) {
     std::stringstream filename;
     filename << baseStart << i << baseEnd;
     m_filenames.push_back(filename.str());
-- 
2.43.0


From 022e32fbf70cd4582cf8fa208900dcd93ef204e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 047/105] fix: FieldGroup::intersects(), sampleMultiple() and
 sampleMIPMultiple() did not compile

---
 export/FieldGroup.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 6266d18..5bb7c32 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -765,9 +765,9 @@ FieldGroup<BaseTypeList_T, Dims_T>::sampleMultiple(const size_t n,
                                                    const float *wsP,
                                                    float *result) const
 {
-  size_t numHits = 0;
+  std::vector<size_t> numHits(n, 0);
 
-  SampleMultiple op(n, wsP, result, numHits);
+  SampleMultiple op(n, wsP, result, numHits.empty() ? NULL : &numHits[0]);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
 }
@@ -797,9 +797,10 @@ FieldGroup<BaseTypeList_T, Dims_T>::sampleMIPMultiple(const size_t n,
                                                       const float *wsSpotSize, 
                                                       float *result) const
 {
-  size_t numHits = 0;
+  std::vector<size_t> numHits(n, 0);
 
-  SampleMIPMultiple op(n, wsP, wsSpotSize, result, numHits);
+  SampleMIPMultiple op(n, wsP, wsSpotSize, result, 
+                       numHits.empty() ? NULL : &numHits[0]);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
 }
@@ -1413,7 +1414,7 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MemSize
   }
   //! Result
   long long int result() const
-  { return m_memSize; }
+  { return *m_memSize; }
   // Data members
   long long int *m_memSize;
 };
@@ -1455,8 +1456,8 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
   { return m_doesIntersect; }
 private:
   // Data members
-  V3d  m_wsP;
-  bool m_doesIntersect;
+  V3d          m_wsP;
+  mutable bool m_doesIntersect;
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From e5507b436921cd20318883efdbdda9ae60cc52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 048/105] fix: FieldGroup::fields() forgot the fields of
 earlier setups

---
 export/FieldGroup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 5bb7c32..752f3dc 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -564,7 +564,7 @@ FieldGroup<BaseTypeList_T, Dims_T>::setup
  const Field3D::FieldRes::Vec &maxFields)
 {
   // Record fields in m_allFields
-  m_allFields = fields;
+  m_allFields.insert(m_allFields.end(), fields.begin(), fields.end());
 
   // Pick out primary fields
   for (size_t i = 0, end = fields.size(); i < end; ++i) {
-- 
2.43.0


From cb687a5f89c580a1a6df1e2c406d56b3f6cf1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 049/105] fix: MIPFieldWrapper left its bounds optimization
 flag uninitialized

---
 export/FieldWrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export/FieldWrapper.h b/export/FieldWrapper.h
index b54c2b8..8be2423 100644
--- a/export/FieldWrapper.h
+++ b/export/FieldWrapper.h
@@ -168,6 +168,7 @@ struct MIPFieldWrapper
       vsBounds(continuousBounds(f->dataWindow())),
       worldScale(1.0), 
       doOsToWs(false),
+      doWsBoundsOptimization(false),
       valueRemapOp(NULL)
   { 
     interp = interpPtr.get();
-- 
2.43.0


From 8b825f5277fcf4e409aab56179cad31e31ab10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 050/105] fix: a FieldGroup always had size 0, intersected
 nothing and ignored its min/max fields

---
 export/FieldGroup.h | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 752f3dc..7cd2a49 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -602,12 +602,13 @@ FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
     fusion::for_each(m_mipSparseMax, op);
   }
   // Check if we have pre-filtered fields
-  CountFields countMinOp, countMaxOp;
+  size_t countMin = 0, countMax = 0;
+  CountFields countMinOp(countMin), countMaxOp(countMax);
   fusion::for_each(m_mipDenseMin, countMinOp);
   fusion::for_each(m_mipDenseMax, countMaxOp);
   fusion::for_each(m_mipSparseMin, countMinOp);
   fusion::for_each(m_mipSparseMax, countMaxOp);
-  if (countMinOp.count > 0 && countMaxOp.count > 0) {
+  if (countMin > 0 && countMax > 0) {
     m_hasPrefiltMinMax = true;
   }
 }
@@ -688,12 +689,13 @@ template <typename BaseTypeList_T, int Dims_T>
 size_t 
 FieldGroup<BaseTypeList_T, Dims_T>::size() const
 {
-  CountFields op;
+  size_t count = 0;
+  CountFields op(count);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.count;
+  return count;
 }
 
 //------------------------------------------------------------------------------
@@ -702,10 +704,11 @@ template <typename BaseTypeList_T, int Dims_T>
 size_t 
 FieldGroup<BaseTypeList_T, Dims_T>::sizeMIP() const
 {
-  CountFields op;
+  size_t count = 0;
+  CountFields op(count);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.count;
+  return count;
 }
 
 //------------------------------------------------------------------------------
@@ -826,12 +829,13 @@ template <typename BaseTypeList_T, int Dims_T>
 bool
 FieldGroup<BaseTypeList_T, Dims_T>::intersects(const V3d &wsP) const
 {
-  PointIsect op(wsP);
+  bool doesIntersect = false;
+  PointIsect op(wsP, doesIntersect);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.result();
+  return doesIntersect;
 }
 
 //------------------------------------------------------------------------------
@@ -978,15 +982,16 @@ template <typename BaseTypeList_T, int Dims_T>
 struct FieldGroup<BaseTypeList_T, Dims_T>::CountFields
 {
   //! Ctor
-  CountFields()
-    : count(0)
+  //! \note for_each() may copy the functor, so it refers to the result
+  CountFields(size_t &a_count)
+    : count(a_count)
   { }
   //! Functor
   template <typename T>
   void operator()(const T &vec) const
   { count += vec.size(); }
   // Data members
-  mutable int count;
+  size_t &count;
 };
 
 //------------------------------------------------------------------------------
@@ -1425,8 +1430,9 @@ template <typename BaseTypeList_T, int Dims_T>
 struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
 {
   //! Ctor
-  PointIsect(const V3d &wsP)
-    : m_wsP(wsP), m_doesIntersect(false)
+  //! \note for_each() may copy the functor, so it refers to the result
+  PointIsect(const V3d &wsP, bool &doesIntersect)
+    : m_wsP(wsP), m_doesIntersect(doesIntersect)
   { }
   //! Functor
   template <typename T>
@@ -1451,13 +1457,10 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
       }
     }
   }
-  //! Result
-  bool result() const
-  { return m_doesIntersect; }
 private:
   // Data members
-  V3d          m_wsP;
-  mutable bool m_doesIntersect;
+  V3d   m_wsP;
+  bool &m_doesIntersect;
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From dcfca7bef31d543475dcf9df38417a44f760705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 051/105] fix: FieldGroup::getMinMax() stopped at the first
 field outside the bounds

---
 export/FieldSampler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index d6ab3b2..2fdc37e 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -341,7 +341,7 @@ struct FieldSampler
         dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
         // Early termination if no intersection
         if (!dw.intersects(dvsBounds)) {
-          return;
+          continue;
         }
       }
       for (int k = dvsBounds.min.z; k <= dvsBounds.max.z; ++k) {
@@ -383,7 +383,7 @@ struct FieldSampler
         dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
         // Early termination if no intersection
         if (!dw.intersects(dvsBounds)) {
-          return;
+          continue;
         }
       }
       for (int k = dvsBounds.min.z; k <= dvsBounds.max.z; ++k) {
-- 
2.43.0


From b52ec8ad7296f71a5310ab703a3e5d51f382b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 052/105] fix: discreteBounds() rounded towards zero

---
 export/Field.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index 74c4b4b..b086a94 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1147,12 +1147,12 @@ inline Box3i discreteBounds(const Box3d &bbox)
   using std::ceil;
 
   Box3i result;
-  result.min.x = static_cast<int>(floor(clampForType<double, int>(bbox.min.x)));
-  result.min.y = static_cast<int>(floor(clampForType<double, int>(bbox.min.y)));
-  result.min.z = static_cast<int>(floor(clampForType<double, int>(bbox.min.z)));
-  result.max.x = static_cast<int>(ceil(clampForType<double, int>(bbox.max.x)));
-  result.max.y = static_cast<int>(ceil(clampForType<double, int>(bbox.max.y)));
-  result.max.z = static_cast<int>(ceil(clampForType<double, int>(bbox.max.z)));
+  result.min.x = clampForType<double, int>(floor(bbox.min.x));
+  result.min.y = clampForType<double, int>(floor(bbox.min.y));
+  result.min.z = clampForType<double, int>(floor(bbox.min.z));
+  result.max.x = clampForType<double, int>(ceil(bbox.max.x));
+  result.max.y = clampForType<double, int>(ceil(bbox.max.y));
+  result.max.z = clampForType<double, int>(ceil(bbox.max.z));
   return result;
 }
 
-- 
2.43.0


From ea97e959c280eed6c1a140c62a57ea0e205f67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 053/105] fix: rays never met fields with a null mapping

---
 export/FieldGroup.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 7cd2a49..50cbe97 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -1242,6 +1242,25 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::GetIntersections
       m_intervals.push_back(Interval(t0, t1, minLen * worldScale));
     } 
   }
+  //! Intersect null mapping, where local space is world space
+  void intersectNullMapping(const Ray3d &wsRay,
+                            const NullFieldMapping *null,
+                            const float worldScale) const
+  {
+    using std::min;
+
+    // Use unit bounding box to intersect against
+    Box3d lsBBox(V3d(0.0), V3d(1.0));
+    // Calculate intersection points
+    double t0, t1;
+    // Add the interval if the ray intersects the box
+    if (detail::intersect(wsRay, lsBBox, t0, t1)) {
+      const V3d    wsVoxelSize = null->wsVoxelSize(0, 0, 0);
+      const double minLen      = min(min(wsVoxelSize.x, wsVoxelSize.y),
+                                     wsVoxelSize.z);
+      m_intervals.push_back(Interval(t0, t1, minLen * worldScale));
+    } 
+  }
   //! Intersect frustum mapping
   void intersectFrustumMapping(const Ray3d &wsRay,
                                const FrustumFieldMapping *mtx,
@@ -1315,6 +1334,11 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::GetIntersections
           dynamic_cast<const MatrixFieldMapping*>(m)) {
         intersectMatrixMapping(wsRay, mtx, vec[field].worldScale);
       }
+      // Check null mapping
+      if (const NullFieldMapping *null = 
+          dynamic_cast<const NullFieldMapping*>(m)) {
+        intersectNullMapping(wsRay, null, vec[field].worldScale);
+      }
       // Check frustum mapping
       if (const FrustumFieldMapping *f = 
           dynamic_cast<const FrustumFieldMapping*>(m)) {
-- 
2.43.0


From a9338794b585ad52076b854ca80d61ab4fc828b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 054/105] fix: rays parallel to a face of a frustum, or
 pointing away from it, met it

---
 export/FieldGroup.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 50cbe97..b35e91e 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -1305,10 +1305,13 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::GetIntersections
           // Opposing plane
           t0 = std::max(t0, t);
         }
+      } else if (p.distanceTo(wsRay.pos) > 0.0) {
+        // Parallel to the plane, and outside it
+        return;
       }
     }
+    t0 = std::max(t0, 0.0);
     if (t0 < t1) {
-      t0 = std::max(t0, 0.0);
       const V3d    wsVoxelSize = mtx->wsVoxelSize(0, 0, 0);
       const double minLen      = min(min(wsVoxelSize.x, wsVoxelSize.y),
                                      wsVoxelSize.z);
-- 
2.43.0


From 293d61f1f9fe3b86deb643832b5507f552fdfb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 055/105] fix: MIP fields under a mirroring object transform
 were always sampled at their finest level

---
 export/FieldWrapper.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/export/FieldWrapper.h b/export/FieldWrapper.h
index 8be2423..4341f70 100644
--- a/export/FieldWrapper.h
+++ b/export/FieldWrapper.h
@@ -87,7 +87,9 @@ struct FieldWrapper
                  "Couldn't extract world scale from object-to-world "
                  "transform. Defaulting to 1.0.");
     }
-    worldScale = std::max(std::max(ws.x, ws.y), ws.z);
+    // The scaling of a mirroring transform is negative
+    worldScale = std::max(std::max(std::abs(ws.x), std::abs(ws.y)), 
+                          std::abs(ws.z));
     // Set boolean
     doOsToWs = true;
 
@@ -185,7 +187,9 @@ struct MIPFieldWrapper
                  "Couldn't extract world scale from object-to-world "
                  "transform. Defaulting to 1.0.");
     }
-    worldScale = std::max(std::max(ws.x, ws.y), ws.z);
+    // The scaling of a mirroring transform is negative
+    worldScale = std::max(std::max(std::abs(ws.x), std::abs(ws.y)), 
+                          std::abs(ws.z));
     // Set boolean
     doOsToWs = true;
 
-- 
2.43.0


From 23c274909e9fbdc6ef69333402b916e384751667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 056/105] fix: FieldGroup::getMinMax() ignored fields that have
 no min/max representation

---
 export/FieldGroup.h | 52 +++++++++++++++++++++++++++++++++------------
 export/MinMaxUtil.h |  9 ++++++++
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index b35e91e..7e866a8 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -422,8 +422,9 @@ protected:
   // Utility methods -----------------------------------------------------------
 
   //! Set up the min/max MIP representations
-  void setupMinMax(const FieldRes::Vec &minFields,
-                   const FieldRes::Vec &maxFields);
+  //! \returns Number of fields that have both
+  size_t setupMinMax(const FieldRes::Vec &minFields,
+                     const FieldRes::Vec &maxFields);
 
   // Data members --------------------------------------------------------------
   
@@ -563,6 +564,8 @@ FieldGroup<BaseTypeList_T, Dims_T>::setup
  const Field3D::FieldRes::Vec &minFields,
  const Field3D::FieldRes::Vec &maxFields)
 {
+  const size_t sizeBefore = size();
+
   // Record fields in m_allFields
   m_allFields.insert(m_allFields.end(), fields.begin(), fields.end());
 
@@ -576,11 +579,18 @@ FieldGroup<BaseTypeList_T, Dims_T>::setup
   }
 
   // Pick out min/max fields
-  setupMinMax(minFields, maxFields);
+  const size_t numMinMax = setupMinMax(minFields, maxFields);
+
+  // The min/max representations are of use only if all fields have them
+  const size_t numAdded = size() - sizeBefore;
+  if (numAdded > 0) {
+    m_hasPrefiltMinMax = 
+      numMinMax >= numAdded && (m_hasPrefiltMinMax || sizeBefore == 0);
+  }
 }
 
 template <typename BaseTypeList_T, int Dims_T>
-void
+size_t
 FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
 (const Field3D::FieldRes::Vec &minFields,
  const Field3D::FieldRes::Vec &maxFields)
@@ -589,6 +599,15 @@ FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
   m_auxFields.insert(m_auxFields.end(), minFields.begin(), minFields.end());
   m_auxFields.insert(m_auxFields.end(), maxFields.begin(), maxFields.end());
 
+  // Check how many pre-filtered fields there were before
+  size_t countMinBefore = 0, countMaxBefore = 0;
+  CountFields countMinBeforeOp(countMinBefore);
+  CountFields countMaxBeforeOp(countMaxBefore);
+  fusion::for_each(m_mipDenseMin, countMinBeforeOp);
+  fusion::for_each(m_mipDenseMax, countMaxBeforeOp);
+  fusion::for_each(m_mipSparseMin, countMinBeforeOp);
+  fusion::for_each(m_mipSparseMax, countMaxBeforeOp);
+
   // Pick out min fields
   for (size_t i = 0, end = minFields.size(); i < end; ++i) {
     GrabFields op(minFields[i], m_osToWs, m_valueRemapOp, m_doWsBoundsOptimization);
@@ -601,16 +620,15 @@ FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
     fusion::for_each(m_mipDenseMax, op);
     fusion::for_each(m_mipSparseMax, op);
   }
-  // Check if we have pre-filtered fields
+  // Check how many pre-filtered fields there are now
   size_t countMin = 0, countMax = 0;
   CountFields countMinOp(countMin), countMaxOp(countMax);
   fusion::for_each(m_mipDenseMin, countMinOp);
   fusion::for_each(m_mipDenseMax, countMaxOp);
   fusion::for_each(m_mipSparseMin, countMinOp);
   fusion::for_each(m_mipSparseMax, countMaxOp);
-  if (countMin > 0 && countMax > 0) {
-    m_hasPrefiltMinMax = true;
-  }
+
+  return std::min(countMin - countMinBefore, countMax - countMaxBefore);
 }
 
 //------------------------------------------------------------------------------
@@ -680,7 +698,9 @@ FieldGroup<BaseTypeList_T, Dims_T>::makeMinMax
   fusion::for_each(m_mipDense, opMIP);
   fusion::for_each(m_mipSparse, opMIP);
 
-  setupMinMax(minFields, maxFields);
+  if (setupMinMax(minFields, maxFields) >= size() && size() > 0) {
+    m_hasPrefiltMinMax = true;
+  }
 }
 
 //------------------------------------------------------------------------------
@@ -1023,8 +1043,11 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMax
     for (size_t i = 0, end = vec.size(); i < end; ++i) {
       const Field_T &f = *(vec[i].field);
       result = Field3D::makeMinMax<MIPField_T>(f, m_resMult, m_numThreads);
-      m_minFields.push_back(result.first);
-      m_maxFields.push_back(result.second);
+      // Some fields have no min/max representation (see makeMinMax())
+      if (result.first && result.second) {
+        m_minFields.push_back(result.first);
+        m_maxFields.push_back(result.second);
+      }
     }
   }
   // Data members
@@ -1063,8 +1086,11 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMaxMIP
     for (size_t i = 0, end = vec.size(); i < end; ++i) {
       const Field_T &f = *(vec[i].field->concreteMipLevel(0));
       result = Field3D::makeMinMax<MIPField_T>(f, m_resMult, m_numThreads);
-      m_minFields.push_back(result.first);
-      m_maxFields.push_back(result.second);
+      // Some fields have no min/max representation (see makeMinMax())
+      if (result.first && result.second) {
+        m_minFields.push_back(result.first);
+        m_maxFields.push_back(result.second);
+      }
     }
   }
   // Data members
diff --git a/export/MinMaxUtil.h b/export/MinMaxUtil.h
index 1befbd4..983f252 100644
--- a/export/MinMaxUtil.h
+++ b/export/MinMaxUtil.h
@@ -65,6 +65,9 @@ FIELD3D_NAMESPACE_OPEN
 //----------------------------------------------------------------------------//
 
 //! Constructs a min/max MIP representation of the given field.
+//! \note This is possible only for fields whose data window equals their 
+//! extents, starts at zero, and has at least two voxels along each dimension.
+//! \returns Null pointers for all other fields
 template <typename MIPField_T>
 std::pair<typename MIPField_T::Ptr, typename MIPField_T::Ptr>
 makeMinMax(const typename MIPField_T::NestedType &base, 
@@ -95,6 +98,12 @@ makeMinMax(const typename MIPField_T::NestedType &base,
   // Storage for results
   std::pair<MipPtr, MipPtr> result;
 
+  // The resampling below supports only these
+  if (base.extents() != base.dataWindow() || 
+      base.dataWindow().min != V3i(0) || !base.dataWindow().hasVolume()) {
+    return result;
+  }
+
   // First, downsample the field into a min and max representation ---
 
   V3i srcRes = base.dataWindow().size() + Field3D::V3i(1);
-- 
2.43.0


From cf439275d18f7a90f441c962d2b6c75762f31612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 057/105] fix: FieldGroup::makeMinMax() gave all fields the
 transform of the last one

---
 export/FieldGroup.h | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 7e866a8..7494ea5 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -425,6 +425,10 @@ protected:
   //! \returns Number of fields that have both
   size_t setupMinMax(const FieldRes::Vec &minFields,
                      const FieldRes::Vec &maxFields);
+  //! Same, with an object to world transform for each of the fields
+  size_t setupMinMax(const FieldRes::Vec &minFields,
+                     const FieldRes::Vec &maxFields,
+                     const std::vector<M44d> &osToWs);
 
   // Data members --------------------------------------------------------------
   
@@ -593,7 +597,19 @@ template <typename BaseTypeList_T, int Dims_T>
 size_t
 FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
 (const Field3D::FieldRes::Vec &minFields,
- const Field3D::FieldRes::Vec &maxFields)
+ const FieldRes::Vec &maxFields)
+{
+  // All fields use the current object to world transform
+  const size_t size = std::max(minFields.size(), maxFields.size());
+  return setupMinMax(minFields, maxFields, std::vector<M44d>(size, m_osToWs));
+}
+
+template <typename BaseTypeList_T, int Dims_T>
+size_t
+FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
+(const FieldRes::Vec &minFields,
+ const FieldRes::Vec &maxFields,
+ const std::vector<M44d> &osToWs)
 {
   // Record minFields and maxFields as auxiliary fields
   m_auxFields.insert(m_auxFields.end(), minFields.begin(), minFields.end());
@@ -610,13 +626,13 @@ FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
 
   // Pick out min fields
   for (size_t i = 0, end = minFields.size(); i < end; ++i) {
-    GrabFields op(minFields[i], m_osToWs, m_valueRemapOp, m_doWsBoundsOptimization);
+    GrabFields op(minFields[i], osToWs[i], m_valueRemapOp, m_doWsBoundsOptimization);
     fusion::for_each(m_mipDenseMin, op);
     fusion::for_each(m_mipSparseMin, op);
   }
   // Pick out max fields
   for (size_t i = 0, end = maxFields.size(); i < end; ++i) {
-    GrabFields op(maxFields[i], m_osToWs, m_valueRemapOp, m_doWsBoundsOptimization);
+    GrabFields op(maxFields[i], osToWs[i], m_valueRemapOp, m_doWsBoundsOptimization);
     fusion::for_each(m_mipDenseMax, op);
     fusion::for_each(m_mipSparseMax, op);
   }
@@ -689,16 +705,18 @@ FieldGroup<BaseTypeList_T, Dims_T>::makeMinMax
 {
   // Storage for the auxiliary fields
   FieldRes::Vec minFields, maxFields;
+  // Each pair of auxiliary fields has the transform of its source
+  std::vector<M44d> osToWs;
 
-  MakeMinMax op(minFields, maxFields, resMult);
+  MakeMinMax op(minFields, maxFields, osToWs, resMult);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
 
-  MakeMinMaxMIP opMIP(minFields, maxFields, resMult);
+  MakeMinMaxMIP opMIP(minFields, maxFields, osToWs, resMult);
   fusion::for_each(m_mipDense, opMIP);
   fusion::for_each(m_mipSparse, opMIP);
 
-  if (setupMinMax(minFields, maxFields) >= size() && size() > 0) {
+  if (setupMinMax(minFields, maxFields, osToWs) >= size() && size() > 0) {
     m_hasPrefiltMinMax = true;
   }
 }
@@ -1022,9 +1040,11 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMax
   //! Ctor
   MakeMinMax(Field3D::FieldRes::Vec &minFields,
              Field3D::FieldRes::Vec &maxFields,
+             std::vector<M44d>      &osToWs,
              const float resMult)
     : m_minFields(minFields),
       m_maxFields(maxFields),
+      m_osToWs(osToWs),
       m_resMult(resMult),
       m_numThreads(Field3D::numIOThreads())
   { }
@@ -1047,12 +1067,14 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMax
       if (result.first && result.second) {
         m_minFields.push_back(result.first);
         m_maxFields.push_back(result.second);
+        m_osToWs.push_back(vec[i].osToWs);
       }
     }
   }
   // Data members
   Field3D::FieldRes::Vec &m_minFields;
   Field3D::FieldRes::Vec &m_maxFields;
+  std::vector<M44d>      &m_osToWs;
   const float m_resMult;
   const size_t m_numThreads;
 };
@@ -1065,9 +1087,11 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMaxMIP
   //! Ctor
   MakeMinMaxMIP(Field3D::FieldRes::Vec &minFields,
                 Field3D::FieldRes::Vec &maxFields,
+                std::vector<M44d>      &osToWs,
                 const float resMult)
     : m_minFields(minFields),
       m_maxFields(maxFields),
+      m_osToWs(osToWs),
       m_resMult(resMult),
       m_numThreads(Field3D::numIOThreads())
   { }
@@ -1090,12 +1114,14 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMaxMIP
       if (result.first && result.second) {
         m_minFields.push_back(result.first);
         m_maxFields.push_back(result.second);
+        m_osToWs.push_back(vec[i].osToWs);
       }
     }
   }
   // Data members
   Field3D::FieldRes::Vec &m_minFields;
   Field3D::FieldRes::Vec &m_maxFields;
+  std::vector<M44d>      &m_osToWs;
   const float m_resMult;
   const size_t m_numThreads;
 };
-- 
2.43.0


From ef8758ef4c3a93b8ebc4d413e71dc4386c77596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 058/105] fix: MinFilter and MaxFilter lost voxels halfway
 between two others

---
 export/Resample.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/export/Resample.h b/export/Resample.h
index 83dcf92..0bc6d04 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -169,7 +169,9 @@ struct MinFilter : public Filter
   virtual float eval(const float x) const
   {
     const float t = x / m_width;
-    if (t <= 0.5f) {
+    // A voxel on the edge between two others belongs to both, so rounding 
+    // must not take it from either
+    if (t <= 0.50005f) {
       return 1.0f;
     } else {
       return 0.0f;
@@ -225,7 +227,8 @@ struct MaxFilter : public Filter
   virtual float eval(const float x) const
   {
     const float t = x / m_width;
-    if (t <= 0.5f) {
+    // See MinFilter
+    if (t <= 0.50005f) {
       return 1.0f;
     } else {
       return 0.0f;
-- 
2.43.0


From eda3a7a15f5e8942a80b352d2abb486713f1ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 059/105] fix: FieldGroup::getMinMax() used misplaced bounds in
 MIP levels of fields without matrix mapping

---
 export/FieldSampler.h | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index 2fdc37e..9890111 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -418,25 +418,34 @@ struct FieldSampler
         level = numLevels - 1;
         dvsBounds = f[field].field->mipLevel(level)->dataWindow();
       } else {
+        // Find bounds in the finest level. The bounds in the other levels 
+        // follow from the voxel layout of MIPs. Their mappings can't be used,
+        // since only matrix mappings are adjusted to fit the level.
+        Box3d vsBounds;
+        if (f[field].doOsToWs) {
+          Box3d osBounds;
+          transformBounds(f[field].wsToOs, wsBounds, osBounds);
+          worldToVoxel(f[field].field->mapping().get(), osBounds, vsBounds);
+        } else {
+          worldToVoxel(f[field].field->mapping().get(), wsBounds, vsBounds);
+        }
+        const Imath::V3i mipOff = f[field].field->mipOffset();
         for (size_t i = 0; i < numLevels; ++i) {
           // Update current level
           level = i;
           // Data window of current level
           const Box3i dw = f[field].field->mipLevel(level)->dataWindow();
-          Box3d vsBounds;
-          if (f[field].doOsToWs) {
-            Box3d osBounds;
-            transformBounds(f[field].wsToOs, wsBounds, osBounds);
-            worldToVoxel(f[field].field->mipLevel(level)->mapping().get(), 
-                         osBounds, vsBounds);
-          } else {
-            worldToVoxel(f[field].field->mipLevel(level)->mapping().get(), 
-                         wsBounds, vsBounds);
-          }
-          dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
+          // Transform from finest to current level
+          const double size = double(1 << level);
+          const Imath::V3i levelOff(mipOff.x >> level, mipOff.y >> level,
+                                    mipOff.z >> level);
+          Box3d lvsBounds;
+          lvsBounds.min = (vsBounds.min + V3d(mipOff)) / size - V3d(levelOff);
+          lvsBounds.max = (vsBounds.max + V3d(mipOff)) / size - V3d(levelOff);
+          dvsBounds = clipBounds(discreteBounds(lvsBounds), dw);
           // If size of dvsBounds is <= 2, stop
-          Imath::V3i size = dvsBounds.size();
-          if (std::max(size.x, std::max(size.y, size.z)) <= 2) {
+          Imath::V3i bSize = dvsBounds.size();
+          if (std::max(bSize.x, std::max(bSize.y, bSize.z)) <= 2) {
             break;
           }
         }
-- 
2.43.0


From 73dc3a3a529baa3f6b3d873896392e91c7696786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 060/105] fix: MIP levels of fields with a null mapping covered
 the wrong part of space

---
 src/MIPUtil.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/MIPUtil.cpp b/src/MIPUtil.cpp
index 05c5506..ab67679 100644
--- a/src/MIPUtil.cpp
+++ b/src/MIPUtil.cpp
@@ -102,8 +102,16 @@ namespace detail {
     // to offset current level by 
     const V3d diff = offset - mipOff;
 
-    if (MatrixFieldMapping::Ptr mfm = 
-        field_dynamic_cast<MatrixFieldMapping>(mapping)) {
+    MatrixFieldMapping::Ptr mfm = 
+      field_dynamic_cast<MatrixFieldMapping>(mapping);
+    if (!mfm && field_dynamic_cast<NullFieldMapping>(mapping)) {
+      // In a null mapping, world space is local space
+      mfm = MatrixFieldMapping::Ptr(new MatrixFieldMapping);
+      mfm->setExtents(base->extents());
+      mfm->setLocalToWorld(M44d());
+    }
+
+    if (mfm) {
       // Local space positions
       const V3d lsOrigin(0.0), lsX(1.0, 0.0, 0.0), lsY(0.0, 1.0, 0.0), 
         lsZ(0.0, 0.0, 1.0);
-- 
2.43.0


From b974b079e774b24d99e5ee03dcb39e6b96e13a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 061/105] fix: SparseFieldIO could not be the target of
 field_dynamic_cast()

---
 include/SparseFieldIO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SparseFieldIO.h b/include/SparseFieldIO.h
index 4dca640..a00a24d 100644
--- a/include/SparseFieldIO.h
+++ b/include/SparseFieldIO.h
@@ -92,7 +92,7 @@ public:
   typedef SparseFieldIO class_type;
   DEFINE_FIELD_RTTI_CONCRETE_CLASS;
 
-  const char *staticClassType() const
+  static const char *staticClassType()
   {
     return "SparseFieldIO";
   }
-- 
2.43.0


From 79d0c8f5bfa833fb314c59cea638230c463d9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 062/105] fix: field_dynamic_cast() took EmptyFields of any
 type for one another

---
 export/EmptyField.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/export/EmptyField.h b/export/EmptyField.h
index b8c779e..0873d63 100644
--- a/export/EmptyField.h
+++ b/export/EmptyField.h
@@ -128,12 +128,12 @@ public:
 
   static const char *staticClassName()
   {
-    return staticClassType();
+    return "EmptyField";
   }
   
   static const char *staticClassType()
   {
-    return "EmptyField";
+    return EmptyField<Data_T>::ms_classType.name();
   }
 
   // From WritableField base class -----------------------------------------
@@ -168,12 +168,22 @@ public:
 
  private:
 
+  // Static data members -------------------------------------------------------
+
+  static TemplatedFieldType<EmptyField<Data_T> > ms_classType;
+
   // Typedefs ------------------------------------------------------------------
 
   typedef ResizableField<Data_T> base;
 
 };
 
+//----------------------------------------------------------------------------//
+// Static data member instantiation
+//----------------------------------------------------------------------------//
+
+FIELD3D_CLASSTYPE_TEMPL_INSTANTIATION(EmptyField);
+
 //----------------------------------------------------------------------------//
 // EmptyField implementations
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 335598a0d8d2a3d6adbf80e02fef41f408134c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 063/105] fix: EmptyField left its values uninitialized

---
 export/EmptyField.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/EmptyField.h b/export/EmptyField.h
index 0873d63..c63ae26 100644
--- a/export/EmptyField.h
+++ b/export/EmptyField.h
@@ -190,7 +190,10 @@ FIELD3D_CLASSTYPE_TEMPL_INSTANTIATION(EmptyField);
 
 template <class Data_T>
 EmptyField<Data_T>::EmptyField()
-  : base()
+  : base(), 
+    m_default(static_cast<Data_T>(0)), 
+    m_ignoredData(static_cast<Data_T>(0)), 
+    m_constantData(static_cast<Data_T>(0))
 { 
   // Empty
 }
-- 
2.43.0


From 57d3ff869dcca0274cb6697892ebdb15da716858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 064/105] fix: continuousBounds() was off for large indices

---
 export/Field.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index b086a94..ec6dc4d 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1127,12 +1127,12 @@ inline V3d discToCont(const V3i &discCoord)
 inline Box3d continuousBounds(const Box3i &bbox)
 {
   Box3d result;
-  result.min.x = static_cast<float>(bbox.min.x);
-  result.min.y = static_cast<float>(bbox.min.y);
-  result.min.z = static_cast<float>(bbox.min.z);
-  result.max.x = static_cast<float>(bbox.max.x + 1);
-  result.max.y = static_cast<float>(bbox.max.y + 1);
-  result.max.z = static_cast<float>(bbox.max.z + 1);
+  result.min.x = static_cast<double>(bbox.min.x);
+  result.min.y = static_cast<double>(bbox.min.y);
+  result.min.z = static_cast<double>(bbox.min.z);
+  result.max.x = static_cast<double>(bbox.max.x) + 1;
+  result.max.y = static_cast<double>(bbox.max.y) + 1;
+  result.max.z = static_cast<double>(bbox.max.z) + 1;
   return result;
 }
 
-- 
2.43.0


From 4c64852fe7e1e4dcd0458f3901721be11b2361e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 065/105] fix: coordinateSystem() returned wrong extents for
 bounds below the origin

---
 export/CoordSys.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/CoordSys.h b/export/CoordSys.h
index a0e2066..5f0fa74 100644
--- a/export/CoordSys.h
+++ b/export/CoordSys.h
@@ -160,8 +160,9 @@ coordinateSystem(const FIELD3D_BOX_T<FIELD3D_VEC3_T<T> >  &wsBounds,
     detail::ceil<T>(wsBounds.max / wsVoxelSize) * wsVoxelSize;
 
   // Resolution
-  extents.min = V3i(detail::floor<T>(voxelMin / wsVoxelSize) + V3f(0.5));
-  extents.max = V3i(detail::floor<T>(voxelMax / wsVoxelSize) + V3f(0.5));
+  const FIELD3D_VEC3_T<T> half(static_cast<T>(0.5));
+  extents.min = V3i(detail::floor<T>(voxelMin / wsVoxelSize + half));
+  extents.max = V3i(detail::floor<T>(voxelMax / wsVoxelSize + half));
 
   // Bounding box
   const FIELD3D_BOX_T<FIELD3D_VEC3_T<T> > box(voxelMin, voxelMax);
-- 
2.43.0


From 5319841220037718a58dc8bde79ced25fdbb3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 066/105] fix: the extents returned by coordinateSystem() had
 one voxel too many

---
 export/CoordSys.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/CoordSys.h b/export/CoordSys.h
index 5f0fa74..019838f 100644
--- a/export/CoordSys.h
+++ b/export/CoordSys.h
@@ -162,7 +162,8 @@ coordinateSystem(const FIELD3D_BOX_T<FIELD3D_VEC3_T<T> >  &wsBounds,
   // Resolution
   const FIELD3D_VEC3_T<T> half(static_cast<T>(0.5));
   extents.min = V3i(detail::floor<T>(voxelMin / wsVoxelSize + half));
-  extents.max = V3i(detail::floor<T>(voxelMax / wsVoxelSize + half));
+  // Extents are inclusive
+  extents.max = V3i(detail::floor<T>(voxelMax / wsVoxelSize + half)) - V3i(1);
 
   // Bounding box
   const FIELD3D_BOX_T<FIELD3D_VEC3_T<T> > box(voxelMin, voxelMax);
-- 
2.43.0


From 507dfb402eba04cd11059a772a15aa3022595d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 067/105] fix: field_dynamic_cast<FieldBase>() always failed

---
 export/Field.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/export/Field.h b/export/Field.h
index ec6dc4d..0f806f1 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -96,6 +96,7 @@ public:
 
   typedef boost::intrusive_ptr<FieldBase> Ptr;
   typedef FieldBase class_type;
+  DEFINE_FIELD_RTTI_ABSTRACT_CLASS;
 
   // Constructors --------------------------------------------------------------
 
@@ -179,6 +180,11 @@ public:
   //! metadata
   FieldMetadata m_metadata;
 
+  // Typedefs ------------------------------------------------------------------
+
+  //! Convenience typedef for referring to base class
+  typedef RefBase base;
+
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 57dbd07d2c124718c59574fef501a2e2efa16510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 068/105] fix: clampForType() let through floats just above the
 largest int

---
 export/Types.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/export/Types.h b/export/Types.h
index fd8f29f..f05d133 100644
--- a/export/Types.h
+++ b/export/Types.h
@@ -106,10 +106,11 @@ To_T clampForType(const From_T v)
   const To_T   highestTo = std::numeric_limits<To_T>::max();
   const From_T highest   = static_cast<From_T>(highestTo);
   // Perform check
+  // The highest value of an integer type may have been rounded up
   if (v < lowest) {
-    return lowest;
-  } else if (v > highest) {
-    return highest;
+    return lowestTo;
+  } else if (v >= highest) {
+    return highestTo;
   }
   return v;
 }
-- 
2.43.0


From ed6c28849cbc715978e574bbf809129255f57d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 069/105] fix: indexToCoord() failed for grids with large
 slices

---
 export/Field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/Field.h b/export/Field.h
index 0f806f1..5dad4e6 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1210,7 +1210,7 @@ inline V3i indexToCoord(const size_t idx, const V3i &res)
 {
   const int i = idx % res.x;
   const int j = (idx / res.x) % res.y;
-  const int k = idx / (res.x * res.y);
+  const int k = idx / (static_cast<size_t>(res.x) * res.y);
   return V3i(i, j, k);
 }
 
-- 
2.43.0


From 2f08f578a2aef1b26c3b82dcb36b8d68313195d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 070/105] fix: copying a MIPField that was never set up wrote
 past its end

---
 export/MIPField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 5c5ee22..105ab5a 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -362,7 +362,7 @@ MIPField<Field_T>::init(const MIPField &rhs)
   // The contained fields must be individually cloned if they have already
   // been loaded
   m_fields.resize(rhs.m_fields.size());
-  m_rawFields.resize(rhs.m_rawFields.size());
+  m_rawFields.resize(rhs.m_fields.size());
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
     // Update the field pointer. Levels that rhs hasn't loaded yet must not keep
     // what this field held before
-- 
2.43.0


From 3d00d3cb95fb02ae682f1c9964264e4b767fa580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 071/105] fix: f3dmerge reported success when layers could not
 be written

---
 apps/f3dmerge/main.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/apps/f3dmerge/main.cpp b/apps/f3dmerge/main.cpp
index 9d3987a..e6fbbd5 100644
--- a/apps/f3dmerge/main.cpp
+++ b/apps/f3dmerge/main.cpp
@@ -77,7 +77,7 @@ struct Options {
 Options parseOptions(int argc, char **argv);
 
 //! Prints information about all fields in file.
-void writeOutput(const std::string &filename, const Options &options,
+bool writeOutput(const std::string &filename, const Options &options,
                  Field3DOutputFile &out);
 
 //----------------------------------------------------------------------------//
@@ -115,9 +115,13 @@ int main(int argc, char **argv)
 
   // Write inputs to output ---
 
+  bool success = true;
+
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    writeOutput(file, options, out);
+    success = writeOutput(file, options, out) && success;
   }
+
+  return success ? 0 : 1;
 }
 
 //----------------------------------------------------------------------------//
@@ -193,27 +197,29 @@ Options parseOptions(int argc, char **argv)
 //----------------------------------------------------------------------------//
 
 template <typename T>
-void writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
+bool writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
                 Field3DOutputFile &out)
 {
-  out.writeVectorLayer<T>(f);
+  return out.writeVectorLayer<T>(f);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
+bool writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
 {
-  out.writeScalarLayer<Data_T>(f);
+  return out.writeScalarLayer<Data_T>(f);
 }
 
 //----------------------------------------------------------------------------//
 
-void writeOutput(const std::string &filename, const Options &options,
+bool writeOutput(const std::string &filename, const Options &options,
                  Field3DOutputFile &out)
 {
   typedef Field3D::half half;
 
+  bool success = true;
+
   Field3DInputFile in;
 
   if (!in.open(filename)) {
@@ -245,19 +251,19 @@ void writeOutput(const std::string &filename, const Options &options,
       Field<half>::Vec hScalarFields = 
         in.readScalarLayers<half>(partition, scalarLayer);
       BOOST_FOREACH (Field<half>::Ptr field, hScalarFields) {
-        writeField<half>(field, out);
+        success = writeField<half>(field, out) && success;
       }
 
       Field<float>::Vec fScalarFields = 
         in.readScalarLayers<float>(partition, scalarLayer);
       BOOST_FOREACH (Field<float>::Ptr field, fScalarFields) {
-        writeField<float>(field, out);
+        success = writeField<float>(field, out) && success;
       }
 
       Field<double>::Vec dScalarFields = 
         in.readScalarLayers<double>(partition, scalarLayer);
       BOOST_FOREACH (Field<double>::Ptr field, dScalarFields) {
-        writeField<double>(field, out);
+        success = writeField<double>(field, out) && success;
       }
 
     }
@@ -271,25 +277,25 @@ void writeOutput(const std::string &filename, const Options &options,
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
-        writeField<V3h>(field, out);
+        success = writeField<V3h>(field, out) && success;
       }
 
       Field<V3f>::Vec fVectorFields = 
         in.readVectorLayers<float>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3f>::Ptr field, fVectorFields) {
-        writeField<V3f>(field, out);
+        success = writeField<V3f>(field, out) && success;
       }
 
       Field<V3d>::Vec dVectorFields = 
         in.readVectorLayers<double>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3d>::Ptr field, dVectorFields) {
-        writeField<V3d>(field, out);
+        success = writeField<V3d>(field, out) && success;
       }
 
     }
   }
 
+  return success;
 }
 
 //----------------------------------------------------------------------------//
-
-- 
2.43.0


From 3c858cdc048e95a2f7de4923d006040cdf64eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 072/105] fix: f3dsample reported success when the file could
 not be written

---
 apps/f3dsample/main.cpp | 55 ++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/apps/f3dsample/main.cpp b/apps/f3dsample/main.cpp
index 64b03a8..03125df 100644
--- a/apps/f3dsample/main.cpp
+++ b/apps/f3dsample/main.cpp
@@ -80,15 +80,15 @@ struct Options {
 
 Options parseOptions(int argc, char **argv);
 
-void createField(const Options &options);
+bool createField(const Options &options);
 
-void writeGlobalMetadata(Field3DOutputFile &out);
+bool writeGlobalMetadata(Field3DOutputFile &out);
 
 template <typename Data_T>
-void createConcreteScalarField(const Options &options);
+bool createConcreteScalarField(const Options &options);
 
 template <typename Data_T>
-void createConcreteVectorField(const Options &options);
+bool createConcreteVectorField(const Options &options);
 
 void setCommon(const FieldRes::Ptr field, const Options &options);
 
@@ -102,7 +102,12 @@ int main(int argc, char **argv)
 
   Options options = parseOptions(argc, argv);
 
-  createField(options);
+  if (!createField(options)) {
+    cout << "ERROR: Couldn't write output file: " << options.filename << endl;
+    return 1;
+  }
+
+  return 0;
 }
 
 //----------------------------------------------------------------------------//
@@ -195,53 +200,47 @@ Options parseOptions(int argc, char **argv)
 
 //----------------------------------------------------------------------------//
 
-void createField(const Options &options)
+bool createField(const Options &options)
 {
   if (options.isVectorField) {
     switch (options.bits) {
     case 64:
-      createConcreteVectorField<double>(options);
-      break;
+      return createConcreteVectorField<double>(options);
     case 32:
-      createConcreteVectorField<float>(options);
-      break;
+      return createConcreteVectorField<float>(options);
     case 16:
     default:
-      createConcreteVectorField<Field3D::half>(options);
-      break;
+      return createConcreteVectorField<Field3D::half>(options);
     }
   } else {
     switch (options.bits) {
     case 64:
-      createConcreteScalarField<double>(options);
-      break;
+      return createConcreteScalarField<double>(options);
     case 32:
-      createConcreteScalarField<float>(options);
-      break;
+      return createConcreteScalarField<float>(options);
     case 16:
     default:
-      createConcreteScalarField<Field3D::half>(options);
-      break;
+      return createConcreteScalarField<Field3D::half>(options);
     }
   }
 }
 
 //----------------------------------------------------------------------------//
 
-void writeGlobalMetadata(Field3DOutputFile &out)
+bool writeGlobalMetadata(Field3DOutputFile &out)
 {
   out.metadata().setFloatMetadata("float_global_metadata", 1.0f);
   out.metadata().setVecFloatMetadata("vec_float_global_metadata", V3f(1.0f));
   out.metadata().setIntMetadata("int_global_metadata", 1);
   out.metadata().setVecIntMetadata("vec_int_global_metadata", V3i(1));
   out.metadata().setStrMetadata("str_global_metadata", "string");
-  out.writeGlobalMetadata();  
+  return out.writeGlobalMetadata();
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void createConcreteScalarField(const Options &options)
+bool createConcreteScalarField(const Options &options)
 {
   typedef typename ResizableField<Data_T>::Ptr Ptr;
   Ptr field;
@@ -256,15 +255,15 @@ void createConcreteScalarField(const Options &options)
   setCommon(field, options);
 
   Field3DOutputFile out;
-  out.create(options.filename);
-  out.writeScalarLayer<Data_T>(field);
-  writeGlobalMetadata(out);
+  return out.create(options.filename) &&
+    out.writeScalarLayer<Data_T>(field) &&
+    writeGlobalMetadata(out);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void createConcreteVectorField(const Options &options)
+bool createConcreteVectorField(const Options &options)
 {
   typedef typename ResizableField<FIELD3D_VEC3_T<Data_T> >::Ptr Ptr;
   Ptr field;
@@ -281,9 +280,9 @@ void createConcreteVectorField(const Options &options)
   setCommon(field, options);
 
   Field3DOutputFile out;
-  out.create(options.filename);
-  out.writeVectorLayer<Data_T>(field);
-  writeGlobalMetadata(out);
+  return out.create(options.filename) &&
+    out.writeVectorLayer<Data_T>(field) &&
+    writeGlobalMetadata(out);
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From d927cfc612d65eb4fd4e9429561ad9b90ba6ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 073/105] fix: f3dmakemip crashed on fields that can not be
 filtered

---
 apps/f3dmakemip/main.cpp | 94 +++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index ce054e5..a4d96b0 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -86,7 +86,7 @@ struct Options {
 Options parseOptions(int argc, char **argv);
 
 //! Prints information about all fields in file.
-void makeMIP(const std::string &filename, const Options &options,
+bool makeMIP(const std::string &filename, const Options &options,
              Field3DOutputFile &out);
 
 //----------------------------------------------------------------------------//
@@ -122,9 +122,13 @@ int main(int argc, char **argv)
     return 1;
   }
 
+  bool success = true;
+
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    makeMIP(file, options, out);
+    success = makeMIP(file, options, out) && success;
   }
+
+  return success ? 0 : 1;
 }
 
 //----------------------------------------------------------------------------//
@@ -222,26 +226,42 @@ Options parseOptions(int argc, char **argv)
 //----------------------------------------------------------------------------//
 
 template <typename T>
-void writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
+bool writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
                 Field3DOutputFile &out)
 {
   cout << "  Writing \"" << f->attribute << "\"" << endl;
-  out.writeVectorLayer<T>(f);
+  return out.writeVectorLayer<T>(f);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
+bool writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
 {
   cout << "  Writing \"" << f->attribute << "\"" << endl;
-  out.writeScalarLayer<Data_T>(f);
+  return out.writeScalarLayer<Data_T>(f);
+}
+
+//----------------------------------------------------------------------------//
+
+//! Writes a MIP field. Null pointers are fields that can't be filtered.
+template <typename Data_T, typename MIP_T>
+bool writeMIP(const boost::intrusive_ptr<MIP_T> &mip, Field3DOutputFile &out, 
+              const std::string &suffix = std::string())
+{
+  if (!mip) {
+    cout << "  ERROR: Only fields whose data window matches their extents and "
+         << "starts at (0 0 0) can be filtered." << endl;
+    return false;
+  }
+  mip->attribute += suffix;
+  return writeField<Data_T>(mip, out);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
+bool makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
              Field3DOutputFile &out)
 {
   typedef DenseField<Data_T>     DenseType;
@@ -260,19 +280,17 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPDenseType::Ptr mip = 
       makeMIP<MIPDenseType, TriangleFilter>
       (*dense, options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeMIP<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPDenseType::Ptr, typename MIPDenseType::Ptr> p =
         makeMinMax<MIPDenseType>(*dense, 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeMIP<Data_T>(p.first, out, k_minSuffix) && success;
+      success = writeMIP<Data_T>(p.second, out, k_maxSuffix) && success;
     }
-    return;
+    return success;
   }
 
   // Handle sparse fields
@@ -281,19 +299,17 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPSparseType::Ptr mip = 
       makeMIP<MIPSparseType, TriangleFilter>
       (*sparse, options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeMIP<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPSparseType::Ptr, typename MIPSparseType::Ptr> p =
         makeMinMax<MIPSparseType>(*sparse, 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeMIP<Data_T>(p.first, out, k_minSuffix) && success;
+      success = writeMIP<Data_T>(p.second, out, k_maxSuffix) && success;
     }
-    return;
+    return success;
   }
 
   // Handle MIP dense fields
@@ -302,19 +318,17 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPDenseType::Ptr mip = 
       makeMIP<MIPDenseType, TriangleFilter>
       (*dense->concreteMipLevel(0), options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeMIP<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPDenseType::Ptr, typename MIPDenseType::Ptr> p =
         makeMinMax<MIPDenseType>(*dense->concreteMipLevel(0), 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeMIP<Data_T>(p.first, out, k_minSuffix) && success;
+      success = writeMIP<Data_T>(p.second, out, k_maxSuffix) && success;
     }
-    return;
+    return success;
   }
 
   // Handle MIP sparse fields
@@ -322,30 +336,32 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     // MIP
     typename MIPSparseType::Ptr mip = makeMIP<MIPSparseType, TriangleFilter>
       (*sparse->concreteMipLevel(0), options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeMIP<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPSparseType::Ptr, typename MIPSparseType::Ptr> p =
         makeMinMax<MIPSparseType>(*sparse->concreteMipLevel(0), 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeMIP<Data_T>(p.first, out, k_minSuffix) && success;
+      success = writeMIP<Data_T>(p.second, out, k_maxSuffix) && success;
     }
-    return;
+    return success;
   }
 
+  cout << "  ERROR: Unsupported field type." << endl;
+  return false;
 }
 
 //----------------------------------------------------------------------------//
 
-void makeMIP(const std::string &filename, const Options &options,
+bool makeMIP(const std::string &filename, const Options &options,
              Field3DOutputFile &out)
 {
   typedef Field3D::half half;
 
+  bool success = true;
+
   Field3DInputFile in;
 
   if (!in.open(filename)) {
@@ -383,19 +399,19 @@ void makeMIP(const std::string &filename, const Options &options,
       Field<half>::Vec hScalarFields = 
         in.readScalarLayers<half>(partition, scalarLayer);
       BOOST_FOREACH (Field<half>::Ptr field, hScalarFields) {
-        makeMIP<half>(field, options, out);
+        success = makeMIP<half>(field, options, out) && success;
       }
 
       Field<float>::Vec fScalarFields = 
         in.readScalarLayers<float>(partition, scalarLayer);
       BOOST_FOREACH (Field<float>::Ptr field, fScalarFields) {
-        makeMIP<float>(field, options, out);
+        success = makeMIP<float>(field, options, out) && success;
       }
 
       Field<double>::Vec dScalarFields = 
         in.readScalarLayers<double>(partition, scalarLayer);
       BOOST_FOREACH (Field<double>::Ptr field, dScalarFields) {
-        makeMIP<double>(field, options, out);
+        success = makeMIP<double>(field, options, out) && success;
       }
 
     }
@@ -409,25 +425,25 @@ void makeMIP(const std::string &filename, const Options &options,
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
-        makeMIP<V3h>(field, options, out);
+        success = makeMIP<V3h>(field, options, out) && success;
       }
 
       Field<V3f>::Vec fVectorFields = 
         in.readVectorLayers<float>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3f>::Ptr field, fVectorFields) {
-        makeMIP<V3f>(field, options, out);
+        success = makeMIP<V3f>(field, options, out) && success;
       }
 
       Field<V3d>::Vec dVectorFields = 
         in.readVectorLayers<double>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3d>::Ptr field, dVectorFields) {
-        makeMIP<V3d>(field, options, out);
+        success = makeMIP<V3d>(field, options, out) && success;
       }
 
     }
   }
 
+  return success;
 }
 
 //----------------------------------------------------------------------------//
-
-- 
2.43.0


From 4c1e2cdfbf22b255aa6e17a85c00c2af1f3a1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 074/105] fix: f3dmakemip filtered the min/max layers it said
 it skipped

---
 apps/f3dmakemip/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index a4d96b0..6b26873 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -394,6 +394,7 @@ bool makeMIP(const std::string &filename, const Options &options,
       if (scalarLayer.find(k_minSuffix) != std::string::npos ||
           scalarLayer.find(k_maxSuffix) != std::string::npos) {
         cout << "  ... skipping " << scalarLayer << endl;
+        continue;
       }
 
       Field<half>::Vec hScalarFields = 
@@ -422,6 +423,13 @@ bool makeMIP(const std::string &filename, const Options &options,
         continue;
       }  
 
+      // Skip _min and _max fields
+      if (vectorLayer.find(k_minSuffix) != std::string::npos ||
+          vectorLayer.find(k_maxSuffix) != std::string::npos) {
+        cout << "  ... skipping " << vectorLayer << endl;
+        continue;
+      }
+
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
-- 
2.43.0


From 740f128a3b569f7fbca32eeed8ecbb6bc0aa7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 075/105] fix: the finest level of a MIP field did not keep the
 mapping exactly

---
 src/MIPUtil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MIPUtil.cpp b/src/MIPUtil.cpp
index ab67679..68e4824 100644
--- a/src/MIPUtil.cpp
+++ b/src/MIPUtil.cpp
@@ -88,6 +88,11 @@ namespace detail {
 
     FieldMapping::Ptr mapping = base->mapping();
 
+    // The finest level matches the base
+    if (level == 0) {
+      return mapping;
+    }
+
     const V3i   zero   = V3i(0);
     const V3i   mipOff = base->metadata().vecIntMetadata(k_mipOffsetStr, zero);
     const float mult   = 1 << level;
-- 
2.43.0


From eaed0c720f4fd0cc43d6ba1bdcc7494c62d1d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 076/105] fix: f3dsample wrote uninitialized voxels

---
 apps/f3dsample/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/f3dsample/main.cpp b/apps/f3dsample/main.cpp
index 03125df..1f304c0 100644
--- a/apps/f3dsample/main.cpp
+++ b/apps/f3dsample/main.cpp
@@ -252,6 +252,7 @@ bool createConcreteScalarField(const Options &options)
   }
 
   field->setSize(options.resolution);
+  field->clear(Data_T(0.0f));
   setCommon(field, options);
 
   Field3DOutputFile out;
@@ -277,6 +278,7 @@ bool createConcreteVectorField(const Options &options)
   }
 
   field->setSize(options.resolution);  
+  field->clear(FIELD3D_VEC3_T<Data_T>(0.0f));
   setCommon(field, options);
 
   Field3DOutputFile out;
-- 
2.43.0


From 8dad7dc0dee79dfbfa7230d77249a4d93c103992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 077/105] fix: Ogawa files of unknown version were read through
 closed streams

---
 src/IStreams.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index a200dac..459aed9 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -105,6 +105,7 @@ IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         filestream->close();
         delete filestream;
@@ -125,6 +126,7 @@ IStreams::IStreams(const std::vector< std::istream * > & iStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         return;
     }
-- 
2.43.0


From f99120a76b98d59d26e0a52f07f8d593cb0c9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 078/105] fix: positions and sizes in Ogawa files were used
 without checks

---
 include/IData.h    |  3 ++-
 include/IStreams.h |  6 +++++-
 src/IData.cpp      | 21 +++++++++++++------
 src/IGroup.cpp     | 23 ++++++++++++++++++---
 src/IStreams.cpp   | 51 ++++++++++++++++++++++++++++++++++++++++++----
 5 files changed, 89 insertions(+), 15 deletions(-)

diff --git a/include/IData.h b/include/IData.h
index 00cdb5f..d3dd499 100644
--- a/include/IData.h
+++ b/include/IData.h
@@ -49,7 +49,8 @@ public:
 
     ~IData();
 
-    void read(Alembic::Util::uint64_t iSize, void * iData,
+    // returns whether all of the bytes were read
+    bool read(Alembic::Util::uint64_t iSize, void * iData,
               Alembic::Util::uint64_t iOffset, std::size_t iThreadId);
 
     Alembic::Util::uint64_t getSize() const;
diff --git a/include/IStreams.h b/include/IStreams.h
index 3383b88..d44a38c 100644
--- a/include/IStreams.h
+++ b/include/IStreams.h
@@ -55,8 +55,12 @@ public:
     bool isFrozen();
     Alembic::Util::uint16_t getVersion();
 
+    // the number of bytes that can be read
+    Alembic::Util::uint64_t getSize();
+
     // locks on the threadId, seeks to iPos, and reads iSize bytes into oBuf
-    void read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
+    // returns whether all of the bytes were read
+    bool read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
               Alembic::Util::uint64_t iSize, void * oBuf);
 
 private:
diff --git a/src/IData.cpp b/src/IData.cpp
index e9c504d..ae181c7 100644
--- a/src/IData.cpp
+++ b/src/IData.cpp
@@ -79,22 +79,31 @@ IData::IData(IStreamsPtr iStreams,
     // not the empty group?  then figure out our size
     if ( mData->pos != 0 )
     {
-        mData->streams->read(iThreadId, mData->pos, 8, &size);
-        mData->size = size;
+        if (mData->streams->read(iThreadId, mData->pos, 8, &size) &&
+            size <= mData->streams->getSize() - mData->pos - 8)
+        {
+            mData->size = size;
+        }
     }
 }
 
-void IData::read(Alembic::Util::uint64_t iSize, void * iData,
+bool IData::read(Alembic::Util::uint64_t iSize, void * iData,
                  Alembic::Util::uint64_t iOffset, std::size_t iThreadId)
 {
+    if (iSize == 0)
+    {
+        return true;
+    }
+
     // don't read anything if we will read beyond our buffer
-    if (iSize == 0 || mData->size == 0 || iOffset + iSize > mData->size)
+    if (iOffset > mData->size || iSize > mData->size - iOffset)
     {
-        return;
+        return false;
     }
 
     // +8 is to account for the size
-    mData->streams->read(iThreadId, mData->pos + iOffset + 8, iSize, iData);
+    return mData->streams->read(iThreadId, mData->pos + iOffset + 8, iSize,
+                                iData);
 }
 
 Alembic::Util::uint64_t IData::getSize() const
diff --git a/src/IGroup.cpp b/src/IGroup.cpp
index 476914e..9edbf60 100644
--- a/src/IGroup.cpp
+++ b/src/IGroup.cpp
@@ -74,7 +74,18 @@ IGroup::IGroup(IStreamsPtr iStreams,
     }
 
     mData->pos = iPos;
-    mData->streams->read(iThreadIndex, iPos, 8, &mData->numChildren);
+    if (!mData->streams->read(iThreadIndex, iPos, 8, &mData->numChildren))
+    {
+        mData->numChildren = 0;
+        return;
+    }
+
+    // a group is no larger than what it is stored in
+    if (mData->numChildren > (mData->streams->getSize() - iPos - 8) / 8)
+    {
+        mData->numChildren = 0;
+        return;
+    }
 
     // 0 should NOT have been written, this groups should have been the
     // special EMPTY_GROUP instead
@@ -84,8 +95,14 @@ IGroup::IGroup(IStreamsPtr iStreams,
     if (!iLight || mData->numChildren < 9)
     {
         mData->childVec.resize(mData->numChildren);
-        mData->streams->read(iThreadIndex, iPos + 8, mData->numChildren * 8,
-                             &(mData->childVec.front()));
+        if (mData->numChildren != 0 &&
+            !mData->streams->read(iThreadIndex, iPos + 8,
+                                  mData->numChildren * 8,
+                                  &(mData->childVec.front())))
+        {
+            mData->childVec.clear();
+            mData->numChildren = 0;
+        }
     }
 }
 
diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index 459aed9..6176eff 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -50,6 +50,7 @@ public:
         valid = false;
         frozen = false;
         version = 0;
+        size = 0;
     }
 
     ~PrivateData()
@@ -82,6 +83,7 @@ public:
     bool valid;
     bool frozen;
     Alembic::Util::uint16_t version;
+    Alembic::Util::uint64_t size;
 };
 
 IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
@@ -162,6 +164,15 @@ void IStreams::init()
         char header[16] = {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
         mData->offsets.push_back(mData->streams[i]->tellg());
         mData->streams[i]->read(header, 16);
+        if (!*mData->streams[i])
+        {
+            // too short for an archive
+            mData->streams[i]->clear();
+            mData->frozen = false;
+            mData->valid = false;
+            mData->version = 0;
+            return;
+        }
         std::string magicStr(header, 5);
         if (magicStr != "Ogawa")
         {
@@ -190,6 +201,19 @@ void IStreams::init()
             mData->version = 0;
             return;
         }
+
+        // all the streams have this many bytes
+        mData->streams[i]->seekg(0, std::ios::end);
+        std::streamoff end = mData->streams[i]->tellg();
+        Alembic::Util::uint64_t size = 0;
+        if (end > 0 && (Alembic::Util::uint64_t) end > mData->offsets[i])
+        {
+            size = (Alembic::Util::uint64_t) end - mData->offsets[i];
+        }
+        if (i == 0 || size < mData->size)
+        {
+            mData->size = size;
+        }
     }
     mData->valid = true;
 }
@@ -213,12 +237,23 @@ Alembic::Util::uint16_t IStreams::getVersion()
     return mData->version;
 }
 
-void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
+Alembic::Util::uint64_t IStreams::getSize()
+{
+    return mData->size;
+}
+
+bool IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                     Alembic::Util::uint64_t iSize, void * oBuf)
 {
     if (!isValid())
     {
-        return;
+        return false;
+    }
+
+    // nothing is read if it isn't all there
+    if (iPos > mData->size || iSize > mData->size - iPos)
+    {
+        return false;
     }
 
     std::size_t threadId = 0;
@@ -251,14 +286,22 @@ void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                 // read from thread 0 instead until it can be opened
                 if (threadId != 0)
                 {
-                    read(0, iPos, iSize, oBuf);
+                    return read(0, iPos, iSize, oBuf);
                 }
-                return;
+                return false;
             }
         }
         stream->seekg(iPos + mData->offsets[threadId]);
         stream->read((char *)oBuf, iSize);
+        if (!*stream)
+        {
+            // the stream may well be able to read something else
+            stream->clear();
+            return false;
+        }
     }
+
+    return true;
 }
 
 } // End namespace ALEMBIC_VERSION_NS
-- 
2.43.0


From 020f5565149b490d4c5e280ba89af47c8ff106d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 079/105] fix: reading Ogawa attributes without data used a
 null pointer

---
 include/OgIDataset.h | 16 ++++++++++------
 include/OgUtil.h     |  7 ++-----
 src/OgUtil.cpp       | 15 ++++++++++++---
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/OgIDataset.h b/include/OgIDataset.h
index c94bb5e..afced6d 100644
--- a/include/OgIDataset.h
+++ b/include/OgIDataset.h
@@ -177,6 +177,10 @@ OgIDataset<T>::dataSize(const size_t index, const size_t threadId) const
   }
   // Grab the data set
   Alembic::Ogawa::IDataPtr idata = m_group->getData(internalIndex, threadId);
+  // Handle null pointer
+  if (!idata) {
+    return OGAWA_INVALID_DATASET_INDEX;
+  }
   // Compute its length
   return idata->getSize() / sizeof(T);
 }
@@ -202,9 +206,7 @@ bool OgIDataset<T>::getData(const size_t index, T *data,
   // Get the length
   Alembic::Util::uint64_t dataSize = idata->getSize();
   // Read the data
-  idata->read(dataSize, data, 0, threadId);
-  // Done
-  return true;
+  return idata->read(dataSize, data, 0, threadId);
 }
 
 //----------------------------------------------------------------------------//
@@ -257,6 +259,10 @@ OgICDataset<T>::dataSize(const size_t index, const size_t threadId) const
   }
   // Grab the data set
   Alembic::Ogawa::IDataPtr idata = m_group->getData(internalIndex, threadId);
+  // Handle null pointer
+  if (!idata) {
+    return OGAWA_INVALID_DATASET_INDEX;
+  }
   // Compute its length
   return idata->getSize() / sizeof(uint8_t);
 }
@@ -282,9 +288,7 @@ bool OgICDataset<T>::getData(const size_t index, uint8_t *data,
   // Get the length
   Alembic::Util::uint64_t dataSize = idata->getSize();
   // Read the data
-  idata->read(dataSize, data, 0, threadId);
-  // Done
-  return true;
+  return idata->read(dataSize, data, 0, threadId);
 }
 
 //----------------------------------------------------------------------------//
diff --git a/include/OgUtil.h b/include/OgUtil.h
index 07254c7..bd73e0d 100644
--- a/include/OgUtil.h
+++ b/include/OgUtil.h
@@ -109,14 +109,11 @@ bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx,
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
   // Check data length
   const size_t sizeLength = sizeof(T);
-  const size_t length = data->getSize();
-  if (length != sizeLength) {
+  if (!data || data->getSize() != sizeLength) {
     return false;
   }
   // Read the data directly to the input param
-  data->read(length, &value, 0, OGAWA_THREAD);
-  // Done
-  return true;
+  return data->read(sizeLength, &value, 0, OGAWA_THREAD);
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index dee855a..d00dd51 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -53,7 +53,9 @@ bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx,
   // Add null terminator
   temp[stringLength] = 0;
   // Read the data
-  data->read(length, &temp[0], 0, OGAWA_THREAD);
+  if (!data->read(length, &temp[0], 0, OGAWA_THREAD)) {
+    return false;
+  }
   // Construct string. The string see the temp buffer as a const char *.
   s = std::string(&temp[0]);
   // Done
@@ -65,9 +67,14 @@ bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx,
 OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx) 
 {
   // Data type
-  OgDataType dataType;;
+  OgDataType dataType;
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Check that we got something
+  if (!data) {
+    std::cout << "readDataType() got null data" << std::endl;
+    return F3DInvalidDataType;
+  }
   // Check data length
   const size_t sizeLength = sizeof(OgDataType);
   const size_t length = data->getSize();
@@ -76,7 +83,9 @@ OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx)
     return F3DInvalidDataType;
   }
   // Read the data directly to the input param
-  data->read(length, &dataType, 0, OGAWA_THREAD);
+  if (!data->read(length, &dataType, 0, OGAWA_THREAD)) {
+    return F3DInvalidDataType;
+  }
   // Done
   return dataType;
 }
-- 
2.43.0


From 816a47cdfd6709231c85dcebae0be23554c07696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 080/105] fix: Ogawa sparse blocks of unexpected length were
 read past their memory

---
 include/OgSparseDataReader.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/OgSparseDataReader.h b/include/OgSparseDataReader.h
index 62fa967..4dc73f5 100644
--- a/include/OgSparseDataReader.h
+++ b/include/OgSparseDataReader.h
@@ -189,8 +189,13 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 
     // Length of compressed data
     const uint64_t length = m_cDataset.dataSize(idx, m_threadId);
+    if (length > m_compressionCache.size()) {
+      throw ReadDataException("Block length mismatch in SparseDataReader");
+    }
     // Read data into compression cache
-    m_cDataset.getData(idx, &m_compressionCache[0], m_threadId);
+    if (!m_cDataset.getData(idx, &m_compressionCache[0], m_threadId)) {
+      throw ReadDataException("Couldn't read block in SparseDataReader");
+    }
     // Target location
     uint8_t *ucmpData = reinterpret_cast<uint8_t *>(result);
     // Length of uncompressed data is stored here
@@ -206,7 +211,12 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 
   } else {
 
-    m_dataset.getData(idx, result, OGAWA_THREAD);
+    if (m_dataset.dataSize(idx, OGAWA_THREAD) != m_numVoxels) {
+      throw ReadDataException("Block length mismatch in SparseDataReader");
+    }
+    if (!m_dataset.getData(idx, result, OGAWA_THREAD)) {
+      throw ReadDataException("Couldn't read block in SparseDataReader");
+    }
 
   }
 }
-- 
2.43.0


From 8841c4f742642b01d87059ceb3e61a66a2c292db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 081/105] fix: blocks of an Ogawa file that could not be
 uncompressed were left uninitialized

---
 include/OgSparseDataReader.h |  6 ++----
 src/SparseFieldIO.cpp        | 26 ++++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/OgSparseDataReader.h b/include/OgSparseDataReader.h
index 4dc73f5..2b89c97 100644
--- a/include/OgSparseDataReader.h
+++ b/include/OgSparseDataReader.h
@@ -203,10 +203,8 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
     // Uncompress
     int status = uncompress(ucmpData, &ucmpLen, &m_compressionCache[0], 
                             length);
-    if (status != Z_OK) {
-      std::cout << "ERROR in uncompress: " << status
-                << " " << ucmpLen << " " << length << std::endl;
-      return;
+    if (status != Z_OK || ucmpLen != m_numVoxels * sizeof(Data_T)) {
+      throw ReadDataException("Couldn't uncompress block in SparseDataReader");
     }
 
   } else {
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 03270f3..1f5a34d 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -117,8 +117,17 @@ struct ReadThreadingState
       numOccupiedBlocks(i_numOccupiedBlocks),
       isCompressed(i_isCompressed), 
       blockIdxToDatasetIdx(i_blockIdxToDatasetIdx), 
-      nextBlockToRead(0)
+      nextBlockToRead(0),
+      failed(false)
   { }
+  //! Records that a block couldn't be read, and lets all threads finish
+  void fail(const std::string &what)
+  {
+    boost::mutex::scoped_lock lock(readMutex);
+    failed = true;
+    error = what;
+    nextBlockToRead = numBlocks;
+  }
   // Data members
   const OgIGroup &location;
   Sparse::SparseBlock<Data_T> *blocks;
@@ -128,6 +137,8 @@ struct ReadThreadingState
   const bool   isCompressed;
   const std::vector<size_t> &blockIdxToDatasetIdx;
   size_t nextBlockToRead;
+  bool failed;
+  std::string error;
   // Mutexes
   boost::mutex readMutex;
 };
@@ -167,7 +178,14 @@ public:
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
         const size_t datasetIdx = m_state.blockIdxToDatasetIdx[blockIdx];
-        m_reader->readBlock(datasetIdx, m_state.blocks[blockIdx].data);
+        // Exceptions must not leave the thread
+        try {
+          m_reader->readBlock(datasetIdx, m_state.blocks[blockIdx].data);
+        }
+        catch (std::exception &e) {
+          m_state.fail(e.what());
+          return;
+        }
       }
       // Get next block idx
       {
@@ -876,6 +894,10 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
         threads.create_thread(ReadBlockOp<Data_T>(state, i));
       }
       threads.join_all();
+      // Check that all blocks were read
+      if (state.failed) {
+        throw ReadDataException(state.error);
+      }
     }
   }
 
-- 
2.43.0


From 4677173a4b417b2b9e90db308bc736e009eb11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 082/105] fix: sparse fields were read without checking their
 block attributes and data sets

---
 src/SparseFieldIO.cpp | 83 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 10 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 1f5a34d..c940839 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -100,6 +100,63 @@ private:
 
 //----------------------------------------------------------------------------//
 
+//! Throws if the attributes in a file don't describe the blocks of a field
+void checkBlocks(const Box3i &dataW, const int blockOrder, 
+                 const V3i &blockRes, const int numBlocks)
+{
+  // The number of values in a block must fit in an int
+  if (blockOrder < 0 || blockOrder > 9) {
+    throw FileIntegrityException("Bad block order in SparseFieldIO::read()");
+  }
+  const boost::int64_t blockSize = boost::int64_t(1) << blockOrder;
+  boost::int64_t numCalculatedBlocks = 1;
+  for (int dim = 0; dim < 3; ++dim) {
+    const boost::int64_t res = 
+      boost::int64_t(dataW.max[dim]) - dataW.min[dim] + 1;
+    if (res < 0 || res > std::numeric_limits<int>::max()) {
+      throw FileIntegrityException("Bad data window in SparseFieldIO::read()");
+    }
+    if (blockRes[dim] != (res + blockSize - 1) / blockSize) {
+      throw FileIntegrityException("Incorrect block resolution in "
+                                   "SparseFieldIO::read()");
+    }
+    numCalculatedBlocks *= blockRes[dim];
+    if (numCalculatedBlocks > std::numeric_limits<int>::max()) {
+      throw FileIntegrityException("Bad data window in SparseFieldIO::read()");
+    }
+  }
+  if (numCalculatedBlocks != numBlocks) {
+    throw FileIntegrityException("Incorrect block count in "
+                                 "SparseFieldIO::read()");
+  }
+}
+
+//----------------------------------------------------------------------------//
+
+//! Throws unless there is a flag for each block, and the flags match the 
+//! number of blocks on disk
+template <typename Flag_T>
+void checkIsAllocated(const std::vector<Flag_T> &isAllocated, 
+                      const size_t numBlocks, const size_t occupiedBlocks)
+{
+  if (isAllocated.size() != numBlocks) {
+    throw FileIntegrityException("Incorrect block count in "
+                                 "SparseFieldIO::readData()");
+  }
+  size_t count = 0;
+  for (size_t i = 0; i < numBlocks; ++i) {
+    if (isAllocated[i]) {
+      count++;
+    }
+  }
+  if (count != occupiedBlocks) {
+    throw FileIntegrityException("Incorrect number of occupied blocks in "
+                                 "SparseFieldIO::readData()");
+  }
+}
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 struct ReadThreadingState
 {
@@ -431,9 +488,7 @@ SparseFieldIO::read(hid_t layerGroup, const std::string &filename,
 
   // ... Check that it matches the # reported by summing the active blocks
 
-  int numCalculatedBlocks = blockRes.x * blockRes.y * blockRes.z;
-  if (numCalculatedBlocks != numBlocks)
-    throw FileIntegrityException("Incorrect block count in SparseFieldIO::read");
+  checkBlocks(dataW, blockOrder, blockRes, numBlocks);
 
   // Call the appropriate read function based on the data type ---
 
@@ -621,11 +676,7 @@ SparseFieldIO::read(const OgIGroup &layerGroup, const std::string &filename,
 
   // ... Check that it matches the # reported by summing the active blocks
 
-  int numCalculatedBlocks = blockRes.x * blockRes.y * blockRes.z;
-  if (numCalculatedBlocks != numBlocks) {
-    throw FileIntegrityException("Incorrect block count in "
-                                 "SparseFieldIO::read()");
-  }
+  checkBlocks(dataW, blockOrder, blockRes, numBlocks);
 
   // Call the appropriate read function based on the data type ---
 
@@ -840,7 +891,11 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
     if (!isAllocatedData.isValid()) {
       throw MissingGroupException("Couldn't find block_is_allocated_data: ");
     }
-    isAllocatedData.getData(0, &isAllocated[0], OGAWA_THREAD);
+    if (isAllocatedData.dataSize(0, OGAWA_THREAD) != numBlocks ||
+        !isAllocatedData.getData(0, &isAllocated[0], OGAWA_THREAD)) {
+      throw ReadDataException("Couldn't read block_is_allocated_data");
+    }
+    checkIsAllocated(isAllocated, numBlocks, occupiedBlocks);
     // Allocate the blocks and set up the block mapping array
     for (size_t i = 0, nextBlockOnDisk = 0; i < numBlocks; ++i) {
       blocks[i].isAllocated = isAllocated[i];
@@ -863,7 +918,10 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
     if (!emptyValueData.isValid()) {
       throw MissingGroupException("Couldn't find block_empty_value_data: ");
     }
-    emptyValueData.getData(0, &emptyValue[0], OGAWA_THREAD);
+    if (emptyValueData.dataSize(0, OGAWA_THREAD) != numBlocks ||
+        !emptyValueData.getData(0, &emptyValue[0], OGAWA_THREAD)) {
+      throw ReadDataException("Couldn't read block_empty_value_data");
+    }
     // Fill in the field
     for (size_t i = 0; i < numBlocks; ++i) {
       blocks[i].emptyValue = emptyValue[i];
@@ -1238,6 +1296,7 @@ bool SparseFieldIO::readData(hid_t location,
   {
     vector<char> isAllocated(numBlocks);
     readSimpleData<char>(location, "block_is_allocated_data", isAllocated);
+    checkIsAllocated(isAllocated, numBlocks, occupiedBlocks);
     for (int i = 0; i < numBlocks; ++i) {
       blocks[i].isAllocated = isAllocated[i];
       if (!dynamicLoading && isAllocated[i]) {
@@ -1251,6 +1310,10 @@ bool SparseFieldIO::readData(hid_t location,
   {
     vector<Data_T> emptyValue(numBlocks);
     readSimpleData<Data_T>(location, "block_empty_value_data", emptyValue);
+    if (emptyValue.size() != static_cast<size_t>(numBlocks)) {
+      throw FileIntegrityException("Incorrect block count in "
+                                   "SparseFieldIO::readData()");
+    }
     for (int i = 0; i < numBlocks; ++i) {
       blocks[i].emptyValue = emptyValue[i];
     }
-- 
2.43.0


From 1ee4d2c7d7495f52054c17db3b2f4a9c854d064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 083/105] fix: dense fields were read without checking their
 size against the file

---
 src/DenseFieldIO.cpp | 56 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 2e07f3d..011e580 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -61,6 +61,37 @@ FIELD3D_NAMESPACE_OPEN
 using namespace Exc;
 using namespace Hdf5Util;
 
+//----------------------------------------------------------------------------//
+// Anonymous namespace
+//----------------------------------------------------------------------------//
+
+namespace {
+
+//----------------------------------------------------------------------------//
+
+//! Number of voxels in a data window. Throws if it isn't a valid window.
+boost::uint64_t numVoxels(const Box3i &dataW)
+{
+  boost::uint64_t result = 1;
+  for (int dim = 0; dim < 3; ++dim) {
+    const boost::int64_t res = 
+      boost::int64_t(dataW.max[dim]) - dataW.min[dim] + 1;
+    if (res < 0 || res > std::numeric_limits<int>::max()) {
+      throw FileIntegrityException("Bad data window in DenseFieldIO::read()");
+    }
+    result *= res;
+    // No file has that many
+    if (result > (boost::uint64_t(1) << 48)) {
+      throw FileIntegrityException("Bad data window in DenseFieldIO::read()");
+    }
+  }
+  return result;
+}
+
+//----------------------------------------------------------------------------//
+
+} // Anonymous namespace
+
 //----------------------------------------------------------------------------//
 // Static members
 //----------------------------------------------------------------------------//
@@ -119,7 +150,6 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
 
   H5ScopedDget_space dataSpace(dataSet.id());
   H5ScopedDget_type dataType(dataSet.id());
-  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
   if (dataSpace.id() < 0) 
     throw GetDataSpaceException("Couldn't get data space");
@@ -127,13 +157,17 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
   if (dataType.id() < 0)
     throw GetDataTypeException("Couldn't get data type");
 
+  if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+    throw FileIntegrityException("Bad rank of data set: " + k_dataStr);
+
+  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
   // Double-check that the sizes match ---
 
-  V3i size(dataW.size() + V3i(1));
-  int calculatedTotal = size.x * size.y * size.z;
-  int reportedSize = dims[0] / components;
+  if (components != 1 && components != 3)
+    throw FileIntegrityException("Bad number of components");
 
-  if (calculatedTotal != reportedSize) 
+  if (numVoxels(dataW) * components != dims[0]) 
     throw FileIntegrityException("Data size doesn't match number of voxels");
 
   // Build a DenseField to store everything in
@@ -565,9 +599,6 @@ typename DenseField<Data_T>::Ptr
 DenseFieldIO::readData(const OgIGroup &layerGroup, const Box3i &extents, 
                        const Box3i &dataW)
 {
-  typename DenseField<Data_T>::Ptr field(new DenseField<Data_T>);
-  field->setSize(extents, dataW);
-
   // Open the dataset
   OgIDataset<Data_T> data = layerGroup.findDataset<Data_T>(k_dataStr);
   if (!data.isValid()) {
@@ -575,6 +606,15 @@ DenseFieldIO::readData(const OgIGroup &layerGroup, const Box3i &extents,
                                  "the dataset.");
   }
 
+  // Double-check that the sizes match
+  if (data.dataSize(0, OGAWA_THREAD) != numVoxels(dataW)) {
+    throw Exc::FileIntegrityException("Data size doesn't match number of "
+                                      "voxels");
+  }
+
+  typename DenseField<Data_T>::Ptr field(new DenseField<Data_T>);
+  field->setSize(extents, dataW);
+
   // Read the data
   if (!data.getData(0, &(*field->begin()), OGAWA_THREAD)) {
     throw Exc::ReadDataException("DenseFieldIO::readData() couldn't read "
-- 
2.43.0


From 46bac5446bfbcbbc639c4117559e29d45c0749c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 084/105] fix: unfinished Ogawa files were opened as if they
 were empty

---
 src/Field3DFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 7962332..17fd8fa 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -747,6 +747,10 @@ bool Field3DInputFile::open(const string &filename)
 
     // Grab the root group
     m_root.reset(new OgIGroup(*m_archive));
+    if (!m_root->isValid()) {
+      // The file is damaged, or was never completed
+      throw BadFileHierarchyException(filename);
+    }
     
     // Check version number
     try {
-- 
2.43.0


From 018e671adab74aaeea0e203b4aa223e3b4b0ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 085/105] fix: MAC fields were read without checking their size
 against the file

---
 include/MACFieldIO.h | 47 +++++++++++++++++++++++++++++++++++++++++---
 src/MACFieldIO.cpp   |  5 +++++
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 1513b84..37c205f 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -317,6 +317,23 @@ bool MACFieldIO::writeData(hid_t layerGroup,
 
 //----------------------------------------------------------------------------//
 
+//! Number of values of the given component
+inline hsize_t numFaces(const Box3i &dataW, const int comp)
+{
+  double result = 1.0;
+  for (int dim = 0; dim < 3; ++dim) {
+    const double res = double(dataW.max[dim]) - dataW.min[dim] + 1.0;
+    result *= dim == comp ? res + 1.0 : res;
+  }
+  // A MACField can't hold more than this
+  if (result < 0.0 || result > std::numeric_limits<int>::max()) {
+    throw Exc::FileIntegrityException("Bad data window in MACFieldIO");
+  }
+  return static_cast<hsize_t>(result);
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 bool MACFieldIO::readData(hid_t layerGroup,
                           typename MACField<Data_T>::Ptr field)
@@ -336,7 +353,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -344,6 +360,15 @@ bool MACFieldIO::readData(hid_t layerGroup,
     if (dataType.id() < 0)
       throw GetDataTypeException("Couldn't get data type");
 
+    if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+      throw FileIntegrityException("Bad rank of data set: " + k_uDataStr);
+
+    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+    // Double-check that the sizes match
+    if (dims[0] != numFaces(field->dataWindow(), 0))
+      throw FileIntegrityException("Data size doesn't match number of voxels");
+
     if (H5Dread(dataSet, DataTypeTraits<Data_T>::h5type(), 
                 H5S_ALL, H5S_ALL, H5P_DEFAULT, &(*field->begin_comp(MACCompU))) < 0) 
       {
@@ -363,7 +388,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -371,6 +395,15 @@ bool MACFieldIO::readData(hid_t layerGroup,
     if (dataType.id() < 0)
       throw GetDataTypeException("Couldn't get data type");
 
+    if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+      throw FileIntegrityException("Bad rank of data set: " + k_vDataStr);
+
+    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+    // Double-check that the sizes match
+    if (dims[0] != numFaces(field->dataWindow(), 1))
+      throw FileIntegrityException("Data size doesn't match number of voxels");
+
 
     if (H5Dread(dataSet, DataTypeTraits<Data_T>::h5type(), 
                 H5S_ALL, H5S_ALL, H5P_DEFAULT, &(*field->begin_comp(MACCompV))) < 0) 
@@ -391,7 +424,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -399,6 +431,15 @@ bool MACFieldIO::readData(hid_t layerGroup,
     if (dataType.id() < 0)
       throw GetDataTypeException("Couldn't get data type");
 
+    if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+      throw FileIntegrityException("Bad rank of data set: " + k_wDataStr);
+
+    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+    // Double-check that the sizes match
+    if (dims[0] != numFaces(field->dataWindow(), 2))
+      throw FileIntegrityException("Data size doesn't match number of voxels");
+
 
     if (H5Dread(dataSet, DataTypeTraits<Data_T>::h5type(), 
                 H5S_ALL, H5S_ALL, H5P_DEFAULT, &(*field->begin_comp(MACCompW))) < 0) 
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index 2a4200c..eef7ce7 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -114,6 +114,11 @@ MACFieldIO::read(hid_t layerGroup, const std::string & /* filename */,
     throw MissingAttributeException("Couldn't find attribute: " +
                                     k_bitsPerComponentStr);  
 
+  // Check the data window before allocating memory for it
+  for (int comp = 0; comp < 3; ++comp) {
+    numFaces(dataW, comp);
+  }
+
   // Build a MACField to store everything in
   FieldBase::Ptr result;
   switch (bits) {
-- 
2.43.0


From d839cdfaad45f3bbd3d8b8fb6497a38003656b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 086/105] fix: SparseDataReader::readBlock() ignored read
 errors

---
 export/SparseDataReader.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/export/SparseDataReader.h b/export/SparseDataReader.h
index c5b056a..23d36d6 100644
--- a/export/SparseDataReader.h
+++ b/export/SparseDataReader.h
@@ -180,6 +180,11 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   status = H5Dread(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                    memDataSpace.id(), fileDataSpace.id(), 
                    H5P_DEFAULT, &result);
+
+  if (status < 0) {
+    throw Hdf5DataReadException("Couldn't read slab " + 
+                                boost::lexical_cast<std::string>(idx));
+  }
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From c67ae5893880a626633188fbf7c81f1bfd3f8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 087/105] fix: HDF5 data sets of unexpected shape were read
 past their memory

---
 export/Hdf5Util.h         | 15 ++++++++++++---
 export/SparseDataReader.h |  6 ++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 8ae0f20..55e970e 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -630,7 +630,6 @@ void readSimpleData(hid_t location, const std::string &name,
   
   H5ScopedDget_space dataSpace(dataSet.id());
   H5ScopedDget_type dataType(dataSet.id());
-  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
   if (dataSpace.id() < 0) 
     throw GetDataSpaceException("Couldn't get data space");
@@ -638,7 +637,16 @@ void readSimpleData(hid_t location, const std::string &name,
   if (dataType.id() < 0)
     throw GetDataTypeException("Couldn't get data type");
 
-  int reportedSize = dims[0] / components;
+  if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+    throw FileIntegrityException("Bad rank of data set: " + name);
+
+  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+  // The target holds a whole number of values
+  if (dims[0] % components != 0)
+    throw FileIntegrityException("Bad size of data set: " + name);
+
+  size_t reportedSize = dims[0] / components;
 
   // Resize target
   data.clear();
@@ -647,7 +655,8 @@ void readSimpleData(hid_t location, const std::string &name,
   // Get the internal data type
   hid_t type = DataTypeTraits<T>::h5type();
 
-  if (H5Dread(dataSet.id(), type, H5S_ALL, H5S_ALL, 
+  if (reportedSize > 0 && 
+      H5Dread(dataSet.id(), type, H5S_ALL, H5S_ALL, 
               H5P_DEFAULT, &data[0]) < 0) {
     throw Hdf5DataReadException("Couldn't read simple data");
   }
diff --git a/export/SparseDataReader.h b/export/SparseDataReader.h
index 23d36d6..3531a83 100644
--- a/export/SparseDataReader.h
+++ b/export/SparseDataReader.h
@@ -151,6 +151,9 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   H5Sset_extent_simple(memDataSpace.id(), 1, memDims, NULL);
 
   // Get the dimensions and check they match
+  if (H5Sget_simple_extent_ndims(fileDataSpace.id()) != 2) {
+    throw FileIntegrityException("Bad rank of data set in SparseDataReader");
+  }
   H5Sget_simple_extent_dims(fileDataSpace.id(), dims, NULL);
   if (dims[1] != static_cast<hsize_t>(m_valuesPerBlock)) {
     throw FileIntegrityException("Block length mismatch in "
@@ -225,6 +228,9 @@ void SparseDataReader<Data_T>::readBlockList
   H5Sset_extent_simple(memDataSpace.id(), 1, memDims, NULL);
 
   // Get the dimensions and check they match
+  if (H5Sget_simple_extent_ndims(fileDataSpace.id()) != 2) {
+    throw FileIntegrityException("Bad rank of data set in SparseDataReader");
+  }
   H5Sget_simple_extent_dims(fileDataSpace.id(), dims, NULL);
   if (dims[1] != static_cast<hsize_t>(m_valuesPerBlock)) {
     throw FileIntegrityException("Block length mismatch in "
-- 
2.43.0


From a572e3eaa8b23e794f72a6564a521c7f1f182980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 088/105] fix: HDF5 attributes of other widths were read past
 the value

---
 src/Hdf5Util.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/Hdf5Util.cpp b/src/Hdf5Util.cpp
index 5d146a8..093e00e 100644
--- a/src/Hdf5Util.cpp
+++ b/src/Hdf5Util.cpp
@@ -148,9 +148,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_INT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -191,9 +189,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_FLOAT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -233,9 +229,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_DOUBLE, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -279,9 +273,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_INT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -325,9 +317,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_FLOAT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -371,9 +361,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_DOUBLE, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
-- 
2.43.0


From c33b29157bdd4a58a765d005481922e9debe9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 089/105] fix: invalid Ogawa groups, attributes and data sets
 were read through a null pointer

---
 include/OgIDataset.h | 16 ++++++++++++----
 include/OgUtil.h     |  4 ++++
 src/OgUtil.cpp       |  8 ++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/OgIDataset.h b/include/OgIDataset.h
index afced6d..ce188fe 100644
--- a/include/OgIDataset.h
+++ b/include/OgIDataset.h
@@ -160,6 +160,10 @@ OgIDataset<T>::OgIDataset(Alembic::Ogawa::IGroupPtr group)
 template <typename T>
 size_t OgIDataset<T>::numDataElements() const
 {
+  // Handle null pointer and incomplete data sets
+  if (!m_group || m_group->getNumChildren() < OGAWA_DATASET_BASEOFFSET) {
+    return 0;
+  }
   return m_group->getNumChildren() - OGAWA_DATASET_BASEOFFSET;
 }
 
@@ -172,7 +176,7 @@ OgIDataset<T>::dataSize(const size_t index, const size_t threadId) const
   // Indices start at OGAWA_DATASET_BASEOFFSET
   const size_t internalIndex = index + OGAWA_DATASET_BASEOFFSET;
   // Check that we have a data set
-  if (!m_group->isChildData(internalIndex)) {
+  if (!m_group || !m_group->isChildData(internalIndex)) {
     return OGAWA_INVALID_DATASET_INDEX;
   }
   // Grab the data set
@@ -194,7 +198,7 @@ bool OgIDataset<T>::getData(const size_t index, T *data,
   // Indices start at OGAWA_DATASET_BASEOFFSET
   const size_t internalIndex = index + OGAWA_DATASET_BASEOFFSET;
   // Check that we have a data set
-  if (!m_group->isChildData(internalIndex)) {
+  if (!m_group || !m_group->isChildData(internalIndex)) {
     return false;
   }
   // Grab the data set
@@ -242,6 +246,10 @@ OgICDataset<T>::OgICDataset(Alembic::Ogawa::IGroupPtr group)
 template <typename T>
 size_t OgICDataset<T>::numDataElements() const
 {
+  // Handle null pointer and incomplete data sets
+  if (!m_group || m_group->getNumChildren() < OGAWA_DATASET_BASEOFFSET) {
+    return 0;
+  }
   return m_group->getNumChildren() - OGAWA_DATASET_BASEOFFSET;
 }
 
@@ -254,7 +262,7 @@ OgICDataset<T>::dataSize(const size_t index, const size_t threadId) const
   // Indices start at OGAWA_DATASET_BASEOFFSET
   const size_t internalIndex = index + OGAWA_DATASET_BASEOFFSET;
   // Check that we have a data set
-  if (!m_group->isChildData(internalIndex)) {
+  if (!m_group || !m_group->isChildData(internalIndex)) {
     return OGAWA_INVALID_DATASET_INDEX;
   }
   // Grab the data set
@@ -276,7 +284,7 @@ bool OgICDataset<T>::getData(const size_t index, uint8_t *data,
   // Indices start at OGAWA_DATASET_BASEOFFSET
   const size_t internalIndex = index + OGAWA_DATASET_BASEOFFSET;
   // Check that we have a data set
-  if (!m_group->isChildData(internalIndex)) {
+  if (!m_group || !m_group->isChildData(internalIndex)) {
     return false;
   }
   // Grab the data set
diff --git a/include/OgUtil.h b/include/OgUtil.h
index bd73e0d..eb610f8 100644
--- a/include/OgUtil.h
+++ b/include/OgUtil.h
@@ -105,6 +105,10 @@ template <typename T>
 bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx, 
               T &value) 
 {
+  // Handle null pointer
+  if (!group) {
+    return false;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
   // Check data length
diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index d00dd51..9a0ff99 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -32,6 +32,10 @@ const char* ogGroupTypeToString(OgGroupType type)
 bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx, 
                 std::string &s)
 {
+  // Handle null pointer
+  if (!group) {
+    return false;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
   // Check that we got something
@@ -66,6 +70,10 @@ bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx,
 
 OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx) 
 {
+  // Handle null pointer
+  if (!group) {
+    return F3DInvalidDataType;
+  }
   // Data type
   OgDataType dataType;
   // Grab data
-- 
2.43.0


From a5b7e6c42b3f98bbf1fd15cb7bb4ce13a39b74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 090/105] fix: unknown field and mapping types aborted the
 program

---
 src/Field3DFile.cpp     | 2 --
 src/Field3DFileHDF5.cpp | 3 ---
 2 files changed, 5 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 17fd8fa..a9f53d5 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -201,7 +201,6 @@ namespace {
     const std::string className = mappingAttr.value();
 
     FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + className);
       return FieldMapping::Ptr();
@@ -225,7 +224,6 @@ namespace {
     ClassFactory &factory = ClassFactory::singleton();
     
     FieldIO::Ptr io = factory.createFieldIO(field->className());
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                  field->className());
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 5da1398..1663da8 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1591,7 +1591,6 @@ bool writeField(hid_t layerGroup, FieldBase::Ptr field)
   ClassFactory &factory = ClassFactory::singleton();
     
   FieldIO::Ptr io = factory.createFieldIO(field->className());
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                field->className());
@@ -1623,7 +1622,6 @@ FieldMapping::Ptr readFieldMapping(hid_t mappingGroup)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
@@ -1654,7 +1652,6 @@ bool writeFieldMapping(hid_t mappingGroup, FieldMapping::Ptr mapping)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
-- 
2.43.0


From 9e220120f4d71b6db053ec3af62e14de2dcfcb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 091/105] fix: FrustumFieldMapping::wsVoxelSize() read past the
 end for fields without voxels

---
 src/FieldMapping.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 02bdb8b..3c51fb7 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -739,6 +739,10 @@ bool FrustumFieldMapping::isIdentical(FieldMapping::Ptr other,
 
 V3d FrustumFieldMapping::wsVoxelSize(int /*i*/, int /*j*/, int k) const
 {
+  // Mappings of no voxels have no voxel size
+  if (m_wsVoxelSize.empty()) {
+    return V3d(0.0);
+  }
   k = std::min(std::max(k, static_cast<int>(m_origin.z)), 
                static_cast<int>(m_origin.z + m_res.z - 1));
   return m_wsVoxelSize[k - static_cast<int>(m_origin.z)];
-- 
2.43.0


From 603da6ea9ac88f8b5963ec068f81b1f1d6b162d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 092/105] fix: sparse fields more than 2^24 voxels wide lacked
 blocks

---
 export/SparseField.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index df9515f..8a61564 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1934,15 +1934,12 @@ SparseField<Data_T>::blockEnd() const
 template <class Data_T>
 void SparseField<Data_T>::setupBlocks()
 {
-  // Do calculation in floating point so we can round up later
-  V3f res(base::m_dataWindow.size() + V3i(1));
-  V3f blockRes(res / (1 << m_blockOrder));
-  blockRes.x = ceil(blockRes.x);
-  blockRes.y = ceil(blockRes.y);
-  blockRes.z = ceil(blockRes.z);
-  V3i intBlockRes(static_cast<int>(blockRes.x),
-                         static_cast<int>(blockRes.y),
-                         static_cast<int>(blockRes.z));
+  // Round up to whole blocks. Floats can't represent all resolutions.
+  const V3i res(base::m_dataWindow.size() + V3i(1));
+  const int blockSize = 1 << m_blockOrder;
+  const V3i intBlockRes(res.x / blockSize + (res.x % blockSize > 0 ? 1 : 0),
+                        res.y / blockSize + (res.y % blockSize > 0 ? 1 : 0),
+                        res.z / blockSize + (res.z % blockSize > 0 ? 1 : 0));
   m_blockRes = intBlockRes;
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
   removeReference();
-- 
2.43.0


From 2d204e4d5b2d3f112978abd22a67f9dfeaa088d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 093/105] fix: Ogawa data of incomplete values was read past
 its memory

---
 include/OgIDataset.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/OgIDataset.h b/include/OgIDataset.h
index ce188fe..a028820 100644
--- a/include/OgIDataset.h
+++ b/include/OgIDataset.h
@@ -185,6 +185,10 @@ OgIDataset<T>::dataSize(const size_t index, const size_t threadId) const
   if (!idata) {
     return OGAWA_INVALID_DATASET_INDEX;
   }
+  // Only whole values can be read
+  if (idata->getSize() % sizeof(T) != 0) {
+    return OGAWA_INVALID_DATASET_INDEX;
+  }
   // Compute its length
   return idata->getSize() / sizeof(T);
 }
-- 
2.43.0


From e940d91ccc753e7d6af295f5727a28cdb810a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 094/105] fix: HDF5 layers written without a partition name got
 the layer's name as partition and vice versa

---
 export/Field3DFileHDF5.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 30a5896..2a21b4e 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -794,13 +794,13 @@ public:
   template <class Data_T>
   bool writeScalarLayer(const std::string &layerName, 
                         typename Field<Data_T>::Ptr layer)
-  { return writeScalarLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeScalarLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a vector layer to the "Default" partition.
   template <class Data_T>
   bool writeVectorLayer(const std::string &layerName, 
                         typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr layer)
-  { return writeVectorLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeVectorLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a layer to a specific partition. The partition will be created if
   //! not specified.
-- 
2.43.0


From 5eae0494f80dc0882859bbeefb6952a0d98ea91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 095/105] fix: layers got the mapping of another layer if a
 mapping changed between writes

---
 export/Field3DFileHDF5.h | 5 +++--
 src/Field3DFile.cpp      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 2a21b4e..7f95fc0 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1427,8 +1427,9 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
 
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
-  // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  // additions to the same partition are checked to have the same mapping.
+  // We need a copy, since the field's mapping may change later on.
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index a9f53d5..1a3eb34 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1402,8 +1402,9 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
 
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
-  // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  // additions to the same partition are checked to have the same mapping.
+  // We need a copy, since the field's mapping may change later on.
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
-- 
2.43.0


From 9fc4214c3e6be4afeb71d16879098b2332583d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 096/105] fix: sparse fields with blocks that couldn't be
 compressed were reported as written, or never finished

---
 src/SparseFieldIO.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index c940839..b11f7a6 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -278,7 +278,8 @@ struct ThreadingState
       numBlocks(i_numBlocks),
       isAllocated(i_isAllocated), 
       nextBlockToCompress(0),
-      nextBlockToWrite(0)
+      nextBlockToWrite(0),
+      failed(false)
   { 
     // Find first in-use block
     for (size_t i = 0; i < numBlocks; ++i) {
@@ -304,6 +305,18 @@ struct ThreadingState
     boost::mutex::scoped_lock lock(writeMutex);
     nextBlockToWrite = blockIdx;
   }
+  //! Records that a block couldn't be written, and lets all threads finish
+  void fail()
+  {
+    boost::mutex::scoped_lock lock(writeMutex);
+    failed = true;
+  }
+  //! Whether a block couldn't be written
+  bool hasFailed()
+  {
+    boost::mutex::scoped_lock lock(writeMutex);
+    return failed;
+  }
   // Data members
   OgOCDataset<Data_T> &data;
   const SparseField<Data_T> &field;
@@ -313,6 +326,7 @@ struct ThreadingState
   const std::vector<uint8_t> isAllocated;
   size_t nextBlockToCompress;
   size_t nextBlockToWrite;
+  bool failed;
   // Mutexes
   boost::mutex compressMutex;
   boost::mutex writeMutex;
@@ -332,6 +346,19 @@ public:
     m_cache.resize(cmpLenBound);
   }
   void operator() ()
+  {
+    // Exceptions must not leave the thread
+    try {
+      writeBlocks();
+    }
+    catch (std::exception &e) {
+      Msg::print(Msg::SevWarning, "Couldn't write block: " + 
+                 std::string(e.what()));
+      m_state.fail();
+    }
+  }
+private:
+  void writeBlocks()
   {
     const int level = 1;
     // Get next block to compress
@@ -369,10 +396,14 @@ public:
                     << "  srcLen: " << srcLen << std::endl
                     << "  cmpLenBound: " << cmpLenBound << std::endl
                     << "  cmpLen: " << cmpLen << std::endl;
+          m_state.fail();
           return;
         }
         // Wait to write data
         while (!m_state.isNextToWrite(blockIdx)) {
+          if (m_state.hasFailed()) {
+            return;
+          }
           // Spin
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
@@ -400,7 +431,6 @@ public:
       }
     }
   }
-private:
   // Data members ---
   ThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
@@ -1245,6 +1275,9 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
       threads.create_thread(WriteBlockOp<Data_T>(state, i));
     }
     threads.join_all();
+    if (state.failed) {
+      return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 34d837fd95fe00f1cfc27eee2859a6a3fabb6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 097/105] fix: errors when writing files ended the program or
 weren't reported

---
 export/Field3DFile.h     | 39 ++++++++---------
 export/Field3DFileHDF5.h |  5 ++-
 export/FieldIO.h         |  4 ++
 include/MACFieldIO.h     |  4 ++
 include/OArchive.h       |  6 +++
 include/OStream.h        |  7 +++
 src/Field3DFile.cpp      | 93 +++++++++++++++++++++++++++++++++-------
 src/Field3DFileHDF5.cpp  | 15 ++++---
 src/OArchive.cpp         | 10 +++++
 src/OStream.cpp          | 32 +++++++++++---
 10 files changed, 165 insertions(+), 50 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index f065ee3..64c76f6 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -246,6 +246,8 @@ public:
   //! Closes the file. No need to call this unless you specifically want to
   //! close the file early. It will close once the File object goes out of 
   //! scope.
+  //! \returns Whether successful. When writing, false means that the file is
+  //! not complete.
   bool close();
 
   //! \name Retreiving partition and layer names
@@ -322,7 +324,8 @@ protected:
   { return partition(partitionName); }
 
   //! Closes the file if open.
-  virtual void closeInternal() = 0;
+  //! \returns Whether successful
+  virtual bool closeInternal() = 0;
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   File::Partition::Ptr partition(const std::string &partitionName);
@@ -544,14 +547,14 @@ private:
 
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
 
     cleanup();
+    return true;
   }
 
   void cleanup()
@@ -702,6 +705,12 @@ public:
   template <class Data_T>
   bool writeLayer(typename Field<Data_T>::Ptr layer)
   { 
+    // Null pointer check
+    if (!layer) {
+      Msg::print(Msg::SevWarning,
+                 "Called writeLayer with null pointer. Ignoring...");
+      return false;
+    }
     return writeLayer<Data_T>(layer->name, layer->attribute, layer); 
   }
 
@@ -793,27 +802,17 @@ private:
   
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
-    cleanup();
+    return cleanup();
   }
 
-  void cleanup()
-  {
-    // The destruction of the various Ogawa components must happen in the
-    // right order
-    
-    // First, the partition groups
-    m_partitions.clear();
-    // Then the root group
-    m_root.reset();
-    // Finally, the archive
-    m_archive.reset();
-  }
+  //! Writes what is left to write and closes the Ogawa archive
+  //! \returns Whether everything has been written
+  bool cleanup();
 
   // Convenience methods -------------------------------------------------------
 
diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 7f95fc0..5696c4f 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -275,6 +275,8 @@ public:
   //! Closes the file. No need to call this unless you specifically want to
   //! close the file early. It will close once the FileHDF5 object goes out of 
   //! scope.
+  //! \returns Whether successful. When writing, false means that the file is
+  //! not complete.
   bool close();
 
   //! \name Retreiving partition and layer names
@@ -352,7 +354,8 @@ protected:
   //! \{
 
   //! Closes the file if open.
-  void closeInternal();
+  //! \returns Whether successful
+  bool closeInternal();
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   FileHDF5::Partition::Ptr partition(const std::string &partitionName);
diff --git a/export/FieldIO.h b/export/FieldIO.h
index acf1276..fc0b454 100644
--- a/export/FieldIO.h
+++ b/export/FieldIO.h
@@ -135,6 +135,10 @@ public:
   //! \returns Whether the operation was successful
   virtual bool write(OgOGroup &layerGroup, FieldBase::Ptr field) = 0;
 
+  //! Whether fields of this class can be written to Ogawa groups
+  virtual bool supportsOgawa() const
+  { return true; }
+
  //! Returns the class name. This is used when registering the class to the
   //! FieldIOFactory object.
   virtual std::string className() const = 0;
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 37c205f..583db90 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -133,6 +133,10 @@ public:
   //! \return true if successful, otherwise false
   virtual bool write(OgOGroup &layerGroup, FieldBase::Ptr field);
 
+  //! MAC fields can't be written to Ogawa groups
+  virtual bool supportsOgawa() const
+  { return false; }
+
   //! Returns the class name
   virtual std::string className() const
   { return "MACField"; }
diff --git a/include/OArchive.h b/include/OArchive.h
index f6f9370..653cb49 100644
--- a/include/OArchive.h
+++ b/include/OArchive.h
@@ -55,6 +55,12 @@ public:
 
     bool isValid();
 
+    // whether everything so far has been written
+    bool isGood();
+
+    // the stream the archive is written to
+    OStreamPtr getStream();
+
 private:
     OStreamPtr mStream;
     OGroupPtr mGroup;
diff --git a/include/OStream.h b/include/OStream.h
index 9c10cb9..aa0097f 100644
--- a/include/OStream.h
+++ b/include/OStream.h
@@ -53,6 +53,13 @@ public:
 
     bool isValid();
 
+    // whether everything so far has been written
+    bool isGood();
+
+    // marks the stream as complete, if everything has been written. Returns
+    // whether it has. Nothing may be written afterwards.
+    bool finish();
+
     Alembic::Util::uint64_t getAndSeekEndPos();
     void write(const void * iBuf, Alembic::Util::uint64_t iSize);
     void seek(Alembic::Util::uint64_t iPos);
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 1a3eb34..0412259 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -631,9 +631,7 @@ bool Field3DFileBase::close()
     return m_hdf5Base->close();
   }
 
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
@@ -981,6 +979,30 @@ Field3DOutputFile::~Field3DOutputFile()
 
 //----------------------------------------------------------------------------//
 
+bool Field3DOutputFile::cleanup()
+{
+  // The stream is needed after the archive is gone, to tell whether everything
+  // has been written
+  Alembic::Ogawa::OStreamPtr stream;
+  if (m_archive) {
+    stream = m_archive->getStream();
+  }
+
+  // The destruction of the various Ogawa components must happen in the
+  // right order
+    
+  // First, the partition groups
+  m_partitions.clear();
+  // Then the root group
+  m_root.reset();
+  // Finally, the archive
+  m_archive.reset();
+
+  return !stream || stream->finish();
+}
+
+//----------------------------------------------------------------------------//
+
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
   // Let go of any previous file, which may have been of the other format
@@ -1016,6 +1038,13 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
   OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
                                     k_currentFileVersion);
 
+  // Check that it could be written
+  if (!m_archive->isGood()) {
+    Msg::print(Msg::SevWarning, "Couldn't write to file: " + filename);
+    cleanup();
+    return false;
+  }
+
   return true;
 }
 
@@ -1248,13 +1277,20 @@ Field3DOutputFile::writeGlobalMetadata()
     return m_hdf5->writeGlobalMetadata();
   }
 
+  // Make sure archive is open
+  if (!m_archive) {
+    Msg::print(Msg::SevWarning, 
+               "Attempting to write metadata without opening file first.");
+    return false;
+  }
+
   OgOGroup ogMetadata(*m_root, "field3d_global_metadata");
   if (!writeMetadata(ogMetadata)) {
     Msg::print(Msg::SevWarning, "Error writing file metadata.");
     return false;
   } 
  
-  return true;
+  return m_archive->isGood();
 }
 
 //----------------------------------------------------------------------------//
@@ -1375,11 +1411,6 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   boost::shared_ptr<OgOGroup> ogPartition(new OgOGroup(*m_root, newPart->name));
   newPart->setGroup(ogPartition);
 
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  File::Partition::Ptr part = partition(partitionName);
-  
   // Add mapping group to the partition
   try {
     if (!writeMapping(*ogPartition, field->mapping())) {
@@ -1404,13 +1435,15 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping.
   // We need a copy, since the field's mapping may change later on.
-  part->mapping = field->mapping()->clone();
+  newPart->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
   OgOAttribute<string>(*ogPartition, "is_field3d_partition", "1");
 
-  return part;
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
@@ -1449,6 +1482,21 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // Check that the field can be written, so that the file doesn't list it 
+  // otherwise
+  ClassFactory &factory = ClassFactory::singleton();
+  FieldIO::Ptr io = factory.createFieldIO(field->className());
+  if (!io || !io->supportsOgawa()) {
+    Msg::print(Msg::SevWarning, "Unable to write fields of class type: " + 
+               field->className());
+    return false;
+  }
+  if (!factory.createFieldMappingIO(field->mapping()->className())) {
+    Msg::print(Msg::SevWarning, "Unable to write mappings of class type: " + 
+               field->mapping()->className());
+    return false;
+  }
+
   // Get the partition name
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
@@ -1513,6 +1561,10 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
 
   OgOGroup ogLayer(ogPartition, layerName);
 
+  // Add to partition. The name is in use from here on, even if the layer can't 
+  // be written.
+  part->addLayer(layer);
+
   // Tag as layer
   OgOAttribute<string> classType(ogLayer, "class_type", "field3d_layer");
 
@@ -1527,14 +1579,23 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   }
 
   // Write field data
-  if (!writeField(ogLayer, field)) {
-    Msg::print(Msg::SevWarning, "Error writing layer \"" + layerName + "\"");
+  try {
+    if (!writeField(ogLayer, field)) {
+      Msg::print(Msg::SevWarning, "Error writing layer \"" + layerName + "\"");
+      return false;
+    }
+  }
+  catch (std::exception &e) {
+    Msg::print(Msg::SevWarning, "Error writing layer \"" + layerName + "\": "
+               + string(e.what()));
     return false;
   }
 
-  // Add to partition
-
-  part->addLayer(layer);
+  if (!m_archive->isGood()) {
+    Msg::print(Msg::SevWarning, "Couldn't write layer \"" + layerName 
+               + "\" to file");
+    return false;
+  }
 
   return true;
 }
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 1663da8..3f32f38 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -495,24 +495,25 @@ void Field3DFileHDF5Base::clear()
 
 bool Field3DFileHDF5Base::close()
 {
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
 
-void Field3DFileHDF5Base::closeInternal()
+bool Field3DFileHDF5Base::closeInternal()
 {
   GlobalLock lock(g_hdf5Mutex);
 
   if (m_file != -1) {
-    if (H5Fclose(m_file) < 0) {
+    const bool success = H5Fclose(m_file) >= 0;
+    m_file = -1;
+    if (!success) {
       Msg::print(Msg::SevWarning, "Failed to close hdf5 file handle");
-      return;
+      return false;
     }    
-    m_file = -1;
   }
+
+  return true;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/OArchive.cpp b/src/OArchive.cpp
index 11d79c6..8dcd04c 100644
--- a/src/OArchive.cpp
+++ b/src/OArchive.cpp
@@ -61,6 +61,16 @@ bool OArchive::isValid()
     return mStream->isValid();
 }
 
+bool OArchive::isGood()
+{
+    return mStream->isGood();
+}
+
+OStreamPtr OArchive::getStream()
+{
+    return mStream;
+}
+
 OGroupPtr OArchive::getGroup()
 {
     return mGroup;
diff --git a/src/OStream.cpp b/src/OStream.cpp
index 7b11d94..b38f4ca 100644
--- a/src/OStream.cpp
+++ b/src/OStream.cpp
@@ -45,15 +45,16 @@ class OStream::PrivateData
 {
 public:
     PrivateData(const std::string & iFileName) :
-        stream(NULL), fileName(iFileName), startPos(0)
+        stream(NULL), fileName(iFileName), startPos(0), finished(false)
     {
         std::ofstream * filestream = new std::ofstream(fileName.c_str(),
             std::ios_base::trunc | std::ios_base::binary);
         if (filestream->is_open())
         {
+            // Errors are sticky: nothing is written to the file after
+            // the first one, and isGood() tells about it. Groups are written
+            // by their destructors, so exceptions would end the program.
             stream = filestream;
-            stream->exceptions ( std::ofstream::failbit |
-                                 std::ofstream::badbit );
         }
         else
         {
@@ -62,7 +63,8 @@ public:
         }
     }
 
-    PrivateData(std::ostream * iStream) : stream(iStream), startPos(0)
+    PrivateData(std::ostream * iStream) : stream(iStream), startPos(0),
+        finished(false)
     {
         if (stream)
         {
@@ -94,6 +96,7 @@ public:
     std::ostream * stream;
     std::string fileName;
     Alembic::Util::uint64_t startPos;
+    bool finished;
     Alembic::Util::mutex lock;
 };
 
@@ -111,12 +114,25 @@ OStream::OStream(std::ostream * iStream) : mData(new PrivateData(iStream))
 
 OStream::~OStream()
 {
-    // write our "frozen" byte (totally done writing)
-    if (isValid())
+    finish();
+}
+
+bool OStream::finish()
+{
+    // write our "frozen" byte (totally done writing), unless something is
+    // missing
+    if (isGood() && !mData->finished)
     {
         char frozen = 0xff;
         mData->stream->seekp(mData->startPos + 5).write(&frozen, 1).flush();
+        mData->finished = true;
     }
+    return isGood();
+}
+
+bool OStream::isGood()
+{
+    return isValid() && mData->stream->good();
 }
 
 bool OStream::isValid()
@@ -158,6 +174,10 @@ Alembic::Util::uint64_t OStream::getAndSeekEndPos()
         Alembic::Util::scoped_lock l(mData->lock);
         Alembic::Util::uint64_t lastp =
             mData->stream->seekp(0, std::ios_base::end).tellp();
+        if (!mData->stream->good())
+        {
+            return 0;
+        }
         if (lastp == INVALID_DATA || lastp < mData->startPos)
         {
             throw std::runtime_error(
-- 
2.43.0


From a93f0a4bb23c1b915077cb8f42a62ff6132e6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 098/105] fix: HDF5 layers and partitions that couldn't be
 written were reported as written, or kept the file from opening

---
 export/Field3DFileHDF5.h | 43 ++++++++++++++++++++++++++++++----------
 export/Hdf5Util.h        | 40 ++++++++++++++++++++++++++++++++++---
 include/MACFieldIO.h     |  3 +--
 src/DenseFieldIO.cpp     |  2 +-
 src/SparseFieldIO.cpp    |  4 ++++
 5 files changed, 75 insertions(+), 17 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 5696c4f..009ed8e 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1400,15 +1400,11 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
                "Error creating partition: " + newPart->name);
     return FileHDF5::Partition::Ptr();
   } 
-    
-  m_partitions.push_back(newPart);
 
-  // Pick up new pointer
-  FileHDF5::Partition::Ptr  part = partition(partitionName);
-  
+  // The group is removed again if it can't be written
+  ScopedLinkRemoval removal(m_file, newPart->name);
+    
   // Add mapping group to the partition
-  //! \todo We should probably remove the group on disk if we can't write
-  //! the mapping
   try {
     if (!writeMapping(partGroup.id(), field->mapping())) {
       Msg::print(Msg::SevWarning, 
@@ -1432,7 +1428,7 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping.
   // We need a copy, since the field's mapping may change later on.
-  part->mapping = field->mapping()->clone();
+  newPart->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
@@ -1441,7 +1437,10 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();    
   }
 
-  return part;
+  removal.cancel();
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
@@ -1544,6 +1543,9 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // The group is removed again if it can't be written
+  ScopedLinkRemoval removal(partGroup.id(), layerName);
+
   // Tag as layer
   if (!writeAttribute(layerGroup.id(), "class_type", "field3d_layer")) {
     Msg::print(Msg::SevWarning, "Error adding layer string.");
@@ -1561,10 +1563,19 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }    
 
-  if (!writeField(layerGroup.id(), field)) {
-    Msg::print(Msg::SevWarning, "Error writing layer: " + layer.name);
+  try {
+    if (!writeField(layerGroup.id(), field)) {
+      Msg::print(Msg::SevWarning, "Error writing layer: " + layer.name);
+      return false;
+    }
+  }
+  catch (std::exception &e) {
+    Msg::print(Msg::SevWarning, "Error writing layer: " + layer.name + ": " + 
+               string(e.what()));
     return false;
   }
+
+  removal.cancel();
   
   // Add layer to partition ---
 
@@ -1593,6 +1604,11 @@ template <class Data_T>
 bool 
 Field3DOutputFileHDF5::writeScalarLayer(typename Field<Data_T>::Ptr layer)
 {
+  if (!layer) {
+    Msg::print(Msg::SevWarning, "Field3DOutputFileHDF5::writeScalarLayer: "
+               "Called with null pointer. Ignoring...");
+    return false;
+  }
   if (layer->name.size() == 0) {
     Msg::print(Msg::SevWarning, "Field3DOutputFileHDF5::writeScalarLayer: "
                "Tried to write a scalar layer with no name");
@@ -1626,6 +1642,11 @@ bool
 Field3DOutputFileHDF5::writeVectorLayer
   (typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr layer)
 {
+  if (!layer) {
+    Msg::print(Msg::SevWarning, "Field3DOutputFileHDF5::writeVectorLayer: "
+               "Called with null pointer. Ignoring...");
+    return false;
+  }
   if (layer->name.size() == 0) {
     Msg::print(Msg::SevWarning, "Field3DOutputFileHDF5::writeVectorLayer: "
                "Tried to write a vector layer with no name");
diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 55e970e..f0130e9 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -54,6 +54,7 @@
 #include <vector>
 
 #include <boost/lexical_cast.hpp>
+#include <boost/noncopyable.hpp>
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/recursive_mutex.hpp>
 
@@ -277,11 +278,44 @@ public:
                      lcpl_id, dcpl_id, dapl_id);
   }
   ~H5ScopedDcreate()
+  {
+    close();
+  }
+  //! Closes the dataset, which may still have to be written to disk.
+  //! \returns Whether successful
+  bool close()
   {
     GlobalLock lock(g_hdf5Mutex);
-    if (m_id >= 0)
-      H5Dclose(m_id);
+    const bool success = m_id < 0 || H5Dclose(m_id) >= 0;
+    m_id = -1;
+    return success;
+  }
+};
+
+//----------------------------------------------------------------------------//
+
+//! Scoped object - removes a group on destruction, unless cancelled. 
+//! \ingroup hdf5
+class ScopedLinkRemoval : boost::noncopyable
+{
+public:
+  ScopedLinkRemoval(hid_t parentLocation, const std::string &name)
+    : m_parentLocation(parentLocation), m_name(name), m_cancelled(false)
+  { /* Empty */ }
+  ~ScopedLinkRemoval()
+  {
+    if (!m_cancelled) {
+      GlobalLock lock(g_hdf5Mutex);
+      H5Ldelete(m_parentLocation, m_name.c_str(), H5P_DEFAULT);
+    }
   }
+  //! Keeps the group
+  void cancel()
+  { m_cancelled = true; }
+private:
+  const hid_t       m_parentLocation;
+  const std::string m_name;
+  bool              m_cancelled;
 };
 
 //----------------------------------------------------------------------------//
@@ -606,7 +640,7 @@ void writeSimpleData(hid_t location, const std::string &name,
   hid_t err = H5Dwrite(dataSet.id(), type, H5S_ALL, H5S_ALL, 
                        H5P_DEFAULT, &data[0]);
 
-  if (err < 0) 
+  if (err < 0 || !dataSet.close()) 
     throw WriteSimpleDataException("Couldn't write data");
 }
 
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 583db90..c87fc14 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -315,8 +315,7 @@ bool MACFieldIO::writeData(hid_t layerGroup,
     throw Exc::WriteLayerException("Error writing layer in "
                                    "MACFieldIO::writeData");
 
-
-  return true;
+  return dataSet.close();
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 011e580..f672420 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -505,7 +505,7 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
     throw WriteLayerException("Error writing layer");
   }
 
-  return true; 
+  return dataSet.close(); 
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index b11f7a6..19117bd 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -1184,6 +1184,10 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
       }
     }
 
+    if (!dataSet.close()) {
+      return false;
+    }
+
   } // if occupiedBlocks > 0
 
   return true; 
-- 
2.43.0


From 50e454836e6f1797af97c4959d567a434c634c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 099/105] fix: fields of more voxels or blocks than can be held
 were set up with less memory than they use

Sizes were computed with overflow. setSize() throws MemoryException now, as it does when memory runs out, and staggered fields can have more than 2^31 values per component.
---
 export/DenseField.h  |  8 ++++++++
 export/MACField.h    | 19 +++++++++++++------
 export/SparseField.h | 23 ++++++++++++++++++++---
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/export/DenseField.h b/export/DenseField.h
index 740a663..18be861 100644
--- a/export/DenseField.h
+++ b/export/DenseField.h
@@ -661,6 +661,14 @@ void DenseField<Data_T>::sizeChanged()
                                boost::lexical_cast<std::string>(
                                  base::m_dataWindow.max));
 
+  // The number of voxels may be more than can be addressed
+  const double numVoxels = 
+    static_cast<double>(m_memSize.x) * m_memSize.y * m_memSize.z;
+  if (numVoxels >= static_cast<double>(m_data.max_size())) {
+    throw Exc::MemoryException("Couldn't allocate DenseField of size " + 
+                               boost::lexical_cast<std::string>(m_memSize));
+  }
+
   // Allocate memory
   try {
     std::vector<Data_T>().swap(m_data);
diff --git a/export/MACField.h b/export/MACField.h
index 636149e..e872968 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -310,17 +310,17 @@ public:
   std::vector<real_t> m_w;
 
   //! Size of U grid along each axis
-  V3i m_uSize;
+  FIELD3D_VEC3_T<size_t> m_uSize;
   //! Size of xy slice for u component
-  int m_uSizeXY;
+  size_t m_uSizeXY;
   //! Size of V grid along each axis
-  V3i m_vSize;
+  FIELD3D_VEC3_T<size_t> m_vSize;
   //! Size of xy slice for v component
-  int m_vSizeXY;
+  size_t m_vSizeXY;
   //! Size of W grid along each axis
-  V3i m_wSize;
+  FIELD3D_VEC3_T<size_t> m_wSize;
   //! Size of xy slice for w component
-  int m_wSizeXY;
+  size_t m_wSizeXY;
 
   //! Dummy storage of a temp value that lvalue() can write to
   mutable Data_T m_dummy;
@@ -678,6 +678,13 @@ void MACField<Data_T>::sizeChanged()
   m_vSizeXY = m_vSize.x * m_vSize.y;
   m_wSizeXY = m_wSize.x * m_wSize.y;
 
+  // The number of values may be more than can be addressed
+  const double maxSize = static_cast<double>(m_u.max_size());
+  if ((baseSize.x + 1.0) * (baseSize.y + 1.0) * (baseSize.z + 1.0) >= maxSize) {
+    throw Exc::MemoryException("Couldn't allocate MACField of size " + 
+                               boost::lexical_cast<std::string>(baseSize));
+  }
+
   // Allocate memory
   try {
     m_u.resize(m_uSize.x * m_uSize.y * m_uSize.z);
diff --git a/export/SparseField.h b/export/SparseField.h
index 8a61564..1cd4e34 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -46,6 +46,7 @@
 
 //----------------------------------------------------------------------------//
 
+#include <limits>
 #include <vector>
 
 #include <boost/thread/mutex.hpp>
@@ -1940,14 +1941,30 @@ void SparseField<Data_T>::setupBlocks()
   const V3i intBlockRes(res.x / blockSize + (res.x % blockSize > 0 ? 1 : 0),
                         res.y / blockSize + (res.y % blockSize > 0 ? 1 : 0),
                         res.z / blockSize + (res.z % blockSize > 0 ? 1 : 0));
-  m_blockRes = intBlockRes;
-  m_blockXYSize = m_blockRes.x * m_blockRes.y;
   removeReference();
   if (m_blocks) {
     delete[] m_blocks;
+    m_blocks = NULL;
+  }
+  m_numBlocks = 0;
+  // Blocks are indexed by ints
+  const double numBlocks = 
+    static_cast<double>(intBlockRes.x) * intBlockRes.y * intBlockRes.z;
+  if (numBlocks > std::numeric_limits<int>::max()) {
+    throw Exc::MemoryException("Couldn't allocate SparseField of size " + 
+                               boost::lexical_cast<std::string>(res));
+  }
+  // Allocate memory
+  try {
+    m_blocks = new Block[static_cast<size_t>(numBlocks)];
   }
+  catch (std::bad_alloc &) {
+    throw Exc::MemoryException("Couldn't allocate SparseField of size " + 
+                               boost::lexical_cast<std::string>(res));
+  }
+  m_blockRes = intBlockRes;
+  m_blockXYSize = m_blockRes.x * m_blockRes.y;
   m_numBlocks = intBlockRes.x * intBlockRes.y * intBlockRes.z;
-  m_blocks = new Block[m_numBlocks];
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 81d75ad33c815a631aa650ec5f48db0c8436bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 100/105] fix: metadata with a slash in its name was lost in
 Ogawa files

---
 src/OgIGroup.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7884102..887a163 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -84,11 +84,7 @@ OgIGroup::findGroup(const std::string &path,
   if (!isValid()) {
     return Alembic::Ogawa::IGroupPtr();
   }
-  // Check for recursive finding
-  if (path.find("/") != std::string::npos) {
-    return recursiveFindGroup(path, groupType);
-  }
-  // Not recursive, just a single group name
+  // First look for a child of that very name
   const std::string &name = path;
   // If it's valid, we know we have at least 2 children.
   // Check all children
@@ -127,6 +123,10 @@ OgIGroup::findGroup(const std::string &path,
       return group;
     }
   }
+  // Check for recursive finding
+  if (path.find("/") != std::string::npos) {
+    return recursiveFindGroup(path, groupType);
+  }
   // Didn't find one
   return Alembic::Ogawa::IGroupPtr();
 }
-- 
2.43.0


From 951022fbfb426e272ccc0df98588f48c039a6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 101/105] fix: metadata of one name but several types was lost
 in Ogawa files

---
 include/OgIGroup.h | 13 +++++++++----
 src/OgIGroup.cpp   | 17 +++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/OgIGroup.h b/include/OgIGroup.h
index d9e3875..bceda15 100644
--- a/include/OgIGroup.h
+++ b/include/OgIGroup.h
@@ -97,13 +97,17 @@ private:
 
   // Utility methods -----------------------------------------------------------
 
-  //! Finds an ogawa-level group
+  //! Finds an ogawa-level group. If a data type is given, groups (attributes)
+  //! of other data types are passed over.
   Alembic::Ogawa::IGroupPtr findGroup(const std::string &name,
-                                      const OgGroupType groupType) const;
+                                      const OgGroupType groupType,
+                                      const OgDataType dataType = 
+                                      F3DInvalidDataType) const;
 
   //! Recursively finds an ogawa-level group
   Alembic::Ogawa::IGroupPtr recursiveFindGroup
-  (const std::string &name, const OgGroupType groupType) const;
+  (const std::string &name, const OgGroupType groupType, 
+   const OgDataType dataType) const;
 
   //! Retrieves list of ogawa-level groups of the given type
   std::vector<std::string>  groupNames(const OgGroupType groupType) const;
@@ -120,7 +124,8 @@ private:
 template <typename T>
 OgIAttribute<T> OgIGroup::findAttribute(const std::string &name) const
 {
-  Alembic::Ogawa::IGroupPtr group = findGroup(name, F3DAttributeType);
+  Alembic::Ogawa::IGroupPtr group = 
+    findGroup(name, F3DAttributeType, OgawaTypeTraits<T>::typeEnum());
 
   if (group) {
     return OgIAttribute<T>(group);
diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 887a163..189f814 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -78,7 +78,8 @@ OgIGroup OgIGroup::findGroup(const std::string &name) const
 
 Alembic::Ogawa::IGroupPtr 
 OgIGroup::findGroup(const std::string &path,
-                    const OgGroupType groupType) const
+                    const OgGroupType groupType,
+                    const OgDataType dataType) const
 {
   // If not valid, return non-valid group
   if (!isValid()) {
@@ -118,14 +119,17 @@ OgIGroup::findGroup(const std::string &path,
       // This is not an error.
       continue;
     }
-    // Check if name matches
-    if (groupName == name) {
+    // Check if name matches, and the data type where one was asked for
+    if (groupName == name &&
+        (dataType == F3DInvalidDataType || 
+         (group->getNumChildren() > 2 && 
+          readDataType(group, 2) == dataType))) {
       return group;
     }
   }
   // Check for recursive finding
   if (path.find("/") != std::string::npos) {
-    return recursiveFindGroup(path, groupType);
+    return recursiveFindGroup(path, groupType, dataType);
   }
   // Didn't find one
   return Alembic::Ogawa::IGroupPtr();
@@ -135,7 +139,8 @@ OgIGroup::findGroup(const std::string &path,
 
 Alembic::Ogawa::IGroupPtr 
 OgIGroup::recursiveFindGroup(const std::string &path,
-                             const OgGroupType groupType) const
+                             const OgGroupType groupType,
+                             const OgDataType dataType) const
 {
   // If not valid, return non-valid group
   if (!isValid()) {
@@ -180,7 +185,7 @@ OgIGroup::recursiveFindGroup(const std::string &path,
     // Check if name matches
     if (groupName == name) {
       OgIGroup subGroup(group);
-      return subGroup.findGroup(restOfPath, groupType);
+      return subGroup.findGroup(restOfPath, groupType, dataType);
     }
   }
   // Didn't find one
-- 
2.43.0


From 22e09bbb78f80c7a22db42c1625a9d7342abf766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 102/105] fix: strings in Ogawa files were cut at their first
 zero character when read

---
 src/OgUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index 9a0ff99..d8d46c8 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -60,8 +60,8 @@ bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx,
   if (!data->read(length, &temp[0], 0, OGAWA_THREAD)) {
     return false;
   }
-  // Construct string. The string see the temp buffer as a const char *.
-  s = std::string(&temp[0]);
+  // Construct string. It may hold zero characters.
+  s = std::string(&temp[0], stringLength);
   // Done
   return true;
 }
-- 
2.43.0


From 7ff89313aad48d6c53c89ab3a15da36a80b32772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 103/105] fix: HDF5 attributes with zero characters were
 written cut off, and reported as written

---
 src/Hdf5Util.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/Hdf5Util.cpp b/src/Hdf5Util.cpp
index 093e00e..be32a1a 100644
--- a/src/Hdf5Util.cpp
+++ b/src/Hdf5Util.cpp
@@ -70,6 +70,26 @@ boost::recursive_mutex g_hdf5Mutex;
 
 namespace Hdf5Util {
 
+//----------------------------------------------------------------------------//
+// Local helpers
+//----------------------------------------------------------------------------//
+
+namespace {
+
+//! Names and values of attributes end at their first zero character. What has
+//! one can't be stored.
+bool isStorable(const string &s)
+{
+  if (s.find('\0') == string::npos)
+    return true;
+
+  Msg::print(Msg::SevWarning, "Attribute name or value has a zero character: "
+             + string(s.c_str()));
+  return false;
+}
+
+}
+
 //----------------------------------------------------------------------------//
 // Implementations
 //----------------------------------------------------------------------------//
@@ -374,6 +394,10 @@ writeAttribute(hid_t location, const string& attrName, const string &value)
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  if (!isStorable(attrName) || !isStorable(value)) {
+    return false;
+  }
+
   hid_t attr = -1;
   hid_t attrSpace;
   hid_t attrType;
@@ -428,6 +452,10 @@ writeAttribute(hid_t location, const string &attrName,
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  if (!isStorable(attrName)) {
+    return false;
+  }
+
   hid_t attr;
   hid_t attrSpace;
   hsize_t dims[1];
@@ -471,6 +499,10 @@ writeAttribute(hid_t location, const string& attrName,
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  if (!isStorable(attrName)) {
+    return false;
+  }
+
   hid_t attr;
   hid_t attrSpace;
   hsize_t dims[1];
@@ -514,6 +546,10 @@ writeAttribute(hid_t location, const string& attrName,
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  if (!isStorable(attrName)) {
+    return false;
+  }
+
   hid_t attr;
   hid_t attrSpace;
   hsize_t dims[1];
@@ -558,6 +594,10 @@ writeAttribute(hid_t location, const string& attrName,
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  if (!isStorable(attrName)) {
+    return false;
+  }
+
   hid_t attr;
   hid_t attrSpace;
   size_t rank = attrSize.size();
@@ -610,6 +650,10 @@ writeAttribute(hid_t location, const string& attrName,
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  if (!isStorable(attrName)) {
+    return false;
+  }
+
   hid_t attr;
   hid_t attrSpace;
   size_t rank = attrSize.size();
@@ -662,6 +706,10 @@ writeAttribute(hid_t location, const string& attrName,
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  if (!isStorable(attrName)) {
+    return false;
+  }
+
   hid_t attr;
   hid_t attrSpace;
   size_t rank = attrSize.size();
-- 
2.43.0


From 5bcb7df39568102a52415b5d892debfd837f3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 104/105] fix: HDF5 layers whose names hold a zero character
 were written under cut names

---
 export/Field3DFileHDF5.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 009ed8e..8151650 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1472,7 +1472,9 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
 
   // Check that the layer can be found again. A slash separates groups.
   if (layerName.empty() || layerName.find('/') != string::npos ||
-      userPartitionName.find('/') != string::npos) {
+      userPartitionName.find('/') != string::npos ||
+      layerName.find('\0') != string::npos ||
+      userPartitionName.find('\0') != string::npos) {
     Msg::print(Msg::SevWarning, 
                "Can't write a layer called \"" + layerName 
                + "\" to partition \"" + userPartitionName + "\"");
-- 
2.43.0


From 65a0b6bd43f2b15369710426931e20e9adc763db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 105/105] fix: minima and maxima of infinite and very large
 voxels were wrong, and of the largest ones zero

---
 export/MIPUtil.h  | 5 +++--
 export/Resample.h | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 3061550..7b4712a 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -259,6 +259,7 @@ namespace detail {
                   startSrc     = std::max(startSrc, srcDw.min[m_dim]);
                   endSrc       = std::min(endSrc, srcDw.max[m_dim]);
                   // Loop over source voxels
+                  bool hasValue = false;
                   for (int s = startSrc; s <= endSrc; ++s) {
                     // Source index
                     const int xIdx = m_dim == 0 ? s : i;
@@ -274,11 +275,11 @@ namespace detail {
                     // Update
                     if (weight > 0.0f) {
                       FilterOp_T::op(accumValue, value);
+                      hasValue = true;
                     }
                   }
                   // Update final value
-                  if (accumValue != 
-                      static_cast<Value_T>(m_filterOp.initialValue())) {
+                  if (hasValue) {
                     m_tgt.fastLValue(i, j, k) = accumValue;
                   }
                 } else {
diff --git a/export/Resample.h b/export/Resample.h
index 0bc6d04..436d0ad 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -183,7 +183,7 @@ struct MinFilter : public Filter
   }
   virtual float initialValue() const
   {
-    return std::numeric_limits<float>::max();
+    return std::numeric_limits<float>::infinity();
   }
 
   template <typename T>
@@ -240,7 +240,7 @@ struct MaxFilter : public Filter
   }
   virtual float initialValue() const
   {
-    return -std::numeric_limits<float>::max();
+    return -std::numeric_limits<float>::infinity();
   }
 
 
@@ -448,6 +448,7 @@ namespace detail {
             srcInterval.second = 
               std::min(srcInterval.second, src.dataWindow().max[dim]);
             // For each input voxel
+            bool hasValue = false;
             for (int s = srcInterval.first; s <= srcInterval.second; ++s) {
               // Index
               const int xIdx = dim == 0 ? s : i;
@@ -462,10 +463,11 @@ namespace detail {
               // Update
               if (weight > 0.0f) {
                 FilterOp_T::op(accumValue, value);
+                hasValue = true;
               }
             }
             // Update final value
-            if (accumValue != static_cast<T>(filterOp.initialValue())) {
+            if (hasValue) {
               tgt.fastLValue(i, j, k) = accumValue;
             }
           } else {
-- 
2.43.0


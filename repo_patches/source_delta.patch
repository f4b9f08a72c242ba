From 2b3fff141c2cb3d6929ff3b3df29eb48c5fd7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 01/58] fix: swap the allocated flag in BaseStore::moveit

Assigning to a default constructed vector left the scratch buffer flagged
as allocated with a null pointer, so the next assignment threw
'try to delete nullptr' (or dereferenced null).
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 144b8e4..fb6e9d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -294,15 +294,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   template <typename L2> BaseStore &moveit(L2 &other) {
     T *temporary = other.p;
-    int tempSize = other.sz;
-    int tempCapacity = other.capacity;
+    std::size_t tempSize = other.sz;
+    std::size_t tempCapacity = other.capacity;
+    bool tempAllocated = other.allocated;
     other.p = this->p;
     other.sz = this->sz;
     other.capacity = this->capacity;
+    other.allocated = this->allocated;
     this->p = temporary;
     this->sz = tempSize;
     this->capacity = tempCapacity;
-    allocated = true;
+    this->allocated = tempAllocated;
     return *this;
   }
   auto begin() const { return It<T>{p}; }
-- 
2.43.0


From d939d60138ab79707a0787697682a12c6f4771b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 02/58] fix: keep the matrix dimensions when a BaseStore is
 copied or moved

---
 include/etr_bits/Core/BaseStore.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index fb6e9d6..c4775a7 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -34,7 +34,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   // constructors
   BaseStore(const BaseStore<T> &other)
-      : sz(other.sz), capacity(other.capacity), allocated(other.allocated) {
+      : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
+        mp(other.mp) {
     if (other.allocated) {
       p = new T[capacity];
       std::copy(other.p, other.p + capacity, p);
@@ -44,7 +45,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   BaseStore(BaseStore<T> &&other) noexcept
       : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
-        p(other.p) {
+        p(other.p), mp(other.mp) {
     other.capacity = 0;
     other.sz = 0;
     other.allocated = false;
-- 
2.43.0


From 670a7a1fe7eaddc4630da946117a2a932d6c0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 03/58] fix: BaseStore copy assignment takes over size and
 dimensions of the source

Assigning a shorter store threw an out of boundaries error, and the
matrix dimensions were never copied.
---
 include/etr_bits/Core/BaseStore.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index c4775a7..c8b2979 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -139,9 +139,11 @@ template <typename T, typename BaseTrait> struct BaseStore {
         resize(other.size());
       }
     }
+    this->sz = other.size();
     for (std::size_t i = 0; i < this->sz; i++) {
       p[i] = other[i];
     }
+    mp.setMatrix(other.mp);
     return *this;
   }
 
-- 
2.43.0


From ce29741fb828e948c7555178b1c4522f66fe0f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 04/58] fix: unary operations on a matrix keep the matrix
 dimensions

---
 include/etr_bits/UnaryCalculations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3b0be8e..254aede 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -14,7 +14,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   using typeTraitObj = I;
   MatrixParameter mp;
   bool im() const {
-    if constexpr (std::is_arithmetic_v<I>) {
+    if constexpr (!std::is_arithmetic_v<I>) {
       return obj.im();
     } else {
       return false;
-- 
2.43.0


From eb1489e269a7b051afe0c02501569e34febaf995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 05/58] fix: recycle a Subset by the number of selected
 elements

The position was taken modulo the size of the underlying vector instead
of the number of indices.
---
 include/etr_bits/Core/SubsetClass.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 26bc638..3e0b8c8 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
-- 
2.43.0


From 04de41d43df7c264d4d9fc2f288235d69a131223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 06/58] fix: operations on a vector of length 0 no longer
 divide by zero

Recycling took the position modulo 0 and the process died with SIGFPE.
An operation with an empty operand is empty, and reading an element of
it is an out of boundaries error.
---
 include/etr_bits/BinaryCalculations.hpp | 8 +++++---
 include/etr_bits/Core/SubsetClass.hpp   | 6 +++---
 include/etr_bits/Core/Utils.hpp         | 7 +++++++
 include/etr_bits/UnaryCalculations.hpp  | 2 +-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b401e34..c12c2b9 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -98,11 +98,11 @@ struct BinaryOperation {
     constexpr bool isDoubleL = std::is_arithmetic_v<L>;
     constexpr bool isDoubleR = std::is_arithmetic_v<R>;
     if constexpr (!isDoubleL && isDoubleR) {
-      return Trait::f(l[i % l.size()], r);
+      return Trait::f(l[recycleIdx(i, l.size())], r);
     } else if constexpr (isDoubleL && !isDoubleR) {
-      return Trait::f(l, r[i % r.size()]);
+      return Trait::f(l, r[recycleIdx(i, r.size())]);
     } else if constexpr (!isDoubleL && !isDoubleR) {
-      return Trait::f(l[i % l.size()], r[i % r.size()]);
+      return Trait::f(l[recycleIdx(i, l.size())], r[recycleIdx(i, r.size())]);
     }
   }
   std::size_t size() const {
@@ -115,6 +115,8 @@ struct BinaryOperation {
     } else if constexpr (isDoubleL && !isDoubleR) {
       return r.size();
     } else if constexpr (!isDoubleL && !isDoubleR) {
+      if (l.size() == 0 || r.size() == 0)
+        return 0;
       return l.size() > r.size() ? l.size() : r.size();
     }
   }
diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 3e0b8c8..d166758 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % ind.size()]);
+    return this->p->operator[](ind[recycleIdx(pos, ind.size())]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % ind.size()]);
+    return this->p->operator[](ind[recycleIdx(pos, ind.size())]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % ind.size()]);
+    return this->p->operator[](ind[recycleIdx(pos, ind.size())]);
   }
 
   ~Subset() {}
diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 5161f43..d033ff6 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -71,6 +71,13 @@ inline void warn(bool inp, std::string message) {
 #endif
 }
 
+// NOTE: recycles the position idx over a vector with size elements
+inline std::size_t recycleIdx(std::size_t idx, std::size_t size) {
+  if (size == 0)
+    ass(false, "Error: out of boundaries --> vector of length 0");
+  return idx % size;
+}
+
 struct SI {
   std::size_t sz = 0;
   SI(const std::size_t sz) : sz(sz) {}
diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 254aede..903430d 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -47,7 +47,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
     if constexpr (isDouble) {
       return Trait::f(obj);
     } else if constexpr (!isDouble) {
-      return Trait::f(obj[i % obj.size()]);
+      return Trait::f(obj[recycleIdx(i, obj.size())]);
     }
   }
   std::size_t size() const {
-- 
2.43.0


From 69f8e8d1b228c072618ad7e64ebae7f0b8ee7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 07/58] fix: operator precedence in matrix subsetting with two
 doubles

m(r, c) with double r and c selected an unrelated element unless c == 1.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index a2499f5..e16c68b 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -234,7 +234,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = convertSize(*idxR) - 1 * vec.nr() + indexRow;
+    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
-- 
2.43.0


From e70dd8b2cdd8147b59ae6140aaeddfd31902d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 08/58] fix: row and column subscripts outside of the matrix
 are out of boundaries

Only the linear index was checked, so m(nrow + 1, 1) silently read or
wrote an element of the next column.
---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 76 +++++++++++--------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index e16c68b..8441e11 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -35,6 +35,20 @@ namespace etr {
 [25,] "vecbool" "vecbool"
 */
 
+// NOTE: linear index of the element in row and col (1-based). A position outside
+// of the matrix yields an index which is never valid. Thus, accessing it is an
+// out of boundaries error instead of the access to an element of another column
+template <typename T>
+inline std::size_t matrixInd(const T &vec, double row, double col) {
+  const bool inside = row >= 1.0 && col >= 1.0 &&
+                      row < static_cast<double>(vec.nr()) + 1.0 &&
+                      col < static_cast<double>(vec.nc()) + 1.0;
+  if (!inside)
+    return std::numeric_limits<std::size_t>::max();
+  return (static_cast<std::size_t>(col) - 1) * vec.nr() +
+         (static_cast<std::size_t>(row) - 1);
+}
+
 template <typename T, typename I, typename R, typename C>
 inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
                           const C *idxR) {
@@ -58,7 +72,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
-      ind[j] = (*idxR - 1) * vec.nr() + j;
+      ind[j] = matrixInd(vec, j + 1, *idxR);
     }
     mp.setMatrix(false, 0, 0);
     return;
@@ -69,7 +83,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
-      ind[j] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + j;
+      ind[j] = matrixInd(vec, j + 1, *idxR);
     }
     mp.setMatrix(false, 0, 0);
     return;
@@ -101,7 +115,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + i;
+          ind[counter] = matrixInd(vec, i + 1, positions[j] + 1);
           counter++;
         }
       }
@@ -116,7 +130,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.nr() * idxR->size());
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = (d2i((*idxR)[j]) - 1) * vec.nr() + i;
+          ind[counter] = matrixInd(vec, i + 1, (*idxR)[j]);
           counter++;
         }
       }
@@ -130,7 +144,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.nr() * idxR->size());
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = ((*idxR)[j] - 1) * vec.nr() + i;
+          ind[counter] = matrixInd(vec, i + 1, (*idxR)[j]);
           counter++;
         }
       }
@@ -149,20 +163,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * vec.nr() + (indexRow - 1);
+      ind[j] = matrixInd(vec, indexRow, j + 1);
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, int, C, int>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (*idxR - 1) * vec.nr() + indexRow;
+    ind[0] = matrixInd(vec, indexRow + 1, *idxR);
     return;
   } else if constexpr (isd<R, int, C, double>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + indexRow;
+    ind[0] = matrixInd(vec, indexRow + 1, *idxR);
     return;
   } else if constexpr (is<R, int> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
@@ -189,7 +203,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(positions.size());
       indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
+        ind[j] = matrixInd(vec, indexRow + 1, positions[j] + 1);
       }
       mp.setMatrix(false, 0, 0);
       return;
@@ -198,14 +212,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = matrixInd(vec, indexRow + 1, (*idxR)[j]);
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
+        ind[j] = matrixInd(vec, indexRow + 1, (*idxR)[j]);
       mp.setMatrix(false, 0, 0);
     } else {
       static_assert(sizeof(T) == 0,
@@ -221,20 +235,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * convertSize(vec.nr()) + (indexRow - 1);
+      ind[j] = matrixInd(vec, indexRow, j + 1);
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, double, C, int>) {
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (*idxR - 1) * convertSize(vec.nr()) + indexRow;
+    ind[0] = matrixInd(vec, indexRow + 1, *idxR);
     return;
   } else if constexpr (isd<R, double, C, double>) {
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
+    ind[0] = matrixInd(vec, indexRow + 1, convertSize(*idxR));
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
@@ -261,7 +275,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(positions.size());
       indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
+        ind[j] = matrixInd(vec, indexRow + 1, positions[j] + 1);
       }
       mp.setMatrix(false, 0, 0);
       return;
@@ -270,14 +284,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = matrixInd(vec, indexRow + 1, (*idxR)[j]);
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = convertSize(*idxL);
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
+        ind[j] = matrixInd(vec, indexRow + 1, (*idxR)[j]);
       mp.setMatrix(false, 0, 0);
     } else {
       static_assert(sizeof(T) == 0,
@@ -313,7 +327,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < vec.nc(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
-          ind[counter] = j * vec.nr() + positions[i];
+          ind[counter] = matrixInd(vec, positions[i] + 1, j + 1);
           counter++;
         }
       }
@@ -328,7 +342,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + ((*idxL)[j] - 1);
+          ind[counter] = matrixInd(vec, (*idxL)[j], i + 1);
           counter++;
         }
       }
@@ -343,7 +357,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + (d2i((*idxL)[j]) - 1);
+          ind[counter] = matrixInd(vec, (*idxL)[j], i + 1);
           counter++;
         }
       }
@@ -378,20 +392,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       }
       ind.resize(positions.size());
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + positions[j];
+        ind[j] = matrixInd(vec, positions[j] + 1, *idxR);
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = matrixInd(vec, (*idxL)[j], *idxR);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = matrixInd(vec, (*idxL)[j], *idxR);
       }
       return;
     } else {
@@ -424,20 +438,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       }
       ind.resize(positions.size());
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + positions[j];
+        ind[j] = matrixInd(vec, positions[j] + 1, convertSize(*idxR));
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = matrixInd(vec, (*idxL)[j], convertSize(*idxR));
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = matrixInd(vec, (*idxL)[j], *idxR);
       }
       return;
     } else {
@@ -489,7 +503,8 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions_cols.size(); j++) {
         for (std::size_t i = 0; i < positions_rows.size(); i++) {
-          ind[counter] = positions_cols[j] * vec.nr() + positions_rows[i];
+          ind[counter] =
+              matrixInd(vec, positions_rows[i] + 1, positions_cols[j] + 1);
           counter++;
         }
       }
@@ -517,7 +532,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
-          ind[counter] = (d2i((*idxR)[j]) - 1) * vec.nr() + positions[i];
+          ind[counter] = matrixInd(vec, positions[i] + 1, (*idxR)[j]);
           counter++;
         }
       }
@@ -544,7 +559,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < idxL->size(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + d2i((*idxL)[i]) - 1;
+          ind[counter] = matrixInd(vec, (*idxL)[i], positions[j] + 1);
           counter++;
         }
       }
@@ -556,8 +571,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < idxR->size(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] =
-              (d2i((*idxR)[i]) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+          ind[counter] = matrixInd(vec, (*idxL)[j], (*idxR)[i]);
           counter++;
         }
       }
-- 
2.43.0


From 1fcfefbf045ab1faafa6f3777bee559bc7073b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 09/58] fix: set the dimensions of a matrix subset for all
 subscript types

Selecting rows by a logical and columns by a numeric vector lost the
dimensions, as did selecting everything (TRUE, TRUE) from an operation.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 8441e11..feeecdb 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -59,7 +59,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.size());
       for (std::size_t i = 0; i < vec.size(); i++)
         ind[i] = i;
-      mp.setMatrix(vec.d.mp);
+      mp.setMatrix(true, vec.nr(), vec.nc());
       return;
     } else {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
@@ -536,6 +536,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
           counter++;
         }
       }
+      mp.setMatrix(true, positions.size(), idxR->size());
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-- 
2.43.0


From 70a5b63a3de050a5886183ae237a2c26ff27fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 10/58] fix: recycle short logical subscripts in every kind of
 matrix subset

(TRUE, logical), (logical, TRUE) and the combinations with a vector
neither recycled a short logical subscript nor rejected a long one (it
wrapped around), while (number, logical) did both. An empty logical
subscript divided by zero.
---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 157 +++++-------------
 .../etr_bits/Subsetting/VectorSubsetting.hpp  |   4 +-
 2 files changed, 46 insertions(+), 115 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index feeecdb..de76603 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -49,6 +49,29 @@ inline std::size_t matrixInd(const T &vec, double row, double col) {
          (static_cast<std::size_t>(row) - 1);
 }
 
+// NOTE: positions (0-based) which are selected by a logical subscript. A
+// subscript shorter than the extent of the dimension is recycled
+template <typename I>
+inline BaseStore<std::size_t> logicalPositions(const I &idx,
+                                               std::size_t extent) {
+  ass(idx.size() <= extent, "Error in matrix: logical subscript too long");
+  std::size_t counter = 0;
+  for (std::size_t i = 0; i < extent; i++) {
+    if (idx[recycleIdx(i, idx.size())])
+      counter++;
+  }
+  ass(counter > 0, "subset has to have at least one element");
+  BaseStore<std::size_t> positions(counter);
+  counter = 0;
+  for (std::size_t i = 0; i < extent; i++) {
+    if (idx[recycleIdx(i, idx.size())]) {
+      positions[counter] = i;
+      counter++;
+    }
+  }
+  return positions;
+}
+
 template <typename T, typename I, typename R, typename C>
 inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
                           const C *idxR) {
@@ -94,25 +117,9 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
         return;
       }
-      std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
-          counter++;
-      }
-      ass(counter > 0, "subset has to have at least one element");
-      BaseStore<std::size_t> positions(counter);
-      counter = 0;
-      std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if (((i % vec.nc()) == 0) && i != 0)
-          counter2++;
-        if ((*idxR)[i]) {
-          positions[counter] = i - counter2 * vec.nc();
-          counter++;
-        }
-      }
+      BaseStore<std::size_t> positions = logicalPositions(*idxR, vec.nc());
       ind.resize(vec.nr() * positions.size());
-      counter = 0;
+      std::size_t counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
           ind[counter] = matrixInd(vec, i + 1, positions[j] + 1);
@@ -186,7 +193,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
       for (std::size_t i = 0; i < vec.nc(); i++) {
-        if ((*idxR)[i % idxR->size()])
+        if ((*idxR)[recycleIdx(i, idxR->size())])
           counter++;
       }
       BaseStore<int> positions(counter);
@@ -195,7 +202,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0)
           counter2++;
-        if ((*idxR)[i % idxR->size()]) {
+        if ((*idxR)[recycleIdx(i, idxR->size())]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -258,7 +265,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
       for (std::size_t i = 0; i < vec.nc(); i++) {
-        if ((*idxR)[i % idxR->size()])
+        if ((*idxR)[recycleIdx(i, idxR->size())])
           counter++;
       }
       BaseStore<int> positions(counter);
@@ -267,7 +274,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0)
           counter2++;
-        if ((*idxR)[i % idxR->size()]) {
+        if ((*idxR)[recycleIdx(i, idxR->size())]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -306,25 +313,10 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
         return;
       }
-      std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i])
-          counter++;
-      }
-      BaseStore<std::size_t> positions(counter);
-      counter = 0;
-      std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if (((i % vec.nr()) == 0) && i != 0)
-          counter2++;
-        if ((*idxL)[i]) {
-          positions[counter] = i - counter2 * vec.nr();
-          counter++;
-        }
-      }
+      BaseStore<std::size_t> positions = logicalPositions(*idxL, vec.nr());
       ind.resize(vec.nc() * positions.size());
       ind.fill(0);
-      counter = 0;
+      std::size_t counter = 0;
       for (std::size_t j = 0; j < vec.nc(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
           ind[counter] = matrixInd(vec, positions[i] + 1, j + 1);
@@ -373,7 +365,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     if constexpr (is<DataTypeR, bool>) {
       std::size_t counter = 0;
       for (int i = 0; i < vec.nr(); i++) {
-        if ((*idxL)[i % idxL->size()])
+        if ((*idxL)[recycleIdx(i, idxL->size())])
           counter++;
       }
       ass(idxL->size() <= vec.nr(),
@@ -385,7 +377,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i % idxL->size()]) {
+        if ((*idxL)[recycleIdx(i, idxL->size())]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -419,7 +411,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     if constexpr (is<DataTypeR, bool>) {
       std::size_t counter = 0;
       for (int i = 0; i < vec.nr(); i++) {
-        if ((*idxL)[i % idxL->size()])
+        if ((*idxL)[recycleIdx(i, idxL->size())])
           counter++;
       }
       ass(idxL->size() <= vec.nr(),
@@ -431,7 +423,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i % idxL->size()]) {
+        if ((*idxL)[recycleIdx(i, idxL->size())]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -464,43 +456,12 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeR = ExtractDataType<R>::RetType;
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeR, bool> && is<DataTypeC, bool>) {
-      std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i] == true) {
-          counter++;
-        }
-      }
-      BaseStore<int> positions_rows(counter);
-      counter = 0;
-      std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if (((i % vec.nr()) == 0) && i != 0) {
-          counter2++;
-        }
-        if ((*idxL)[i]) {
-          positions_rows[counter] = i - counter2 * vec.nr();
-          counter++;
-        }
-      }
-      counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
-          counter++;
-      }
-      BaseStore<int> positions_cols(counter);
-      counter = 0;
-      counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if (((i % vec.nc()) == 0) && i != 0) {
-          counter2++;
-        }
-        if ((*idxR)[i]) {
-          positions_cols[counter] = i - counter2 * vec.nc();
-          counter++;
-        }
-      }
+      BaseStore<std::size_t> positions_rows =
+          logicalPositions(*idxL, vec.nr());
+      BaseStore<std::size_t> positions_cols =
+          logicalPositions(*idxR, vec.nc());
       ind.resize(positions_rows.size() * positions_cols.size());
-      counter = 0;
+      std::size_t counter = 0;
       for (std::size_t j = 0; j < positions_cols.size(); j++) {
         for (std::size_t i = 0; i < positions_rows.size(); i++) {
           ind[counter] =
@@ -512,24 +473,9 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       return;
     } else if constexpr (is<DataTypeR, bool> &&
                          (is<DataTypeC, int> || is<DataTypeC, double>)) {
-      std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++)
-        if ((*idxL)[i])
-          counter++;
-      BaseStore<int> positions(counter);
-      counter = 0;
-      std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if (((i % vec.nr()) == 0) && i != 0) {
-          counter2++;
-        }
-        if ((*idxL)[i]) {
-          positions[counter] = i - counter2 * vec.nr();
-          counter++;
-        }
-      }
+      BaseStore<std::size_t> positions = logicalPositions(*idxL, vec.nr());
       ind.resize(positions.size() * idxR->size());
-      counter = 0;
+      std::size_t counter = 0;
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
           ind[counter] = matrixInd(vec, positions[i] + 1, (*idxR)[j]);
@@ -540,24 +486,9 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-      std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++)
-        if ((*idxR)[i])
-          counter++;
-      BaseStore<int> positions(counter);
-      counter = 0;
-      std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if (((i % vec.nc()) == 0) && i != 0) {
-          counter2++;
-        }
-        if ((*idxR)[i]) {
-          positions[counter] = i - counter2 * vec.nc();
-          counter++;
-        }
-      }
+      BaseStore<std::size_t> positions = logicalPositions(*idxR, vec.nc());
       ind.resize(idxL->size() * positions.size());
-      counter = 0;
+      std::size_t counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < idxL->size(); i++) {
           ind[counter] = matrixInd(vec, (*idxL)[i], positions[j] + 1);
diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index 9af08c7..0e34b35 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -40,12 +40,12 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
     if constexpr (is<IndexType, bool>) {
       std::size_t sizeTrue = 0;
       for (std::size_t i = 0; i < vec.size(); i++)
-        if ((*idx)[i % idx->size()])
+        if ((*idx)[recycleIdx(i, idx->size())])
           sizeTrue++;
       ind.resize(sizeTrue);
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.size(); i++) {
-        if ((*idx)[i % idx->size()]) {
+        if ((*idx)[recycleIdx(i, idx->size())]) {
           ind[counter] = i;
           counter++;
         }
-- 
2.43.0


From 947925b466180b929f511f286a9ee7aad56be2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 11/58] fix: assigning a vector or a scalar to a matrix clears
 the dimensions

The variable kept is-matrix and the old number of rows and columns, so
row/column subscripts of the new value used stale dimensions.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index a813443..343c961 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -23,6 +23,9 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = inp;
     }
+    if constexpr (isBuffer::value || isBorrow::value) {
+      d.setMatrix(false, 0, 0);
+    }
     return *this;
   } else {
     if constexpr (isSubset::value) {
@@ -36,6 +39,9 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = static_cast<T>(inp);
     }
+    if constexpr (isBuffer::value || isBorrow::value) {
+      d.setMatrix(false, 0, 0);
+    }
     return *this;
   }
 }
@@ -105,6 +111,8 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
   }
   if (otherVec.d.im()) {
     d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+  } else {
+    d.setMatrix(false, 0, 0);
   }
   return *this;
 }
@@ -230,10 +238,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
       d.setMatrix(d.AllVarsRef, true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
   } else {
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(false, 0, 0);
     }
   }
   return *this;
-- 
2.43.0


From 80be6659873c748c602ee78020055ab6851d9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 12/58] fix: a shorter vector can be assigned to a borrowed
 vector

The check which should reject sizes above the borrowed memory was
inverted and rejected smaller sizes. Larger ones are rejected before.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 343c961..4f49411 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -75,8 +75,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    ass(d.sz <= otherVec.size(),
-        "size cannot be increased above the size of the borrowed object");
     d.sz = otherVec.size();
     for (std::size_t i = 0; i < otherVec.size(); i++)
       d[i] = temp[i];
@@ -146,8 +144,6 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    ass(d.sz <= otherVec.size(),
-        "size cannot be increased above the size of the borrowed object");
     d.sz = otherVec.size();
     for (std::size_t i = 0; i < otherVec.size(); i++)
       d[i] = temp[i];
-- 
2.43.0


From 41d371cc691a4af868e1bb92cf96a2b99fa4adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 13/58] fix: back() returns the last element instead of the one
 behind it

The read past the end made cmr depend on uninitialised memory in the last
interval.
---
 include/etr_bits/Core/BaseStore.hpp     | 5 ++++-
 include/etr_bits/Core/Borrow.hpp        | 5 ++++-
 include/etr_bits/Vector/VectorClass.hpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index c8b2979..a2a42a0 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -312,7 +312,10 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() {
+    ass(sz > 0, "No memory was allocated");
+    return p[sz - 1];
+  }
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index bed8808..c662fe9 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -154,7 +154,10 @@ template <typename T, typename BorrowTrait> struct Borrow {
   template <typename L2> Borrow &moveit(L2 &other) = delete;
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() {
+    ass(sz > 0, "No memory was allocated");
+    return p[sz - 1];
+  }
   T *data() const { return p; }
   void realloc(int new_size) = delete;
   void push_back(T input) = delete;
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index ce974b2..e75a347 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -83,7 +83,10 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size()]; }
+  T &back() const {
+    ass(this->size() > 0, "No memory was allocated");
+    return d.p[this->size() - 1];
+  }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From f1427d5848d04cc5afeb581538ab82fed956a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 14/58] fix: li() interpolates instead of reading behind the
 end of its input

The last knot was read from one element past the end (every call threw)
and the slope was never computed.
---
 include/etr_bits/Interpolation.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index dd943e8..65b6540 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -21,18 +21,18 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = t_[0];
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -40,6 +40,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
@@ -48,18 +49,18 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = static_cast<BaseType>(t_);
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -67,6 +68,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
-- 
2.43.0


From ae020eea165248d8ce00f6098a6c01e0cd296b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 15/58] fix: inverted warning conditions in matrix() and cmr()

The warning that only the first element is used was printed exactly when
there was only one element.
---
 include/etr_bits/Allocation/Matrix.hpp | 16 ++++++++--------
 include/etr_bits/Interpolation.hpp     |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/etr_bits/Allocation/Matrix.hpp b/include/etr_bits/Allocation/Matrix.hpp
index 23a1bae..bc5f60a 100644
--- a/include/etr_bits/Allocation/Matrix.hpp
+++ b/include/etr_bits/Allocation/Matrix.hpp
@@ -45,7 +45,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(!(nrows.size() > 1), "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -53,7 +53,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(!(nrows.size() > 1), "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -62,7 +62,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(!(ncols.size() > 1), "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -70,7 +70,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(!(ncols.size() > 1), "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -79,9 +79,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(!(ncols.size() > 1), "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(!(nrows.size() > 1), "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
@@ -89,9 +89,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(!(ncols.size() > 1), "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(!(nrows.size() > 1), "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index 65b6540..7ceeb96 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -174,7 +174,7 @@ inline double cmr(const A &tInp, const B &timeVec, const C &parVec) {
   using DataTypeTInp = ExtractDataType<std::remove_reference_t<A>>::RetType;
   static_assert(is<DataTypeTInp, double>,
                 "time input vector does not include doubles");
-  warn(tInp.size() > 1,
+  warn(!(tInp.size() > 1),
        "time point has more than one element only the first one is used");
   return cmrInternal(&tInp, &timeVec, &parVec);
 }
-- 
2.43.0


From e516c9a3511077fa6d6014f2bb8fdd85885b7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 16/58] fix: vector_logical(n) has length n

For an lvalue n the template argument bool converted the length itself
to bool, hence the vector always had length 1.
---
 include/etr_bits/Allocation/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 7e27d3b..841cd45 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<bool>(inp[0]);
+    return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From 0c5da7d94d10c15e2bd8222703cce50cce012936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 17/58] fix: a BaseStore survives a failing allocation and has
 no uninitialised tail

init(), resize() and realloc() freed the old memory or changed capacity
before the new memory was allocated: after std::bad_alloc the store held
a dangling pointer (double free) or a capacity it did not own. The slack
between size and capacity was uninitialised and became visible when the
size grew within the capacity. realloc() to a smaller size wrote past
the end of the new memory.
---
 include/etr_bits/Core/BaseStore.hpp | 32 +++++++++++++----------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index a2a42a0..e2c1c8b 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -115,7 +115,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
         capacity(static_cast<std::size_t>(sz_ * 1.15)) {
     ass(sz_ > 0, "Size has to be larger than 0");
     p = new T[capacity];
-    for (std::size_t i = 0; i < sz; i++)
+    for (std::size_t i = 0; i < capacity; i++)
       p[i] = T();
     allocated = true;
   }
@@ -249,14 +249,12 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
 
   void init(std::size_t size) {
-    if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
-      delete[] p;
-      p = nullptr;
-    }
+    std::size_t newCapacity = static_cast<std::size_t>(1.15 * size);
+    T *newP = new T[newCapacity]();
+    delete[] p;
+    p = newP;
     sz = size;
-    capacity = static_cast<std::size_t>(1.15 * sz);
-    p = new T[capacity];
+    capacity = newCapacity;
     allocated = true;
   }
   void resize(std::size_t newSize) {
@@ -267,13 +265,13 @@ template <typename T, typename BaseTrait> struct BaseStore {
       return;
     } else {
       if (newSize > capacity) {
-        ass(p != nullptr, "try to delete nullptr");
+        std::size_t newCapacity = static_cast<std::size_t>(newSize * 1.15);
+        T *newP = new T[newCapacity]();
         delete[] p;
-        capacity = static_cast<std::size_t>(newSize * 1.15);
-        p = new T[capacity];
+        p = newP;
+        capacity = newCapacity;
         sz = newSize;
         allocated = true;
-        fill(T());
       } else {
         sz = newSize;
         return;
@@ -320,17 +318,15 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void realloc(std::size_t new_size) {
     T *temp;
-    capacity = static_cast<int>(new_size * 1.15);
-    temp = new T[capacity];
-    for (std::size_t i = 0; i < sz; i++)
+    std::size_t newCapacity = static_cast<std::size_t>(new_size * 1.15);
+    temp = new T[newCapacity]();
+    for (std::size_t i = 0; i < sz && i < new_size; i++)
       temp[i] = p[i];
 
-    for (std::size_t i = sz; i < new_size; i++)
-      temp[i] = T();
-
     delete[] p;
     p = temp;
 
+    capacity = newCapacity;
     sz = new_size;
     allocated = true;
     temp = nullptr;
-- 
2.43.0


From ecb752c137081d9a5ccececbe49e848ffa6199d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 18/58] fix: a vector constructed from a temporary takes over
 its capacity

sexp a = coca(1, 2, 3) left a with capacity 0, so that copying a wrote
three elements into an empty allocation.
---
 include/etr_bits/Vector/Constructors.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index b9c576f..66f73e8 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -199,13 +199,7 @@ Vec(Vec<T2, R2, Trait2> &&other_vec) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
   } else {
-    std::size_t temp = other_vec.size();
-    d.allocated = other_vec.d.allocated;
-    other_vec.d.sz = this->size();
-    d.sz = temp;
-    T *tempP = other_vec.d.p;
-    other_vec.d.p = d.p;
-    d.p = tempP;
+    d.moveit(other_vec.d);
     if (other_vec.d.im()) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
-- 
2.43.0


From e5f1e9caec4af3d4d03ca1da61598ccc7e8f0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 19/58] fix: fill() with a temporary keeps capacity and memory
 ownership consistent

BaseStore::fill took over the memory of the temporary but kept its own
capacity; Borrow::fill deleted the borrowed memory.
---
 include/etr_bits/Core/BaseStore.hpp | 3 +++
 include/etr_bits/Core/Borrow.hpp    | 6 ------
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index e2c1c8b..7c7e670 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -172,7 +172,10 @@ template <typename T, typename BaseTrait> struct BaseStore {
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
       delete[] p;
       DataType *ptr = inp.getPtr();
+      capacity = inp.d.capacity;
       inp.d.p = nullptr;
+      inp.d.sz = 0;
+      inp.d.capacity = 0;
       inp.d.allocated = false;
       p = ptr;
     } else {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index c662fe9..299dffc 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -103,12 +103,6 @@ template <typename T, typename BorrowTrait> struct Borrow {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From a9be82359f1554e022929a9bcb84dc27786ee865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 20/58] fix: a matrix borrowed from a pointer refers to the
 memory

BorrowPtr(ptr, rows, cols) claimed to be a rows x cols matrix but had
size 0 and no memory.
---
 include/etr_bits/Vector/Constructors.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index 66f73e8..d418078 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -217,8 +217,12 @@ Vec(BaseType *ptr, std::size_t size) : d(size) {
   }
 }
 Vec(BaseType *ptr, std::size_t rows, std::size_t cols) : d(rows * cols) {
-  for (std::size_t i = 0; i < d.size(); i++)
-    d[i] = ptr[i];
+  if constexpr (isBorrow::value) {
+    d.init(ptr, rows * cols);
+  } else {
+    for (std::size_t i = 0; i < d.size(); i++)
+      d[i] = ptr[i];
+  }
   d.setMatrix(true, rows, cols);
 }
 
-- 
2.43.0


From 5cd76923be211be3d3d2265112025069d048703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 21/58] fix: writing to a subset does not resize the underlying
 vector

v(idx) = w(idx2) with more indices than elements of v resized v, and
setting existing elements to 0 when the capacity was exceeded.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 4f49411..28aa143 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -101,8 +101,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    if (d.p->size() < temp.size())
-      d.resize(temp.size());
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From ed9740af0bf67f5e590195d72898772a7461202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 22/58] fix: iterating over and printing a subset visits the
 selected elements

begin()/end() walked over the first elements of the underlying vector
and operator<< indexed a pointer to the container.
---
 include/etr_bits/Core/Utils.hpp         | 17 +++++++++++++++++
 include/etr_bits/Vector/VectorClass.hpp |  6 +++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index d033ff6..a6b6f91 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -51,6 +51,23 @@ template <typename T> struct It {
   void operator++() { ++p; }
 };
 
+// NOTE: iterates over the elements which are selected by a Subset
+template <typename T, typename S> struct SubsetIt {
+  const S *sub;
+  std::size_t pos;
+  T val = T();
+  decltype(auto) operator*() {
+    if constexpr (std::is_lvalue_reference_v<decltype((*sub->p)[0])>) {
+      return (*sub->p)[sub->ind[pos]];
+    } else {
+      val = (*sub->p)[sub->ind[pos]];
+      return (val);
+    }
+  }
+  bool operator!=(const SubsetIt &rhs) { return pos != rhs.pos; }
+  void operator++() { ++pos; }
+};
+
 inline void ass(bool inp, std::string message) {
 #ifdef STANDALONE_ETR
   if (!inp)
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index e75a347..b8e44f7 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -60,14 +60,14 @@ template <typename T, typename R, typename Trait> struct Vec {
 
   auto begin() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p};
+      return SubsetIt<T, R>{&d, 0};
     } else {
       return It<T>{d.p};
     }
   }
   auto end() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p + this->size()};
+      return SubsetIt<T, R>{&d, this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
@@ -92,7 +92,7 @@ template <typename T, typename R, typename Trait> struct Vec {
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
     os << "Vec [ ";
     for (std::size_t i = 0; i < vec.size(); i++) {
-      os << vec.d.p[i] << " ";
+      os << vec[i] << " ";
     }
     os << "]";
     return os;
-- 
2.43.0


From aec2938f888aa2885474e389b092f2ae53f13a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 23/58] fix: AllVars knows the dimensions of constants

Assigning a constant matrix to a variable with derivatives threw
'Unsupported type in derivative'.
---
 include/etr_bits/Derivatives/AllVars.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 8a0986f..6864471 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -102,7 +102,9 @@ struct AllVars {
   }
 
   std::size_t nr(std::size_t Idx, int TypeIdx) const {
-    if (TypeIdx == 0) {
+    if (TypeIdx == -1) {
+      return varConstants[Idx].nr();
+    } else if (TypeIdx == 0) {
       return varBuffer[Idx].nr();
     } else if (TypeIdx == 1) {
       return varBorrow[Idx].nr();
@@ -117,7 +119,9 @@ struct AllVars {
   }
 
   std::size_t nc(std::size_t Idx, int TypeIdx) const {
-    if (TypeIdx == 0) {
+    if (TypeIdx == -1) {
+      return varConstants[Idx].nc();
+    } else if (TypeIdx == 0) {
       return varBuffer[Idx].nc();
     } else if (TypeIdx == 1) {
       return varBorrow[Idx].nc();
-- 
2.43.0


From 8803a408695b4cd1bc1217c7e45dcf7ff84e24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 24/58] fix: reject operations on matrices with non-conformable
 dimensions

The result claimed max(nrow) x max(ncol) although it had fewer or more
elements, so that row/column subscripts addressed the wrong elements.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 3 +++
 include/etr_bits/Vector/Constructors.hpp       | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 28aa143..cfd00ff 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -121,6 +121,9 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
                 "Cannot assign to an r value. E.g. c(1, 2, 3) <- 1");
   using DataTypeOtherVec = typename etr::ExtractDataType<
       std::remove_reference_t<decltype(otherVec)>>::RetType;
+  ass(!otherVec.d.im() ||
+          otherVec.d.nr() * otherVec.d.nc() == otherVec.size(),
+      "non-conformable arrays");
   if constexpr (isBuffer::value) {
     temp.resize(otherVec.size());
     for (std::size_t i = 0; i < otherVec.size(); i++) {
diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index d418078..9d2c052 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -129,6 +129,9 @@ template <typename T2, typename R2, typename Trait2>
 Vec(const Vec<T2, R2, Trait2> &&other_vec) {
   using TypeTrait = Trait2;
   using CaseTrait = Trait2;
+  ass(!other_vec.d.im() ||
+          other_vec.d.nr() * other_vec.d.nc() == other_vec.size(),
+      "non-conformable arrays");
   if constexpr (isBorrow::value) {
     ass(d.sz <= other_vec.size(), "Sizes do not match");
     d.sz = other_vec.size();
@@ -159,6 +162,9 @@ template <typename T2, typename R2, typename Trait2>
 Vec(const Vec<T2, R2, Trait2> &&other_vec) {
   using TypeTrait = Trait2;
   using CaseTrait = Trait2;
+  ass(!other_vec.d.im() ||
+          other_vec.d.nr() * other_vec.d.nc() == other_vec.size(),
+      "non-conformable arrays");
   if constexpr (isBorrow::value) {
     ass(d.sz <= other_vec.size(), "Sizes do not match");
     d.sz = other_vec.size();
-- 
2.43.0


From 8b9298a4abee8757c3e5ba8ad43d4bda7b9f0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 25/58] fix: colon() does not overflow or accumulate rounding
 errors

Stepping with start++ overflowed for ranges which end at INT_MAX, and the
number of steps could differ from the allocated length for fractions.
---
 include/etr_bits/Allocation/Colon.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 29827ad..9a3f618 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -22,24 +22,20 @@ const Vec is an Operation
 namespace etr {
 
 template <typename T> inline auto colonInternal(T start, T end) {
+  const double from = static_cast<double>(start);
+  const double to = static_cast<double>(end);
   if (start < end) {
-    std::size_t length = convertSize(end - start + 1);
+    std::size_t length = convertSize(to - from + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (start <= end) {
-      ret[counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = static_cast<T>(from + static_cast<double>(i));
     }
     return ret;
   } else {
-    std::size_t length = convertSize(start - end + 1);
+    std::size_t length = convertSize(from - to + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (end <= start) {
-      ret[counter] = start;
-      start--;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = static_cast<T>(from - static_cast<double>(i));
     }
     return ret;
   }
-- 
2.43.0


From f94ceaa27123447b90dfb6fe67270e12853e7903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 26/58] fix: at() with row and column checks each dimension

---
 include/etr_bits/Subsetting/at.hpp | 96 +++++++++---------------------
 1 file changed, 27 insertions(+), 69 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 80f2967..9ebc00a 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -50,45 +50,37 @@ inline auto &at(T &inp, R i_) {
   return inp.d.p[i];
 }
 
+// NOTE: converts the row and column (starting at 1) to the linear index. The
+// check is done for each dimension as otherwise a row outside of the matrix
+// ends up in another column.
+template <typename T, typename R, typename C>
+inline std::size_t atMatrixInd(const T &inp, R r, C c) {
+  ass(inp.im() == true, "Input is not a matrix!");
+  const auto zeroBased = [](auto i) {
+    std::size_t res = 0;
+    if constexpr (std::is_integral_v<decltype(i)>) {
+      ass(i >= 1, "Error: out of boundaries --> value beyond size of vector");
+      res = static_cast<std::size_t>(i);
+    } else {
+      ass(d2i(i) >= 1,
+          "Error: out of boundaries --> value beyond size of vector");
+      res = static_cast<std::size_t>(d2i(i));
+    }
+    return res - 1;
+  };
+  const std::size_t row = zeroBased(r);
+  const std::size_t col = zeroBased(c);
+  ass(row < inp.nr() && col < inp.nc() && col * inp.nr() + row < inp.size(),
+      "Error: out of boundaries --> value beyond size of vector");
+  return col * inp.nr() + row;
+}
+
 template <typename T, typename R, typename C>
   requires(IsVec<T> && std::is_arithmetic_v<C>)
 inline auto &at(T &inp, R r, C c) {
   ass(inp.im() == true, "Input is not a matrix!");
   ass(inp.d.allocated, "No memory was allocated");
-  if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
-    r--;
-    c--;
-    ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c * inp.nr() + r];
-  } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
-    int r_ = d2i(r);
-    r_--;
-    c--;
-    ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r_) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c * inp.nr() + r_];
-  } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
-    r--;
-    int c_ = d2i(c);
-    c_--;
-    ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c_ * inp.nr() + r];
-  } else {
-    int r_ = d2i(r);
-    int c_ = d2i(c);
-    r_--;
-    c_--;
-    ass((c_ * inp.nr() + r_) >= 0,
-        "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r_) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c_ * inp.nr() + r_];
-  }
+  return inp.d.p[atMatrixInd(inp, r, c)];
 }
 
 template <typename T, typename R, typename C>
@@ -96,41 +88,7 @@ template <typename T, typename R, typename C>
            OperationVec<T> && std::is_arithmetic_v<R> &&
                std::is_arithmetic_v<C>)
 inline auto at(const T &inp, R r, C c) {
-  ass(inp.im() == true, "Input is not a matrix!");
-  if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
-    r--;
-    c--;
-    ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp[c * inp.nr() + r];
-  } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
-    int r_ = d2i(r);
-    r_--;
-    c--;
-    ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r_) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp[c * inp.nr() + r_];
-  } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
-    r--;
-    int c_ = d2i(c);
-    c_--;
-    ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp[c_ * inp.nr() + r];
-  } else {
-    int r_ = d2i(r);
-    int c_ = d2i(c);
-    r_--;
-    c_--;
-    ass((c_ * inp.nr() + r_) >= 0,
-        "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r_) < inp.size(),
-        "Error: out of boundaries --> value beyond size of vector");
-    return inp[c_ * inp.nr() + r_];
-  }
+  return inp[atMatrixInd(inp, r, c)];
 }
 
 } // namespace etr
-- 
2.43.0


From 06899d33302edaa9d3927b687122fde3fa81c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 27/58] fix: derivative of a division divides by the squared
 denominator

---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 5802388..8e41cd8 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -98,7 +98,7 @@ struct DivideDerivTrait {
   static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
                                                     RDeriv rd) {
     return (ld * r - l * rd) /
-           std::pow(rd, 2); // TODO: add check for integral ...
+           std::pow(r, 2); // TODO: add check for integral ...
   }
 };
 
-- 
2.43.0


From dbbc1e7a92f78f42271f8bfea29352c5c38602e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 28/58] fix: the derivative of sinus() applies the chain rule

---
 include/etr_bits/Core/Traits.hpp            | 4 ++--
 include/etr_bits/Derivatives/DerivTypes.hpp | 6 +-----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 8e41cd8..4d87f1b 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -228,8 +228,8 @@ struct UnEqualDerivTrait {
 };
 
 struct SinusDerivTrait {
-  template <typename L> static inline L f(L l) { return sin(l); }
-  template <typename L> static inline L fDeriv(L l) { return cos(l); }
+  template <typename L> static inline auto f(L l) { return sin(l); }
+  template <typename L> static inline auto fDeriv(L l) { return cos(l); }
 };
 
 struct PlusTrait {
diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 74da964..54f30aa 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -74,11 +74,7 @@ template <typename Deriv, typename Trait, typename OpTrait> struct UnaryType {
     return Op::f(Deriv::getVal(av, idx));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    if constexpr (IsConstant<Deriv> || IsVariableType<Deriv>) {
-      return Op::fDeriv(Deriv::getVal(av, idx));
-    } else {
-      return Op::fDeriv(Deriv::getDeriv(av, idx));
-    }
+    return Op::fDeriv(Deriv::getVal(av, idx)) * Deriv::getDeriv(av, idx);
   }
 };
 
-- 
2.43.0


From c4d728c300e748e986f4ec5143348a1811aa9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 29/58] fix: derivatives recycle nested operands as the values
 do

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 54f30aa..63c720a 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -23,12 +23,16 @@ struct QuarternyType {
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    const std::size_t idxL = recycleIdx(idx, LDeriv::getSize(av));
+    const std::size_t idxR = recycleIdx(idx, RDeriv::getSize(av));
+    return Op::f(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR));
   }
 
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx),
-                      LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    const std::size_t idxL = recycleIdx(idx, LDeriv::getSize(av));
+    const std::size_t idxR = recycleIdx(idx, RDeriv::getSize(av));
+    return Op::fDeriv(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR),
+                      LDeriv::getDeriv(av, idxL), RDeriv::getDeriv(av, idxR));
   }
 };
 
@@ -50,10 +54,14 @@ struct BinaryType {
                                                      : RDeriv::getSize(av);
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    const std::size_t idxL = recycleIdx(idx, LDeriv::getSize(av));
+    const std::size_t idxR = recycleIdx(idx, RDeriv::getSize(av));
+    return Op::f(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    const std::size_t idxL = recycleIdx(idx, LDeriv::getSize(av));
+    const std::size_t idxR = recycleIdx(idx, RDeriv::getSize(av));
+    return Op::fDeriv(LDeriv::getDeriv(av, idxL), RDeriv::getDeriv(av, idxR));
   }
 };
 
-- 
2.43.0


From 439b320d3f974d2247a7b708e9434e897319cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 30/58] fix: assigning an expression evaluates derivatives
 before the variable changes

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index cfd00ff..af8a6e4 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -205,14 +205,19 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
       }
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
-        d.setDeriv(d.AllVarsRef, i, res.getDeriv(d.AllVarsRef, i));
+      // NOTE: the variable can be part of the expression. Thus, everything has
+      // to be calculated before the variable is changed
+      const std::size_t sizeExpr = otherVec.size();
+      Buffer<BaseType> tempDeriv(sizeExpr);
+      for (std::size_t i = 0; i < sizeExpr; i++) {
+        tempDeriv[i] = res.getDeriv(d.AllVarsRef, i);
       }
 
-      d.resize(otherVec.size());
-      for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = temp[i];
+      d.resize(sizeExpr);
+      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, sizeExpr);
+      for (std::size_t i = 0; i < sizeExpr; i++) {
+        d.setVal(d.AllVarsRef, i, temp[i]);
+        d.setDeriv(d.AllVarsRef, i, tempDeriv[i]);
       }
 
     }
-- 
2.43.0


From a8ee02d2f93d507ec8534abd3c6e654bdba92907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 31/58] fix: derivatives respect the type of the independent
 variable

---
 include/etr_bits/Derivatives/VarPointer.hpp    | 10 +++++++---
 include/etr_bits/Vector/AssignmentOperator.hpp |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index 96fc23e..69eecdd 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -143,6 +143,10 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     }
   }
 
+  template <typename AV> static bool isIndepVar(const AV &av) {
+    return (Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx);
+  }
+
   template <typename AV> static auto getDeriv(AV &av, std::size_t VecIdx) {
     if constexpr (TypeIdx == -1) {
       return 0.0;
@@ -151,7 +155,7 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 0) {
       if (av.varBufferDerivs[Idx].size() != av.varBuffer[Idx].size()) {
         av.varBufferDerivs[Idx].resize(av.varBuffer[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if (isIndepVar(av) && !av.DerivInit) {
           av.varBufferDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -160,7 +164,7 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 1) {
       if (av.varBorrowDerivs[Idx].size() != av.varBorrow[Idx].size()) {
         av.varBorrowDerivs[Idx].resize(av.varBorrow[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if (isIndepVar(av) && !av.DerivInit) {
           av.varBorrowDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -169,7 +173,7 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 2) {
       if (av.varBorrowSEXPDerivs[Idx].size() != av.varBorrowSEXP[Idx].size()) {
         av.varBorrowSEXPDerivs[Idx].resize(av.varBorrowSEXP[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if (isIndepVar(av) && !av.DerivInit) {
           av.varBorrowSEXPDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index af8a6e4..8070a1c 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -183,10 +183,11 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     if constexpr (IsConstant<decltype(otherVec)>) {
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
+        d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      if (d.AllVarsRef.IndepVarIdx == d.I) {
+      if (d.AllVarsRef.IndepVarIdx == d.I &&
+          d.AllVarsRef.IndepVarTypeIdx == d.TIdx) {
         for (std::size_t i = 0; i < otherVec.size(); i++) {
           d.setDeriv(d.AllVarsRef, i, 1.0);
         }
-- 
2.43.0


From 2440f38e7740b3ef3e5317d60c5768d7dce426f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 32/58] fix: AllVars::initBorrow borrows the memory of the
 passed variables

---
 include/etr_bits/Derivatives/AllVars.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 6864471..7529065 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -50,7 +50,13 @@ struct AllVars {
     int idx = 0;
     LoopVariadicT(
         [&](auto arg) {
-          this->varBorrow[idx] = arg;
+          if constexpr (is<decltype(arg.d), Borrow<BaseType>>) {
+            // NOTE: borrow the same memory instead of copying in the not yet
+            // initialised variable
+            this->varBorrow[idx].d = arg.d;
+          } else {
+            this->varBorrow[idx] = arg;
+          }
           idx++;
         },
         args...);
-- 
2.43.0


From 99d6b2545a63611a6d6d5d40431d8f42fefb1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 33/58] fix: comparisons have logical elements and select
 elements as subscripts

---
 include/etr_bits/BinaryCalculations.hpp | 60 ++++++++-----------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index c12c2b9..f4241cd 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -272,19 +272,15 @@ template <typename L, typename R> auto operator==(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, EqualTrait>>(
         BinaryOperation<decltype(l.d), R, EqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), EqualTrait>>(
         BinaryOperation<L, decltype(r.d), EqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>(l.d, r.d));
   } else {
@@ -296,19 +292,15 @@ template <typename L, typename R> auto operator!=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
         BinaryOperation<decltype(l.d), R, UnEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
         BinaryOperation<L, decltype(r.d), UnEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -322,19 +314,15 @@ template <typename L, typename R> auto operator>(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, LargerTrait>>(
         BinaryOperation<decltype(l.d), R, LargerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), LargerTrait>>(
         BinaryOperation<L, decltype(r.d), LargerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -348,19 +336,15 @@ template <typename L, typename R> auto operator>=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, LargerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), LargerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -374,19 +358,15 @@ template <typename L, typename R> auto operator<(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, SmallerTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), SmallerTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
@@ -400,19 +380,15 @@ template <typename L, typename R> auto operator<=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<bool,
                BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
                BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+    return Vec<bool,
         BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
-- 
2.43.0


From 1645a2a23b8dec5c0a894b3e7c9a9afab89c8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 34/58] fix: arithmetic on logicals and powers of integers are
 not truncated

---
 include/etr_bits/Core/Traits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 4d87f1b..99195d2 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -42,7 +42,7 @@ inline double PlusDeriv(double lDeriv, double rDeriv) {
 
 struct PlusDerivTrait {
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l + r;
   }
 
@@ -54,7 +54,7 @@ struct PlusDerivTrait {
 
 struct MinusDerivTrait {
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l - r;
   }
 
@@ -66,7 +66,7 @@ struct MinusDerivTrait {
 
 struct TimesDerivTrait {
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l * r;
   }
 
@@ -128,7 +128,7 @@ struct DivideByConstantDerivTrait {
 
 struct PowDerivTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return std::pow(l, r);
   }
 
@@ -234,20 +234,20 @@ struct SinusDerivTrait {
 
 struct PlusTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l + r;
   }
 };
 
 struct MinusTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l - r;
   }
 };
 struct TimesTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l * r;
   }
 };
@@ -270,7 +270,7 @@ struct DivideTrait {
 };
 struct PowTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return std::pow(l, r);
   }
 };
-- 
2.43.0


From fa9cad2cf77530e9de09a2f9eb02f54e9c2f5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 35/58] fix: printing logical matrices does not depend on what
 was printed before

---
 include/etr_bits/Printing.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 4064028..68cdc5a 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -14,13 +14,24 @@ namespace etr {
 #define PRINT_STREAM PRINT_STREAM
 #endif
 
+// NOTE: logicals are printed as true and false, independent of what was printed
+// before. Afterwards the format of the stream is restored.
+struct BoolAlphaGuard {
+  std::ios_base::fmtflags old;
+  BoolAlphaGuard() : old(PRINT_STREAM.setf(std::ios_base::boolalpha)) {}
+  ~BoolAlphaGuard() { PRINT_STREAM.flags(old); }
+  BoolAlphaGuard(const BoolAlphaGuard &) = delete;
+  BoolAlphaGuard &operator=(const BoolAlphaGuard &) = delete;
+};
+
 inline void print() { PRINT_STREAM << std::endl; }
 
 template <typename T>
   requires isBID<T>
 inline void print(const T &inp) {
+  BoolAlphaGuard guard;
   if constexpr (std::is_same_v<T, bool>) {
-    PRINT_STREAM << std::boolalpha << inp << " ";
+    PRINT_STREAM << inp << " ";
   } else {
     PRINT_STREAM << inp << std::endl;
   }
@@ -39,9 +50,10 @@ inline void print(const char *inp) {
 template <typename L, typename R>
   requires NotOperation<R>
 inline void print(const Vec<L, R> &inp) {
+  BoolAlphaGuard guard;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << inp[i] << " ";
+      PRINT_STREAM << inp[i] << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
@@ -56,9 +68,10 @@ inline void print(const Vec<L, R> &inp) {
 template <typename T, typename Op, typename Trait>
   requires UnaryOrBinaryOperation<Op>
 inline void print(const etr::Vec<T, Op, Trait> &inp) {
+  BoolAlphaGuard guard;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << inp[i] << " ";
+      PRINT_STREAM << inp[i] << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
@@ -74,9 +87,10 @@ template <typename T> // issue: unnecessary new line
   requires(!isBID<T>)
 inline void
 print(const T &inp) { // issue: just a quick fix for printing unary expression
+  BoolAlphaGuard guard;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << inp[i] << " ";
+      PRINT_STREAM << inp[i] << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
@@ -90,9 +104,10 @@ print(const T &inp) { // issue: just a quick fix for printing unary expression
 
 template <typename T, typename Op, typename Trait, typename AV>
 inline void print(const etr::Vec<T, Op, Trait> &inp, AV &av) {
+  BoolAlphaGuard guard;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << decltype(inp.d)::getVal(av, i) << " ";
+      PRINT_STREAM << decltype(inp.d)::getVal(av, i) << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
-- 
2.43.0


From a13e8cf51836a3518b141a5b51d3d527ffc0cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 36/58] fix: an invalid position in a selection does not leave
 a partly written vector

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 8070a1c..d115590 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -4,6 +4,14 @@
 #include "VectorClass.hpp"
 #include <type_traits>
 
+// NOTE: all positions are checked before the first element is changed. Thus, an
+// invalid position does not result in a partly changed vector
+void checkSubset() {
+  for (std::size_t i = 0; i < d.ind.size(); i++) {
+    d[i];
+  }
+}
+
 template <typename TD>
   requires std::is_arithmetic_v<TD>
 Vec &operator=(const TD inp) {
@@ -13,6 +21,7 @@ Vec &operator=(const TD inp) {
                 "Cannot assign to an r value. E.g. c(1, 2, 3) <- 1");
   if constexpr (is<TD, T>) {
     if constexpr (isSubset::value) {
+      checkSubset();
       for (std::size_t i = 0; i < d.ind.size(); i++) {
         d[i] = inp;
       }
@@ -29,6 +38,7 @@ Vec &operator=(const TD inp) {
     return *this;
   } else {
     if constexpr (isSubset::value) {
+      checkSubset();
       for (std::size_t i = 0; i < d.ind.size(); i++) {
         d[i] = static_cast<T>(inp);
       }
@@ -101,6 +111,7 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
+    checkSubset();
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
@@ -171,6 +182,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
+    checkSubset();
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 5d9105cc7013c88d4f6436ac5c3d30c71463c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 37/58] fix: positions outside of a selected expression are out
 of boundaries

---
 include/etr_bits/Core/SubsetClass.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index d166758..0390662 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -129,7 +129,12 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[recycleIdx(pos, ind.size())]);
+    const std::size_t idx = ind[recycleIdx(pos, ind.size())];
+    // NOTE: operations and subsets recycle the position. Thus, it has to be
+    // checked here
+    ass(idx < p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
+    return this->p->operator[](idx);
   }
 
   ~Subset() {}
-- 
2.43.0


From 32700816cf7092a0402e990abf1cda29f0fbc3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 38/58] fix: elementary functions of double scalars compile

---
 include/etr_bits/UnaryCalculations.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 903430d..979ce48 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -107,7 +107,7 @@ template <typename T> auto sinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinus(const T &obj) -> BaseType {
-  return Sinus(obj);
+  return SinusTrait::f(obj);
 }
 
 template <typename T> auto sinush(const T &obj) {
@@ -125,7 +125,7 @@ template <typename T> auto sinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinush(const T &obj) -> BaseType {
-  return SinusH(obj);
+  return SinusHTrait::f(obj);
 }
 
 template <typename T> auto asinus(const T &obj) {
@@ -143,7 +143,7 @@ template <typename T> auto asinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto asinus(const T &obj) -> BaseType {
-  return ASinus(obj);
+  return ASinusTrait::f(obj);
 }
 
 template <typename T> auto cosinus(const T &obj) {
@@ -161,7 +161,7 @@ template <typename T> auto cosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinus(const T &obj) -> BaseType {
-  return Cosinus(obj);
+  return CosinusTrait::f(obj);
 }
 
 template <typename T> auto cosinush(const T &obj) {
@@ -179,7 +179,7 @@ template <typename T> auto cosinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinush(const T &obj) -> BaseType {
-  return CosinusH(obj);
+  return CosinusHTrait::f(obj);
 }
 
 template <typename T> auto acosinus(const T &obj) {
@@ -197,7 +197,7 @@ template <typename T> auto acosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto acosinus(const T &obj) -> BaseType {
-  return ACosinus(obj);
+  return ACosinusTrait::f(obj);
 }
 
 template <typename T> auto tangens(const T &obj) {
@@ -215,7 +215,7 @@ template <typename T> auto tangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangens(const T &obj) -> BaseType {
-  return Tangens(obj);
+  return TangensTrait::f(obj);
 }
 
 template <typename T> auto tangensh(const T &obj) {
@@ -233,7 +233,7 @@ template <typename T> auto tangensh(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangensh(const T &obj) -> BaseType {
-  return TangensH(obj);
+  return TangensHTrait::f(obj);
 }
 
 template <typename T> auto atangens(const T &obj) {
@@ -251,7 +251,7 @@ template <typename T> auto atangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto atangens(const T &obj) -> BaseType {
-  return ATangens(obj);
+  return ATangensTrait::f(obj);
 }
 
 template <typename T> auto ln(const T &obj) {
@@ -288,7 +288,7 @@ template <typename T> auto sqroot(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sqroot(const T &obj) -> BaseType {
-  return SquareRoot(obj);
+  return SquareRootTrait::f(obj);
 }
 
 template <typename T>
@@ -307,7 +307,7 @@ auto exp(const T &obj) { // issue: updae this in the documentation
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto exp(const T &obj) -> BaseType {
-  return Exp(obj);
+  return ExpTrait::f(obj);
 }
 
 } // namespace etr
-- 
2.43.0


From 249574309ee38bce995a79e27269296f265ca36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 39/58] fix: rep() does not wrap around the length of the
 result

---
 include/etr_bits/Allocation/Rep.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Allocation/Rep.hpp b/include/etr_bits/Allocation/Rep.hpp
index c618b3b..26bd099 100644
--- a/include/etr_bits/Allocation/Rep.hpp
+++ b/include/etr_bits/Allocation/Rep.hpp
@@ -22,6 +22,12 @@ const Vec is an Operation
 
 namespace etr {
 
+inline std::size_t repLength(std::size_t times, std::size_t size) {
+  ass(size == 0 || times <= static_cast<std::size_t>(-1) / size,
+      "invalid times argument");
+  return times * size;
+}
+
 template <typename L, typename R>
 inline auto repInternal(const L *inp, const R *s) {
   if constexpr (std::is_arithmetic_v<L> && std::is_arithmetic_v<R>) {
@@ -30,7 +36,7 @@ inline auto repInternal(const L *inp, const R *s) {
     ret.fill(*inp);
     return ret;
   } else if constexpr (!std::is_arithmetic_v<L> && std::is_arithmetic_v<R>) {
-    std::size_t length = convertSize(*s) * inp->size();
+    std::size_t length = repLength(convertSize(*s), inp->size());
     using DataType = ExtractDataType<L>::RetType;
     Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
         SI{length});
@@ -54,7 +60,7 @@ inline auto repInternal(const L *inp, const R *s) {
     warn(!(s->size() > 1),
          "times in fct rep has more than one element. Only the "
          "first one is used");
-    std::size_t length = convertSize((*s)[0]) * inp->size();
+    std::size_t length = repLength(convertSize((*s)[0]), inp->size());
     using DataType = ExtractDataType<L>::RetType;
     Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
         SI{length});
-- 
2.43.0


From b7d2c406920772f3a647325469aab385378b89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 40/58] fix: colon() of tracked programs does not overflow or
 accumulate rounding errors

---
 include/etr_bits/Allocation/Colon.hpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 9a3f618..364d604 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -244,26 +244,14 @@ inline auto colon(const A &start, const O &end) {
 // NOTE: here starts colon with saving in AllVars
 template <int Idx, typename AV, typename T>
 inline auto colonInternalDerivs(AV &av, T start, T end) {
-  if (start < end) {
-    std::size_t length = convertSize(end - start + 1);
-    av.varConstants[Idx].resize(convertSize(length));
-    Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-    std::size_t counter = 0;
-    while (start <= end) {
-      av.varConstants[Idx][counter] = start;
-      start++;
-      counter++;
-    }
-    return ret;
-  }
-  std::size_t length = convertSize(start - end + 1);
-  av.varConstants[Idx].resize(convertSize(length));
+  const double from = static_cast<double>(start);
+  const double to = static_cast<double>(end);
+  const double step = (start < end) ? 1.0 : -1.0;
+  std::size_t length = convertSize((start < end) ? to - from + 1 : from - to + 1);
+  av.varConstants[Idx].resize(length);
   Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-  std::size_t counter = 0;
-  while (end <= start) {
-    av.varConstants[Idx][counter] = start;
-    start--;
-    counter++;
+  for (std::size_t i = 0; i < length; i++) {
+    av.varConstants[Idx][i] = from + step * static_cast<double>(i);
   }
   return ret;
 }
-- 
2.43.0


From bfac2721736a55f2a50641b0358b8288f3b512c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 41/58] fix: move construct a borrowing vector

---
 include/etr_bits/Vector/Constructors.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index 9d2c052..debe3b9 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -132,7 +132,9 @@ Vec(const Vec<T2, R2, Trait2> &&other_vec) {
   ass(!other_vec.d.im() ||
           other_vec.d.nr() * other_vec.d.nc() == other_vec.size(),
       "non-conformable arrays");
-  if constexpr (isBorrow::value) {
+  if constexpr (isBorrow::value && is<R, R2>) {
+    d = other_vec.d;
+  } else if constexpr (isBorrow::value) {
     ass(d.sz <= other_vec.size(), "Sizes do not match");
     d.sz = other_vec.size();
     for (std::size_t i = 0; i < d.size(); i++) {
-- 
2.43.0


From f7b9b8d7420142ef10c024e676a63174a88efc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 42/58] fix: tracked vector_* warned twice about a fractional
 length

---
 include/etr_bits/Allocation/Vector.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 841cd45..1523c69 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -107,7 +107,6 @@ inline auto vector_integer(AV &av, const T &inp) {
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
@@ -133,7 +132,6 @@ inline auto vector_integer(AV &av, T &inp) {
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
@@ -159,7 +157,6 @@ inline auto vector_logical(AV &av, const T &inp) {
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
@@ -185,7 +182,6 @@ inline auto vector_logical(AV &av, T &inp) {
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
@@ -211,7 +207,6 @@ inline auto vector_numeric(AV &av, const T &inp) {
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
@@ -237,7 +232,6 @@ inline auto vector_numeric(AV &av, T &inp) {
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
-- 
2.43.0


From 23b338b816c804c36aecfe83f234357499996aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 43/58] fix: tracked vector_* kept old elements of the
 constant's slot

---
 include/etr_bits/Allocation/Vector.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 1523c69..2f93fa6 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -104,19 +104,23 @@ inline auto vector_integer(AV &av, const T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -129,19 +133,23 @@ inline auto vector_integer(AV &av, T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -154,19 +162,23 @@ inline auto vector_logical(AV &av, const T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -179,19 +191,23 @@ inline auto vector_logical(AV &av, T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -204,19 +220,23 @@ inline auto vector_numeric(AV &av, const T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -229,19 +249,23 @@ inline auto vector_numeric(AV &av, T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0.0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
-- 
2.43.0


From c1a1effb022c09b519a397b3c3d82254cfa18430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 44/58] fix: vector_integer and vector_logical truncated a
 fractional length silently

---
 include/etr_bits/Allocation/AllocationUtils.hpp | 13 ++++++++++---
 include/etr_bits/Allocation/Vector.hpp          |  8 ++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Allocation/AllocationUtils.hpp b/include/etr_bits/Allocation/AllocationUtils.hpp
index 23aa7ab..643b083 100644
--- a/include/etr_bits/Allocation/AllocationUtils.hpp
+++ b/include/etr_bits/Allocation/AllocationUtils.hpp
@@ -19,14 +19,21 @@ In Operation also Rvecs are included
 
 namespace etr {
 
+// NOTE: sizes are truncated to integers
+template <typename T> inline void warnDecimals(const T &inp) {
+  if constexpr (std::is_floating_point_v<T>) {
+    warn(isDoubleInt(inp),
+         "The provided size is a floating-point number with non-zero decimal "
+         "places. It has been floored to the nearest integer.");
+  }
+}
+
 template <typename T> inline std::size_t convertSize(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
     ass(inp >= 1, "invalid times argument");
     return inp;
   } else if constexpr (std::is_floating_point_v<T>) {
-    warn(isDoubleInt(inp),
-         "The provided size is a floating-point number with non-zero decimal "
-         "places. It has been floored to the nearest integer.");
+    warnDecimals(inp);
     ass(inp >= 1.0, "invalid times argument");
     return static_cast<std::size_t>(inp);
   } else if constexpr (std::is_integral_v<T>) {
diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 2f93fa6..ade0e55 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -11,11 +11,13 @@ template <typename T> inline auto vector_integer(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
     return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
+    warnDecimals(inp);
     return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
     return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
+    warnDecimals(inp[0]);
     return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
@@ -26,11 +28,13 @@ template <typename T> inline auto vector_integer(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
     return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
+    warnDecimals(inp);
     return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
     return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
+    warnDecimals(inp[0]);
     return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
@@ -41,11 +45,13 @@ template <typename T> inline auto vector_logical(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
     return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
+    warnDecimals(inp);
     return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
     return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
+    warnDecimals(inp[0]);
     return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
@@ -56,11 +62,13 @@ template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
     return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
+    warnDecimals(inp);
     return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
     return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
+    warnDecimals(inp[0]);
     return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
-- 
2.43.0


From a35934b9223fabf0eaf7d3a7ee7e221c531746a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 45/58] fix: a fractional column position was not reported, or
 once per row, unless the row was a double

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index de76603..dc4d231 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -104,6 +104,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
       return;
     }
+    warnDecimals(*idxR);
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
       ind[j] = matrixInd(vec, j + 1, *idxR);
@@ -182,6 +183,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   } else if constexpr (isd<R, int, C, double>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
     indexRow--;
+    warnDecimals(*idxR);
     ind.resize(1);
     ind[0] = matrixInd(vec, indexRow + 1, *idxR);
     return;
@@ -408,6 +410,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   // NOTE: Vec<bool|int|double> + double
   else if constexpr (IsAV<R> && is<C, double>) {
     using DataTypeR = ExtractDataType<R>::RetType;
+    warnDecimals(*idxR);
     if constexpr (is<DataTypeR, bool>) {
       std::size_t counter = 0;
       for (int i = 0; i < vec.nr(); i++) {
@@ -430,14 +433,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       }
       ind.resize(positions.size());
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = matrixInd(vec, positions[j] + 1, convertSize(*idxR));
+        ind[j] = matrixInd(vec, positions[j] + 1, *idxR);
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = matrixInd(vec, (*idxL)[j], convertSize(*idxR));
+        ind[j] = matrixInd(vec, (*idxL)[j], *idxR);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
-- 
2.43.0


From 3040beb217eb27611faf56856392d7bc64589ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 46/58] fix: a failing allocation of an assertion's message
 left a half-written variable

---
 include/etr_bits/Core/Utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index a6b6f91..b0e35ae 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -68,23 +68,23 @@ template <typename T, typename S> struct SubsetIt {
   void operator++() { ++pos; }
 };
 
-inline void ass(bool inp, std::string message) {
+inline void ass(bool inp, std::string_view message) {
 #ifdef STANDALONE_ETR
   if (!inp)
-    throw std::runtime_error(message);
+    throw std::runtime_error(std::string(message));
 #else
   if (!inp)
-    Rcpp::stop(message);
+    Rcpp::stop(std::string(message));
 #endif
 }
 
-inline void warn(bool inp, std::string message) {
+inline void warn(bool inp, std::string_view message) {
 #ifdef STANDALONE_ETR
   if (!inp)
-    std::cerr << "Warning: " + message << std::endl;
+    std::cerr << "Warning: " << message << std::endl;
 #else
   if (!inp)
-    Rcpp::warning("Warning: " + message);
+    Rcpp::warning(std::string("Warning: ").append(message));
 #endif
 }
 
-- 
2.43.0


From c84eee1c46efcfd69f586298c6dcc49259aaab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 47/58] fix: a failing allocation changed the value of a
 tracked variable but not its derivative

---
 include/etr_bits/Derivatives/AllVars.hpp       | 10 ++++++----
 include/etr_bits/Vector/AssignmentOperator.hpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 7529065..f77b6cc 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -154,15 +154,17 @@ struct AllVars {
     }
   }
 
-  void resizeDerivs(std::size_t Idx, int TypeIdx, std::size_t newSize) {
+  // NOTE: exchanges the derivatives without an allocation. Thus, it cannot fail
+  template <typename L>
+  void moveDerivs(std::size_t Idx, int TypeIdx, L &derivs) {
     if (TypeIdx == 0) {
-      return varBufferDerivs[Idx].resize(newSize);
+      varBufferDerivs[Idx].moveit(derivs);
     } else if (TypeIdx == 1) {
-      return varBorrowDerivs[Idx].resize(newSize);
+      varBorrowDerivs[Idx].moveit(derivs);
     } else if (TypeIdx == 2) {
 #ifdef STANDALONE_ETR
 #else
-      return varBorrowSEXPDerivs[Idx].resize(newSize);
+      varBorrowSEXPDerivs[Idx].moveit(derivs);
 #endif
     }
   }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index d115590..e48751e 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -193,11 +193,13 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     using typeExpr = std::remove_reference<ExtractedTypeD<tDRaw>>::type;
     // NOTE: a constant
     if constexpr (IsConstant<decltype(otherVec)>) {
+      // NOTE: all allocations have to be done before the variable is changed
+      Buffer<BaseType> derivs(otherVec.size());
       d.resize(otherVec.size());
+      d.AllVarsRef.moveDerivs(R::I, R::TIdx, derivs);
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
       if (d.AllVarsRef.IndepVarIdx == d.I &&
           d.AllVarsRef.IndepVarTypeIdx == d.TIdx) {
         for (std::size_t i = 0; i < otherVec.size(); i++) {
@@ -227,22 +229,22 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       }
 
       d.resize(sizeExpr);
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, sizeExpr);
+      d.AllVarsRef.moveDerivs(R::I, R::TIdx, tempDeriv);
       for (std::size_t i = 0; i < sizeExpr; i++) {
         d.setVal(d.AllVarsRef, i, temp[i]);
-        d.setDeriv(d.AllVarsRef, i, tempDeriv[i]);
       }
 
     }
     // NOTE: a variable
     else {
+      Buffer<BaseType> derivs(otherVec.size());
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < d.size(); i++) {
         d.setVal(otherVec.d.AllVarsRef, i,
                  tD::getVal(otherVec.d.AllVarsRef, i));
       }
       if constexpr (is<Trait2, VariableTypeTrait>) {
-        d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
+        d.AllVarsRef.moveDerivs(R::I, R::TIdx, derivs);
         for (std::size_t i = 0; i < d.size(); i++) {
           d.setDeriv(d.AllVarsRef, i,
                      otherVec.d.getDeriv(otherVec.d.AllVarsRef, i));
-- 
2.43.0


From 528cc1150e42c1e8f518a69826b31d5a0ab0332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 48/58] fix: at() with an unsigned char or unsigned short
 position 0 wrapped around to a valid position

---
 include/etr_bits/Subsetting/at.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 9ebc00a..bd83836 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -30,9 +30,9 @@ inline auto at(const T &inp, R i) {
 template <typename T, typename R>
   requires IsVec<T> && std::is_integral_v<R>
 inline auto &at(T &inp, R i) {
-  i--;
   ass(inp.d.allocated, "No memory was allocated");
-  ass(i >= 0, "Error: out of boundaries --> value below 1");
+  ass(i >= 1, "Error: out of boundaries --> value below 1");
+  i--;
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
   return inp.d.p[i];
@@ -42,9 +42,9 @@ template <typename T, typename R>
   requires IsVec<T> && std::is_floating_point_v<R>
 inline auto &at(T &inp, R i_) {
   int i = d2i(i_);
-  i--;
   ass(inp.d.allocated, "No memory was allocated");
-  ass(i >= 0, "Error: out of boundaries --> value below 1");
+  ass(i >= 1, "Error: out of boundaries --> value below 1");
+  i--;
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
   return inp.d.p[i];
-- 
2.43.0


From 11c7645f5a12ef7bcd2fefa2b30b701d5f1af0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 49/58] fix: subset() of a vector selected nothing for integer
 and floating point types other than int and double

---
 include/etr_bits/Subsetting/VectorSubsetting.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index 0e34b35..6d118c9 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -25,12 +25,12 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
       ass(false, "Variable[FALSE] subsetting is not supported. Sorry");
       return;
     }
-  } else if constexpr (is<I, int>) {
+  } else if constexpr (std::is_integral_v<I>) {
     ind.resize(1);
-    ind[0] = *idx - 1;
+    ind[0] = static_cast<std::size_t>(*idx) - 1;
     ass(ind[0] >= 0, "invalid index argument");
     return;
-  } else if constexpr (is<I, double>) {
+  } else if constexpr (std::is_floating_point_v<I>) {
     ind.resize(1);
     ind[0] = convertSizeSubsetting(*idx) - 1;
     return;
-- 
2.43.0


From cf6c84adb66209398c6f5c8473a9ad80b6a78663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 50/58] fix: li() refused selections and temporaries as data,
 took the first of several elements of a temporary position and did not take a
 number

---
 include/etr_bits/Interpolation.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index 7ceeb96..3e88502 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -9,14 +9,14 @@ namespace etr {
 
 template <typename A, typename B, typename C>
 inline double li(const A &t_, const B &timeVec, const C &parVec) {
-  using typeTraitA = std::remove_reference<decltype(t_)>::type::TypeTrait;
-  using typeTraitB = std::remove_reference<decltype(timeVec)>::type::TypeTrait;
-  using typeTraitC = std::remove_reference<decltype(parVec)>::type::TypeTrait;
-  using isVecA = std::is_same<typeTraitA, VectorTrait>;
-  using isVecB = std::is_same<typeTraitB, VectorTrait>;
-  using isVecC = std::is_same<typeTraitC, VectorTrait>;
+  constexpr bool isVecA =
+      IsRVec<A> || IsSubVec<A> || OperationVec<A> || IsVec<A>;
+  constexpr bool isVecB =
+      IsRVec<B> || IsSubVec<B> || OperationVec<B> || IsVec<B>;
+  constexpr bool isVecC =
+      IsRVec<C> || IsSubVec<C> || OperationVec<C> || IsVec<C>;
 
-  if constexpr (isVecA::value && isVecB::value && isVecC::value) {
+  if constexpr (isVecA && isVecB && isVecC) {
     ass(t_.size() == 1, "timepoint input has to have length == 1");
     double t = t_[0];
     double t0, t1;
@@ -45,7 +45,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
       }
     }
     return (ret);
-  } else if constexpr (!isVecA::value && isVecB::value && isVecC::value) {
+  } else if constexpr (!isVecA && isVecB && isVecC) {
     double t = static_cast<BaseType>(t_);
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-- 
2.43.0


From 1d43795f4d3d9fd828f52ec83d90befe0345c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 51/58] fix: cmr() did not compile with selections or
 expressions as times

---
 include/etr_bits/Interpolation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index 3e88502..90b0c69 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -127,7 +127,7 @@ inline double cmrInternal(const A *tInp, const B *timeVec, const C *parVec) {
       y1 = (*parVec)[idx1];
       if (i == timeVec->size() - 1) {
         idx2 = 0;
-        t2 = (*timeVec)[idx2] + timeVec->back();
+        t2 = (*timeVec)[idx2] + (*timeVec)[timeVec->size() - 1];
       } else {
         idx2 = i + 1;
         t2 = (*timeVec)[idx2];
@@ -135,10 +135,10 @@ inline double cmrInternal(const A *tInp, const B *timeVec, const C *parVec) {
       y2 = (*parVec)[idx2];
       if (i == timeVec->size() - 2) {
         idx3 = 0;
-        t3 = (*timeVec)[idx3] + timeVec->back();
+        t3 = (*timeVec)[idx3] + (*timeVec)[timeVec->size() - 1];
       } else if (i == timeVec->size() - 1) {
         idx3 = 1;
-        t3 = (*timeVec)[idx3] + timeVec->back();
+        t3 = (*timeVec)[idx3] + (*timeVec)[timeVec->size() - 1];
       } else {
         idx3 = i + 2;
         t3 = (*timeVec)[idx3];
-- 
2.43.0


From a91847cd1f4fcd763d6580d1346869e4f0785f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 52/58] fix: the R mode did not compile

Rf_IsLogical does not exist, PRINT_STREAM was defined as itself, and comparing
R's Rboolean with true selected ETR's operator==.
---
 include/etr_bits/Core/BaseStore.hpp  | 12 ++++++------
 include/etr_bits/Core/BorrowSEXP.hpp | 16 ++++++++--------
 include/etr_bits/Printing.hpp        |  3 +--
 3 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 7c7e670..c3c624b 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -65,7 +65,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -77,7 +77,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -89,7 +89,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -202,7 +202,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -214,7 +214,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -226,7 +226,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 4023ba6..0495c7e 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -42,7 +42,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = REAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -52,17 +52,17 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = INTEGER(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
-      ass(Rf_IsLogical(inp), "R object is not of type numeric");
+      ass(Rf_isLogical(inp), "R object is not of type numeric");
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -103,7 +103,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = REAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -113,17 +113,17 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = INTEGER(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
-      ass(Rf_IsLogical(inp), "R object is not of type numeric");
+      ass(Rf_isLogical(inp), "R object is not of type numeric");
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 68cdc5a..776f6fc 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -10,8 +10,7 @@ namespace etr {
 #ifdef STANDALONE_ETR
 #define PRINT_STREAM std::cout
 #else
-// TODO: find appropriate R variante for printing
-#define PRINT_STREAM PRINT_STREAM
+#define PRINT_STREAM Rcpp::Rcout
 #endif
 
 // NOTE: logicals are printed as true and false, independent of what was printed
-- 
2.43.0


From 08cdf189e10b2cd9f97398b3c7b402d2a151257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 53/58] fix: assigning an R object kept the dimensions of the
 previous value

and left the variable without memory if the R object had another type.
---
 include/etr_bits/Core/BaseStore.hpp | 49 +++--------------------------
 1 file changed, 5 insertions(+), 44 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index c3c624b..0d15ce4 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -192,50 +192,11 @@ template <typename T, typename BaseTrait> struct BaseStore {
 #ifdef STANDALONE_ETR
 #else
   void initSEXP(SEXP s) {
-    if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
-      delete[] p;
-      this->p = nullptr;
-    }
-    if constexpr (is<RetType, double>) {
-      ass(Rf_isReal(s), "R object is not of type numeric");
-      sz = static_cast<std::size_t>(Rf_length(s));
-      capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
-      if (Rf_isMatrix(s)) {
-        mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
-      }
-      for (int i = 0; i < sz; i++) {
-        p[i] = REAL(s)[i];
-      }
-      allocated = true;
-    } else if constexpr (is<RetType, int>) {
-      ass(Rf_isInteger(s), "R object is not of type integer");
-      sz = static_cast<std::size_t>(Rf_length(s));
-      capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
-      if (Rf_isMatrix(s)) {
-        mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
-      }
-      for (int i = 0; i < sz; i++) {
-        p[i] = INTEGER(s)[i];
-      }
-      allocated = true;
-    } else if constexpr (is<RetType, bool>) {
-      ass(Rf_isLogical(s), "R object is not of type logical");
-      sz = static_cast<std::size_t>(Rf_length(s));
-      capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
-      if (Rf_isMatrix(s)) {
-        mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
-      }
-      for (int i = 0; i < sz; i++) {
-        p[i] = LOGICAL(s)[i];
-      }
-      allocated = true;
-    } else {
-      static_assert(sizeof(T) == 0, "Unsupported type found");
-    }
+    // NOTE: s is converted first. Thus, the current content stays valid if s
+    // cannot be converted
+    BaseStore<T, BaseTrait> inp(s);
+    moveit(inp);
+    mp.setMatrix(inp.mp);
   }
 #endif
 
-- 
2.43.0


From b1ce29732b7a90d52743a65079329977ccbd67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:50 +0000
Subject: [PATCH 54/58] fix: a variable referring to an R object freed R's
 memory

Resizing, assigning, appending to, or rebinding such a variable deleted the
elements of the R object. Values that fit are now written into the R object;
longer ones get memory of their own.
---
 include/etr_bits/Core/BorrowSEXP.hpp          | 117 +++++-------------
 .../etr_bits/Vector/AssignmentOperator.hpp    |   6 +-
 2 files changed, 37 insertions(+), 86 deletions(-)

diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 0495c7e..fb740e9 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -32,11 +32,6 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     mp.setMatrix(other.mp);
   }
   BorrowSEXP(SEXP inp) {
-    if (allocated == true) {
-      ass(p != nullptr, "try to delete nullptr");
-      delete[] p;
-      this->p = nullptr;
-    }
     if constexpr (is<RetType, double>) {
       ass(Rf_isReal(inp), "R object is not of type numeric");
       p = REAL(inp);
@@ -93,46 +88,19 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   }
 
   BorrowSEXP &operator=(SEXP inp) {
-    if (allocated == true) {
-      ass(p != nullptr, "try to delete nullptr");
+    BorrowSEXP<T, BorrowSEXPSEXPTrait> other(inp);
+    if (todelete) {
       delete[] p;
-      this->p = nullptr;
-    }
-    if constexpr (is<RetType, double>) {
-      ass(Rf_isReal(inp), "R object is not of type numeric");
-      p = REAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else if constexpr (is<RetType, int>) {
-      ass(Rf_isInteger(inp), "R object is not of type numeric");
-      p = INTEGER(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else if constexpr (is<RetType, bool>) {
-      ass(Rf_isLogical(inp), "R object is not of type numeric");
-      p = LOGICAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else {
-      static_assert(sizeof(T) == 0, "Unsupported type found");
     }
+    p = other.p;
+    sz = other.sz;
+    capacity = other.capacity;
+    allocated = other.allocated;
+    todelete = other.todelete;
+    mp.setMatrix(other.mp);
     return *this;
   }
+  void initSEXP(SEXP inp) { *this = inp; }
 
   RetType &operator[](std::size_t pos) {
     ass(p != nullptr, "Subset is pointing to nothing!");
@@ -149,14 +117,15 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   }
 
   void init(std::size_t size) {
-    if (allocated && todelete) {
-      ass(p != nullptr, "try to delete nullptr");
+    const std::size_t newCapacity = static_cast<std::size_t>(1.15 * size);
+    T *temp = new T[newCapacity];
+    // NOTE: the memory of an R object belongs to R
+    if (todelete) {
       delete[] p;
-      p = nullptr;
     }
+    p = temp;
     sz = size;
-    capacity = static_cast<std::size_t>(1.15 * sz);
-    p = new T[capacity];
+    capacity = newCapacity;
     allocated = true;
     todelete = true;
   }
@@ -169,14 +138,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       return;
     } else {
       if (newSize > capacity) {
-        ass(p != nullptr, "try to delete nullptr");
-        delete[] p;
-        sz = newSize;
-        capacity = static_cast<std::size_t>(newSize * 1.15);
-        p = new T[capacity];
-        allocated = true;
-        todelete = true;
-        sz = newSize;
+        init(newSize);
         fill(T());
       } else {
         sz = newSize;
@@ -188,32 +150,26 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   template <typename L2> BorrowSEXP &moveit(L2 &other) {
     if (!todelete) {
       resize(other.size());
-      T *temporary = other.p;
-      int tempSize = other.sz;
-      int tempCapacity = other.capacity;
-      other.p = this->p;
-      other.sz = this->sz;
-      other.capacity = this->capacity;
-      this->p = temporary;
-      this->sz = tempSize;
-      this->capacity = tempCapacity;
+    }
+    if (!todelete) {
+      // NOTE: the values are written into the memory of the R object
+      for (std::size_t i = 0; i < sz; i++)
+        p[i] = other.p[i];
     } else {
-      T *temporary = other.p;
-      int tempSize = other.sz;
-      int tempCapacity = other.capacity;
-      other.p = this->p;
-      other.sz = this->sz;
-      other.capacity = this->capacity;
-      this->p = temporary;
-      this->sz = tempSize;
-      this->capacity = tempCapacity;
+      std::swap(p, other.p);
+      std::swap(sz, other.sz);
+      std::swap(capacity, other.capacity);
+      std::swap(allocated, other.allocated);
     }
     return *this;
   }
 
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() {
+    ass(sz > 0, "No memory was allocated");
+    return p[sz - 1];
+  }
   T *data() const { return p; }
   void realloc(int new_size) {
     if (new_size <= sz) {
@@ -226,14 +182,13 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     for (std::size_t i = sz; i < new_size; i++)
       temp[i] = T();
     sz = new_size;
-    delete[] p;
+    if (todelete) {
+      delete[] p;
+    }
     p = temp;
     allocated = true;
+    todelete = true;
     temp = nullptr;
-
-    if (!todelete) {
-      todelete = true;
-    }
   }
   void push_back(T input) {
     if (sz == capacity) {
@@ -283,12 +238,6 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index e48751e..2461c1e 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -32,7 +32,8 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = inp;
     }
-    if constexpr (isBuffer::value || isBorrow::value) {
+    if constexpr (isBuffer::value || isBorrow::value ||
+                  isBorrowSEXP::value) {
       d.setMatrix(false, 0, 0);
     }
     return *this;
@@ -49,7 +50,8 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = static_cast<T>(inp);
     }
-    if constexpr (isBuffer::value || isBorrow::value) {
+    if constexpr (isBuffer::value || isBorrow::value ||
+                  isBorrowSEXP::value) {
       d.setMatrix(false, 0, 0);
     }
     return *this;
-- 
2.43.0


From de00bfdab31b7e7c7110e6960ffe635f64d9674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 55/58] fix: results of the distribution functions had the
 wrong length

Only one element was calculated for vectors, the length of the first parameter
was ignored, and lower was ignored if all other arguments are scalars.
---
 include/etr_bits/Distri.hpp | 86 ++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index 570059a..9c694dd 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -25,12 +25,12 @@ inline Vec<BaseType> dunif_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -65,12 +65,12 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -94,7 +94,7 @@ inline Vec<BaseType> punif_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -106,12 +106,12 @@ inline Vec<BaseType> punif_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -137,7 +137,7 @@ inline Vec<BaseType> qunif_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -149,12 +149,12 @@ inline Vec<BaseType> qunif_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -193,12 +193,12 @@ inline Vec<BaseType> dnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -222,7 +222,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -234,12 +234,12 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -263,7 +263,7 @@ inline Vec<BaseType> pnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -275,12 +275,12 @@ inline Vec<BaseType> pnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -306,7 +306,7 @@ inline Vec<BaseType> qnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -318,12 +318,12 @@ inline Vec<BaseType> qnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -362,12 +362,12 @@ inline Vec<BaseType> dlnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -391,7 +391,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -403,12 +403,12 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -432,7 +432,7 @@ inline Vec<BaseType> plnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -444,12 +444,12 @@ inline Vec<BaseType> plnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -476,7 +476,7 @@ inline Vec<BaseType> qlnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -488,12 +488,12 @@ inline Vec<BaseType> qlnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -537,12 +537,12 @@ inline Vec<BaseType> dgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -572,7 +572,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   // const Vec<BaseType> &scale = 1 / rate;
   if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -584,12 +584,12 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size())};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -617,7 +617,7 @@ inline Vec<BaseType> pgamma_etr(const Vec<BaseType> &x,
   }
   // const Vec<BaseType> &scale = 1 / rate;
   if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -629,12 +629,12 @@ inline Vec<BaseType> pgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lower.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -664,7 +664,7 @@ inline Vec<BaseType> qgamma_etr(const Vec<BaseType> &x,
   }
   // const Vec<BaseType> &scale = 1 / rate;
   if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -676,12 +676,12 @@ inline Vec<BaseType> qgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lower.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-- 
2.43.0


From ae2a646fffbf0e997d700efd7cdd8e6b9ca699fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:02 +0000
Subject: [PATCH 56/58] fix: coca and other generators rejected variables
 referring to R objects

---
 include/etr_bits/Core/Types.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/etr_bits/Core/Types.hpp b/include/etr_bits/Core/Types.hpp
index 3af4521..a2fb64d 100644
--- a/include/etr_bits/Core/Types.hpp
+++ b/include/etr_bits/Core/Types.hpp
@@ -56,6 +56,14 @@ template <typename T, typename Trait>
 struct ExtractDataType<const Borrow<T, Trait>> {
   using RetType = T const;
 };
+template <typename T, typename Trait>
+struct ExtractDataType<BorrowSEXP<T, Trait>> {
+  using RetType = T;
+};
+template <typename T, typename Trait>
+struct ExtractDataType<const BorrowSEXP<T, Trait>> {
+  using RetType = T const;
+};
 
 template <typename Trait = DoubleTrait> struct doubleWrapper {
   using TypeTrait = Trait;
-- 
2.43.0


From 01b3f44c7f3fc12a991a397e70a5e2c1e396e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 57/58] fix: distribution functions divided by zero for
 variables without elements

---
 include/etr_bits/Distri.hpp | 80 ++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index 9c694dd..486cb61 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -34,8 +34,8 @@ inline Vec<BaseType> dunif_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::dunif(x[i % x.size()], min_[i % min_.size()],
-                        max_[i % max_.size()], lg[i % lg.size()]);
+      res[i] = R::dunif(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                        max_[recycleIdx(i, max_.size())], lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -57,7 +57,7 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::runif(min_[i % min_.size()], max_[i % max_.size()]);
+      res[i] = R::runif(min_[recycleIdx(i, min_.size())], max_[recycleIdx(i, max_.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -74,7 +74,7 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::runif(min_[i % min_.size()], max_[i % max_.size()]);
+      res[i] = R::runif(min_[recycleIdx(i, min_.size())], max_[recycleIdx(i, max_.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -115,9 +115,9 @@ inline Vec<BaseType> punif_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::punif(x[i % x.size()], min_[i % min_.size()],
-                        max_[i % max_.size()], lower[i % lower.size()],
-                        lg[i % lg.size()]);
+      res[i] = R::punif(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                        max_[recycleIdx(i, max_.size())], lower[recycleIdx(i, lower.size())],
+                        lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -158,9 +158,9 @@ inline Vec<BaseType> qunif_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::qunif(x[i % x.size()], min_[i % min_.size()],
-                        max_[i % max_.size()], lower[i % lower.size()],
-                        lg[i % lg.size()]);
+      res[i] = R::qunif(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                        max_[recycleIdx(i, max_.size())], lower[recycleIdx(i, lower.size())],
+                        lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -202,8 +202,8 @@ inline Vec<BaseType> dnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::dnorm(x[i % x.size()], min_[i % min_.size()],
-                        max_[i % max_.size()], lg[i % lg.size()]);
+      res[i] = R::dnorm(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                        max_[recycleIdx(i, max_.size())], lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -226,7 +226,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::rnorm(min_[i % min_.size()], max_[i % max_.size()]);
+      res[i] = R::rnorm(min_[recycleIdx(i, min_.size())], max_[recycleIdx(i, max_.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -243,7 +243,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::rnorm(min_[i % min_.size()], max_[i % max_.size()]);
+      res[i] = R::rnorm(min_[recycleIdx(i, min_.size())], max_[recycleIdx(i, max_.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -284,9 +284,9 @@ inline Vec<BaseType> pnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::pnorm(x[i % x.size()], min_[i % min_.size()],
-                        max_[i % max_.size()], lower[i % lower.size()],
-                        lg[i % lg.size()]);
+      res[i] = R::pnorm(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                        max_[recycleIdx(i, max_.size())], lower[recycleIdx(i, lower.size())],
+                        lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -327,9 +327,9 @@ inline Vec<BaseType> qnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::qnorm(x[i % x.size()], min_[i % min_.size()],
-                        max_[i % max_.size()], lower[i % lower.size()],
-                        lg[i % lg.size()]);
+      res[i] = R::qnorm(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                        max_[recycleIdx(i, max_.size())], lower[recycleIdx(i, lower.size())],
+                        lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -371,8 +371,8 @@ inline Vec<BaseType> dlnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::dlnorm(x[i % x.size()], min_[i % min_.size()],
-                         max_[i % max_.size()], lg[i % lg.size()]);
+      res[i] = R::dlnorm(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                         max_[recycleIdx(i, max_.size())], lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -395,7 +395,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::rlnorm(min_[i % min_.size()], max_[i % max_.size()]);
+      res[i] = R::rlnorm(min_[recycleIdx(i, min_.size())], max_[recycleIdx(i, max_.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -412,7 +412,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::rlnorm(min_[i % min_.size()], max_[i % max_.size()]);
+      res[i] = R::rlnorm(min_[recycleIdx(i, min_.size())], max_[recycleIdx(i, max_.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -453,9 +453,9 @@ inline Vec<BaseType> plnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::plnorm(x[i % x.size()], min_[i % min_.size()],
-                         max_[i % max_.size()], lower[i % lower.size()],
-                         lg[i % lg.size()]);
+      res[i] = R::plnorm(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                         max_[recycleIdx(i, max_.size())], lower[recycleIdx(i, lower.size())],
+                         lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -497,9 +497,9 @@ inline Vec<BaseType> qlnorm_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::qlnorm(x[i % x.size()], min_[i % min_.size()],
-                         max_[i % max_.size()], lower[i % lower.size()],
-                         lg[i % lg.size()]);
+      res[i] = R::qlnorm(x[recycleIdx(i, x.size())], min_[recycleIdx(i, min_.size())],
+                         max_[recycleIdx(i, max_.size())], lower[recycleIdx(i, lower.size())],
+                         lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -546,8 +546,8 @@ inline Vec<BaseType> dgamma_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::dgamma(x[i % x.size()], shape[i % shape.size()],
-                         scale[i % scale.size()], lg[i % lg.size()]);
+      res[i] = R::dgamma(x[recycleIdx(i, x.size())], shape[recycleIdx(i, shape.size())],
+                         scale[recycleIdx(i, scale.size())], lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -576,7 +576,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::rgamma(shape[i % shape.size()], scale[i % scale.size()]);
+      res[i] = R::rgamma(shape[recycleIdx(i, shape.size())], scale[recycleIdx(i, scale.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -593,7 +593,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::rgamma(shape[i % shape.size()], scale[i % scale.size()]);
+      res[i] = R::rgamma(shape[recycleIdx(i, shape.size())], scale[recycleIdx(i, scale.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -638,9 +638,9 @@ inline Vec<BaseType> pgamma_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::pgamma(x[i % x.size()], shape[i % shape.size()],
-                         scale[i % scale.size()], lower[i % lower.size()],
-                         lg[i % lg.size()]);
+      res[i] = R::pgamma(x[recycleIdx(i, x.size())], shape[recycleIdx(i, shape.size())],
+                         scale[recycleIdx(i, scale.size())], lower[recycleIdx(i, lower.size())],
+                         lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
@@ -685,9 +685,9 @@ inline Vec<BaseType> qgamma_etr(const Vec<BaseType> &x,
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-      res[i] = R::qgamma(x[i % x.size()], shape[i % shape.size()],
-                         scale[i % scale.size()], lower[i % lower.size()],
-                         lg[i % lg.size()]);
+      res[i] = R::qgamma(x[recycleIdx(i, x.size())], shape[recycleIdx(i, shape.size())],
+                         scale[recycleIdx(i, scale.size())], lower[recycleIdx(i, lower.size())],
+                         lg[recycleIdx(i, lg.size())]);
       PutRNGstate();
       m.unlock();
     }
-- 
2.43.0


From 0b257c2c9a715bb8d7944ab819e1770ed37152e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:13 +0000
Subject: [PATCH 58/58] fix: ask each operand of an expression once for its
 length and shape

The effort to get the length of an expression grew exponentially with the depth
of nesting: a sum of 20 terms did not finish.
---
 include/etr_bits/BinaryCalculations.hpp     | 21 +++++++++++++++------
 include/etr_bits/Derivatives/DerivTypes.hpp | 14 ++++++++++----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index f4241cd..e51845c 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -52,7 +52,9 @@ struct BinaryOperation {
       return 0;
     } else {
       if (l.im() && r.im()) {
-        return (l.nc() > r.nc()) ? l.nc() : r.nc();
+        const std::size_t ncL = l.nc();
+        const std::size_t ncR = r.nc();
+        return (ncL > ncR) ? ncL : ncR;
       } else if (!l.im() && r.im()) {
         return r.nc();
       } else if (l.im() && !r.im()) {
@@ -73,7 +75,9 @@ struct BinaryOperation {
       return 0;
     } else {
       if (l.im() && r.im()) {
-        return (l.nr() > r.nr()) ? l.nr() : r.nr();
+        const std::size_t nrL = l.nr();
+        const std::size_t nrR = r.nr();
+        return (nrL > nrR) ? nrL : nrR;
       } else if (!l.im() && r.im()) {
         return r.nr();
       } else if (l.im() && !r.im()) {
@@ -115,9 +119,13 @@ struct BinaryOperation {
     } else if constexpr (isDoubleL && !isDoubleR) {
       return r.size();
     } else if constexpr (!isDoubleL && !isDoubleR) {
-      if (l.size() == 0 || r.size() == 0)
+      // NOTE: each operand is asked once. Otherwise the effort doubles with each
+      // level of nesting
+      const std::size_t sizeL = l.size();
+      const std::size_t sizeR = r.size();
+      if (sizeL == 0 || sizeR == 0)
         return 0;
-      return l.size() > r.size() ? l.size() : r.size();
+      return sizeL > sizeR ? sizeL : sizeR;
     }
   }
 
@@ -134,8 +142,9 @@ struct BinaryOperation {
   template <typename AV> static std::size_t getSize(AV &av) {
     using TyL = typename std::remove_reference<typeTraitL>::type;
     using TyR = typename std::remove_reference<typeTraitR>::type;
-    return TyL::getSize(av) > TyR::getSize(av) ? TyL::getSize(av)
-                                               : TyR::getSize(av);
+    const std::size_t sizeL = TyL::getSize(av);
+    const std::size_t sizeR = TyR::getSize(av);
+    return sizeL > sizeR ? sizeL : sizeR;
   }
   template <typename AV>
   static RetType getVal(AV &av,
diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 63c720a..db5eb74 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -18,8 +18,11 @@ struct QuarternyType {
   using Op = OpTrait;
 
   template <typename AV> static std::size_t getSize(AV &av) {
-    return LDeriv::getSize(av) > RDeriv::getSize(av) ? LDeriv::getSize(av)
-                                                     : RDeriv::getSize(av);
+    // NOTE: each operand is asked once. Otherwise the effort doubles with each
+    // level of nesting
+    const std::size_t sizeL = LDeriv::getSize(av);
+    const std::size_t sizeR = RDeriv::getSize(av);
+    return sizeL > sizeR ? sizeL : sizeR;
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
@@ -50,8 +53,11 @@ struct BinaryType {
   using TypeTrait = Trait;
   using Op = OpTrait;
   template <typename AV> static std::size_t getSize(AV &av) {
-    return LDeriv::getSize(av) > RDeriv::getSize(av) ? LDeriv::getSize(av)
-                                                     : RDeriv::getSize(av);
+    // NOTE: each operand is asked once. Otherwise the effort doubles with each
+    // level of nesting
+    const std::size_t sizeL = LDeriv::getSize(av);
+    const std::size_t sizeR = RDeriv::getSize(av);
+    return sizeL > sizeR ? sizeL : sizeR;
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
     const std::size_t idxL = recycleIdx(idx, LDeriv::getSize(av));
-- 
2.43.0


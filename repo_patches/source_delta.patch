From 58f58030a76a91137b2ddc023d0ff54a7076727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 001/126] fix: Box::chop returns pieces that tile the box

Pieces of real boxes were built from the cell indices instead of the grid
positions, lines slightly outside the box produced pieces out of it, and a
box between two grid lines read the front of an empty list.
---
 src/core/geometry/Box.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..013929b 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -400,13 +400,15 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     // Prepares subgrid with the size of the box preserving grid positions.
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
-        pos[d] = grid.getPosInRange(d, min_(d), max_(d));
-        if (min_(d) != pos[d].front()) {
-            std::vector<Math::Real> aux(1,min_(d));
-            aux.insert(aux.end(), pos[d].begin(), pos[d].end());
-            pos[d] = aux;
+        const std::vector<Math::Real> gridPos = grid.getPos(d);
+        pos[d].push_back(min_(d));
+        for (std::size_t i = 0; i < gridPos.size(); i++) {
+            if (Math::Util::greater(gridPos[i], min_(d)) &&
+                Math::Util::lower(gridPos[i], max_(d))) {
+                pos[d].push_back(gridPos[i]);
+            }
         }
-        if (max_(d) != pos[d].back()) {
+        if (max_(d) != min_(d)) {
             pos[d].push_back(max_(d));
         }
     }
@@ -421,8 +423,10 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                Math::Vector::Cartesian<Math::Int,D> minI(i, j, k);
+                Math::Vector::Cartesian<Math::Int,D> maxI(i+1, j+1, k+1);
+                CVecTD minP = subGrid.getPos(minI);
+                CVecTD maxP = subGrid.getPos(maxI);
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From a20cd102a60d097bcdbfbc927321e52c3b5d4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 002/126] fix: Grid::enlargeBound compares with the step of the
 padded boundary and ends

It compared the mesh size with the first or second step of the axis instead
of the one at the boundary (out of range for an axis of one cell) and its
Newton iteration never ended for large paddings, as its threshold was
absolute.
---
 src/core/geometry/Grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..4792d18 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -637,7 +637,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
         siz = getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
@@ -661,7 +661,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
             Math::Real f = 1;
             const Math::Real threshold =
                     std::numeric_limits<Math::Real>::epsilon()*1.0e6;
-            while (std::abs(f) >= threshold) {
+            while (std::abs(f) >= threshold * d13) {
                 f = t0 * (1-pow(r,n)) / (1-r) - d13;
                 Math::Real df = t0*(1-pow(r,n))/pow(1-r,2) - 
                                 t0*n*pow(r,n-1)/(1-r);
-- 
2.43.0


From ea4757ec5d9a79bf656afb71bf1eedd8759d5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 003/126] fix: Grid::isCartesian also compares the first step
 of each axis

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 4792d18..40dd651 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -218,7 +218,7 @@ bool Grid<D>::isCartesian() const {
     Math::Real canon = getStep(Math::Constants::x)[0];
     for (std::size_t i = 0; i < D; i++) {
         std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
+        for (std::size_t n = 0; n < step.size(); n++) {
             if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
                 return false;
             }
-- 
2.43.0


From 18659f551d99274a9dc8edcee0e79a59abea4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 004/126] fix: Grid::getFullDomainBoundingCellBox ends at the
 last grid line

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 40dd651..853c993 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -321,7 +321,7 @@ template<std::size_t D>
 Box<Math::Int,D> Grid<D>::getFullDomainBoundingCellBox() const {
     CVecID min, max, dims;
     for (std::size_t n=0; n<D; n++){
-        dims[n] = pos_[n].size();
+        dims[n] = pos_[n].size() - 1;
     }
 
     return BoxID(CVecID(0,0,0), dims);
-- 
2.43.0


From 05acfbfcb8045937a4f0b93c02a596f59fa4cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 005/126] fix: Grid from box and step adds no cell because of
 rounding

---
 src/core/geometry/Grid.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 853c993..cf40d1b 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -44,11 +44,8 @@ Grid<D>::Grid(const BoxRD& box,
         if (dxyz(i) == (Math::Real) 0.0) {
             nCells = 1;
         } else {
-            nCells = ceil(boxLength / dxyz(i));
-            if (Math::Util::greater(boxLength, nCells*dxyz(i),
-                    dxyz(i), tolerance)) {
-                nCells++;
-            }
+            nCells = Math::Util::ceil(boxLength / dxyz(i),
+                                      Math::Util::tolerance);
         }
         pos_[i].resize(nCells+1);
         for (std::size_t j = 0; j < nCells+1; j++) {
-- 
2.43.0


From bee739b576269474a36341adde23c3e864010573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 006/126] fix: Grid::getBoxIContaining stays in the grid for
 points on its upper bound

---
 src/core/geometry/Grid.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index cf40d1b..1931975 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -340,6 +340,13 @@ Box<Math::Real,D> Grid<D>::getBoxRContaining(const CVecRD& point) const {
 template<std::size_t D>
 Box<Math::Int,D> Grid<D>::getBoxIContaining(const CVecRD& point) const {
     CVecID min = getCell(point, false);
+    for (std::size_t d = 0; d < D; d++) {
+        // Points on the upper bound belong to the last cell.
+        if (min(d) > 0 && min(d) == getNumCells()(d) &&
+            isInto(d, point(d))) {
+            min(d)--;
+        }
+    }
     CVecID max = min + 1;
     return BoxID(min, max);
 }
-- 
2.43.0


From 2642ab3f35c03352cdfe00168d81ec497ad7bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 007/126] fix: coordinate Group::applyScalingFactor rebuilds
 the position index

---
 src/core/geometry/coordinate/Group.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..7ceba06 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -265,6 +265,10 @@ void Group<C>::applyScalingFactor(const Math::Real factor) {
             *ptr *= factor;
         }
     }
+    // The positions are the keys of the indices.
+    indexUnstr_.clear();
+    indexStr_.clear();
+    postprocess_(0);
 }
 
 template<typename C>
-- 
2.43.0


From 51b2c09afa583eef13a1f610a26e0aed1b824be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 008/126] fix: Identifiable group stays unchanged when it
 rejects an identifier

---
 src/core/group/Identifiable.h   |  1 +
 src/core/group/Identifiable.hpp | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 4e44dee..6be6365 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -87,6 +87,7 @@ private:
     Id lastId_;
     std::map<Id, std::size_t> mapId_;
 
+    void checkIds_(const Group<T>& rhs) const;
     void postprocess_(const std::size_t& pos);
     std::vector<std::size_t> getElemsId_(const std::vector<Id>&) const;
 };
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index a502457..4795353 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -23,6 +23,7 @@
 
 #include "Error.h"
 
+#include <set>
 #include <string>
 
 namespace SEMBA {
@@ -157,6 +158,7 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
+    checkIds_(rhs);
     std::size_t lastSize = this->size();
     Group<T>::add(rhs);
     postprocess_(lastSize);
@@ -165,6 +167,7 @@ Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
+    checkIds_(rhs);
     std::size_t lastSize = this->size();
     Group<T>::add(std::move(rhs));
     postprocess_(lastSize);
@@ -230,6 +233,20 @@ void Identifiable<T,Id>::removeId(const std::vector<Id>& ids) {
     remove(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::checkIds_(const Group<T>& rhs) const {
+    std::set<Id> ids;
+    for(std::size_t i = 0; i < rhs.size(); i++) {
+        const Id id = rhs(i)->getId();
+        if (id == Id(0)) {
+            throw typename Error::Id::Zero<Id>();
+        }
+        if (mapId_.count(id) != 0 || !ids.insert(id).second) {
+            throw typename Error::Id::Duplicated<Id>(id);
+        }
+    }
+}
+
 template<typename T, class Id>
 void Identifiable<T,Id>::postprocess_(const std::size_t& firstStep) {
     for(std::size_t i = firstStep; i < this->size(); i++) {
-- 
2.43.0


From 1940f9cd7df69d2ecd647b8f8030fdc84b144dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 009/126] fix: Matrix::sortRows stays inside the matrix

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 src/core/math/matrix/Matrix.hpp  | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..ea474b6 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -192,7 +192,7 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
+   sortRows_omp(0, nCols()-1);
    removeRepeatedSortedRows();
    return *this;
 }
@@ -200,7 +200,7 @@ Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
+   this->sortRows();
    removeRepeatedSortedRows();
 }
 
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..17e4c96 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -224,7 +224,9 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    if (nCols() > 0) {
+        sortRows(0, nCols()-1);
+    }
 }
 
 template <class T>
@@ -308,7 +310,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
-- 
2.43.0


From 1b1ad9cf5c117981aeef48e5d9267686750280ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 010/126] fix: Dynamic::removeRepeatedSortedRows keeps the row
 of a one-row matrix

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index ea474b6..8302fa3 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -212,7 +212,7 @@ Dynamic<T>::removeRepeatedSortedRows() {
    std::size_t nonRepeated = 0;
    std::size_t nCompared;
    if (nRows() <= 1 ) {
-      nCompared = 0;
+      return;
    } else {
       nCompared = nRows() - 1;
    }
-- 
2.43.0


From f0abb69402352b15be352f8384d055540fa11335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 011/126] fix: inverting a singular matrix throws whichever
 pivot vanishes

---
 src/core/math/matrix/Matrix.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index 17e4c96..0f4ce8e 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -139,11 +139,9 @@ void Matrix<T>::factorizeLU_(std::size_t pivot[]) {
     }
     pivot[n-1] = n-1;
     if (val(n-1,n-1) == (T) 0.0) {
-        std::cout << "ERROR@Matrix<T>::factorizeToArray" << std::endl;
-        std::cout << "  Zero pivot on step " << n-1 << std::endl;
-        printInfo();
-        assert(false);
-        exit (EXIT_FAILURE);
+        std::stringstream ss;
+        ss << "Zero pivot on step " << n-1;
+        throw std::out_of_range(ss.str());
     }
 }
 
-- 
2.43.0


From 625c16a7e99f2c631cf8cf821b379eadeae9ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 012/126] fix: Matrix::factorizeQR_ factorizes the matrix and
 not its transpose

---
 src/core/math/matrix/Matrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index 0f4ce8e..ba446ce 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -495,7 +495,11 @@ bool Matrix<T>::factorizeQR_(Matrix<T>& Q, Matrix<T>& R) {
 
     for (int i = 0; i < nCols; i++) {
         // u_i = a_i
-        a.push_back(this->cpRowToVector(i));
+        std::vector<T> col(nRows());
+        for (std::size_t k = 0; k < nRows(); k++) {
+            col[k] = this->val(k,i);
+        }
+        a.push_back(col);
         u.push_back(a[i]);
 
         for (int j = 0; j <= i-1; j++) {
-- 
2.43.0


From 62aeea276389e8cd5a100c8190a39fbc7dbedcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 013/126] fix: a matrix that is not square is not symmetric

---
 src/core/math/matrix/Matrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index ba446ce..17d29d9 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -421,6 +421,9 @@ bool Matrix<T>::isSquare() const {
 
 template <class T>
 bool Matrix<T>::isSymmetric() const {
+    if (!isSquare()) {
+        return false;
+    }
     for (std::size_t i = 0; i < nRows(); i++) {
         for (std::size_t j = 0; j < nRows(); j++) {
             if (val(i,j) != val(j,i)) {
-- 
2.43.0


From 673825799ca62d7f378a89c461c73c4baf507772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 014/126] fix: Dynamic::kron of operands of any size

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 8302fa3..6c01490 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -548,12 +548,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
-- 
2.43.0


From a997629053717f30597ad8be55621028573761a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 015/126] fix: Dynamic::convolute with a longer operand

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 6c01490..5598b0d 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -472,7 +472,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j >= param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
-- 
2.43.0


From 3163e9775ba619671072c715223da50f8b2aab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 016/126] fix: Dynamic matrix built from values allocates its
 storage

---
 src/core/math/matrix/Dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 5598b0d..21c9770 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -67,6 +67,7 @@ Dynamic<T>::Dynamic(std::size_t rows, std::size_t cols, T** values) {
    _nRows = rows;
    _nCols = cols;
    assert(values != nullptr);
+   _val = new T[_nRows * _nCols];
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < _nCols; j++) {
          val(i,j) = values[i][j];
-- 
2.43.0


From cc5b2916a8fd44c321845ed93640b7c863fe4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 017/126] fix: equal Dynamic matrices of integers compare equal

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 21c9770..6e7774c 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -443,7 +443,7 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
       for (std::size_t i = 0; i < _nRows; i++) {
          for (std::size_t j = 0; j < _nCols; j++) {
             T diff = std::abs(this->operator()(i,j) - param(i,j));
-            res &= diff < std::numeric_limits<T>::epsilon() * 1e2;
+            res &= diff <= std::numeric_limits<T>::epsilon() * 1e2;
          }
       }
       return res;
-- 
2.43.0


From 7fdcce3bbda39b97f1c98855f118ff81daf31eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 018/126] fix: Cartesian unary minus does not change its
 operand

---
 src/core/math/vector/Cartesian.h   | 2 +-
 src/core/math/vector/Cartesian.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/math/vector/Cartesian.h b/src/core/math/vector/Cartesian.h
index b5d7bc3..692faa2 100755
--- a/src/core/math/vector/Cartesian.h
+++ b/src/core/math/vector/Cartesian.h
@@ -64,7 +64,7 @@ public:
 
     Cartesian<T,D>  operator+(const T param) const;
     Cartesian<T,D>  operator+(const Cartesian<T,D>& param) const;
-    Cartesian<T,D>& operator-();
+    Cartesian<T,D>  operator-() const;
     Cartesian<T,D>  operator-(const T param) const;
     Cartesian<T,D>  operator-(const Cartesian<T,D>& param) const;
     Cartesian<T,D>  operator*(const T param) const;
diff --git a/src/core/math/vector/Cartesian.hpp b/src/core/math/vector/Cartesian.hpp
index 7cf1cd0..6fbc830 100755
--- a/src/core/math/vector/Cartesian.hpp
+++ b/src/core/math/vector/Cartesian.hpp
@@ -189,11 +189,12 @@ Cartesian<T,D> Cartesian<T,D>::operator+(const Cartesian<T,D>& param) const {
 }
 
 template <class T, std::size_t D>
-Cartesian<T,D>& Cartesian<T,D>::operator-() {
+Cartesian<T,D> Cartesian<T,D>::operator-() const {
+    Cartesian<T,D> res;
     for (std::size_t i = 0; i < D; i++) {
-        val[i] = - val[i];
+        res.val[i] = - val[i];
     }
-    return *this;
+    return res;
 }
 
 template <class T, std::size_t D>
-- 
2.43.0


From 29b827a61a24df7df0335955ae72ff1d012cf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 019/126] fix: scalar minus Cartesian works for every component
 type

---
 src/core/math/vector/Cartesian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/vector/Cartesian.hpp b/src/core/math/vector/Cartesian.hpp
index 6fbc830..c476d78 100755
--- a/src/core/math/vector/Cartesian.hpp
+++ b/src/core/math/vector/Cartesian.hpp
@@ -217,7 +217,7 @@ Cartesian<T,D> Cartesian<T,D>::operator-(const T param) const {
 
 template <class T, std::size_t D>
 Cartesian<T,D> operator-(const T& lhs, const Cartesian<T,D>& rhs) {
-    Cartesian<Real,D> res;
+    Cartesian<T,D> res;
     for (std::size_t i = 0; i < D; i++) {
         res.val[i] = lhs - rhs.val[i];
     }
-- 
2.43.0


From 6b48bfdfacb09d7232467a15eb6376c10284dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 020/126] fix: Dynamic scalar assignment, division, order and
 reshape use its flat storage

---
 src/core/math/matrix/Dynamic.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 6e7774c..1e19596 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -280,7 +280,7 @@ template <class T>
 Dynamic<T>& Dynamic<T>::operator=(const T &param) {
    for (std::size_t i = 0; i < _nRows; i++)
       for (std::size_t j = 0; j < _nCols; j++)
-         _val[i][j] = param;
+         val(i,j) = param;
    return *this;
 }
 
@@ -392,7 +392,7 @@ Dynamic<T> Dynamic<T>::operator/(const T param) const {
    Dynamic<T> res(_nRows, _nCols);
    for (i = 0; i < _nRows; i++)
       for (j = 0; j < _nCols; j++)
-         res._val[i][j] /= param;
+         res(i,j) = val(i,j) / param;
    return res;
 }
 
@@ -425,11 +425,10 @@ Dynamic<T>& Dynamic<T>::operator*=(const T param) {
 
 template <class T>
 Dynamic<T>& Dynamic<T>::operator/=(const T param) {
-   assert(_nRows == param._nRows && _nCols == param._nCols);
    std::size_t i, j;
    for (i = 0; i < _nRows; i++) {
       for (j = 0; j < _nCols; j++) {
-         _val[i][j] /= param;
+         val(i,j) /= param;
       }
    }
    return *this;
@@ -454,10 +453,14 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
 template <class T>
 bool Dynamic<T>::operator<(const Dynamic<T>& param) const {
    assert(_nRows == param._nRows && _nCols == param._nCols);
-   for (std::size_t i = 0; i < _nRows; i++)
-      for (std::size_t j = 0; j < _nCols; j++)
-         if (_val[i][j] < param._val[i][j])
-            return true;
+   for (std::size_t i = 0; i < _nRows*_nCols; i++) {
+      if (_val[i] < param._val[i]) {
+         return true;
+      }
+      if (_val[i] > param._val[i]) {
+         return false;
+      }
+   }
    return false;
 }
 
@@ -508,7 +511,7 @@ void Dynamic<T>::printInfo(std::size_t fr, std::size_t lr,
    std::cout << "Stored values: " << std::endl;
    for (std::size_t i = fr; i <= lr; i++) {
       for (std::size_t j = fc; j < lc; j++)
-          std::cout << _val[i][j] << " ";
+          std::cout << val(i,j) << " ";
       std::cout << std::endl;
    }
 }
@@ -531,7 +534,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one row at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k / _nCols][k % _nCols];
+            res(i,j) = val(k / _nCols, k % _nCols);
             k++;
          }
       break;
@@ -539,7 +542,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one column at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k % _nRows][k / _nRows];
+            res(i,j) = val(k % _nRows, k / _nRows);
             k++;
          }
       break;
-- 
2.43.0


From 9044ba976cdd1b9aeb4d052e72e16a5e4e7775b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 021/126] fix: product of a Static matrix and a vector has as
 many components as rows

---
 src/core/math/matrix/Static.h   | 2 +-
 src/core/math/matrix/Static.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/math/matrix/Static.h b/src/core/math/matrix/Static.h
index a97928c..58f8891 100755
--- a/src/core/math/matrix/Static.h
+++ b/src/core/math/matrix/Static.h
@@ -64,7 +64,7 @@ public:
    Static<T,ROWS,COLS>& operator*=(const T rhs);
    Static<T,ROWS,COLS>& operator/=(const T rhs);
    Static<T,ROWS,COLS> operator*(T rhs) const;
-   Vector::Cartesian<T,COLS> operator*(Vector::Cartesian<T,COLS> rhs) const;
+   Vector::Cartesian<T,ROWS> operator*(Vector::Cartesian<T,COLS> rhs) const;
    Static<T,ROWS,COLS> operator+(Static<T,ROWS,COLS> &rhs) const;
    Static<T,COLS,ROWS>& invert();
    Static<T,COLS,ROWS> transpose();
diff --git a/src/core/math/matrix/Static.hpp b/src/core/math/matrix/Static.hpp
index 78879e0..48ef541 100755
--- a/src/core/math/matrix/Static.hpp
+++ b/src/core/math/matrix/Static.hpp
@@ -243,9 +243,9 @@ Static<T,ROWS,COLS> Static<T,ROWS,COLS>::operator*(T param) const {
 }
 
 template<class T, std::size_t ROWS, std::size_t COLS>
-Vector::Cartesian<T,COLS> Static<T,ROWS,COLS>::operator*(
+Vector::Cartesian<T,ROWS> Static<T,ROWS,COLS>::operator*(
         Vector::Cartesian<T,COLS> rhs) const {
-    Vector::Cartesian<T,COLS> res;
+    Vector::Cartesian<T,ROWS> res;
     for (std::size_t i = 0; i < ROWS; i++) {
         for (std::size_t j = 0; j < COLS; j++) {
             res(i) += this->val(i,j)*rhs(j);
-- 
2.43.0


From 347418a82d256174ac0582e8929d0731acdf4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 022/126] fix: product of incompatible Dynamic matrices is
 rejected

---
 src/core/math/matrix/Dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 1e19596..1dba609 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -334,6 +334,7 @@ const T* Dynamic<T>::valPtr(const std::size_t row,
 
 template <class T>
 Dynamic<T> Dynamic<T>::operator*(Dynamic<T> &param) const {
+   assert(_nCols == param._nRows);
    Dynamic<T> res(_nRows, param._nCols);
    std::size_t i, j, k;
    for (i = 0; i < _nRows; i++) {
-- 
2.43.0


From cc2681040e50b58519febd16c66447ee38d13098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 023/126] fix: Polynomial::removeZeros also removes consecutive
 zeros

---
 src/core/math/function/Polynomial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..0dfea17 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,11 +149,14 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    std::size_t i = 0;
+    while (i < nm_)
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
             mp_.erase(mp_.begin() + i);
+        } else {
+            i++;
         }
 }
 
-- 
2.43.0


From 9007eea617e2c6a87da7c980cb92adbd2fd47742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 024/126] fix: Polynomial product adds monomials of the same
 power

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 0dfea17..fba8a5d 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -277,7 +277,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From 088868c542f076d4a229e6445c7e8ffddf19a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 025/126] fix: LinearInterpolation adds no point for the end of
 the file

---
 src/core/math/function/LinearInterpolation.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..8e60c3a 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -112,9 +112,8 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
-        std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
+    std::pair<Real, Real> value;
+    while (iStream >> value.first >> value.second) {
         value_.insert(value);
     }
 
-- 
2.43.0


From 0b9e2c886568a3f8810a66f01fbcac2bfe8e75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 026/126] fix: BandLimited has its limit value at its delay

---
 src/core/math/function/BandLimited.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/math/function/BandLimited.cpp b/src/core/math/function/BandLimited.cpp
index db4fc18..320ef34 100644
--- a/src/core/math/function/BandLimited.cpp
+++ b/src/core/math/function/BandLimited.cpp
@@ -54,12 +54,9 @@ namespace SEMBA {
                     (maximumFrequency_ - minimumFrequency_) / 2.0;
                 const Real delay = 20.0 / minimumFrequency_;
                 const Real spread = 10.0 / maximumFrequency_;
-                Real tD = t - delay;
-                if (tD == 0.0) {
-                    tD += std::numeric_limits<Real>::epsilon();
-                }
-                
-                Real res = std::sin(2.0 * pi* bTuned * tD) / (2 * pi*bTuned*tD) *
+                const Real tD = t - delay;
+                const Real arg = 2.0 * pi * bTuned * tD;
+                Real res = ((arg == 0.0)? 1.0 : std::sin(arg) / arg) *
                     exp(- std::pow(tD,2) / std::pow(spread,2) / 2.0) *
                         cos(2.0 * pi * carrier * tD);
                 return res;
-- 
2.43.0


From 4751e2e32cd14fd62b39e88953e6492a9a43c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 027/126] fix: Element::getMinV and getMaxV use lexicographical
 order

---
 src/core/geometry/element/Element.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..f364cdb 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -99,6 +99,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -119,6 +122,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
-- 
2.43.0


From a2abcc950cdf00ba7431826f84ec9cdc080bf0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 028/126] fix: side queries of elements count the nodes of the
 face asked for

---
 src/core/geometry/element/Element.hpp | 8 ++++----
 src/core/geometry/element/Volume.hpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index f364cdb..f0dd157 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -154,8 +154,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideCoordinates(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T,3>*>
-        res(numberOfSideCoordinates());
-    for (std::size_t i = 0; i < numberOfSideCoordinates(); i++) {
+        res(numberOfSideCoordinates(face));
+    for (std::size_t i = 0; i < numberOfSideCoordinates(face); i++) {
         res[i] = getSideV(face,i);
     }
     return res;
@@ -165,8 +165,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideVertices(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T, 3>*> res;
-    res.resize(numberOfSideVertices());
-    for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
+    res.resize(numberOfSideVertices(face));
+    for (std::size_t i = 0; i < numberOfSideVertices(face); i++) {
         res[i] = getSideVertex(face,i);
     }
     return res;
diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index a0578dc..03dfa40 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -63,7 +63,7 @@ Math::Vector::Cartesian<T,3> Volume<T>::getSideNormal(
 template<class T>
 Box<T,3> Volume<T>::getBoundOfFace(const std::size_t face) const {
     Box<T,3> res;
-   for (std::size_t i = 0; i < this->numberOfSideCoordinates(); i++) {
+   for (std::size_t i = 0; i < this->numberOfSideCoordinates(face); i++) {
       res << this->getSideV(face,i)->pos();
    }
    return res;
-- 
2.43.0


From c3c2d4a1a2cb9c1c5b20d017a3b8bf6669f81589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 029/126] fix: getClosestVertex measures distances to the given
 position

---
 src/core/geometry/element/Group.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..326d58a 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -221,9 +221,9 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     for (std::size_t b = 0; b < elems.size(); b++) {
         for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
             const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+            if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = (candidate->pos() - pos).norm();
             }
         }
     }
-- 
2.43.0


From c09df5e5c41e8e5ef940ae3da3175ccadf734f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 030/126] fix: getCoordId returns each element once

---
 src/core/geometry/element/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 326d58a..5e9e89f 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 71eedc80e365b682ef195ee30243f100452b35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 031/126] fix: elements with different number of coordinates
 are not equal

---
 src/core/geometry/element/Element.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index f0dd157..eba1ff0 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -45,6 +45,9 @@ bool Element<T>::operator==(const Base& rhs) const {
     const Element<T>* rhsPtr = rhs.castTo<Element<T>>();
     bool res = true;
     res &= (this->getId() == rhsPtr->getId());
+    if (this->numberOfCoordinates() != rhsPtr->numberOfCoordinates()) {
+        return false;
+    }
     for (std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
         res &= (*this->getV(i) == *rhsPtr->getV(i));
     }
-- 
2.43.0


From 4bb43b9e6f8ebc04ae9d6b6940f2313f9d291ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 032/126] fix: each side of a Line2 is one of its ends

---
 src/core/geometry/element/Line2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 13d7bd9..7325e8c 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -118,7 +118,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideV(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
@@ -131,7 +131,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideVertex(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
-- 
2.43.0


From c4d596ed6867a338fa2d2958c75ece7abb085e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 033/126] fix: LineConformal checks and stores its coordinates

---
 src/core/geometry/element/LineConformal.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..ed86dec 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -26,7 +26,7 @@ namespace Geometry {
 namespace Element {
 
 LineConformal::LineConformal() {
-    checkCoordinates();
+
 }
 
 LineConformal::LineConformal(const Id id,
@@ -47,7 +47,8 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
     checkCoordinates();
     norm_  = norm;
 }
@@ -85,8 +86,8 @@ void LineConformal::printInfo() const {
 
 void LineConformal::checkCoordinates() {
     for(std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-        if (!this->getV(i)->is<CoordConf>()) {
-            throw Error::Coord::NotConf(this->getV(i)->getId());
+        if (!LinI2::getV(i)->is<CoordConf>()) {
+            throw Error::Coord::NotConf(LinI2::getV(i)->getId());
         }
     }
 }
-- 
2.43.0


From 2c073ab8b02b6f0b5af336c1474f693acedd04ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 034/126] fix: Hexahedron8::isRegular is false unless edges
 follow the axes

---
 src/core/geometry/element/Hexahedron8.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index e8ec60f..4c44eb8 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -101,19 +101,17 @@ bool Hexahedron8<T>::isStructured(const Grid3& grid,
 template<class T>
 bool Hexahedron8<T>::isRegular() const {
     // Checks that all edges are aligned with one of the axis.
-    static const Math::Vector::Cartesian<T,3> xAxe(1.0, 0.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> yAxe(0.0, 1.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> zAxe(1.0, 0.0, 1.0);
     for (std::size_t f = 0; f < numberOfFaces(); f++) {
         Math::Vector::Cartesian<T,3> first, second;
         Math::Vector::Cartesian<T,3> inc;
         for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
             first = *getSideV(f, i);
             second = *getSideV(f, (i+1) % numberOfSideVertices());
-            inc = (second - first).normalize();
-            if (!((std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
+            inc = second - first;
+            const Math::Real minLength = inc.norm() * (1.0 - tolerance);
+            if (std::abs(inc(Math::Constants::x)) < minLength &&
+                std::abs(inc(Math::Constants::y)) < minLength &&
+                std::abs(inc(Math::Constants::z)) < minLength) {
 
                 return false;
             }
-- 
2.43.0


From 39caad446704e34e1f0df03851905d07d08d7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 035/126] fix: Hexahedron8::getAreaOfFace counts the whole face

---
 src/core/geometry/element/Hexahedron8.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index 4c44eb8..ce3c153 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -159,8 +159,8 @@ const std::size_t i) const {
 template<class T>
 Math::Real Hexahedron8<T>::getAreaOfFace(const std::size_t f) const {
     Math::Vector::Cartesian<T,3> v1, v2;
-    v1 = getSideV(f,1)->pos() - getSideV(f,0)->pos();
-    v2 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v1 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v2 = getSideV(f,3)->pos() - getSideV(f,1)->pos();
     return ((Math::Real) 0.5 * (v1 ^ v2).norm());
 }
 
-- 
2.43.0


From fc86e1ad16462c9440d0759fda88b32d17bc074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 036/126] fix: flat tetrahedra are rejected in any orientation

---
 src/core/geometry/element/Tetrahedron4.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index 2974111..944c396 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -156,20 +156,11 @@ void Tetrahedron4::printInfo() const {
 }
 
 bool Tetrahedron4::hasZeroVolume() const {
-    bool zeroVolume;
-    Math::CVecR3 initialVCoord, otherVCoord;
-    initialVCoord = *v_[0];
-    for (std::size_t d = 0; d < 3; d++) {
-        zeroVolume = true;
-        for (std::size_t i = 1; i < tet.np; i++) {
-            otherVCoord = *v_[i];
-            zeroVolume &= (initialVCoord(d) == otherVCoord(d));
-        }
-        if (zeroVolume) {
-            return true;
-        }
-    }
-    return false;
+    const Math::CVecR3 v1 = v_[1]->pos() - v_[0]->pos();
+    const Math::CVecR3 v2 = v_[2]->pos() - v_[0]->pos();
+    const Math::CVecR3 v3 = v_[3]->pos() - v_[0]->pos();
+    return std::abs((v1 ^ v2).dot(v3)) <=
+           Math::Util::tolerance * v1.norm() * v2.norm() * v3.norm();
 }
 
 } /* namespace Element */
-- 
2.43.0


From e6ea218ca55f268758eebf45769ee0dd68fb48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 037/126] fix: isRectangular requires every angle to be right

---
 src/core/geometry/element/Surface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ec523b..4bb8de7 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -48,7 +48,8 @@ bool Surface<T>::isRectangular() const {
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
         Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
-        if (Math::Util::greater(sProd, 0.0, 1.0)) {
+        if (std::abs(sProd) >
+                Math::Util::tolerance * (p2-p1).norm() * (p1-p0).norm()) {
             return false;
         }
     }
-- 
2.43.0


From 3d13dc4980ef31bb52acd1a5a99b9da00732072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 038/126] fix: polyhedra with an odd number of sides are not
 closed

---
 src/core/geometry/element/Polyhedron.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Polyhedron.cpp b/src/core/geometry/element/Polyhedron.cpp
index f7f5ba9..6bbf8fe 100755
--- a/src/core/geometry/element/Polyhedron.cpp
+++ b/src/core/geometry/element/Polyhedron.cpp
@@ -159,6 +159,9 @@ void Polyhedron::checkClosedness() const {
         }
     }
     list.sortRows(0,1);
+    if (nSidesInFaces % 2 != 0) {
+        throw Error::NotClosed();
+    }
     for (std::size_t i = 0; i < nSidesInFaces; i += 2) {
         if (list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
             throw Error::NotClosed();
-- 
2.43.0


From 7bc5f31db66be4386312b92eed53bb58a6dc366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 039/126] fix: SurfNotFound names the volume and the surface in
 order

---
 src/core/geometry/element/Volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index 03dfa40..e4f1f71 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -85,7 +85,7 @@ std::size_t Volume<T>::getFaceNumber(const Surface<T>* surf) const {
             }
         }
     }
-    throw Error::SurfNotFound(surf->getId(), this->getId());
+    throw Error::SurfNotFound(this->getId(), surf->getId());
 }
 
 } /* namespace Element */
-- 
2.43.0


From 6ad517308874ecd0ce9c21164ef5dbb1a91b7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 040/126] fix: getClosestVertex looks at every vertex of every
 element

---
 src/core/geometry/element/Group.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 5e9e89f..31a35aa 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -220,8 +220,8 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
             if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
                 minDist = (candidate->pos() - pos).norm();
-- 
2.43.0


From c52dcf961ee79890cb41049b1ba8cd544100e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 041/126] fix: side vertices of a triangle are the ends of the
 side in any order

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..8d2986b 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f, i * N);
 }
 
 template <size_t N>
-- 
2.43.0


From 5373e6c55945b0e04dc9ea6839fc591fb99792d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 042/126] fix: converted meshes refer to their own layers

---
 src/core/geometry/mesh/Structured.cpp   | 1 +
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..ec8a6ac 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -106,6 +106,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->reassignPointers();
     return res;
 }
 
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..c9e0373 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -95,6 +95,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->reassignPointers();
     return res;
 }
 
-- 
2.43.0


From 55cbd420fc1dc642d14e44c690abea340e58d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 043/126] fix: BoundTerminations can be built from a list of
 boundaries

---
 src/core/geometry/BoundTerminations.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/geometry/BoundTerminations.hpp b/src/core/geometry/BoundTerminations.hpp
index 068b77c..2f34d38 100755
--- a/src/core/geometry/BoundTerminations.hpp
+++ b/src/core/geometry/BoundTerminations.hpp
@@ -80,9 +80,7 @@ void BoundTerminations<D>::setBounds(
         const std::array<std::array<const Bound*, 2>, D>& bounds) {
     for (std::size_t d = 0; d < D; d++) {
         for (std::size_t p = 0; p < 2; p++) {
-            if (bounds[d][p] != nullptr) {
-                bounds_[d][p] = bounds->getSharedPtr();
-            }
+            setBound(d, p, bounds[d][p]);
         }
     }
 }
-- 
2.43.0


From 3db3204949038f3573895a1af6df13be8ea2cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 044/126] fix: the tolerance of a grid applies to lines at the
 origin

---
 src/core/geometry/Grid.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 1931975..deb22e1 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -466,8 +466,9 @@ std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
     std::vector<Math::Real> pos   = getPos (dir);
     std::vector<Math::Real> steps = getStep(dir);
     assert(pos_[dir].size() >= 1);
-    // Checks if it is below the grid.
-    if (Math::Util::lower(x, pos[0], steps[0], tol)) {
+    // Checks if it is below the grid. Positions are compared by their distance
+    // to the line, so the tolerance is the same for lines close to the origin.
+    if (Math::Util::lower(x - pos[0] + steps[0], steps[0], steps[0], tol)) {
         cell = 0;
         dist = (x-pos[0])/steps[0];
         if (err != nullptr) {
@@ -484,14 +485,14 @@ std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
         } else {
             step = steps.back();
         }
-        if (Math::Util::equal(x, pos[i], step, tol)) {
+        if (Math::Util::equal(x - pos[i] + step, step, step, tol)) {
             cell = i;
             dist = 0.0;
             if (err != nullptr) {
                 *err = false;
             }
             return std::make_pair(cell, dist);
-        } else if (Math::Util::lower(x, pos[i], step, tol)) {
+        } else if (Math::Util::lower(x - pos[i] + step, step, step, tol)) {
             cell = i - 1;
             dist = (x - pos[i-1])/step;
             if(Math::Util::equal(Math::Util::round(dist),1.0) && approx) {
-- 
2.43.0


From bf9aa7fc7bc7ee79d56b063e91de42d4fc4be2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 045/126] fix: assigning or reinitialising a graph replaces its
 own elements instead of sharing or leaking them

---
 src/core/geometry/graph/Graph.h      |  4 +++-
 src/core/geometry/graph/Graph.hpp    | 26 +++++++++++++++++---------
 src/core/geometry/graph/Vertices.hpp |  3 +--
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index eddf1a7..c693fcf 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -46,7 +46,7 @@ public:
 
     virtual Graph& init(const Group::Group<const Elem>& elems) = 0;
 
-    //Graph& operator=(const Graph&);
+    Graph& operator=(const Graph&);
 
     std::size_t numElems () const { return elems_.size();  }
     std::size_t numBounds() const { return bounds_.size(); }
@@ -65,6 +65,8 @@ protected:
     std::vector<GraphElem* > elems_;
     std::vector<GraphBound*> bounds_;
 
+    void clear_();
+
 private:
     void cloneInfo(const Graph&);
 };
diff --git a/src/core/geometry/graph/Graph.hpp b/src/core/geometry/graph/Graph.hpp
index 3ec07d1..a5292d8 100755
--- a/src/core/geometry/graph/Graph.hpp
+++ b/src/core/geometry/graph/Graph.hpp
@@ -39,23 +39,31 @@ Graph<ELEM,BOUND>::Graph(const Graph& rhs) {
 
 template<class ELEM, class BOUND>
 Graph<ELEM,BOUND>::~Graph() {
+    clear_();
+}
+
+template<class ELEM, class BOUND>
+Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    clear_();
+    cloneInfo(rhs);
+    return *this;
+}
+
+template<class ELEM, class BOUND>
+void Graph<ELEM,BOUND>::clear_() {
     for (std::size_t i = 0; i < elems_.size(); i++) {
         delete elems_[i];
     }
+    elems_.clear();
     for (std::size_t i = 0; i < bounds_.size(); i++) {
         delete bounds_[i];
     }
+    bounds_.clear();
 }
 
-//template<class ELEM, class BOUND>
-//Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
-//    if (this == &rhs) {
-//        return *this;
-//    }
-//    cloneInfo(rhs);
-//    return *this;
-//}
-
 template<class ELEM, class BOUND>
 void Graph<ELEM,BOUND>::printInfo() const {
     std::cout << "--- Graph Info ---" << std::endl;
diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index 7f6647d..e0a3d6e 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -48,8 +48,7 @@ Vertices<ELEM,BOUND>& Vertices<ELEM,BOUND>::init(
     GraphElem*   elemPtr;
     GraphBound*  boundPtr;
     std::map<CoordId, GraphBound*> map;
-    this->elems_.clear();
-    this->bounds_.clear();
+    this->clear_();
     for (std::size_t s = 0; s < elems.size(); s++) {
         elemPtr = new GraphElem(elems(s), elems(s)->numberOfCoordinates());
         this->elems_.push_back(elemPtr);
-- 
2.43.0


From 51d005220ef6358c81597dd57059504e8d8a89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 046/126] fix: splitting a vertex of a graph updates the
 neighbours of the vertices at the other ends

---
 src/core/geometry/graph/Vertices.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index e0a3d6e..761a488 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -91,8 +91,6 @@ void Vertices<ELEM,BOUND>::splitBound(std::size_t i) {
         return;
     }
     this->bounds_[i]->setBounds(oldAdj[0]);
-    this->bounds_[i]->getBound(0)->constructNeighbors();
-    this->bounds_[i]->constructNeighbors();
     for (std::size_t j = 1; j < oldAdj.size(); j++) {
         this->bounds_.push_back(new GraphBound(*this->bounds_[i]));
         this->bounds_.back()->setBounds(oldAdj[j]);
@@ -104,8 +102,12 @@ void Vertices<ELEM,BOUND>::splitBound(std::size_t i) {
             this->bounds_[i]->elem()->getId()) {
             oldAdj[j]->setBound(1, this->bounds_.back());
         }
-        this->bounds_.back()->getBound(0)->constructNeighbors();
-        this->bounds_.back()->constructNeighbors();
+    }
+    for (std::size_t j = 0; j < oldAdj.size(); j++) {
+        oldAdj[j]->constructNeighbors();
+        for (std::size_t k = 0; k < oldAdj[j]->numBounds(); k++) {
+            oldAdj[j]->getBound(k)->constructNeighbors();
+        }
     }
 }
 
-- 
2.43.0


From d02c8a5b1c346da9151862b57405291859a98276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 047/126] fix: a copy of the connectivities refers to its own
 graph

---
 src/core/geometry/graph/Connectivities.cpp | 19 +++++++++++++++++++
 src/core/geometry/graph/Connectivities.h   |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index faaaef1..db8b29a 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -41,6 +41,25 @@ Connectivities::~Connectivities() {
 Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
     // Generates graph.
     graph_.init(eG);
+    indexGraph_();
+}
+
+Connectivities::Connectivities(const Connectivities& rhs)
+:   graph_(rhs.graph_) {
+    indexGraph_();
+}
+
+Connectivities& Connectivities::operator=(const Connectivities& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    graph_ = rhs.graph_;
+    indexGraph_();
+    return *this;
+}
+
+void Connectivities::indexGraph_() {
+    index_.clear();
     for (std::size_t i = 0; i < graph_.numElems(); i++) {
         GraphElem* graphElem = graph_.elem(i);
         ElemId id = graphElem->elem()->getId();
diff --git a/src/core/geometry/graph/Connectivities.h b/src/core/geometry/graph/Connectivities.h
index 74133b5..cffc33c 100755
--- a/src/core/geometry/graph/Connectivities.h
+++ b/src/core/geometry/graph/Connectivities.h
@@ -38,6 +38,8 @@ public:
 
     Connectivities();
     Connectivities(const Group::Group<const ElemR>& eG);
+    Connectivities(const Connectivities& rhs);
+    Connectivities& operator=(const Connectivities& rhs);
     virtual ~Connectivities();
 
     std::size_t size() const;
@@ -61,6 +63,7 @@ private:
     Vertices<ElemR,CoordR3> graph_;
     std::map<ElemId, const GraphElem*> index_;
 
+    void indexGraph_();
     Face getMatchingFace_(
             const GraphElem* local,
             const std::vector<const CoordR3*> localSideV) const;
-- 
2.43.0


From 8968a23a577cdbcc8825060f7ab754070b9bdcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 048/126] fix: connectivities of a surface that bounds no
 volume are empty instead of dereferencing a null element

---
 src/core/geometry/graph/Connectivities.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index db8b29a..aa67a69 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -69,6 +69,9 @@ void Connectivities::indexGraph_() {
 
 Face Connectivities::getNeighFace(const Face& face) const {
     const ElemR* elem = face.first;
+    if (elem == nullptr) {
+        return Face(nullptr, 0);
+    }
     const GraphElem* local = index_.find(elem->getId())->second;
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
@@ -78,6 +81,9 @@ Face Connectivities::getNeighFace(const Face& face) const {
 
 const SurfR* Connectivities::getNeighSurf(const Face& face) const {
     const ElemR* elem = face.first;
+    if (elem == nullptr) {
+        return nullptr;
+    }
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
     const GraphElem* local = index_.find(elem->getId())->second;
@@ -99,6 +105,9 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
     const GraphElem* local = index_.find(surf->getId())->second;
     std::vector<const CoordR3*> localV = local->elem()->getCoordinates();
     Face face = getMatchingFace_(local, localV);
+    if (face.first == nullptr) {
+        return face;
+    }
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
     if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
         return face;
-- 
2.43.0


From f1c57a144378ddbbf330472ed27acfea672140bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 049/126] fix: a dispersive material keeps its conductivity
 when it also has poles

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..6de146b 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -47,7 +47,8 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
+    poleResidue_.insert(poleResidue_.end(),
+                        poleResidue.begin(), poleResidue.end());
 }
 
 Dispersive::Dispersive(const Id id,
-- 
2.43.0


From 6b08ea182316a2ce2ac399febf3dddd251e753b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 050/126] fix: a material without poles is classic and one
 defined by a file is dispersive

---
 src/core/physicalModel/volume/Dispersive.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 6de146b..1e86994 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -91,10 +91,7 @@ std::complex<Math::Real> Dispersive::getResidue(std::size_t p) const {
 }
 
 bool Dispersive::isDispersive() const {
-    if (poleResidue_.size() > 0) {
-        return true;
-    }
-    return false;
+    return !isClassic();
 }
 
 bool Dispersive::isClassic() const {
@@ -105,7 +102,8 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    return (poleResidue_.empty() ||
+            (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0));
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From 7b67c2020d75ae23764f54c4260b14e3df63d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 051/126] fix: wire extremes can be assigned without sharing
 their connectors

---
 src/core/physicalModel/wire/Extremes.cpp | 15 ++++++++++++---
 src/core/physicalModel/wire/Extremes.h   |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..f727e88 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -63,15 +63,24 @@ Extremes::~Extremes() {
     }
 }
 
+Extremes& Extremes::operator=(const Extremes& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    Wire::operator=(rhs);
+    setExtreme(0, rhs.extreme_[0]);
+    setExtreme(1, rhs.extreme_[1]);
+    return *this;
+}
+
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
-    if (extreme_[i] != nullptr) {
-        delete extreme_[i];
-    }
+    const Multiport::Multiport* old = extreme_[i];
     extreme_[i] = nullptr;
     if (extreme != nullptr) {
         extreme_[i] = extreme->cloneTo<Multiport::Multiport>();
     }
+    delete old;
 }
 
 void Extremes::swapExtremes() {
diff --git a/src/core/physicalModel/wire/Extremes.h b/src/core/physicalModel/wire/Extremes.h
index 26d0b05..84a8f6b 100755
--- a/src/core/physicalModel/wire/Extremes.h
+++ b/src/core/physicalModel/wire/Extremes.h
@@ -38,6 +38,8 @@ public:
     Extremes(const Extremes& rhs);
     virtual ~Extremes();
 
+    Extremes& operator=(const Extremes& rhs);
+
     SEMBA_CLASS_DEFINE_CLONE(Extremes);
 
     const Multiport::Multiport *getExtreme(const std::size_t i) const {
-- 
2.43.0


From eff90e38721e4b3a97da0a6ac9878ea1161c2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 052/126] fix: normalise the direction of plane waves and test
 orthogonality with unit vectors

---
 src/core/source/PlaneWave.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/source/PlaneWave.cpp b/src/core/source/PlaneWave.cpp
index 1bc8e16..932a358 100755
--- a/src/core/source/PlaneWave.cpp
+++ b/src/core/source/PlaneWave.cpp
@@ -170,7 +170,6 @@ std::pair<Math::Real,Math::Real> PlaneWave::cartesianToPolar(
 }
 
 void PlaneWave::init_(Math::CVecR3 direction, Math::CVecR3 polarization) {
-    direction_ = direction;
     polarization_ = polarization;
 
     randomic_ = false;
@@ -180,10 +179,12 @@ void PlaneWave::init_(Math::CVecR3 direction, Math::CVecR3 polarization) {
     if (polarization_.norm() == 0) {
         throw Error::PlaneWave::ZeroPolarization();
     }
-    if (direction_.norm() == 0) {
+    if (direction.norm() == 0) {
         throw Error::PlaneWave::ZeroMagnitude();
     }
-    Math::Real dotProd = direction.dot(polarization);
+    direction_ = direction / direction.norm();
+    Math::Real dotProd =
+        direction_.dot(polarization_ / polarization_.norm());
     if (Math::Util::notEqual(dotProd, 0.0)) {
         throw Error::PlaneWave::NotPerpendicular();
     }
-- 
2.43.0


From 169978ad42a9e5cf56a989cc47b62730c8015fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 053/126] fix: assigning a source copies its magnitude instead
 of sharing it with two owners

---
 src/core/source/Source.cpp | 13 +++++++++++++
 src/core/source/Source.h   |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/core/source/Source.cpp b/src/core/source/Source.cpp
index 56f6cbf..337354a 100755
--- a/src/core/source/Source.cpp
+++ b/src/core/source/Source.cpp
@@ -42,6 +42,19 @@ Base::Base(const Base& rhs) {
     }
 }
 
+Base& Base::operator=(const Base& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    const Magnitude::Magnitude* magnitude = nullptr;
+    if (rhs.magnitude_ != nullptr) {
+        magnitude = rhs.magnitude_->cloneTo<Magnitude::Magnitude>();
+    }
+    delete magnitude_;
+    magnitude_ = magnitude;
+    return *this;
+}
+
 Base::~Base() {
     if (magnitude_ != nullptr) {
         delete magnitude_;
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 5b81f53..0a8b937 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -46,6 +46,8 @@ public:
     Base(const Base& rhs);
     virtual ~Base();
 
+    Base& operator=(const Base& rhs);
+
     virtual Geometry::Element::Group<const Geometry::Elem> elems() const = 0;
 
     virtual void set(
-- 
2.43.0


From 981dbdef5c09fcb20f02817c8d86b6ff6a305c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 054/126] fix: TE profiles of rectangular waveguide ports are
 divergence free

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..ed24624 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -72,7 +72,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
     }
     //const Math::Real betaC = sqrt(pow(m,2) + pow(n,2));
     if (getExcitationMode() == Waveguide::TE) {
-        res(Math::Constants::x) =   n * cos(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::x) = - n * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::y) =   m * sin(m * rPos(Math::Constants::x)) *
-- 
2.43.0


From 8debd4287be373cc1e88d1f277804a7e6fd5b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 055/126] fix: TM profiles of rectangular waveguide ports are
 curl free

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index ed24624..b343e94 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -83,7 +83,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
         res(Math::Constants::x) = - m * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
-        res(Math::Constants::y) = - m * sin(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::y) = - n * sin(m * rPos(Math::Constants::x)) *
                                         cos(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::z) = (Math::Real) 0.0;
-- 
2.43.0


From 8dc94157c625bd98c82ff58026737b6e04c1bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 056/126] fix: coaxial port profiles are relative to the axis
 of the port

---
 src/core/source/port/TEMCoaxial.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..951b65a 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -65,16 +65,19 @@ const std::string& TEMCoaxial::getName() const {
 Math::CVecR3 TEMCoaxial::getWeight(
         const Math::CVecR3& pos) const {
     // Return normalized weights for electric field components.
-    const Math::Real rho = (pos - getOrigin()).norm();
+    // The axis is parallel to z.
+    Math::CVecR3 radius = pos - getOrigin();
+    radius(Math::Constants::z) = 0.0;
+    const Math::Real rho = radius.norm();
     switch (getExcitationMode()) {
     case ExcitationMode::voltage:
     {
-        const Math::CVecR3 rhoHat = (pos - getOrigin()).normalize();
+        const Math::CVecR3 rhoHat = radius / rho;
         return rhoHat / (rho * log(outerRadius_/innerRadius_));
     }
     case ExcitationMode::current:
     {
-        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ pos).normalize();
+        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ radius) / rho;
         return phiHat / (2.0 * Math::Constants::pi * rho);
     }
     default:
-- 
2.43.0


From 7747e8090c5a12dae60c4f76531db636779abfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 057/126] fix: replacing the elements of a coaxial port scales
 its radii in proportion

---
 src/core/source/port/TEMCoaxial.cpp | 28 ++++++++++++++++++----------
 src/core/source/port/TEMCoaxial.h   |  1 +
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 951b65a..d6db92c 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -38,6 +38,7 @@ TEMCoaxial::TEMCoaxial(
     origin_ = origin;
     innerRadius_ = innerRadius;
     outerRadius_ = outerRadius;
+    box_ = this->getBound();
 }
 
 TEMCoaxial::TEMCoaxial(
@@ -48,6 +49,7 @@ TEMCoaxial::TEMCoaxial(
     origin_ = rhs.origin_;
     innerRadius_ = rhs.innerRadius_;
     outerRadius_ = rhs.outerRadius_;
+    box_ = rhs.box_;
 }
 
 TEMCoaxial::~TEMCoaxial() {
@@ -95,21 +97,27 @@ void TEMCoaxial::printInfo() const {
 
 void TEMCoaxial::set(
         const Geometry::Element::Group<const Geometry::Elem>& elemGroup) {
-    // Reescales internal dimensions.
+    // Reescales internal dimensions as the bounds of its elements do.
     Geometry::BoxR3 box = elemGroup.getBound();
     const Math::CVecR3 diagonal = box.getMax()-box.getMin();
     if (!diagonal.isContainedInPlane(Math::Constants::CartesianPlane::xy)) {
         throw std::logic_error("Port is not contained in a XY plane");
     }
-    const Math::Real width  = box.getMax()(Math::Constants::x) -
-                              box.getMin()(Math::Constants::x);
-    const Math::Real height = box.getMax()(Math::Constants::y) -
-                              box.getMin()(Math::Constants::y);
-    const Math::Real averageNewRadius = (width + height)/4;
-    innerRadius_ *= averageNewRadius;
-    outerRadius_ *= averageNewRadius;
-    const Math::CVecR3 averageNewOrigin = (box.getMax() + box.getMin()) / 2;
-    origin_ = averageNewOrigin;
+    if (!this->empty()) {
+        const Math::CVecR3 length = box_.getMax() - box_.getMin();
+        const Math::Real ratio =
+            (diagonal(Math::Constants::x) + diagonal(Math::Constants::y)) /
+            (length(Math::Constants::x) + length(Math::Constants::y));
+        innerRadius_ *= ratio;
+        outerRadius_ *= ratio;
+        for (std::size_t d = 0; d < 2; d++) {
+            origin_(d) = box.getMin()(d) +
+                (origin_(d) - box_.getMin()(d)) * diagonal(d) / length(d);
+        }
+        origin_(Math::Constants::z) +=
+            box.getMin()(Math::Constants::z) - box_.getMin()(Math::Constants::z);
+    }
+    box_ = box;
     //
     Source<Geometry::Surf>::set(elemGroup);
 }
diff --git a/src/core/source/port/TEMCoaxial.h b/src/core/source/port/TEMCoaxial.h
index 3c431d0..8559510 100755
--- a/src/core/source/port/TEMCoaxial.h
+++ b/src/core/source/port/TEMCoaxial.h
@@ -53,6 +53,7 @@ public:
 private:
     Math::CVecR3 origin_;
     Math::Real innerRadius_, outerRadius_;
+    Geometry::BoxR3 box_; // Bounds to which origin and radii refer.
 };
 
 } /* namespace Port */
-- 
2.43.0


From 1a701e7694a4614d9e5a1f11dc9cff8d20d20403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 058/126] fix: copying and assigning magnitudes without
 function, and no leak on assignment

---
 src/core/source/magnitude/Magnitude.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..3efb0af 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -34,8 +34,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,8 +51,13 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    Math::FunctionRR* mathFunction = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
+    delete mathFunction_;
+    mathFunction_ = mathFunction;
     return *this;
 }
 
-- 
2.43.0


From 1a210dde5c53b82574045cfd483820a6f2265000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 059/126] fix: comparison of magnitudes is symmetric and
 accepts magnitudes without function

---
 src/core/source/magnitude/Magnitude.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 3efb0af..9aaefde 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -21,6 +21,8 @@
 
 #include "Magnitude.h"
 
+#include <typeinfo>
+
 namespace SEMBA {
 namespace Source {
 namespace Magnitude {
@@ -62,6 +64,12 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (typeid(*this) != typeid(rhs)) {
+        return false;
+    }
+    if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
+        return mathFunction_ == rhs.mathFunction_;
+    }
     return *mathFunction_ == *rhs.mathFunction_;
 }
 
-- 
2.43.0


From 5bd774a0f4b5c8231516ce2f03669ac1c66cdaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 060/126] fix: numerical magnitudes can be evaluated

---
 src/core/source/magnitude/Numerical.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index d07d98c..c9169f2 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -124,8 +124,7 @@ bool Numerical::operator==(const Magnitude& rhs) const {
 }
 
 Math::Real Numerical::evaluate(const Math::Real time) const {
-    throw std::logic_error("Numerical::evaluate not implemented");
-    return 0.0;
+    return Magnitude::evaluate(time);
 }
 
 void Numerical::printInfo() const {
-- 
2.43.0


From 6bdde071816d3d7d943a1b7d1485171d602819b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 061/126] fix: numerical magnitudes keep their first and last
 samples and reach the final time

---
 src/core/source/magnitude/Numerical.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index c9169f2..ac1e1f0 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -49,10 +49,12 @@ Numerical::Numerical(const FileSystem::Project& file,
         return;
     }
     std::size_t nSteps;
+    Math::Real step = timeStep;
     if (timeStep != 0.0) {
         nSteps = (std::size_t)std::abs(finalTime / timeStep);
     } else {
         nSteps = defaultNumberOfSteps;
+        step = finalTime / nSteps;
         std::cerr << "WARNING @ Numerical: "
                   << "Attempting to build a "
                   << "numerical magnitude with a 0.0 step."
@@ -66,11 +68,11 @@ Numerical::Numerical(const FileSystem::Project& file,
     out.open(file.c_str());
 
     Math::Real time = 0.0;
-    for (std::size_t i = 0; i < nSteps; i++) {
+    for (std::size_t i = 0; i <= nSteps; i++) {
         // Determines if neigh values are aligned with current.
         std::vector<std::pair<Math::Real,Math::Real>> preAndPost;
-        const Math::Real tPre = time - timeStep;
-        const Math::Real tPost = time + timeStep;
+        const Math::Real tPre = time - step;
+        const Math::Real tPost = time + step;
         preAndPost.push_back(
             std::pair<Math::Real,Math::Real>(tPre, mag.evaluate(tPre)));
         preAndPost.push_back(
@@ -81,13 +83,13 @@ Numerical::Numerical(const FileSystem::Project& file,
         const Math::Real current = mag.evaluate(time);
         bool isAligned = Math::Util::equal(current, interpolated,
                 0.0, std::numeric_limits<Math::Real>::epsilon());
-        if (!isAligned) {
+        if (!isAligned || i == 0 || i == nSteps) {
             out << std::setw(16) << std::setfill(' ') << time 
                 << std::setw(18) << std::setfill(' ') << current 
                 << std::endl;
         }
         //
-        time += timeStep;
+        time += step;
     }
     out.close();
 
-- 
2.43.0


From 0a1a20a40cc10f41ba71b69225acb9b5e807da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 062/126] fix: print the hardness of sources on lines

---
 src/core/source/OnLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/OnLine.cpp b/src/core/source/OnLine.cpp
index 1fb47d0..902745c 100755
--- a/src/core/source/OnLine.cpp
+++ b/src/core/source/OnLine.cpp
@@ -77,7 +77,7 @@ std::string OnLine::getTypeStr() const {
 }
 
 std::string OnLine::getHardnessStr() const {
-    switch (type_) {
+    switch (hardness_) {
     case hard:
         return "Hard";
     default:
-- 
2.43.0


From 9066c6bf1d5e8f8e513247461923223b2a2800b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 063/126] fix: the error of bulk currents over materials is a
 standard exception

---
 src/core/outputRequest/OutputRequest.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/outputRequest/OutputRequest.h b/src/core/outputRequest/OutputRequest.h
index aa44c3a..5c0aa83 100755
--- a/src/core/outputRequest/OutputRequest.h
+++ b/src/core/outputRequest/OutputRequest.h
@@ -22,6 +22,8 @@
 #ifndef SEMBA_OUTPUTREQUEST_OUTPUTREQUEST_H_
 #define SEMBA_OUTPUTREQUEST_OUTPUTREQUEST_H_
 
+#include <exception>
+
 #include "Domain.h"
 #include "geometry/element/Group.h"
 
@@ -106,7 +108,7 @@ public:
 
 namespace Error {
 
-class Material {
+class Material : public std::exception {
 public:
     Material() {}
     virtual ~Material() throw() {}
-- 
2.43.0


From e88f1cb145f3c888e730b4c01800e5ef7d1f9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:40 +0000
Subject: [PATCH 064/126] fix: assigning projects releases what they held

---
 src/core/Data.cpp | 50 ++++++++---------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 538db1a..aeed1c7 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -21,6 +21,8 @@
 
 #include "Data.h"
 
+#include <utility>
+
 namespace SEMBA {
 
 Data::Data() {
@@ -101,48 +103,12 @@ Data& Data::operator=(const Data& rhs) {
         return *this;
     }
 
-    solver = nullptr;
-    mesh = nullptr;
-    physicalModels = nullptr;
-    sources = nullptr;
-    outputRequests = nullptr;
-
-    if (rhs.solver != nullptr) {
-        solver = new Solver::Info(*rhs.solver);
-    }
-
-    if (rhs.physicalModels != nullptr) {
-        physicalModels = rhs.physicalModels->clone();
-    }
-
-    if (rhs.mesh != nullptr) {
-        mesh = rhs.mesh->cloneTo<Geometry::Mesh::Mesh>();
-        if (physicalModels != nullptr) {
-            mesh->reassignPointers(*physicalModels);
-        } else {
-            mesh->reassignPointers();
-        }
-
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
-        }
-
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
-        }
-    }
+    Data copy(rhs);
+    std::swap(solver, copy.solver);
+    std::swap(mesh, copy.mesh);
+    std::swap(physicalModels, copy.physicalModels);
+    std::swap(sources, copy.sources);
+    std::swap(outputRequests, copy.outputRequests);
 
     return *this;
 }
-- 
2.43.0


From 2a985fadc8be3ac7174974f0a2116611beb67381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:40 +0000
Subject: [PATCH 065/126] fix: projects without mesh keep sources and output
 requests when copied

---
 src/core/Data.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index aeed1c7..3f9f0eb 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -56,9 +56,16 @@ Data::Data(const Data& rhs) {
         } else {
             mesh->reassignPointers();
         }
+    }
 
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
+    if (rhs.outputRequests != nullptr) {
+        outputRequests = rhs.outputRequests->clone();
+    }
+    if (rhs.sources != nullptr) {
+        sources = rhs.sources->clone();
+    }
+    if (mesh != nullptr) {
+        if (outputRequests != nullptr) {
             for (size_t i = 0; i < outputRequests->size(); ++i) {
                 Geometry::Element::Group<const Geometry::Elem> outRqElems =
                         (*outputRequests)(i)->elems();
@@ -66,9 +73,7 @@ Data::Data(const Data& rhs) {
                 (*outputRequests)(i)->set(outRqElems);
             }
         }
-
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
+        if (sources != nullptr) {
             for (size_t i = 0; i < sources->size(); ++i) {
                 Geometry::Element::Group<const Geometry::Elem> sourceElems =
                         (*sources)(i)->elems();
@@ -77,7 +82,6 @@ Data::Data(const Data& rhs) {
             }
         }
     }
-
 }
 
 Data::~Data() {
-- 
2.43.0


From 407ec764c370be998b92ef2d865cba6159d7e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:40 +0000
Subject: [PATCH 066/126] fix: boundaries of structured meshes are reassigned
 with the other models

---
 src/core/geometry/mesh/Structured.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index ec8a6ac..b2fd210 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -22,6 +22,8 @@
 #include "Unstructured.h"
 #include "Structured.h"
 
+#include <typeinfo>
+
 namespace SEMBA {
 namespace Geometry {
 namespace Mesh {
@@ -143,6 +145,17 @@ void Structured::reassignPointers(
     elems_.reassignPointers(this->layers());
     if (!matGr.empty()) {
         elems_.reassignPointers(matGr);
+        for (std::size_t d = 0; d < 3; d++) {
+            for (std::size_t p = 0; p < 2; p++) {
+                const Bound* bound = bounds_(d, p);
+                if (bound != nullptr && matGr.existId(bound->getId())) {
+                    const Element::Model* model = matGr.getId(bound->getId());
+                    if (typeid(*model) == typeid(*bound)) {
+                        bounds_.setBound(d, p, model);
+                    }
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From f4855f8f3ce6d6233d05bf80783ea670ab844ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 067/126] fix: magnetic bulk currents are read as such

---
 src/core/outputRequest/BulkCurrent.cpp | 5 +++--
 src/core/outputRequest/BulkCurrent.h   | 3 ++-
 src/parser/json/Parser.cpp             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/outputRequest/BulkCurrent.cpp b/src/core/outputRequest/BulkCurrent.cpp
index 74a71a4..0cdc356 100755
--- a/src/core/outputRequest/BulkCurrent.cpp
+++ b/src/core/outputRequest/BulkCurrent.cpp
@@ -29,8 +29,9 @@ BulkCurrent::BulkCurrent(
         const std::string& name,
         const Geometry::Element::Group<const Geometry::Elem>& elem,
         const Math::Constants::CartesianAxis& dir,
-        const Math::UInt& skip)
-:   SEMBA::OutputRequest::Base(bulkCurrentElectric, name, domain),
+        const Math::UInt& skip,
+        const Type& type)
+:   SEMBA::OutputRequest::Base(type, name, domain),
     Geometry::Element::Group<const Geometry::Elem>(elem) {
 
     dir_ = dir;
diff --git a/src/core/outputRequest/BulkCurrent.h b/src/core/outputRequest/BulkCurrent.h
index bf7be2d..0ae1ab2 100755
--- a/src/core/outputRequest/BulkCurrent.h
+++ b/src/core/outputRequest/BulkCurrent.h
@@ -33,7 +33,8 @@ public:
                 const std::string& name,
                 const Geometry::Element::Group<const Geometry::Elem>& box,
                 const Math::Constants::CartesianAxis& dir,
-                const Math::UInt& skip);
+                const Math::UInt& skip,
+                const Type& type = bulkCurrentElectric);
     BulkCurrent(const BulkCurrent& rhs);
     virtual ~BulkCurrent();
 
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..c91934f 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -392,18 +392,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		}
 	}
 
-- 
2.43.0


From 7b6b709733506f84ee074d14a390c8ac2667eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 068/126] fix: crystals are read with the key the project
 template writes

---
 src/parser/json/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index c91934f..6acfb4a 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -271,7 +271,7 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
             return new PhysicalModel::Volume::AnisotropicCrystal(id, name,
                     strToLocalAxes(j.at("localAxes").get<std::string>()),
                     strToCVecR3(
-                            j.at("relativePermittiviy").get<std::string>()),
+                            j.at("relativePermittivityPrincipalAxes").get<std::string>()),
                     j.at("crystalRelativePermeability").get<double>());
         } else if (str.compare("Ferrite")==0) {
             return new PhysicalModel::Volume::AnisotropicFerrite(id, name,
-- 
2.43.0


From 583999b10d6cabb41821a8bc0e4591edd67efa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 069/126] fix: ports follow the scaling factor of their project

---
 src/core/parser/Parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/parser/Parser.cpp b/src/core/parser/Parser.cpp
index 8508c09..c86e4ff 100755
--- a/src/core/parser/Parser.cpp
+++ b/src/core/parser/Parser.cpp
@@ -65,6 +65,13 @@ void Parser::postReadOperations(Data& res) const {
                         "Unable to find geometryScalingFactor "
                         "during postReadOperations");
             }
+            // Ports keep the dimensions of their elements.
+            if (res.sources != nullptr) {
+                for (std::size_t i = 0; i < res.sources->size(); i++) {
+                    Source::Base* source = (*res.sources)(i);
+                    source->set(source->elems());
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 7f947a985620e9ba06f8000d2fa03a30d16f08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 070/126] fix: matched connectors have no lumped parameters

---
 src/parser/json/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 6acfb4a..58d53f4 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -307,7 +307,8 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
                 strToMultiportType(j.at("connectorType").get<std::string>());
 		if (mpType == PhysicalModel::Multiport::Multiport::shortCircuit) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
-		} else if (mpType == PhysicalModel::Multiport::Multiport::openCircuit) {
+		} else if (mpType == PhysicalModel::Multiport::Multiport::openCircuit ||
+				mpType == PhysicalModel::Multiport::Multiport::matched) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
         } else if (mpType == PhysicalModel::Multiport::Multiport::dispersive) {
             return new PhysicalModel::Multiport::Dispersive(id, name,
-- 
2.43.0


From f5c42eb1cc12ac6d85a525801bc2e417f2251650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 071/126] fix: projects without materials are read without
 crashing

---
 src/parser/json/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 58d53f4..288aa2a 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -188,10 +188,10 @@ Source::Group<>* Parser::readSources(
 }
 
 PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
+    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     if (j.find("materials") == j.end()) {
-        return nullptr;
+        return res;
     }
-    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     json mats = j.at("materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
-- 
2.43.0


From 9fd333d786ebaf871507bc06268421471322d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 072/126] fix: syntax errors in JSON projects are reported
 instead of reading what precedes them

---
 src/parser/json/Parser.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 288aa2a..02d23b5 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -54,13 +54,15 @@ namespace JSON {
 
 Data Parser::read(std::istream& stream) const {
 
-    json j;
-    try {
-        stream >> j;
-    }
-    catch( const std::exception & ex ) {
-        std::cerr << ex.what() << std::endl;
-    }
+    // Nesting is limited because values are parsed and released recursively.
+    static const int maxDepth = 500;
+    const json j = json::parse(stream,
+        [](int depth, json::parse_event_t, json&) {
+            if (depth > maxDepth) {
+                throw std::logic_error("JSON document is nested too deep.");
+            }
+            return true;
+        });
 
     Util::ProgressBar progress;
     progress.init("Parser GiD-JSON", 7, 0);
-- 
2.43.0


From ff10773526db030184730615581901f84a7fc2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 073/126] fix: ill-formed coordinates, elements, vectors and
 boxes are not read as zeros

---
 src/parser/json/Parser.cpp | 18 ++++++++++++++++--
 src/parser/json/Parser.h   |  3 +++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 02d23b5..10c61b4 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -480,7 +480,9 @@ Geometry::Coordinate::Group<Geometry::CoordR3> Parser::readCoordinates(
         Geometry::CoordId id;
         Math::CVecR3 pos;
         std::stringstream ss(it->get<std::string>());
-        ss >> id >> pos(0) >> pos(1) >> pos(2);
+        if (!(ss >> id >> pos(0) >> pos(1) >> pos(2))) {
+            throw std::logic_error("Ill-formed coordinate: " + ss.str());
+        }
         res.add(new Geometry::CoordR3(id, pos));
     }
     return res;
@@ -834,6 +836,9 @@ std::pair<Math::CVecR3, Math::CVecR3> Parser::strToBox(
     for (std::size_t i = 0; i < 3; i++) {
         iss >> min(i);
     }
+    if (!iss) {
+        throw std::logic_error("Ill-formed box: " + value);
+    }
     return {min, max};
 }
 
@@ -845,6 +850,9 @@ Math::CVecI3 Parser::strToCVecI3(std::string str) {
     ss >> res(Math::Constants::x)
        >> res(Math::Constants::y)
        >> res(Math::Constants::z);
+    if (!ss) {
+        throw std::logic_error("Ill-formed vector: " + str);
+    }
     return res;
 }
 
@@ -856,6 +864,9 @@ Math::CVecR3 Parser::strToCVecR3(std::string str) {
     ss >> res(Math::Constants::x)
        >> res(Math::Constants::y)
        >> res(Math::Constants::z);
+    if (!ss) {
+        throw std::logic_error("Ill-formed vector: " + str);
+    }
     return res;
 }
 
@@ -958,7 +969,10 @@ bool Parser::checkVersionCompatibility(const std::string& version) {
 Math::Axis::Local Parser::strToLocalAxes(const std::string& str) {
     std::size_t begin = str.find_first_of("{");
     std::size_t end = str.find_first_of("}");
-    Math::CVecR3 eulerAngles = strToCVecR3(str.substr(begin+1,end-1));
+    if (end >= str.find_last_of("{")) {
+        throw std::logic_error("Ill-formed local axes: " + str);
+    }
+    Math::CVecR3 eulerAngles = strToCVecR3(str.substr(begin+1,end-begin));
     begin = str.find_last_of("{");
     end = str.find_last_of("}");
     Math::CVecR3 origin = strToCVecR3(str.substr(begin+1,end-1));
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index d6d0e6d..fb590dd 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -180,6 +180,9 @@ Geometry::Element::Group<Geometry::ElemR> readElemStrAs(
         for (std::size_t j = 0; j < T::sizeOfCoordinates; j++) {
             ss >> vId[j];
         }
+        if (!ss) {
+            throw std::logic_error("Ill-formed element: " + ss.str());
+        }
 
         const Geometry::Layer::Layer* layerPtr;
         const PhysicalModel::PhysicalModel* matPtr;
-- 
2.43.0


From da1a9f6dcb71b6634527987e08814fe4466f382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 074/126] fix: sections of JSON projects that are no lists are
 not read as empty

---
 src/parser/json/Parser.cpp | 62 ++++++++++++++++++++++++--------------
 src/parser/json/Parser.h   |  1 +
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 10c61b4..ed40f89 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -111,6 +111,14 @@ Data Parser::read(std::istream& stream) const {
     return res;
 }
 
+const json& Parser::listAt(const json& j, const std::string& key) {
+    const json& res = j.at(key);
+    if (!res.is_array()) {
+        throw std::logic_error(key + " is not a list.");
+    }
+    return res;
+}
+
 Solver::Info* Parser::readSolver(const json& j) {
     if (j.find("solverOptions") == j.end()) {
         return nullptr;
@@ -169,7 +177,7 @@ Source::Group<>* Parser::readSources(
         Geometry::Mesh::Geometric& mesh, const json& j) {
     Source::Group<>* res = new Source::Group<>();
 
-    const json& sources = j.at("sources").get<json>();
+    const json& sources = listAt(j, "sources");
     for (json::const_iterator it = sources.begin(); it != sources.end(); ++it) {
         std::string sourceType = it->at("sourceType").get<std::string>();
         if (sourceType.compare("planewave") == 0) {
@@ -194,7 +202,7 @@ PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
     if (j.find("materials") == j.end()) {
         return res;
     }
-    json mats = j.at("materials");
+    const json& mats = listAt(j, "materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
     }
@@ -332,7 +340,7 @@ OutputRequest::Group<>* Parser::readOutputRequests(
         Geometry::Mesh::Geometric& mesh, const json& j) {
 
     OutputRequest::Group<>* res = new OutputRequest::Group<>();
-    const json& outs = j.at("outputRequests").get<json>();
+    const json& outs = listAt(j, "outputRequests");
     for (json::const_iterator it = outs.begin(); it != outs.end(); ++it) {
         res->add(readOutputRequest(mesh, *it));
     }
@@ -343,7 +351,7 @@ void Parser::readConnectorOnPoint(
 	PMGroup& pMG,
 	Geometry::Mesh::Geometric& mesh, 
 	const json& j) {
-	const json& conns = j.at("connectorOnPoint").get<json>();
+	const json& conns = listAt(j, "connectorOnPoint");
 	for (auto it = conns.begin(); it != conns.end(); it++) {
 		PhysicalModel::PhysicalModel* mat = readPhysicalModel(*it);
 		pMG.addId(mat);
@@ -398,13 +406,13 @@ OutputRequest::Base* Parser::readOutputRequest(
 				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
-				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
+				readCoordIdAsNodes(mesh, listAt(j, "elemIds")),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
 				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
-					mesh, j.at("elemIds").get<json>()),
+					mesh, listAt(j, "elemIds")),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
 				j.at("skip").get<int>(), type);
 		}
@@ -412,15 +420,15 @@ OutputRequest::Base* Parser::readOutputRequest(
 
 	if (gidOutputType.compare("OutRq_on_point") == 0) {
 		return new OutRqElem(domain, type, name,
-			readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()));
+			readCoordIdAsNodes(mesh, listAt(j, "elemIds")));
 	} else if (gidOutputType.compare("OutRq_on_line") == 0) {
 		return new OutRqElem(domain, type, name,
 			readElemIdsAsGroupOf<Geometry::Lin>(
-				mesh, j.at("elemIds").get<json>()));
+				mesh, listAt(j, "elemIds")));
 	} else if (gidOutputType.compare("OutRq_on_surface") == 0) {
 		return new OutRqElem(domain, type, name,
         		readElemIdsAsGroupOf<Geometry::Surf>(
-                		mesh, j.at("elemIds").get<json>()));
+                		mesh, listAt(j, "elemIds")));
 	} else if (gidOutputType.compare("OutRq_on_layer") == 0) {
         return new OutRqElem(domain, type, name, 
 			boxToElemGroup(mesh, j.at("box").get<std::string>()));
@@ -458,7 +466,7 @@ Geometry::Layer::Group<> Parser::readLayers(const json& j) {
     }
 
     Geometry::Layer::Group<> res;
-    const json layers = j.at("layers");
+    const json& layers = listAt(j, "layers");
     for (json::const_iterator it = layers.begin(); it != layers.end(); ++it) {
         res.add(new Geometry::Layer::Layer(
                 Geometry::Layer::Id(it->at("id").get<int>()),
@@ -475,7 +483,7 @@ Geometry::Coordinate::Group<Geometry::CoordR3> Parser::readCoordinates(
     }
 
     Geometry::Coordinate::Group<Geometry::CoordR3> res;
-    const json& c = j.at("coordinates").get<json>();
+    const json& c = listAt(j, "coordinates");
     for (json::const_iterator it = c.begin(); it != c.end(); ++it) {
         Geometry::CoordId id;
         Math::CVecR3 pos;
@@ -502,11 +510,11 @@ Geometry::Element::Group<Geometry::ElemR> Parser::readElements(
     const json& elems = j.at("elements").get<json>();
 
 
-    res.add(readElemStrAs<Geometry::HexR8>(mG, lG, cG, elems.at("hexahedra").get<json>()));
-    res.add(readElemStrAs<Geometry::Tet4> (mG, lG, cG, elems.at("tetrahedra").get<json>()));
-    res.add(readElemStrAs<Geometry::QuaR4>(mG, lG, cG, elems.at("quadrilateral").get<json>()));
-    res.add(readElemStrAs<Geometry::Tri3> (mG, lG, cG, elems.at("triangle").get<json>()));
-    res.add(readElemStrAs<Geometry::LinR2>(mG, lG, cG, elems.at("line").get<json>()));
+    res.add(readElemStrAs<Geometry::HexR8>(mG, lG, cG, listAt(elems, "hexahedra")));
+    res.add(readElemStrAs<Geometry::Tet4> (mG, lG, cG, listAt(elems, "tetrahedra")));
+    res.add(readElemStrAs<Geometry::QuaR4>(mG, lG, cG, listAt(elems, "quadrilateral")));
+    res.add(readElemStrAs<Geometry::Tri3> (mG, lG, cG, listAt(elems, "triangle")));
+    res.add(readElemStrAs<Geometry::LinR2>(mG, lG, cG, listAt(elems, "line")));
 
     return res;
 }
@@ -517,8 +525,9 @@ PhysicalModel::Surface::Multilayer* Parser::readMultilayerSurface(
     std::string name = mat.at("name").get<std::string>();
 
     std::vector<PhysicalModel::Surface::Multilayer::Layer> layers;
-    for (json::const_iterator it = mat.at("layers").begin();
-            it != mat.at("layers").end(); ++it) {
+    const json& matLayers = listAt(mat, "layers");
+    for (json::const_iterator it = matLayers.begin();
+            it != matLayers.end(); ++it) {
         layers.push_back(
                 PhysicalModel::Surface::Multilayer::Layer(
                         it->at("thickness").get<double>(),
@@ -543,7 +552,11 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         throw std::logic_error("Grids object not found.");
     }
 
-    json g = j.at("grids").front();
+    const json& grids = listAt(j, "grids");
+    if (grids.empty()) {
+        throw std::logic_error("Grids object is empty.");
+    }
+    json g = grids.front();
     std::string gridType = g.at("gridType").get<std::string>();
     if (gridType.compare("gridCondition") == 0) {
         // Initializes basic grid.
@@ -686,7 +699,7 @@ Source::Port::Waveguide* Parser::readPortWaveguide(
         return new Source::Port::WaveguideRectangular(
                 readMagnitude(       j.at("magnitude").get<json>()),
                 readElemIdsAsGroupOf<const Geometry::Surf>(
-                             mesh, j.at("elemIds").get<json>()),
+                             mesh, listAt(j, "elemIds")),
                 strToWaveguideMode(  j.at("excitationMode").get<std::string>()),
                 {j.at("firstMode").get<int>(), j.at("secondMode").get<int>()} );
     } else {
@@ -698,7 +711,7 @@ Source::Port::TEM* Parser::readPortTEM(
         Geometry::Mesh::Geometric& mesh, const json& j) {
     return new Source::Port::TEMCoaxial(
             readMagnitude(       j.at("magnitude").get<json>()),
-            readElemIdsAsGroupOf<const Geometry::Surf>(mesh, j.at("elemIds").get<json>()),
+            readElemIdsAsGroupOf<const Geometry::Surf>(mesh, listAt(j, "elemIds")),
             strToTEMMode(        j.at("excitationMode").get<std::string>()),
             strToCVecR3(         j.at("origin").get<std::string>()),
                                  j.at("innerRadius").get<double>(),
@@ -709,7 +722,7 @@ Source::Generator* Parser::readGenerator(
         Geometry::Mesh::Geometric& mesh, const json& j) {
 	return new Source::Generator(
 			readMagnitude(j.at("magnitude").get<json>()),
-			readCoordIdAsNodes(mesh, j.at("coordIds").get<json>()),
+			readCoordIdAsNodes(mesh, listAt(j, "coordIds")),
 			strToGeneratorType(j.at("type").get<std::string>()),
 			Source::Generator::soft);
             //strToGeneratorHardness(j.at("hardness").get<std::string>()) );
@@ -720,7 +733,7 @@ Source::OnLine* Parser::readSourceOnLine(
     return new Source::OnLine(
             readMagnitude(     j.at("magnitude").get<json>()),
 			readElemIdsAsGroupOf<const Geometry::Lin>(
-					mesh, j.at("elemIds").get<json>()),
+					mesh, listAt(j, "elemIds")),
             strToNodalType(    j.at("type").get<std::string>()),
             strToNodalHardness(j.at("hardness").get<std::string>()) );
 }
@@ -893,6 +906,9 @@ Source::OnLine::Hardness Parser::strToNodalHardness(std::string str) {
 }
 
 OutputRequest::Domain Parser::readDomain(const json& j) {
+    if (!j.is_object()) {
+        throw std::logic_error("Domain is not an object.");
+    }
     bool timeDomain = false;
 	Math::Real initialTime = 0.0;
 	Math::Real finalTime = 0.0;
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index fb590dd..9730166 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -65,6 +65,7 @@ public:
     Data read(std::istream& inputFileStream) const;
 
 private:
+    static const json& listAt(const json&, const std::string& key);
     static Solver::Info* readSolver(const json&);
     static Solver::Settings readSolverSettings(const json&);
     static PhysicalModel::Group<>* readPhysicalModels(const json&);
-- 
2.43.0


From d7483c2a9c180d969e1c102b515d0364bd4dceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 075/126] fix: bulk currents with an unknown kind of location
 are not read

---
 src/parser/json/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index ed40f89..1c31ed8 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -409,12 +409,16 @@ OutputRequest::Base* Parser::readOutputRequest(
 				readCoordIdAsNodes(mesh, listAt(j, "elemIds")),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
 				j.at("skip").get<int>(), type);
-		} else {
+		} else if (gidOutputType.compare("OutRq_on_line") == 0 ||
+				gidOutputType.compare("OutRq_on_surface") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, listAt(j, "elemIds")),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
 				j.at("skip").get<int>(), type);
+		} else {
+			throw std::logic_error(
+				"Unrecognized GiD Output request type: " + gidOutputType);
 		}
 	}
 
-- 
2.43.0


From 7f89455e59e60bc8f236abab53488017a3736048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 076/126] fix: paddings much smaller than a cell do not read
 beyond the new steps

---
 src/core/geometry/Grid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index deb22e1..01997e1 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -120,6 +120,9 @@ void Grid<D>::setAdditionalSteps(
         const Math::Constants::CartesianBound b,
         const std::vector<Math::Real>& step) {
     const std::size_t nCells = step.size();
+    if (nCells == 0) {
+        return;
+    }
     std::vector<Math::Real> newPos(nCells);
     if (b == Math::Constants::U) {
         newPos[0] = pos_[d].back() + step[0];
-- 
2.43.0


From 98e81537827708819a99c335267ea3a2d545d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 077/126] fix: grids without positions in some direction are
 rejected

---
 src/parser/json/Parser.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 1c31ed8..6f2ef2b 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -551,6 +551,14 @@ PhysicalModel::Surface::Multilayer* Parser::readMultilayerSurface(
     }
 }
 
+static void checkGrid(const Geometry::Grid3& grid, std::size_t numPositions) {
+    for (std::size_t d = 0; d < 3; d++) {
+        if (grid.getPos(d).size() < numPositions) {
+            throw std::logic_error("Grid has no cells in some direction.");
+        }
+    }
+}
+
 Geometry::Grid3 Parser::readGrids(const json& j) {
     if (j.find("grids") == j.end()) {
         throw std::logic_error("Grids object not found.");
@@ -598,12 +606,14 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
                 boundaryPadding.first  *= boundaryMeshSize.first;
                 boundaryPadding.second *= boundaryMeshSize.second;
             }
+            checkGrid(res, 2);
             res.enlarge(boundaryPadding, boundaryMeshSize);
         }
 
 		if (res.hasZeroSize()) {
 			throw std::logic_error("Grid has zero size.");
 		}
+        checkGrid(res, 1);
         return res;
 
     } else if (gridType.compare("nativeGiD") == 0) {
@@ -618,11 +628,15 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         pos[1] = g.at("yCoordinates").get<std::vector<double>>();
         pos[2] = g.at("zCoordinates").get<std::vector<double>>();
         if (!pos[0].empty()) {
-            return Geometry::Grid3(pos);
+            Geometry::Grid3 res(pos);
+            checkGrid(res, 1);
+            return res;
         } else {
             std::pair<Math::CVecR3, Math::CVecR3> box =
             { corner, corner + boxSize };
-            return Geometry::Grid3(box, nGridPoints);
+            Geometry::Grid3 res(box, nGridPoints);
+            checkGrid(res, 1);
+            return res;
         }
     } else if (gridType.compare("positionsFromFile") == 0) {
         /** Reads grid lines positions from a json file. Positions must be 
-- 
2.43.0


From 21819d6b5f6ee4c76492ed642b86843555e5419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 078/126] fix: solids after the first have their own layer and
 short facets are rejected

---
 src/parser/stl/Parser.cpp | 91 +++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 41 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index ef2a5af..2a5f5d6 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -21,6 +21,9 @@
 
 #include "Parser.h"
 
+#include <sstream>
+#include <stdexcept>
+
 namespace SEMBA {
 namespace Parser {
 namespace STL {
@@ -37,61 +40,67 @@ Parser::~Parser() {
 }
 
 Data Parser::read(std::istream& stl) const {
-    // Reads coordinates.
-    std::string label;
+    // Reads the vertices, and the layer and vertices of each facet.
+    struct Facet {
+        const Geometry::Layer::Layer* layer;
+        std::vector<Math::CVecR3> vertices;
+    };
     std::vector<Math::CVecR3> vertices;
-    std::size_t nLines = std::count(std::istreambuf_iterator<char>(stl),
-                                    std::istreambuf_iterator<char>(), '\n');
-    vertices.reserve(nLines);
-	
-    stl.seekg(0); // Rewinds.
-    while (stl.peek() != EOF) {
-        stl >> label;
-        if (label == "vertex") {
+    std::vector<Facet> facets;
+    Geometry::Layer::Group<Geometry::Layer::Layer> lG;
+    const Geometry::Layer::Layer* lay = nullptr;
+    bool inLoop = false;
+    std::string label;
+    while (stl >> label) {
+        if (label == "solid" || label == "endsolid") {
+            std::string line, layerName;
+            std::getline(stl, line);
+            std::istringstream(line) >> layerName;
+            lay = nullptr;
+            inLoop = false;
+            if (label == "solid") {
+                lay = lG.addId(new Geometry::Layer::Layer(layerName))(0);
+            }
+        } else if (label == "loop") {
+            inLoop = lay != nullptr;
+            if (inLoop) {
+                facets.push_back(Facet());
+                facets.back().layer = lay;
+            }
+        } else if (label == "endloop") {
+            inLoop = false;
+        } else if (label == "vertex") {
             Math::CVecR3 vertex;
             stl >> vertex(Math::Constants::x)
                 >> vertex(Math::Constants::y)
                 >> vertex(Math::Constants::z);
+            if (!stl) {
+                throw std::logic_error("Ill-formed vertex in STL file.");
+            }
             vertices.push_back(vertex);
+            if (inLoop) {
+                facets.back().vertices.push_back(vertex);
+            }
         }
     }
     Geometry::Coordinate::Group<Geometry::CoordR3> cG;
     cG.addPos(vertices);
 
-    // Reads Elements and Layers.
-	stl.clear();
-	stl.seekg(0); // Rewinds.
-	Geometry::Layer::Group<Geometry::Layer::Layer> lG;
+    // Creates elements.
     Geometry::Element::Group<Geometry::ElemR> eG;
-    while (stl.peek() != EOF) {
-        stl >> label;
-        if (label == "solid") {
-            std::string layerName;
-            stl >> layerName;
-            Geometry::Layer::Layer* lay = 
-                lG.addId(new Geometry::Layer::Layer(layerName))(0);
-            std::string line;
-            while (stl.peek() != EOF) {
-                std::getline(stl, line);
-                if (trim(line) == "outer loop") {
-                    std::vector<const Geometry::CoordR3*> coord;
-                    coord.reserve(3);
-                    while (stl.peek() != EOF && label != "endloop") {
-                        stl >> label;
-                        if (label == "vertex") {
-                            Math::CVecR3 pos;
-                            stl >> pos(Math::Constants::x)
-                                >> pos(Math::Constants::y)
-                                >> pos(Math::Constants::z);
-                            coord.push_back(cG.getPos(pos));
-                        }
-                    }
-                    label.clear();
-                    eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
-                                                &coord[0], lay));
-                }
+    for (std::size_t i = 0; i < facets.size(); i++) {
+        if (facets[i].vertices.size() != 3) {
+            throw std::logic_error("STL facet without three vertices.");
+        }
+        std::vector<const Geometry::CoordR3*> coord(3);
+        for (std::size_t j = 0; j < 3; j++) {
+            coord[j] = cG.getPos(facets[i].vertices[j]);
+            if (coord[j] == nullptr) {
+                throw std::logic_error("STL vertex not found.");
             }
         }
+        eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
+                                    &coord[0], facets[i].layer));
     }
 
     // Stores results and returns.
-- 
2.43.0


From c8f313629e188df19639f3ffb9fa5378d0d078c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 079/126] fix: polylines and polygons are exported to VTK as
 such

---
 src/exporter/vtk/Exporter.cpp | 37 +++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..a522505 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -23,6 +23,7 @@
 
 #include "geometry/mesh/Unstructured.h"
 #include "geometry/element/Triangle.h"
+#include "geometry/element/Polygon.h"
 #include "geometry/element/Quadrilateral.h"
 #include "geometry/element/Tetrahedron.h"
 
@@ -32,6 +33,22 @@ namespace {
 #else
     const std::string Separator = "/";
 #endif
+
+// Polylines are written with all their points, other elements with vertices.
+std::size_t numberOfPoints(const SEMBA::Geometry::ElemR& elem) {
+    if (elem.is<SEMBA::Geometry::Lin>()) {
+        return elem.numberOfCoordinates();
+    }
+    return elem.numberOfVertices();
+}
+
+const SEMBA::Geometry::CoordR3* getPoint(const SEMBA::Geometry::ElemR& elem,
+                                         const std::size_t i) {
+    if (elem.is<SEMBA::Geometry::Lin>()) {
+        return elem.getV(i);
+    }
+    return elem.getVertex(i);
+}
 }
 
 namespace SEMBA {
@@ -196,10 +213,11 @@ std::pair<std::vector<Math::CVecR3>, std::map<Geometry::CoordId, std::size_t>>
     std::map<Geometry::CoordId, std::size_t> mapCoords;
     std::vector<Math::CVecR3> pos;
     for (std::size_t i = 0; i < elems.size(); i++) {
-        for (std::size_t j = 0; j < elems(i)->numberOfVertices(); j++) {
-            if (mapCoords.count(elems(i)->getVertex(j)->getId()) == 0) {
-                mapCoords[elems(i)->getVertex(j)->getId()] = pos.size();
-                pos.push_back(elems(i)->getVertex(j)->pos());
+        for (std::size_t j = 0; j < numberOfPoints(*elems(i)); j++) {
+            const Geometry::CoordR3* point = getPoint(*elems(i), j);
+            if (mapCoords.count(point->getId()) == 0) {
+                mapCoords[point->getId()] = pos.size();
+                pos.push_back(point->pos());
             }
         }
     }
@@ -238,8 +256,8 @@ void Exporter::writeCells_(
             << ">" << std::endl;
     outFile << "         ";
     for (std::size_t i = 0; i < elems.size(); i++) {
-        for (std::size_t j = 0; j < elems(i)->numberOfVertices(); j++) {
-            outFile << " " << mapCoords.at(elems(i)->getVertex(j)->getId());
+        for (std::size_t j = 0; j < numberOfPoints(*elems(i)); j++) {
+            outFile << " " << mapCoords.at(getPoint(*elems(i), j)->getId());
         }
     }
     outFile << std::endl;
@@ -253,7 +271,7 @@ void Exporter::writeCells_(
     outFile << "         ";
     std::size_t offset = 0;
     for (std::size_t i = 0; i < elems.size(); i++) {
-        offset += elems(i)->numberOfVertices();
+        offset += numberOfPoints(*elems(i));
         outFile << " " << offset;
     }
     outFile << std::endl;
@@ -269,7 +287,8 @@ void Exporter::writeCells_(
         outFile << " ";
         if (elems(i)->is<Geometry::Nod>()) {
             outFile << CELL_TYPES::VTK_VERTEX;
-        } else if (elems(i)->is<Geometry::Lin>()) {
+        } else if (elems(i)->is<Geometry::Lin>() &&
+                   numberOfPoints(*elems(i)) == 2) {
             outFile << CELL_TYPES::VTK_LINE;
         } else if (elems(i)->is<Geometry::Tri>()) {
             outFile << CELL_TYPES::VTK_TRIANGLE;
@@ -279,6 +298,8 @@ void Exporter::writeCells_(
             outFile << CELL_TYPES::VTK_TETRA;
         } else if (elems(i)->is<Geometry::Hex8>()) {
             outFile << CELL_TYPES::VTK_HEXAHEDRON;
+        } else if (elems(i)->is<Geometry::Element::Polygon>()) {
+            outFile << CELL_TYPES::VTK_POLYGON;
         } else {
             outFile << CELL_TYPES::VTK_POLY_LINE;
         }
-- 
2.43.0


From ab2ab7f9f9d35b034c056c9947ac88f41a689dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 080/126] fix: names with reserved characters are exported to
 VTK as valid XML

---
 src/exporter/vtk/Exporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index a522505..c932d18 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -311,7 +311,11 @@ void Exporter::writeCells_(
 
 std::string Exporter::makeValid_(const std::string& allocator) {
     std::string res = allocator;
-    std::replace(res.begin(), res.end(), '/', '_');
+    // Not allowed in file names or in XML attributes.
+    const std::string invalid = "/<>&\"";
+    for (std::size_t i = 0; i < invalid.size(); i++) {
+        std::replace(res.begin(), res.end(), invalid[i], '_');
+    }
     return res;
 }
 
-- 
2.43.0


From 22ec98c187bb1adb6e670ffdad10d331358ba93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 081/126] fix: data sets with the same name are exported to VTK
 in their own file

---
 src/exporter/vtk/Exporter.cpp | 14 ++++++++++++--
 src/exporter/vtk/Exporter.h   |  3 +++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index c932d18..716f043 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -21,6 +21,8 @@
 
 #include "Exporter.h"
 
+#include <sstream>
+
 #include "geometry/mesh/Unstructured.h"
 #include "geometry/element/Triangle.h"
 #include "geometry/element/Polygon.h"
@@ -179,14 +181,22 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
     if (elems.empty()) {
         return;
     }
+    // Data sets can share their name but not their file.
+    std::string fileName = name;
+    while (!fileNames_.insert(fileName).second) {
+        std::ostringstream numbered;
+        numbered << fileName << "_" << part;
+        fileName = numbered.str();
+    }
     outMain << "    " << "<DataSet "
             << "group=\"" << name << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
-            << getBasename() + ".vtk" + Separator + name + ".vtu" << "\" "
+            << getBasename() + ".vtk" + Separator + fileName + ".vtu" << "\" "
             << "/>" << std::endl;
 
-    std::string filename = getFilename() + ".vtk" + Separator + name + ".vtu";
+    std::string filename = getFilename() + ".vtk" + Separator +
+                           fileName + ".vtu";
     std::ofstream outFile(filename.c_str());
     outFile << "<VTKFile "
             << "type=\"UnstructuredGrid\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..77285a4 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -23,6 +23,7 @@
 #define SEMBA_EXPORTER_VTK_EXPORTER_H_
 
 #include <fstream>
+#include <set>
 #include <utility>
 #include <algorithm>
 
@@ -61,6 +62,8 @@ private:
         VTK_QUADRATIC_TETRA      = 24,
         VTK_QUADRATIC_HEXAHEDRON = 25
     };
+    std::set<std::string> fileNames_;
+
     void writeMesh_(const Data* smb);
     void writeFile_(const Group::Group<const Geometry::ElemR>& elems,
                     const std::string& name,
-- 
2.43.0


From 4bebbafc20e84b1dc955300af013a98d7313260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 082/126] fix: exporting to GiD does not change the dimensions
 of the project

---
 src/exporter/gid/Exporter.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 995e699..6b997a6 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -21,6 +21,8 @@
 
 #include "Exporter.h"
 
+#include <memory>
+
 #include "geometry/element/Line2.h"
 #include "geometry/element/Triangle3.h"
 #include "geometry/element/Quadrilateral4.h"
@@ -68,11 +70,6 @@ void Exporter::init_(
         throw std::logic_error("Invalid GiD exporting mode.");
     }
 
-    Math::Real scalingFactor =
-        smb->solver->getSettings()("geometryScalingFactor").getReal();
-    if (scalingFactor != 0.0) {
-        smb->mesh->applyScalingFactor(1.0 / scalingFactor);
-    }
     writeMesh_(smb);
 }
 
@@ -111,12 +108,22 @@ void Exporter::writeAllElements_(
 }
 
 void Exporter::writeMesh_(const Data* smb) {
-    const Geometry::Mesh::Mesh* inMesh = smb->mesh;
+    assert(smb->mesh != nullptr);
+    // Exports a copy with the original dimensions.
+    std::unique_ptr<Geometry::Mesh::Mesh> original(
+        smb->mesh->cloneTo<Geometry::Mesh::Mesh>());
+    if (smb->solver != nullptr) {
+        Math::Real scalingFactor =
+            smb->solver->getSettings()("geometryScalingFactor").getReal();
+        if (scalingFactor != 0.0) {
+            original->applyScalingFactor(1.0 / scalingFactor);
+        }
+    }
+    const Geometry::Mesh::Mesh* inMesh = original.get();
     const PhysicalModel::Group<>* mat = smb->physicalModels;
     const Source::Group<>* srcs = smb->sources;
     const OutputRequest::Group<>* oRqs = smb->outputRequests;
     const Geometry::Grid3* grid = nullptr;
-    assert(inMesh != nullptr);
     assert(mat != nullptr);
     const Geometry::Mesh::Unstructured* mesh;
     std::string preName;
-- 
2.43.0


From f2dcd61a9fa49ed296a06357e573a376c3449298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 083/126] fix: removing a member of an argument object keeps
 the other names right

---
 src/core/argument/Object.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..d8d2821 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -211,10 +211,14 @@ public:
         return *this;
     }
     Object& eraseMember(const std::string& name) {
-        if (existsName(name)) {
-            objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
-            objName_    .erase(objName_   .begin() + nameMembers_.at(name));
+        if (isObject() && (nameMembers_.count(name) != 0)) {
+            const std::size_t pos = nameMembers_.at(name);
             nameMembers_.erase(name);
+            objMembers_ .erase(objMembers_.begin() + pos);
+            objName_    .erase(objName_   .begin() + pos);
+            for (std::size_t i = pos; i < objName_.size(); i++) {
+                nameMembers_.at(objName_[i]) = i;
+            }
         }
         return *this;
     }
-- 
2.43.0


From d54dd86af871ad9686f4d838f2dd3093d61b4eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 084/126] fix: an argument object may be assigned or extended
 with a part of itself

---
 src/core/argument/Object.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index d8d2821..fb83470 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -100,11 +100,13 @@ public:
         if (this == &rhs) {
             return *this;
         }
-        copy_(rhs);
+        Object aux(rhs);
+        move_(std::move(aux));
         return *this;
     }
     Object& operator =(Object&& rhs) {
-        move_(std::move(rhs));
+        Object aux(std::move(rhs));
+        move_(std::move(aux));
         return *this;
     }
     template<typename... T>
@@ -191,16 +193,10 @@ public:
         return objMembers_.at(nameMembers_.at(name));
     }
     Object&   addMember(const std::string& name, const Object& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
-        }
-        objMembers_.at(nameMembers_.at(name)) = val;
-        return *this;
+        return addMember(name, Object(val));
     }
-    Object&   addMember(const std::string& name, Object&& val) {
+    Object&   addMember(const std::string& name, Object&& rhs) {
+        Object val(std::move(rhs));
         setObject();
         if (nameMembers_.count(name) == 0) {
             nameMembers_[name] = objMembers_.size();
@@ -243,11 +239,10 @@ public:
         return objMembers_.at(i);
     }
     Object&   addValue(const Object& val) {
-        setArray();
-        objMembers_.push_back(val);
-        return *this;
+        return addValue(Object(val));
     }
-    Object&   addValue(Object&& val) {
+    Object&   addValue(Object&& rhs) {
+        Object val(std::move(rhs));
         setArray();
         objMembers_.push_back(std::move(val));
         return *this;
-- 
2.43.0


From dc1489035884c00ee23d89880d1af82c6cfe7cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 085/126] fix: an argument object keeps all the digits of a
 real

---
 src/core/argument/Object.h   |  6 ++++++
 src/core/argument/Object.hpp | 32 +++++++++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index fb83470..0586014 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -426,6 +426,12 @@ private:
         strValue_.clear();
     }
 
+    template<typename T>
+    static typename std::enable_if<!std::is_floating_point<T>::value,
+                                   std::string>::type toText_(const T&);
+    template<typename T>
+    static typename std::enable_if<std::is_floating_point<T>::value,
+                                   std::string>::type toText_(const T&);
     template<typename T>
     void set_(const T&);
     template<typename T1, typename T2, typename... T>
diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index adfc622..5d2108b 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -81,17 +81,39 @@ Object& Object::set(const T&... params) {
 }
 
 template<typename T>
-void Object::set_(const T& param) {
+typename std::enable_if<!std::is_floating_point<T>::value, std::string>::type
+Object::toText_(const T& param) {
     std::stringstream aux;
     aux << param;
-    strValue_.push_back(aux.str());
+    return aux.str();
+}
+
+template<typename T>
+typename std::enable_if<std::is_floating_point<T>::value, std::string>::type
+Object::toText_(const T& param) {
+    // Shortest text that gives back the same number.
+    std::string res;
+    for (int i = 6; i <= std::numeric_limits<T>::max_digits10; i++) {
+        std::stringstream aux;
+        aux.precision(i);
+        aux << param;
+        res = aux.str();
+        T read = T();
+        if ((aux >> read) && (read == param)) {
+            break;
+        }
+    }
+    return res;
+}
+
+template<typename T>
+void Object::set_(const T& param) {
+    strValue_.push_back(toText_(param));
 }
 
 template<typename T1, typename T2, typename... T>
 void Object::set_(const T1& param1, const T2& param2, const T&... params) {
-    std::stringstream aux;
-    aux << param1;
-    strValue_.push_back(aux.str());
+    strValue_.push_back(toText_(param1));
     set_(param2, params...);
 }
 
-- 
2.43.0


From 600cab7d6833db2210a90268ed31be1684a7f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 086/126] fix: the lowest integer can be read from an argument
 object

---
 src/core/argument/Object.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0586014..b1bc8a2 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -267,7 +267,8 @@ public:
     bool     isReal  () const          { return is <Real>();          }
     Int     getInt   () const          { 
 		Real val = getReal();
-		if (std::numeric_limits<Int>::max() < std::abs(val)) {
+		if (std::floor(val) < std::numeric_limits<Int>::min() ||
+		    std::floor(val) > std::numeric_limits<Int>::max()) {
 			std::stringstream msg;
 			msg << "Integer value overflow: " << val;
 			throw std::logic_error(msg.str());
-- 
2.43.0


From 165a58a7463dc1f7713a18f18796f8ad174c1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 087/126] fix: removing an absent value of an argument object
 is refused

---
 src/core/argument/Object.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index b1bc8a2..8efcf23 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -249,6 +249,7 @@ public:
     }
     Object& eraseValue(const std::size_t& i) {
         if (isArray()) {
+            objMembers_.at(i);
             objMembers_.erase(objMembers_.begin() + i);
         }
         return *this;
-- 
2.43.0


From ac814aa4119fd75fdcd2e939a4a6e6292b28df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 088/126] fix: reading a text from an argument object that is
 none is refused

---
 src/core/argument/Object.h   | 12 +-----------
 src/core/argument/Object.hpp | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 8efcf23..d1f61ac 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -282,17 +282,7 @@ public:
 
     //String Value
     bool         isString() const { return isType(Type::String); }
-    std::string getString() const {
-        std::string res;
-        for (std::list<std::string>::const_iterator it = strValue_.begin();
-        it != strValue_.end(); ++it) {
-            if (it != strValue_.begin()) {
-                res += " ";
-            }
-            res += *it;
-        }
-        return res;
-    }
+    std::string getString() const;
     Object&     setString(const std::string& str) {
         clear_();
         type_ = Type::String;
diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index 5d2108b..e60486b 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -24,6 +24,21 @@
 namespace SEMBA {
 namespace Argument {
 
+inline std::string Object::getString() const {
+    if (type_ != Type::String) {
+        throw Error::Object::NotType(Type::String);
+    }
+    std::string res;
+    for (std::list<std::string>::const_iterator it = strValue_.begin();
+         it != strValue_.end(); ++it) {
+        if (it != strValue_.begin()) {
+            res += " ";
+        }
+        res += *it;
+    }
+    return res;
+}
+
 template<typename ... T>
 Object& Object::operator =(const T&... params) {
     return set(params...);
-- 
2.43.0


From 7ba96e40be8494d6503e7618ec1901f8cb3f6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 089/126] fix: negative texts are not parsed as unsigned values

---
 src/core/argument/StringParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1f2ea16..1d3e9a0 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -30,6 +30,7 @@
 #include <sstream>
 #include <string>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -80,6 +81,12 @@ private:
 template<typename T>
 struct Parser {
     static bool parse(T& out, std::stringstream& input) {
+        if (std::is_unsigned<T>::value) {
+            input >> std::ws;
+            if (input.peek() == '-') {
+                return false;
+            }
+        }
         input >> out;
         return !input.fail();
     }
-- 
2.43.0


From d1871033231f6fd5f79dbfd669d745e49f5f0083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 090/126] fix: texts are split into values only at blanks and
 without losing any

---
 src/core/argument/StringParser.h | 53 ++++++++++++++------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1d3e9a0..df7e1f2 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -126,6 +126,13 @@ struct Details {
         return ltrim(rtrim(s));
     }
 
+    // A value ends with its text or at a blank.
+    static inline bool endsValue(std::stringstream& input) {
+        return input.eof() ||
+               (input.peek() == std::stringstream::traits_type::eof()) ||
+               std::isspace(input.peek());
+    }
+
     template<typename T>
     struct ParserHelper {
         static void parse(T& out,
@@ -146,16 +153,19 @@ struct Details {
                 inlist.pop_front();
 
                 std::stringstream aux2(aux1);
-                if(StringParser::Parser<T>::parse(out, aux2)) {
+                if(StringParser::Parser<T>::parse(out, aux2) &&
+                   endsValue(aux2)) {
                     std::string used, remain;
                     used = aux1;
-                    std::getline(aux2, remain);
+                    if(!aux2.eof()) {
+                        std::size_t pos = (std::size_t)aux2.tellg();
+                        used = aux1.substr(0, pos);
+                        remain = aux1.substr(pos);
+                    }
                     trim(used);
                     trim(remain);
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
                         inlist.push_front(remain);
-                        trim(used);
                     }
                     if(!used.empty()) {
                         outlist.push_back(used);
@@ -174,36 +184,19 @@ struct Details {
                           std::list<std::string>& outlist,
                           std::list<std::string>& inlist,
                           std::size_t p) {
-            std::list<std::string> rem;
-            std::string aux1;
             while (!inlist.empty()) {
                 T outElem;
-                aux1 += inlist.front();
-                rem.push_back(inlist.front());
-                inlist.pop_front();
-                std::stringstream aux2(aux1);
-                if(StringParser::Parser<T>::parse(outElem, aux2)) {
-                    out.push_back(outElem);
-                    std::string used, remain;
-                    used = aux1;
-                    std::getline(aux2, remain);
-                    trim(used);
-                    trim(remain);
-                    rem.clear();
-                    if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
-                        rem.push_front(remain);
-                        trim(used);
-                    }
-                    if(!used.empty()) {
-                        outlist.push_back(used);
-                    }
-                    aux1 = remain;
-                } else {
-                    aux1 += " ";
+                std::list<std::string> auxout;
+                std::list<std::string> auxin(inlist);
+                try {
+                    ParserHelper<T>::parse(outElem, auxout, auxin, p);
+                } catch (const Error::Error&) {
+                    break;
                 }
+                out.push_back(outElem);
+                outlist.splice(outlist.end(), auxout);
+                inlist.swap(auxin);
             }
-            inlist = rem;
         }
     };
 
-- 
2.43.0


From 57bc70be4eca3558169a2635ae41dacaefd452f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 091/126] fix: texts are parsed verbatim, the empty one too

---
 src/core/argument/StringParser.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index df7e1f2..0520e82 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -133,7 +133,7 @@ struct Details {
                std::isspace(input.peek());
     }
 
-    template<typename T>
+    template<typename T, typename P = void>
     struct ParserHelper {
         static void parse(T& out,
                           std::list<std::string>& outlist,
@@ -179,7 +179,7 @@ struct Details {
     };
 
     template<typename T>
-    struct ParserHelper<std::vector<T>> {
+    struct ParserHelper<std::vector<T>, void> {
         static void parse(std::vector<T>& out,
                           std::list<std::string>& outlist,
                           std::list<std::string>& inlist,
@@ -200,6 +200,21 @@ struct Details {
         }
     };
 
+    template<typename P>
+    struct ParserHelper<std::string, P> {
+        static void parse(std::string& out,
+                          std::list<std::string>& outlist,
+                          std::list<std::string>& inlist,
+                          std::size_t p) {
+            if (inlist.empty()) {
+                throw Error::NotEnough();
+            }
+            out = inlist.front();
+            inlist.pop_front();
+            outlist.push_back(out);
+        }
+    };
+
     template<std::size_t I, typename... T>
     struct Parser {
         static void parse(std::tuple<T...>& tuple,
-- 
2.43.0


From b30592e5bb4bd65bd74f6bc73eaacafc992aa9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 092/126] fix: mesher options do not snap unless told to

---
 src/mesher/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..fde5c11 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -34,6 +34,7 @@ namespace Mesher {
 Options::Options() {
     mesher_ = Mesher::DMesher;
     mode_ = Mode::structured;
+    snap_ = false;
     forbiddenLength_ = 1.0;
     subgridPoints_ = 0;
     scalingFactor_ = 1.0;
-- 
2.43.0


From f40fd1bc91d9953c88443d2b27ffafe66832d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 093/126] fix: a file that does not exist is not a folder

---
 src/core/filesystem/Project.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8549bd7..58509f7 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -285,8 +285,7 @@ bool Project::checkExistance_(const std::string& fn) const {
     }
 #else
     struct stat sb;
-    exists = (stat(fn.c_str(), &sb) == 0);
-    exists &= S_ISDIR(sb.st_mode);
+    exists = (stat(fn.c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
     return exists;
 }
@@ -315,8 +314,7 @@ bool Project::isFolder() const {
     return false;
 #else
     struct stat sb;
-    stat(c_str(), &sb);
-    return S_ISDIR(sb.st_mode);
+    return (stat(c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
 }
 
-- 
2.43.0


From d440d0e90f25b9bd4093753c25d48e422658779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 094/126] fix: asking for the base name does not change the
 file name

---
 src/core/filesystem/Project.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 58509f7..7540a0d 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -129,7 +129,10 @@ std::string Project::getBasename() const {
     _splitpath(getFilename().c_str(), nullptr, nullptr, fname, ext);
     std::string res = std::string(fname) + ext;
 #else
-    std::string res(basename(const_cast<char*>(c_str())));
+    char *cstr = new char[length() + 1];
+    strcpy(cstr, c_str());
+    std::string res(basename(cstr));
+    delete [] cstr;
 #endif
     return res;
 }
-- 
2.43.0


From 04504721323c95db226f9d9136114c27bde834cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 095/126] fix: the extension is the part of the base name after
 the project name

---
 src/core/filesystem/Project.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 7540a0d..b22b7e8 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -339,14 +339,8 @@ void Project::exec(const std::string arguments) const {
 }
 
 std::string Project::getExtension() const {
-    size_t pos = rfind(".");
-    if (pos == std::string::npos) {
-        return *this;
-    }
-    if (pos == 0) {
-        return *this;
-    }
-    return this->substr(pos, std::string::npos);
+    const std::string base = getBasename();
+    return base.substr(removeExtension_(base).length());
 }
 
 std::string Project::getFullPath() const {
-- 
2.43.0


From ca080268f74eb3dd421457e1884d2fbc50aa3d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 096/126] fix: a path is made relative only to a folder that it
 is in

---
 src/core/filesystem/Project.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index b22b7e8..5aea0fd 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -300,10 +300,18 @@ Project Project::relativeTo(const Project& rhs) const {
     } else {
         rhsFolder = rhs.getFolder();
     }
+    if (rhsFolder.find_last_of("/\\") != rhsFolder.length() - 1) {
+#ifdef _WIN32
+        rhsFolder += "\\";
+#else
+        rhsFolder += "/";
+#endif
+    }
     std::string name = getFilename();
-    std::string res = name.substr(name.find(rhsFolder) + rhsFolder.length(),
-                                  name.length());
-    return Project(res);
+    if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
+        return *this;
+    }
+    return Project(name.substr(rhsFolder.length()));
 }
 
 bool Project::isFolder() const {
-- 
2.43.0


From 25b9754c77cbbf4fe233830e378ca705597619f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 097/126] fix: the full path of a file that does not exist is
 refused

---
 src/core/filesystem/Project.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 5aea0fd..eee3709 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -21,6 +21,7 @@
 
 #include "Project.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <stdexcept>
@@ -354,7 +355,12 @@ std::string Project::getExtension() const {
 std::string Project::getFullPath() const {
     std::string res;
 #ifndef _WIN32
-    res = (const char*) realpath(this->getFilename().c_str(), nullptr);
+    char *path = realpath(this->getFilename().c_str(), nullptr);
+    if (path == nullptr) {
+        throw std::ios_base::failure("Can not get the full path of " + *this);
+    }
+    res = path;
+    free(path);
     if (Project(res).isFolder()) {
         res += "/";
     }
-- 
2.43.0


From ca9982743175eaf61eaea57488febc6648e655e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 098/126] fix: file names are quoted in the commands that use
 them

---
 src/core/filesystem/Project.cpp | 22 +++++++++++++++++++---
 src/core/filesystem/Project.h   |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index eee3709..cadc295 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -232,6 +232,22 @@ void Project::openFile_(const std::string& fileName,
     }
 }
 
+std::string Project::quote_(const std::string& name) const {
+#ifdef _WIN32
+    return "\"" + name + "\"";
+#else
+    std::string res = "'";
+    for (std::size_t i = 0; i < name.size(); i++) {
+        if (name[i] == '\'') {
+            res += "'\\''";
+        } else {
+            res += name[i];
+        }
+    }
+    return res + "'";
+#endif
+}
+
 std::string Project::removeExtension_(const std::string& fName) const {
     size_t pos = fName.rfind(".");
     if (pos == std::string::npos) { //No extension.
@@ -266,8 +282,8 @@ void Project::deleteDirIfExists_(const std::string& directory) const {
 
     // Deletes if exists.
     if (checkExistance_(directory)) {
-        std::string command = "rm -r ";
-        command += directory;
+        std::string command = "rm -r -- ";
+        command += quote_(directory);
         if (system(command.c_str())) {
             std::cout << std::endl << "WARNING @ Project: ";
             std::cout << "System command failed to execute " << command
@@ -343,7 +359,7 @@ void Project::exec(const std::string arguments) const {
     if (!canExecute()) {
         throw std::ios_base::failure("Can not execute " + *this);
     }
-    std::string cmd = getFilename() + " " + arguments;
+    std::string cmd = quote_(getFilename()) + " " + arguments;
     system(cmd.c_str());
 }
 
diff --git a/src/core/filesystem/Project.h b/src/core/filesystem/Project.h
index a2eedf8..1a82f3c 100755
--- a/src/core/filesystem/Project.h
+++ b/src/core/filesystem/Project.h
@@ -91,6 +91,7 @@ protected:
     void openFile_(const std::string& fileName,
                    std::ofstream& file,
                    const bool& = true) const;
+    std::string quote_(const std::string& name) const;
     std::string removeExtension_(const std::string& filename) const;
     void deleteDirIfExists_(const std::string& directory) const;
     bool checkExistance_(const std::string& fn) const;
-- 
2.43.0


From cb96b9407ba01f9699a830b7970134b8453673e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 099/126] fix: the description of a parser can be set

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1b1177d..32e538c 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -47,7 +47,7 @@ Parser& Parser::usage(const std::string& usage) {
 }
 
 Parser& Parser::description(const std::string& desc) {
-    description(desc);
+    Group::description(desc);
     return *this;
 }
 
-- 
2.43.0


From 3a2f34568db38d4798e2c3ef516afaa526f2abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 100/126] fix: a long option given with its value is recognised

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 32e538c..6930fd7 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -222,7 +222,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         } else if (getArgType_(*it) == ArgType::LongOpt) {
             std::size_t posEq = it->find("=");
             if (posEq != std::string::npos) {
-                arg.first  = it->substr(2, posEq);
+                arg.first  = it->substr(2, posEq - 2);
                 arg.second.clear();
                 if (!it->substr(posEq+1).empty()) {
                     arg.second.push_back(it->substr(posEq+1));
-- 
2.43.0


From 8f635b3705a0dfe170e686069f9e4edb053fcd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 101/126] fix: options that are not declared are returned as
 they were given

---
 src/core/argument/Parser.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 6930fd7..42b203b 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -199,7 +199,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
                         }
                     }
                     unresolvedOptions.back().push_back(
-                        std::string(1,prefixChars_[0]) +
+                        std::string(1,(*it)[0]) +
                         it->substr(posPrev, posNext - posPrev));
                     --posNext;
                 } else {
@@ -244,13 +244,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
             if (!ambiguous.empty()) {
                 options.back().push_back(arg);
             } else {
-                unresolvedOptions.back().push_back(
-                    std::string(2,prefixChars_[0]) + arg.first);
-                for (std::list<std::string>::const_iterator
-                     it  = arg.second.begin();
-                     it != arg.second.end(); ++it) {
-                    unresolvedOptions.back().push_back(*it);
-                }
+                unresolvedOptions.back().push_back(*it);
             }
         }
         for (++it; it != sep; ++it) {
-- 
2.43.0


From c654a9a21697ebc3289b6f93ac879b6d80e6c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 102/126] fix: values that no position takes are returned or
 refused

---
 src/core/argument/Parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 42b203b..d24006f 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -355,16 +355,16 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
                           unresolvedOptions[i].begin(),
                           unresolvedOptions[i].end());
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        if (!rem[i].empty()) {
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        if (!positions[i].empty()) {
             res.second.push_back("--");
             break;
         }
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        input_.insert(input_.end(),
-                      rem[i].begin(),
-                      rem[i].end());
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        res.second.insert(res.second.end(),
+                          positions[i].begin(),
+                          positions[i].end());
     }
     try {
         parsePostprocess(res.first);
-- 
2.43.0


From 5985f2fe52d0bd6ccb504bf5846ce4c149bf05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 103/126] fix: a parser can parse more than once

---
 src/core/argument/Group.cpp     | 8 ++++----
 src/core/argument/GroupBase.cpp | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index e38195c..a19db4a 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -103,12 +103,12 @@ MEGroup& Group::addMutuallyExclusiveGroup() {
 }
 
 void Group::parsePreprocess(Object& out) {
-    out.setObject();
+    GroupBase::parsePreprocess(out);
+    lastPosParsed_ = 0;
     for (std::size_t i = 0; i < child_.size(); i++) {
+        Object aux;
+        child_[i]->parsePreprocess(aux);
         if (!child_[i]->isMutuallyExclusive()) {
-            Object aux;
-            aux.setObject();
-            child_[i]->parsePreprocess(aux);
             out.addMember(child_[i]->getName(), std::move(aux));
         }
     }
diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index a88d337..8f66db4 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -151,6 +151,11 @@ std::vector<std::string> GroupBase::possibleOptions(const std::string& id,
 
 void GroupBase::parsePreprocess(Object& out) {
     out.setObject();
+    lastPosParsed_ = 0;
+    for (std::map<std::string, bool>::iterator
+         it = optionParsed_.begin(); it != optionParsed_.end(); ++it) {
+        it->second = false;
+    }
 }
 
 void GroupBase::parsePosition(Object& out,
-- 
2.43.0


From 4696a4f75ff4db9a84cd67f8d7f84da2f231b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 104/126] fix: a position that was given is not required again
 nor set to its default

---
 src/core/argument/GroupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 8f66db4..ff87955 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -201,7 +201,7 @@ void GroupBase::parsePostprocess(Object& out) {
             throw Error::Group::Required(argsAll);
         }
     } else {
-        for (std::size_t i = 0; i < positions_.size(); i++) {
+        for (std::size_t i = lastPosParsed_; i < positions_.size(); i++) {
             std::string optName = positions_[i]->getName();
             Object aux;
             positions_[i]->notParsed(aux);
-- 
2.43.0


From 212f9b58ce00744218eb3394ffa55c56c24e08dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 105/126] fix: a refused argument declaration leaves the others
 as they were

---
 src/core/argument/GroupBase.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index ff87955..1a0db96 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -250,18 +250,21 @@ OptionBase& GroupBase::addOption(OptionBase* arg) {
 }
 
 void GroupBase::addPositionProcess(GroupBase* child, PositionBase* pos) {
+    bool insertedName = false;
     try {
         if (child == nullptr) {
             insertName(pos->getName());
+            insertedName = true;
             positions_.push_back(pos);
         } else if (child->isMutuallyExclusive()) {
             insertName(pos->getName());
+            insertedName = true;
         }
         if (parent_ != nullptr) {
             parent_->addPositionProcess(this, pos);
         }
     } catch (...) {
-        if (names_.count(pos->getName()) != 0) {
+        if (insertedName) {
             names_.erase(pos->getName());
         }
         if ((child == nullptr) && !positions_.empty()) {
@@ -280,15 +283,21 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
+    bool insertedName = false;
+    bool insertedShort = false;
+    bool insertedLong = false;
     try {
         if (opt->hasShortIdentifier()) {
             insertShortOpt(opt->getShortIdentifier(), name);
+            insertedShort = true;
         }
         if (opt->hasLongIdentifier()) {
             insertLongOpt(opt->getLongIdentifier(), name);
+            insertedLong = true;
         }
         if (child == nullptr) {
             insertName(opt->getName());
+            insertedName = true;
             if (optionName_.count(name) == 0) {
                 options_.push_back(opt);
                 optionName_[name] = opt;
@@ -298,20 +307,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
             }
         } else if (child->isMutuallyExclusive()) {
             insertName(opt->getName());
+            insertedName = true;
         }
         if (parent_ != nullptr) {
             parent_->addOptionProcess(this, opt);
         }
     } catch (...) {
-        if (names_.count(opt->getName()) != 0) {
+        if (insertedName) {
             names_.erase(opt->getName());
         }
-        if (opt->hasShortIdentifier() &&
-            (shortOpts_.count(opt->getShortIdentifier()))) {
+        if (insertedShort) {
             shortOpts_.erase(opt->getShortIdentifier());
         }
-        if (opt->hasLongIdentifier() &&
-            (longOpts_.count(opt->getLongIdentifier()))) {
+        if (insertedLong) {
             longOpts_.erase(opt->getLongIdentifier());
         }
         if ((child == nullptr) && !options_.empty()) {
-- 
2.43.0


From 784c46bd2a30a2d89131c6e881aee441b383e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 106/126] fix: the error of a value that is not one of the
 choices has its text

---
 src/core/argument/Value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Value.h b/src/core/argument/Value.h
index 4b58b83..27231aa 100755
--- a/src/core/argument/Value.h
+++ b/src/core/argument/Value.h
@@ -67,6 +67,7 @@ public:
             }
         }
         aux << ")";
+        str_ = aux.str();
     }
     virtual ~NotChoices() throw() {}
 
-- 
2.43.0


From 1b3f8b139ae44f15de41ac10c8732d6b020df752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 107/126] fix: a multiple switch can be copied

---
 src/core/argument/MultiSwitch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/MultiSwitch.cpp b/src/core/argument/MultiSwitch.cpp
index 02653e2..1d36257 100755
--- a/src/core/argument/MultiSwitch.cpp
+++ b/src/core/argument/MultiSwitch.cpp
@@ -58,7 +58,7 @@ MultiSwitch::MultiSwitch(const std::string& name,
 
 MultiSwitch::MultiSwitch(const MultiSwitch& rhs)
 :   Argument(rhs),
-    SwitchBase(rhs) {
+    OptionBase(rhs) {
     hasDefault_ = rhs.hasDefault_;
     default_    = rhs.default_;
 }
-- 
2.43.0


From d180cc777cdd02f94ca0af909c2c8bf3198b1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 108/126] fix: the help text has the program name, the defaults
 and the choices filled in

---
 src/core/argument/Formatter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d9f1009..36aa616 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -228,6 +228,7 @@ std::string Formatter::replaceChoices_(
         res += aux.substr(0, aux.find(CHOICES)) + choicesStr;
         aux  = aux.substr(aux.find(CHOICES) + CHOICES.size());
     }
+    res += aux;
     return res;
 }
 
@@ -359,10 +360,10 @@ void Formatter::printArg_(const std::string& arg,
         } else {
             std::cout << std::string(tab-arg.size(),' ');
         }
-        replaceProg_(help);
-        replaceDefault_(help, def);
-        replaceChoices_(help, choices);
-        printParagraph_(help);
+        std::string text = replaceProg_(help);
+        text = replaceDefault_(text, def);
+        text = replaceChoices_(text, choices);
+        printParagraph_(text);
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From b8454249dbb1dbcb9f8eb10ef91224e20e1e3734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 109/126] fix: continue a wrapped line of the help until it is
 full

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index 36aa616..d79df4a 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -247,7 +247,7 @@ void Formatter::printParagraph_(const std::string& str,
         }
         if (newPos > max && !first) {
             std::cout << std::endl << std::string(min, ' ') << word;
-            pos = newPos;
+            pos = min + word.size();
         } else {
             if (!first) {
                 std::cout << " ";
-- 
2.43.0


From 7d1d2ee371d9024de1887d1094af0da3b777b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 110/126] fix: keep the help of an argument in its column

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d79df4a..11bd4e2 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -363,7 +363,7 @@ void Formatter::printArg_(const std::string& arg,
         std::string text = replaceProg_(help);
         text = replaceDefault_(text, def);
         text = replaceChoices_(text, choices);
-        printParagraph_(text);
+        printParagraph_(text, tab, tab);
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From 96a6af70216a4fbfbcb43f200b1508e342502c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 111/126] fix: take the console size of the help from its
 output

---
 src/core/argument/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index 11bd4e2..31cd108 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -276,8 +276,9 @@ std::size_t Formatter::getConsoleSize_() {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
-    size = w.ws_col;
+    if ((ioctl(fileno(stdout), TIOCGWINSZ, &w) == 0) && (w.ws_col != 0)) {
+        size = w.ws_col;
+    }
 #endif
     return size;
 }
-- 
2.43.0


From 1baa63203447aba441b9df1f4b9453a74a75f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 112/126] fix: print options in the help with the prefix they
 are given with

---
 src/core/argument/Formatter.cpp | 9 +++++----
 src/core/argument/Formatter.h   | 4 ++--
 src/core/argument/Parser.h      | 1 +
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index 31cd108..9de5dab 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -77,7 +77,7 @@ void Formatter::printHelp() {
     }
 }
 
-std::string Formatter::generateUsageArgs_(const GroupBase& group) {
+std::string Formatter::generateUsageArgs_(const GroupBase& group) const {
     std::string res;
     for (std::size_t i = 0; i < group.numPositions(); i++) {
         if (!res.empty()) {
@@ -129,13 +129,14 @@ std::string Formatter::generatePosition_(const PositionBase& arg) {
     return res;
 }
 
-std::string Formatter::generateOption_(const OptionBase& arg, bool req) {
+std::string Formatter::generateOption_(const OptionBase& arg, bool req) const {
     std::string res;
     std::string id;
+    const std::string prefix = parser_->getPrefixChars().substr(0, 1);
     if (arg.hasShortIdentifier()) {
-        id = std::string("-" ) + std::string(1,arg.getShortIdentifier());
+        id = prefix + std::string(1,arg.getShortIdentifier());
     } else {
-        id = std::string("--") + arg.getLongIdentifier();
+        id = prefix + prefix + arg.getLongIdentifier();
     }
     res += id;
     if (dynamic_cast<const SwitchBase*>(&arg) != nullptr) {
diff --git a/src/core/argument/Formatter.h b/src/core/argument/Formatter.h
index 24512ce..0f0051e 100755
--- a/src/core/argument/Formatter.h
+++ b/src/core/argument/Formatter.h
@@ -47,9 +47,9 @@ public:
 private:
     const Parser* parser_;
 
-    static std::string generateUsageArgs_(const GroupBase&);
+    std::string        generateUsageArgs_(const GroupBase&) const;
     static std::string generatePosition_ (const PositionBase&);
-    static std::string generateOption_   (const OptionBase&, bool = false);
+    std::string        generateOption_   (const OptionBase&, bool = false) const;
     static std::string generateMetavar_  (const ValueBase&);
 
     std::string        replaceProg_   (const std::string&) const;
diff --git a/src/core/argument/Parser.h b/src/core/argument/Parser.h
index 280870e..b7b15a7 100755
--- a/src/core/argument/Parser.h
+++ b/src/core/argument/Parser.h
@@ -46,6 +46,7 @@ public:
     const std::string& getProg  () const { return prog_;   }
     const std::string& getUsage () const { return usage_;  }
     const std::string& getEpilog() const { return epilog_; }
+    const std::string& getPrefixChars() const { return prefixChars_; }
 
     Object parse();
     Object parse(const int& argc, const char** argv);
-- 
2.43.0


From 94d2cd567aeac3830f9b947bc899237a1c896005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 113/126] fix: take the console size of the progress from its
 output

---
 src/core/util/ProgressBar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index bd84d84..31ced5d 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -238,8 +238,9 @@ std::size_t ProgressBar::getSize_() const {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
-    size = w.ws_col;
+    if (ioctl(fileno(stdout), TIOCGWINSZ, &w) == 0) {
+        size = w.ws_col;
+    }
 #endif
     return size;
 }
-- 
2.43.0


From 521c7c454b5f23eed6eefcf55d17d602e060bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 114/126] fix: show the size of a progress beyond the giga

---
 src/core/util/ProgressBar.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index 31ced5d..4701c2f 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -266,6 +266,12 @@ void ProgressBar::printSize_(const std::size_t size) const {
     } else if (size < 100000000000000UL) {
         print = size/1000000000UL;
         unit  = "G";
+    } else if (size < 100000000000000000UL) {
+        print = size/1000000000000UL;
+        unit  = "T";
+    } else {
+        print = size/1000000000000000UL;
+        unit  = "P";
     }
     std::cout << std::right << std::setw(5) << std::setfill(' ') << print;
     std::cout << unit;
-- 
2.43.0


From 4f25ec692abb9265612edb0c2d46da221ec66dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 115/126] fix: restore the padding of the output after showing
 a time

---
 src/core/util/ProgressBar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index 4701c2f..42c472d 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -133,7 +133,7 @@ void ProgressBar::printLine_() const {
     if (name.size() > sizeName) {
         name = name.substr(0, sizeName-3) + "...";
     }
-    std::cout << std::left << std::setw(sizeName) << name;
+    std::cout << std::left << std::setw(sizeName) << name << std::right;
     pos += sizeName;
     if (pos + sizeSpaces >= sizeCon) {
         return;
@@ -181,7 +181,7 @@ void ProgressBar::printLine_() const {
                       << minutes;
             std::cout << ":";
             std::cout << std::right << std::setw(2) << std::setfill('0')
-                      << seconds;
+                      << seconds << std::setfill(' ');
         }
     }
     pos += sizeTime;
-- 
2.43.0


From 15b85a261c20b2b8f58f740f40303fcde5fb0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 116/126] fix: keep a progress without bar in its line

---
 src/core/util/ProgressBar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index 42c472d..bd31c1f 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -191,7 +191,7 @@ void ProgressBar::printLine_() const {
     std::cout << " ";
     pos++;
     if (sizeBar < 3) {
-        printSpaces_(3);
+        printSpaces_(sizeBar);
     } else {
         std::cout << "[";
         std::size_t sizeBarInt = sizeBar - 2;
-- 
2.43.0


From d1fe2cec19e65a8e694a807ca4f27cc45c342227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 117/126] fix: coordinates are exported to VTK with the
 precision they are declared with

---
 src/exporter/vtk/Exporter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 716f043..2880890 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -21,6 +21,7 @@
 
 #include "Exporter.h"
 
+#include <limits>
 #include <sstream>
 
 #include "geometry/mesh/Unstructured.h"
@@ -243,6 +244,7 @@ void Exporter::writePoints_(std::ofstream &outFile,
             << "format=\"ascii\""
             << ">" << std::endl;
     outFile << "         ";
+    outFile.precision(std::numeric_limits<float>::max_digits10);
     for (std::size_t i = 0; i < pos.size(); i++) {
         outFile << " " << pos[i](Math::Constants::x)
                 << " " << pos[i](Math::Constants::y)
-- 
2.43.0


From ca1862b8686197e421e240f05bfd96bc6d5d22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 118/126] fix: coordinates are exported to GiD text files with
 the precision of binary ones

---
 external/gidpost/gidpostInt.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/external/gidpost/gidpostInt.c b/external/gidpost/gidpostInt.c
index ddc53c9..ba71c8a 100755
--- a/external/gidpost/gidpostInt.c
+++ b/external/gidpost/gidpostInt.c
@@ -461,7 +461,7 @@ int CPostAscii_WriteDouble(CPostFile* this, double x, int op)
   assert(this);
   assert(op!=0);
   
-  fprintf(this->m_FILE, " %g", x);
+  fprintf(this->m_FILE, " %.9g", x);
   if (op==2) {
     fprintf(this->m_FILE, "\n");
   }
@@ -481,7 +481,7 @@ int CPostAscii_WriteValuesVA(CPostFile* this, int id, int num_comp, va_list ap)
     fprintf(this->m_FILE, "%d", id);
   for (i = 0; i < num_comp; i++) {
     value = va_arg(ap, double);
-    fprintf(this->m_FILE, " %g", value);
+    fprintf(this->m_FILE, " %.9g", value);
   }
   fprintf(this->m_FILE, "\n");
   this->m_LastID = id;
@@ -499,7 +499,7 @@ int CPostAscii_WriteValues(CPostFile* this, int id, int n, double *buffer)
   if (this->m_LastID != id) /* Hey this is only useful when writting values for gauss points in elements !!!! */
     fprintf(this->m_FILE, "%d", id);
   for ( i = 0; i < n; i++ )
-    fprintf(this->m_FILE, " %g", buffer[i]);
+    fprintf(this->m_FILE, " %.9g", buffer[i]);
   fprintf(this->m_FILE, "\n");
   this->m_LastID = id;
   return 0;
@@ -510,7 +510,7 @@ int CPostAscii_Write2D(CPostFile *this, double x, double y )
 {
   char line[256];
 
-  sprintf(line, "%g %g", x, y);
+  sprintf(line, "%.9g %.9g", x, y);
   return CPostAscii_WriteString(this, line);
 }
 
@@ -519,7 +519,7 @@ int CPostAscii_Write3D(CPostFile *this, double x, double y, double z )
 {
   char line[256];
 
-  sprintf(line, "%g %g %g", x, y, z);
+  sprintf(line, "%.9g %.9g %.9g", x, y, z);
   return CPostAscii_WriteString(this, line);
 }
 
@@ -687,7 +687,7 @@ int CPostAsciiZ_WriteDouble(CPostFile* this, double x, int op)
   assert(this);
   assert(op!=0);
 
-  gzprintf(this->m_FILE, " %g", x);
+  gzprintf(this->m_FILE, " %.9g", x);
   if (op==2) {
     gzprintf(this->m_FILE, "\n");
   }
@@ -707,7 +707,7 @@ int CPostAsciiZ_WriteValuesVA(CPostFile* this, int id, int num_comp, va_list ap)
     gzprintf(this->m_FILE, "%d", id);
   for (i = 0; i < num_comp; i++) {
     value = va_arg(ap, double);
-    gzprintf(this->m_FILE, " %g", value);
+    gzprintf(this->m_FILE, " %.9g", value);
   }
   gzprintf(this->m_FILE, "\n");
   this->m_LastID = id;
@@ -725,7 +725,7 @@ int CPostAsciiZ_WriteValues(CPostFile* this, int id, int n, double * buffer)
   if (this->m_LastID != id) /* Hey this is only useful when writting values for gauss points in elements !!!! */
     gzprintf(this->m_FILE, "%d", id);
   for ( i = 0; i < n; i++ )
-    gzprintf(this->m_FILE, " %g", buffer[i]);
+    gzprintf(this->m_FILE, " %.9g", buffer[i]);
   gzprintf(this->m_FILE, "\n");
   this->m_LastID = id;
 
@@ -737,7 +737,7 @@ int CPostAsciiZ_Write2D(CPostFile *this, double x, double y )
 {
   char line[256];
 
-  sprintf(line, "%g %g", x, y);
+  sprintf(line, "%.9g %.9g", x, y);
   return CPostAsciiZ_WriteString(this, line);
 }
 
@@ -746,7 +746,7 @@ int CPostAsciiZ_Write3D(CPostFile *this, double x, double y, double z )
 {
   char line[256];
 
-  sprintf(line, "%g %g %g", x, y, z);
+  sprintf(line, "%.9g %.9g %.9g", x, y, z);
   return CPostAsciiZ_WriteString(this, line);
 }
 
-- 
2.43.0


From b8612373248ad1eedeb94bec3289a017b397b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 119/126] fix: the solver arguments keep all the digits of
 their values

---
 src/solver/Options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index cb0eec1..115fe22 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -21,6 +21,9 @@
 
 #include "Options.h"
 
+#include <limits>
+#include <sstream>
+
 namespace SEMBA {
 namespace Solver {
 
@@ -198,6 +201,7 @@ void Options::setResumeSimulation(bool resumeSimulation) {
 std::string Options::toArgsStr() const {
     Options defaultOptions;
     std::stringstream ss;
+    ss.precision(std::numeric_limits<Math::Real>::digits10);
     if (getCFL() != defaultOptions.getCFL()) {
         ss << " -cfl " << getCFL();
     }
-- 
2.43.0


From 07505e71147e5cb5865308d4b68cbbf07ae022ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 120/126] fix: the solver arguments have the number of time
 steps that was set

---
 src/solver/Options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index 115fe22..44bde93 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -206,7 +206,9 @@ std::string Options::toArgsStr() const {
         ss << " -cfl " << getCFL();
     }
     if (isResumeSimulation()) {
-        if (getTimeStep() != 0.0) {
+        if (endingCondition_ == EndingCondition::numberOfTimeSteps) {
+            ss << " -r " << getNumberOfTimeSteps();
+        } else if (getTimeStep() != 0.0) {
             ss << " -r " << (std::size_t)floor(getFinalTime() / getTimeStep());
         } else {
             ss << " -r " << (std::size_t)floor(getFinalTime());
-- 
2.43.0


From 5335a48b76425ccefb4a5090ae79419b1d90ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 121/126] fix: the progress of a job of any size is shown
 within its limits

---
 src/core/util/ProgressBar.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index bd31c1f..0993587 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -97,6 +97,10 @@ void ProgressBar::end() {
 
 void ProgressBar::printLine_() const {
     std::size_t pos = 0;
+    // Big jobs are scaled down to be multiplied.
+    const std::size_t scale = size_/1000000000UL + 1;
+    const std::size_t step  = step_/scale;
+    const std::size_t size  = size_/scale;
     std::size_t sizeCon    = getSize_();
     std::size_t sizePrev   = prev_;
     std::size_t sizeName   = std::max(std::min(sizeCon/5,(size_t)20), (size_t)10);
@@ -197,7 +201,7 @@ void ProgressBar::printLine_() const {
         std::size_t sizeBarInt = sizeBar - 2;
         std::size_t toFill = sizeBarInt;
         if (size_ != 0) {
-            toFill = (step_*sizeBarInt)/size_;
+            toFill = (step*sizeBarInt)/size;
         }
         for (std::size_t i = 0; i < sizeBarInt; i++) {
             if ((i <= toFill) & ((step_ != 0) || (size_ == 0))) {
@@ -217,7 +221,7 @@ void ProgressBar::printLine_() const {
         std::cout << std::right << std::setw(3) << std::setfill(' ') << 100;
     } else {
         std::cout << std::right << std::setw(3) << std::setfill(' ')
-                  << (step_ * 100) / size_;
+                  << (step * 100) / size;
     }
     std::cout << "%";
 }
-- 
2.43.0


From 5d1c263f15668941825d432a5e06b14f4433cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 122/126] fix: the excitation written to a file reaches the
 final time

---
 src/core/source/magnitude/Numerical.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index ac1e1f0..78e0573 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -51,7 +51,9 @@ Numerical::Numerical(const FileSystem::Project& file,
     std::size_t nSteps;
     Math::Real step = timeStep;
     if (timeStep != 0.0) {
-        nSteps = (std::size_t)std::abs(finalTime / timeStep);
+        // A whole number of steps can be a bit less when divided.
+        nSteps = (std::size_t)(std::abs(finalTime / timeStep) *
+            (1.0 + 10.0 * std::numeric_limits<Math::Real>::epsilon()));
     } else {
         nSteps = defaultNumberOfSteps;
         step = finalTime / nSteps;
-- 
2.43.0


From 7188cdb48474a958f5a607aa1bb9ee91b1511ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 123/126] fix: grids without finite positions and steps without
 a number of cells are rejected

---
 src/parser/json/Parser.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 6f2ef2b..83e1c9b 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -21,6 +21,9 @@
 
 #include "Parser.h"
 
+#include <cmath>
+#include <limits>
+
 #include "math/function/Gaussian.h"
 #include "math/function/BandLimited.h"
 #include "geometry/element/Line2.h"
@@ -556,6 +559,20 @@ static void checkGrid(const Geometry::Grid3& grid, std::size_t numPositions) {
         if (grid.getPos(d).size() < numPositions) {
             throw std::logic_error("Grid has no cells in some direction.");
         }
+        for (std::size_t i = 0; i < grid.getPos(d).size(); i++) {
+            if (!std::isfinite(grid.getPos(d)[i])) {
+                throw std::logic_error("Grid positions are not finite.");
+            }
+        }
+    }
+}
+
+static void checkStepSize(Math::Real step, Math::Real length, bool fitted) {
+    // A direction without step has a single cell, unless it has to be fitted.
+    bool isSingleCell = step == 0.0 && (!fitted || length == 0.0);
+    if (!isSingleCell && !(step > 0.0 &&
+            length / step < std::numeric_limits<int>::max())) {
+        throw std::logic_error("Step size is not valid for the box.");
     }
 }
 
@@ -581,9 +598,16 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
             Geometry::BoxR3 box = strToBox(g.at("layerBox").get<std::string>());
             Math::CVecR3 stepSize = 
                 strToCVecR3(g.at("stepSize").get<std::string>());
+            for (std::size_t i = 0; i < 3; i++) {
+                checkStepSize(stepSize[i], box.getLength()[i],
+                              g.at("fitSizeToBox").get<bool>());
+            }
             if (g.at("fitSizeToBox").get<bool>()) {
                 for (std::size_t i = 0; i < 3; i++) {
-					std::size_t n = std::round(box.getLength()[i] / stepSize[i]);
+					std::size_t n = 1;
+					if (box.getLength()[i] != 0.0) {
+						n = std::round(box.getLength()[i] / stepSize[i]);
+					}
 					if (n == 0) {
 						n = 1;
 					}
-- 
2.43.0


From 43920b90d3b18d9ac4f855cec4fbd19b327438f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 124/126] fix: showing the settings leaves the precision of the
 output as it was

---
 src/core/argument/Object.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index d1f61ac..836a06c 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -322,13 +322,12 @@ public:
         case Object::Type::String:
             if (isNumber() && !asString) {
                 if (isInt()) {
-                    std::cout.precision(
-                        std::numeric_limits<long long>::max_digits10);
                     std::cout << getInt();
                 } else {
-                    std::cout.precision(
+                    const std::streamsize precision = std::cout.precision(
                         std::numeric_limits<long double>::max_digits10);
                     std::cout << getReal();
+                    std::cout.precision(precision);
                 }
             } else {
                 const std::list<std::string>& val = getGenericString();
-- 
2.43.0


From bbde4029b44fbbf65b8bdf802d0531b2ccb35506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 125/126] fix: normalizing a null vector of integers does not
 divide by zero

---
 src/core/math/vector/Cartesian.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/math/vector/Cartesian.hpp b/src/core/math/vector/Cartesian.hpp
index c476d78..229ed18 100755
--- a/src/core/math/vector/Cartesian.hpp
+++ b/src/core/math/vector/Cartesian.hpp
@@ -23,6 +23,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <limits>
 #include <cstdlib>
 #include <limits>
 #include <type_traits>
@@ -452,6 +453,9 @@ Cartesian<T,D>& Cartesian<T,D>::abs() {
 template <class T, std::size_t D>
 Cartesian<T,D>& Cartesian<T,D>::normalize() {
     Real nor = norm();
+    if (std::numeric_limits<T>::is_integer && (nor < 1.0)) {
+        return *this; // A null vector has no direction.
+    }
     for (std::size_t i = 0; i < D; i++) {
         val[i] /= (T)nor;
     }
-- 
2.43.0


From 682deb0467730d5b29a6bc91b8d7ef181c6f590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 126/126] fix: checking the positions of a grid takes time
 linear in their number

---
 src/parser/json/Parser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 83e1c9b..e14398c 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -556,11 +556,12 @@ PhysicalModel::Surface::Multilayer* Parser::readMultilayerSurface(
 
 static void checkGrid(const Geometry::Grid3& grid, std::size_t numPositions) {
     for (std::size_t d = 0; d < 3; d++) {
-        if (grid.getPos(d).size() < numPositions) {
+        const std::vector<Math::Real> pos = grid.getPos(d);
+        if (pos.size() < numPositions) {
             throw std::logic_error("Grid has no cells in some direction.");
         }
-        for (std::size_t i = 0; i < grid.getPos(d).size(); i++) {
-            if (!std::isfinite(grid.getPos(d)[i])) {
+        for (std::size_t i = 0; i < pos.size(); i++) {
+            if (!std::isfinite(pos[i])) {
                 throw std::logic_error("Grid positions are not finite.");
             }
         }
-- 
2.43.0


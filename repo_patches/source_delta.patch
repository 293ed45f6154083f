From 461cc35f4b78159b9546c58a50a03cfeeef5da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 001/116] fix: refuse incompatible operands in wave function
 arithmetic

Scalar products, sums and element-wise products of wave functions that differ
in size or number of states read beyond the shorter operand; assigning a
non-grid function to a grid function dereferenced NULL.
---
 src/qdlib/WFGridCartesian.cpp | 10 +++++++++-
 src/qdlib/WFLevel.cpp         |  2 +-
 src/qdlib/WFMultistate.cpp    |  3 +++
 src/qdlib/WaveFunction.cpp    |  4 ++--
 src/qdlib/WaveFunction.h      | 10 ++++++----
 5 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/WFGridCartesian.cpp b/src/qdlib/WFGridCartesian.cpp
index ddd6d37..9ead98d 100644
--- a/src/qdlib/WFGridCartesian.cpp
+++ b/src/qdlib/WFGridCartesian.cpp
@@ -53,14 +53,22 @@ namespace QDLIB {
 
    WaveFunction * WFGridCartesian::operator =(WaveFunction * Psi)
    {
+      WFGridSystem *psi = dynamic_cast<WFGridSystem*> (Psi);
+
+      if (psi == NULL)
+         throw( EIncompatible("WFGridCartesian can't copy from ", Psi->Name()) );
+
       /* WFGridSystem already knows what to copy */
-      *((WFGridSystem*) this) = dynamic_cast<WFGridSystem*> (Psi);
+      *((WFGridSystem*) this) = psi;
       
       return this;
    }
 
    dcomplex WFGridCartesian::operator *(WaveFunction *Psi)
    {
+      if (size() != Psi->size() || strides() != Psi->strides())
+         throw( EIncompatible("WFs differ in size") );
+
       dcomplex c(0,0);
       dcomplex cglob(0,0);
       
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fab87a5..10a9114 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -73,7 +73,7 @@ namespace QDLIB {
    dcomplex WFLevel::operator*(WaveFunction *Psi)
    {
       
-      if (size() != Psi->size()) throw(EIncompatible("WFs differ in size"));
+      if (size() != Psi->size() || strides() != Psi->strides()) throw(EIncompatible("WFs differ in size"));
       
       /** \todo make mpi-save */
       int s;
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1831c5c..e3b031c 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -209,6 +209,9 @@ namespace QDLIB
       if (psi == NULL)
          throw( EIncompatible("Not a Multistate wave function", Psi->Name()) ) ;
       
+      if (_nstates != psi->_nstates)
+         throw( EIncompatible("Multistate WFs differ in number of states") ) ;
+
       for(lint i=MPIrank(); i < _nstates; i+=MPIsize()){
          c += *(_states[i]) * psi->_states[i];
       }
diff --git a/src/qdlib/WaveFunction.cpp b/src/qdlib/WaveFunction.cpp
index 2e944de..6b249f5 100644
--- a/src/qdlib/WaveFunction.cpp
+++ b/src/qdlib/WaveFunction.cpp
@@ -12,7 +12,7 @@ namespace QDLIB {
          
       wf = PsiA->NewInstance();
                
-      if (PsiB->size() != PsiA->size()) throw ( EParamProblem("WFs differ in size") );
+      if (PsiB->size() != PsiA->size() || PsiB->strides() != PsiA->strides()) throw ( EParamProblem("WFs differ in size") );
                
       MultElementsCopy((cVec*) wf, (cVec*) PsiA, (cVec*) PsiB);
       return wf;
@@ -24,7 +24,7 @@ namespace QDLIB {
          
       wf = PsiA->NewInstance();
                
-      if (PsiB->size() != PsiA->size()) throw ( EParamProblem("WFs differ in size") );
+      if (PsiB->size() != PsiA->size() || PsiB->strides() != PsiA->strides()) throw ( EParamProblem("WFs differ in size") );
                
        MultElementsConjugate((cVec*) wf, (cVec*) PsiA, (cVec*) PsiB, (double) 1.0);
       return wf;
diff --git a/src/qdlib/WaveFunction.h b/src/qdlib/WaveFunction.h
index 706af0b..12bba26 100644
--- a/src/qdlib/WaveFunction.h
+++ b/src/qdlib/WaveFunction.h
@@ -232,6 +232,8 @@ namespace QDLIB {
          {
             WaveFunction *wf;
       
+            if (cVec::size() != Psi->size() || strides() != Psi->strides()) throw ( EParamProblem("WFs differ in size") );
+
             wf = this->NewInstance();
             
             AddElementsEq((cVec*) wf, (cVec*) this, (cVec*) Psi);
@@ -246,7 +248,7 @@ namespace QDLIB {
          /** Sum */
          WaveFunction* operator+=(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            if (cVec::size() != Psi->size() || strides() != Psi->strides()) throw ( EParamProblem("WFs differ in size") );
             
             AddElements((cVec*) this, (cVec*) Psi);
             return this;
@@ -256,7 +258,7 @@ namespace QDLIB {
          /** Difference */
          WaveFunction* operator-=(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            if (cVec::size() != Psi->size() || strides() != Psi->strides()) throw ( EParamProblem("WFs differ in size") );
             
             AddElements((cVec*) this, (cVec*) Psi, -1);
             return this;
@@ -268,7 +270,7 @@ namespace QDLIB {
           */
          void DirectProduct(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            if (cVec::size() != Psi->size() || strides() != Psi->strides()) throw ( EParamProblem("WFs differ in size") );
             
             MultElements((cVec*) this, (cVec*) Psi);
             
@@ -279,7 +281,7 @@ namespace QDLIB {
           */
          void DirectProductConjugate(WaveFunction* Psi)
          {
-            if (cVec::size() != Psi->size()) throw ( EParamProblem("WFs differ in size") );
+            if (cVec::size() != Psi->size() || strides() != Psi->strides()) throw ( EParamProblem("WFs differ in size") );
             MultElementsConjugate((cVec*) this, (cVec*) Psi, (double) 1.0);
             
          }
-- 
2.43.0


From a7789a0492227114a073ff4eeaf0b7f261ab2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 002/116] fix: allocate the complex workspace of the Hermitian
 eigensolver in full

---
 src/linalg/LapackDiag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/LapackDiag.cpp b/src/linalg/LapackDiag.cpp
index df0964c..aec73ad 100644
--- a/src/linalg/LapackDiag.cpp
+++ b/src/linalg/LapackDiag.cpp
@@ -64,10 +64,10 @@ namespace LAPACK {
       char uplo = 'U';
       
       double *ws;
-      Memory::Instance().Align( (void**) &ws, ws_size*sizeof(dcomplex));
+      Memory::Instance().Align( (void**) &ws, ws_size*sizeof(double));
 
       dcomplex *wsC;
-      Memory::Instance().Align((void**) &wsC, ws_size*sizeof(double));
+      Memory::Instance().Align((void**) &wsC, ws_size*sizeof(dcomplex));
 
       ZHEEV_F77(&jobz, &uplo, &size, mat->begin(),  &size,
 	     evals->begin(0) , wsC , &ws_size, ws, &info);
-- 
2.43.0


From d1e6182676a80d845c227983b446c69bfa8a779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 003/116] fix: update the number of lines when a view returns
 to an earlier dimension

---
 src/math/VectorView.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 18c25d8..6226319 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -94,8 +94,14 @@ namespace QDLIB
       
       _adim = dim;
       
+      /* Determine how many times one x_i value is present */
+      _nothers = 1;
+      for(int i=0; i < _ndims; i++)
+      {
+	 if (i != dim) _nothers *= _dims[i];
+      }
+      
       if (_view[dim] == NULL){
-	 _nothers = 1;
 	 int lothers = 1;
 	 
 	 /* Determine how many values in the lower dims are  present */
@@ -105,12 +111,6 @@ namespace QDLIB
 	       lothers *= _dims[i];
 	 }
 	 
-	 /* Determine how many times one x_i value is present */
-	 for(int i=0; i < _ndims; i++)
-	 {
-	    if (i != dim) _nothers *= _dims[i];
-	 }
-	 
 	 /* Reserve space for active dimension*/
 	 _view[dim] = new T**[_dims[dim]];
 	 /* Set the pointer array */
@@ -151,6 +151,7 @@ namespace QDLIB
 	    (*r)[j] += *(_view[_adim][i][j]);
 	 }
       }
+      return r;
    }
    
    /**
-- 
2.43.0


From b7e7885c281a55a1edb9f112dcd9fa7fe22cbd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 004/116] fix: matrix-vector product with non-square matrices

---
 src/math/Matrix.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index 3633b9f..4444d7b 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -310,23 +310,24 @@ namespace QDLIB {
       if (cols != A->size() && !transpose) return;
       if (rows != A->size() && transpose) return;
       
-      if (B->size() != A->size())
-         B->newsize(A->size());
+      lint bsize = transpose ? cols : rows;
+      if (B->size() != bsize)
+         B->newsize(bsize);
       
       T *b = B->begin(0);
       T *a = A->begin(0);
       
       if (transpose && !adjoint){
-	 for(int i=0; i < rows; i++){
+	 for(int i=0; i < cols; i++){
             b[i] = T(0);
-	    for(int j=0; j < cols; j++){
+	    for(int j=0; j < rows; j++){
 	       b[i] += (*M)(j,i) * a[j];
 	    }
 	 }
       } else if (transpose && adjoint){
-         for(int i=0; i < rows; i++){
+         for(int i=0; i < cols; i++){
             b[i] = T(0);
-            for(int j=0; j < cols; j++){
+            for(int j=0; j < rows; j++){
                b[i] += conj((*M)(j,i)) * a[j];
             }
          }         
-- 
2.43.0


From 91cf3ab4d43dc1b91dd80e0a8dc6480ddaacd451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 005/116] fix: negative powers of the imaginary unit

---
 src/math/dcomplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/dcomplex.h b/src/math/dcomplex.h
index 84bc17b..522bbb5 100644
--- a/src/math/dcomplex.h
+++ b/src/math/dcomplex.h
@@ -379,7 +379,7 @@ namespace QDLIB {
    */
   inline dcomplex cpow(Imaginary i, int n)
   {
-     int rem = n % 4;
+     int rem = ((n % 4) + 4) % 4;
 
      switch (rem){
         case 0: return dcomplex(1);
-- 
2.43.0


From 97a7085afe85ad5b5d9f4b76946f2ff78185ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 006/116] fix: transpose of complex matrices

---
 src/math/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index 4444d7b..1e6f378 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -227,8 +227,8 @@ namespace QDLIB {
       for (int i=0; i < _m; i++) {
          for (int j=0; j < i; j++) {
             swap=_col[i][j];
-            _col[i][j] = conj(_col[j][i]);
-            _col[j][i] = conj(swap);
+            _col[i][j] = _col[j][i];
+            _col[j][i] = swap;
          }
       }
    }
-- 
2.43.0


From 96cb19bf4a981bd799ea386a06a06e56c774b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 007/116] fix: keep the data when a single dimension backward
 transform is planned

---
 src/fft/fft.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fft/fft.cpp b/src/fft/fft.cpp
index 41b45b7..a97d608 100644
--- a/src/fft/fft.cpp
+++ b/src/fft/fft.cpp
@@ -165,6 +165,9 @@ namespace QDLIB {
       int lothers = _lothers(dim);  /* points in lower dims */
       int cdim = _ndims - dim - 1; /* reversed dim index (C-order) */
 
+      cVec outbuf(_lothers(_ndims)); /* Save for planning (source of the backward transform) */
+      for (lint i=0; i < outbuf.size(); i++) outbuf[i] = _cout[i];
+
       /* describe 1D-stripes */
       fftw_iodim datadim;
       datadim.n = _rdims[cdim];
@@ -221,6 +224,9 @@ namespace QDLIB {
 
       }
 
+      /* Planning may have destroyed the output buffer */
+      for (lint i=0; i < outbuf.size(); i++) _cout[i] = outbuf[i];
+
       delete[] loopdim;
    }
 
-- 
2.43.0


From 03f251a747fbab203897a058b1f9a0c28dcbf4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 008/116] fix: finite differences along all dimensions of a
 multi-dimensional grid, and grids smaller than the stencil

---
 src/qdlib/HOFD.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qdlib/HOFD.h b/src/qdlib/HOFD.h
index edeedf1..33284e3 100644
--- a/src/qdlib/HOFD.h
+++ b/src/qdlib/HOFD.h
@@ -123,6 +123,15 @@ namespace QDLIB
    template<class T>
    inline void HOFD<T>::Diff(Vector<T>* res, Vector<T>* in, bool acc)
    {
+      if (_grid.Dim() > 1) { /* one dimension after the other */
+         for (int dim=0; dim < _grid.Dim(); dim++)
+            Diff(res, in, dim, acc || dim > 0);
+         return;
+      }
+
+      if (_grid.DimSize(0) < _order)
+         throw(EParamProblem("FD order exceeds the number of grid points", _order));
+
       double h[MAX_DIMS];
       int order2 = _order/2;
 
@@ -187,6 +196,9 @@ namespace QDLIB
    template<class T>
    void HOFD<T>::Diff(Vector<T>* res, Vector<T>* in, int dim, bool acc)
    {
+         if (_grid.DimSize(dim) < _order)
+            throw(EParamProblem("FD order exceeds the number of grid points", _order));
+
          double h = 1./pow(_grid.Dx(dim), _deriv) * _pfac1 * _pfac[dim];
          int order2 = _order/2;
 
-- 
2.43.0


From 2c28bf90c123bafce397f1163f1717052c4a3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 009/116] fix: dimensions without a mass do not take part in
 the kinetic energy

---
 src/qdlib/OGridNablaSq.cpp | 10 +++++-----
 src/qdlib/OGridPML.cpp     |  4 ++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/OGridNablaSq.cpp b/src/qdlib/OGridNablaSq.cpp
index 2a22f95..458fce8 100644
--- a/src/qdlib/OGridNablaSq.cpp
+++ b/src/qdlib/OGridNablaSq.cpp
@@ -44,11 +44,11 @@ namespace QDLIB
 
       dVec masses(vec.size());
       for (int i = 0; i < GridSystem::Dim(); i++) {
-         if (_mass[i] == 0)
-            throw(EParamProblem("Zero mass defined"));
-         if (_mass[i] > 0) eff = true;
-
-         masses[i] = -1./2./_mass[i];
+         if (_mass[i] > 0) {
+            eff = true;
+            masses[i] = -1./2./_mass[i];
+         } else
+            masses[i] = 0; /* not applied in this dimension */
       }
 
       if (!eff)
diff --git a/src/qdlib/OGridPML.cpp b/src/qdlib/OGridPML.cpp
index 73e27f7..50a8628 100644
--- a/src/qdlib/OGridPML.cpp
+++ b/src/qdlib/OGridPML.cpp
@@ -58,6 +58,9 @@ namespace QDLIB
 
       *((GridSystem*) this) = *((GridSystem*) psi);
 
+      if (lint(_mass.size()) != GridSystem::Dim())
+         throw(EIncompatible("OGridPML: Number of masses doesn't match WF"));
+
       Diff::SetGrid(*this);
       Diff::InitParams(_params);
       Diff::_InitKspace();
@@ -115,6 +118,7 @@ namespace QDLIB
 
       *destPsi = 0.0;
       for (int i=0; i < GridSystem::Dim(); i++){
+         if (_mass[i] <= 0) continue; /* not applied in this dimension */
          DnDxn(_buf1, sourcePsi, i);
          _pml[i].ApplyTransform(_buf1, _conj);
          DnDxn(_buf2, _buf1, i, -1./2./_mass[i]);
-- 
2.43.0


From b089c142c9fb93e3b1962faf7be24ff2b60d2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 010/116] fix: absorbing layer map 0, odd monomials and short
 parameter lists

---
 src/qdlib/PML.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/PML.cpp b/src/qdlib/PML.cpp
index 27cce9f..0794d5b 100644
--- a/src/qdlib/PML.cpp
+++ b/src/qdlib/PML.cpp
@@ -41,7 +41,7 @@ namespace QDLIB
       if (pm.isPresent("lmap")){
          vector<int> val;
          pm.GetArray("lmap", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: layer mapping for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -56,7 +56,7 @@ namespace QDLIB
       if (pm.isPresent("gamma")){
          vector<double> val;
          pm.GetArray("gamma", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: gamma for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -68,7 +68,7 @@ namespace QDLIB
       if (pm.isPresent("thick")){
          vector<double> val;
          pm.GetArray("thick", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: thickness for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -84,7 +84,7 @@ namespace QDLIB
       if (pm.isPresent("p")){
          vector<double> val;
          pm.GetArray("p", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: mononomial order for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -97,7 +97,7 @@ namespace QDLIB
       if (pm.isPresent("k")){
          vector<double> val;
          pm.GetArray("k", val);
-         if (val.size() != 1 && dim > val.size())
+         if (val.size() != 1 && dim >= val.size())
             throw (EParamProblem("PML: characteristic k-value order for at least one dim is missing"));
 
          if (val.size() == 1)
@@ -125,7 +125,7 @@ namespace QDLIB
       _f1.newsize(_thick);
       _df1.newsize(_thick);
       for (int i=0; i < _thick; i++){
-         _f1[i] = 1. / (1. + phi * pow( double(i-_thick-1),_p));
+         _f1[i] = 1. / (1. + phi * pow( double(_thick+1-i),_p));
          _df1[i] = -1 / (_f1[i] * _f1[i]) * phi * _p * pow( double(i-_thick-1),_p - 1);
       }
 
@@ -146,6 +146,8 @@ namespace QDLIB
     */
    void PML::ApplyTransform(cVec* wf, bool conj)
    {
+      if (_side == 0) return; /* no layer in this dimension */
+
       _grid.ActiveDim(_dim);
       int lo = _grid.LowOthers();
       int Nx = _grid.DimSize(_dim);
@@ -209,6 +211,8 @@ namespace QDLIB
     */
    void PML::ApplyTransformDiff(cVec* wf)
    {
+      if (_side == 0) return; /* no layer in this dimension */
+
       _grid.ActiveDim(_dim);
       int lo = _grid.LowOthers();
       int Nx = _grid.DimSize(_dim);
@@ -252,6 +256,8 @@ namespace QDLIB
     */
    void PML::ApplyTransformAdd(cVec* dwf, cVec* wf)
    {
+      if (_side == 0) return; /* no layer in this dimension */
+
       _grid.ActiveDim(_dim);
       int lo = _grid.LowOthers();
       int Nx = _grid.DimSize(_dim);
-- 
2.43.0


From cd180c5fd217b0980b7596f5b7f2f4fa12c89b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 011/116] fix: masses per dimension in the finite difference
 operator

---
 src/qdlib/OGridHOFD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index dcaf1c6..9a14078 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -76,6 +76,9 @@ namespace QDLIB {
          if (vec.size() < 1)
             throw(EParamProblem("HOFD operator needs at least one mass defintion"));
 
+         if (lint(vec.size()) < GridSystem::Dim())
+            throw(EIncompatible("OGridHOFD: Number of masses doesn't match WF"));
+
          /* Check if mass definitions make sense */
          bool eff = false;  /* Indicate at least 1 non-zero dim */
 
@@ -84,7 +87,7 @@ namespace QDLIB {
                throw(EParamProblem("Zero mass defined"));
             if (_mass[i] > -1) eff = true;
 
-            factor = -1./ (2 * _mass[i]);
+            factor[i] = -1./ (2 * _mass[i]);
          }
 
          _hofd->SetFactor(factor);
-- 
2.43.0


From 63c73fd7872ac83ce62a415bc7fb0f8c28247969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 012/116] fix: chain rule with constant or absent G-matrix
 elements

---
 src/qdlib/OGridGMat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 750c8be..520353f 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -127,7 +127,7 @@ namespace QDLIB {
          for (int i=0; i < _size; i++){
             _GmatDiff[i] = new dVec[_size];
             for (int j=0; j < _size; j++){
-               if (_Gmat[i][j] != 0  || _Gmat[j][i] != 0 ){
+               if (_src(i,j) == grd && _Gmat[i][j] != NULL){
                   _GmatDiff[i][j].newsize(Psi->size());
                   dx.Diff(& _GmatDiff[i][j],(dVec*)  _Gmat[i][j], i);
                }
@@ -163,7 +163,7 @@ namespace QDLIB {
       for (i = 0; i < n; i++) {
          _wfbuf[i] = NULL;
          _Gmat[i] = new OGridPotential*[n];
-         for (uint j = 0; j <= i; j++) {
+         for (uint j = 0; j < n; j++) {
             _Gmat[i][j] = NULL;
          }
       }
@@ -332,8 +332,8 @@ namespace QDLIB {
          for (lint j = 0; j < _size; j++){
             if ((i == j) | _KinCoup){ /* Kinetic coupling ?*/
 
-               if (_ChainRule){
-                  /* (dxi * Gij) * dxj + Gij * dxij \todo make aware of const. G */
+               if (_ChainRule && _src(i,j) == grd){
+                  /* (dxi * Gij) * dxj + Gij * dxij */
                   MultElementsAdd((cVec*) destPsi, (cVec*) _wfbuf[i],(dVec*) & _GmatDiff[j][i]);
                   if (j <= i){
                      _diff.DnDxn(buf, _wfbuf[i], j, (i==j) ? -.5 : -1.);
-- 
2.43.0


From 634eaa3abf0577b6d3dc1be34c93507ab372dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 013/116] fix: G-matrix without kinetic coupling from grid
 files

---
 src/qdlib/OGridGMat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 520353f..4e99e18 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -208,7 +208,7 @@ namespace QDLIB {
       /* Check what matrix elements are requested */
       for (uint i=0; i < n; i++){
          for (uint j=0; j < n; j++){
-            if (gdefs(i,j) == 'x') /* don't use this matrix element */
+            if (gdefs(i,j) == 'x' || (i != j && !_KinCoup)) /* don't use this matrix element */
                _src(i,j) = none;
             else if (gdefs(i,j) == 'c')
                _src(i,j) = cnst;
-- 
2.43.0


From 9ecff97b09adc65c472c4b74ae47b4832b41a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 014/116] fix: absorber with its edge on the first grid point

---
 src/math/math_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/math_functions.h b/src/math/math_functions.h
index 3fb6b85..9b5d52f 100644
--- a/src/math/math_functions.h
+++ b/src/math/math_functions.h
@@ -43,7 +43,7 @@ namespace QDLIB {
       int size = vec.size();
       
       for (int i=0; i < size; i++){
-         vec[i] = 1 / (1 + pow( center / double(i) , 2 * k) );
+         vec[i] = (double(i) == center) ? 0.5 : 1 / (1 + pow( center / double(i) , 2 * k) );
       }
       
    }
@@ -63,7 +63,7 @@ namespace QDLIB {
       int size = vec.size();
       
       for (int i=0; i < size; i++){
-         vec[i] = 1 / (1 + pow(  double(i) / center, 2 * k) );
+         vec[i] = (double(i) == center) ? 0.5 : 1 / (1 + pow(  double(i) / center, 2 * k) );
       }
       
    }
-- 
2.43.0


From b9b56554dc62aa593b18f0c3fe29ae756b41e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 015/116] fix: left pass of the absorber as a negative
 imaginary potential

---
 src/qdlib/OGobbler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 7abad9c..d445a10 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -56,7 +56,11 @@ namespace QDLIB {
 	    FunctionGenerator<dVec>::BwLowpass(filter, x, _order);
 	
 	    view.ActiveDim(i);
-	    view *= filter;
+
+	    if (_nip)
+	       view += filter;
+	    else
+	       view *= filter;
 	 }
 	 if (_rp[i]){
 	    x = (_rpx[i] - GridSystem::Xmin(i)) / GridSystem::Dx(i);
-- 
2.43.0


From 66e14002aa8b14bdf8e50fb7960e9fce25162297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 016/116] fix: setting the minimum to zero for field coupled
 operators

---
 src/qdlib/OGridPotential.cpp   | 2 +-
 src/qdlib/OHermitianMatrix.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridPotential.cpp b/src/qdlib/OGridPotential.cpp
index 2c1975a..af6440e 100644
--- a/src/qdlib/OGridPotential.cpp
+++ b/src/qdlib/OGridPotential.cpp
@@ -55,7 +55,7 @@ namespace QDLIB
 	 
 	 /* Put grid minimum to zero */
 	 if (set_zero){
-	    double min = Emin().real();
+	    double min = OGridPotential::Emin().real();
 	    for (lint i=0; i < size(); i++){
 	       (*this)[i] -= min;
 	    }
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 5193b6b..e456a7a 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -60,7 +60,7 @@ namespace QDLIB {
          bool set_zero;
          _params.GetValue("setzero", set_zero);
          if (set_zero){
-            double min = Emin().real();
+            double min = OHermitianMatrix::Emin().real();
             for (lint i=0; i < Size(); i++){
                (*this)(i,i) -= min;
             }
-- 
2.43.0


From 952620f2c4f1c28cb28b8de72b665193031c79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 017/116] fix: sign of the flux

---
 src/qdlib/OFlux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OFlux.cpp b/src/qdlib/OFlux.cpp
index 8534c61..2052f7f 100644
--- a/src/qdlib/OFlux.cpp
+++ b/src/qdlib/OFlux.cpp
@@ -38,7 +38,7 @@ namespace QDLIB {
 
       _one = Psi->NewInstance();
       
-      *_one = -2;
+      *_one = 2; /* The conjugate of T Psi is used: Im( (T Psi)* Psi ) = -Im( Psi* T Psi ) */
       
       if (Size() != 2)
          throw ( EParamProblem("Flux: Misterious number of operators. Should be 2") );
-- 
2.43.0


From 2ad94edca8615a76a92bad6d193a7a81fbbbc294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 018/116] fix: read multistate wave functions stored in binary
 format

---
 src/tools/FileSingle.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index dc56c4a..ded6ea1 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1119,9 +1119,8 @@ namespace QDLIB
          return;
       }
 
-      OpenINStream();
-
       try {
+         OpenINStream(); /* The container of a multistate wave function has no data file in binary format */
          CheckIntroFromStream();
          _type = stream;
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
@@ -1426,8 +1425,13 @@ namespace QDLIB
                ReadMetaFromStream();
             break;
          case binary:
+         {
                ReadMetaFromRaw();
-               DetectCompressionInPayload();
+               string name;
+               BuildDataFileName(name);
+               if (ifstream(name.c_str()).is_open()) /* A multistate container has no data of its own */
+                  DetectCompressionInPayload();
+         }
             break;
          default:
             throw (EIOError("Failed to get meta data (format not determined)."));
-- 
2.43.0


From e4561459b3217ecee1c70c2d7161e130c15b0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 019/116] fix: setzero of matrix operators read from binary
 files

---
 src/qdlib/OHermitianMatrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index e456a7a..dfffcd2 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -54,11 +54,12 @@ namespace QDLIB {
          File()->Suffix(BINARY_O_SUFFIX);
          File()->Name(name);
 
+         bool set_zero;
+         _params.GetValue("setzero", set_zero);
+
          *File() >> (OHermitianMatrix*) this; /* Read Matrix */
 
          /* Adjust min. diag value to zero */
-         bool set_zero;
-         _params.GetValue("setzero", set_zero);
          if (set_zero){
             double min = OHermitianMatrix::Emin().real();
             for (lint i=0; i < Size(); i++){
-- 
2.43.0


From 21208546799c7896a966cf4493f2abf4da74372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 020/116] fix: sum of grid operators with more than one member

---
 src/qdlib/OGridSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 622cef0..15729f6 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -35,10 +35,11 @@ namespace QDLIB {
       
       int k;
       if (_size > 1) {
-	 for (k=1; k < _size; k++)             /* Loop over operators */
+	 for (k=1; k < _size; k++) {           /* Loop over operators */
 	    _O[k]->UpdateTime();
 	    for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
 	       (*this)[i] += (*(_O[k]))[i];
+	 }
       }
       _isUpTodate = true;
       
-- 
2.43.0


From 05e8e46b540d47f7a41b7eb5d4b1af8e4e02719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 021/116] fix: Raman coupling in sums and in the split operator

---
 src/qdlib/OGridRaman.cpp | 7 ++++++-
 src/qdlib/OGridRaman.h   | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 6d92ed3..44a892f 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -53,6 +53,11 @@ namespace QDLIB {
       MultElements((cVec*) Psi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
+   void OGridRaman::ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi)
+   {
+      MultElementsAdd((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
+   }
+
    Operator * OGridRaman::operator =(Operator * O)
    {
       Copy(O);
@@ -78,7 +83,7 @@ namespace QDLIB {
    void OGridRaman::InitExponential (cVec *exp, dcomplex c)
    {
       if (_dspace == NULL) InitDspace();
-      ExpElements(exp, _dspace, -1 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
+      ExpElements(exp, _dspace, -.5 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
 }
diff --git a/src/qdlib/OGridRaman.h b/src/qdlib/OGridRaman.h
index 586a5f9..12f22f2 100644
--- a/src/qdlib/OGridRaman.h
+++ b/src/qdlib/OGridRaman.h
@@ -45,6 +45,8 @@ namespace QDLIB
 
          virtual void Apply(WaveFunction *Psi);
 
+         virtual void ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi);
+
          virtual Operator* operator=(Operator* O);
 
          virtual Operator* Copy(Operator* O);
-- 
2.43.0


From 2840ec7b550cb056a96752240203d90174a41514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 022/116] fix: throw the exception, not the operator name

---
 src/ChainLoader.cpp     | 4 ++--
 src/qdlib/OGridGMat.cpp | 2 +-
 src/qdlib/ORK4.cpp      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index cfaa673..0c092d7 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -64,7 +64,7 @@ namespace QDLIB
 	    if (osub == NULL)
 	       throw ( EParamProblem("Can't load operator") );
 	    if ( (gsub = dynamic_cast<OGridSystem*>(osub) ) == NULL )
-	       throw ( EIncompatible("Tried to load into GridSum"), osub->Name() );
+	       throw ( EIncompatible("Tried to load into GridSum", osub->Name()) );
 	    sum->Add( gsub );
 	    child->NextNode();
 	 }
@@ -451,7 +451,7 @@ namespace QDLIB
       OPropagator* U = dynamic_cast<OPropagator*>(O);
 
       if (U == NULL)
-         throw (EIncompatible("This is not a propagator!"), O->Name());
+         throw (EIncompatible("This is not a propagator!", O->Name()));
 
       return U;
    }
diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 4e99e18..5482972 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -58,7 +58,7 @@ namespace QDLIB {
       WFGridSystem *psi = dynamic_cast<WFGridSystem*>(Psi);
 
       if (psi == NULL)
-         throw (EIncompatible ("Psi not a WFGridSystem"), Psi->Name() );
+         throw (EIncompatible ("Psi not a WFGridSystem", Psi->Name()) );
 
       if (buf != NULL) return;  // Avoid init twice
 
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 8c25996..01744e4 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -111,7 +111,7 @@ namespace QDLIB
 
       o = dynamic_cast<ORK4*>(O);
       if (o == NULL)
-         throw (EIncompatible("ORK4: Can't copy operator"), O->Name());
+         throw (EIncompatible("ORK4: Can't copy operator", O->Name()));
 
 
       OPropagator::Copy(O);
-- 
2.43.0


From b895bd5fc4a17c3d16a7ef3ccdda45931bb84584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 023/116] fix: refuse wave functions with another number of
 dimensions in the G-matrix operator

---
 src/qdlib/OGridGMat.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 5482972..7f967b0 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -62,6 +62,9 @@ namespace QDLIB {
 
       if (buf != NULL) return;  // Avoid init twice
 
+      if (psi->Dim() != GridSystem::Dim())
+         throw (EIncompatible ("Gmat: Number of dimensions doesn't match wave function", Psi->Name()) );
+
       *((GridSystem*) this) = *((GridSystem*) psi);
 
       /* Check compatibility of gridsystems */
-- 
2.43.0


From 4d3f2ed4c1d50778ef23d05960a6e878faa48be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 024/116] fix: announced energy range of operators

---
 src/qdlib/OGridGMat.cpp     |  8 +++-----
 src/qdlib/OGridNAC.cpp      | 17 +++--------------
 src/qdlib/OGridPosition.cpp |  5 +++--
 src/qdlib/OGridRaman.cpp    |  9 +++++++--
 src/qdlib/OMultistate.cpp   |  4 ++--
 src/qdlib/OScalar.cpp       |  2 ++
 6 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 7f967b0..e3bb7fb 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -266,12 +266,10 @@ namespace QDLIB {
                   max = VecMax(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
                   min = VecMin(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
                } else if (_src(i,j) == cnst) {
-                  max = _GmatC(i, j);
-                  min = _GmatC(i, j);
+                  max = _GmatC(i, j) / (GridSystem::Dx(i) * GridSystem::Dx(j));
+                  min = max;
                }
-               if (min < 0 && fabs(min) > fabs(max))
-                  T += 2 * fabs(min);
-               else T += 2 * max;
+               T += 2 * fmax(fabs(min), fabs(max));
             } else if (i == j){
                if (_src(i,j) == grd)
                   T += VecMax(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index c7cfd72..7ae93be 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -102,30 +102,19 @@ namespace QDLIB {
       _buf->Retire();
    }
 
-   /** \todo extend to N-D */
    dcomplex OGridNAC::Emax()
    {
       double max = 0;
       
       for (int i=0; i < Dim(); i++ )
-         max += VecMax(_NACME[i]);
+         max += fmax(fabs(VecMax(_NACME[i])), fabs(VecMin(_NACME[i]))) * M_PI / GridSystem::Dx(i);
       
-      max *= M_PI/ _mass / GridSystem::Dx(0);
-      
-      return dcomplex(max);
+      return dcomplex(max / _mass);
    }
    
-   /** \todo extend to N-D */
    dcomplex OGridNAC::Emin()
    {
-      double min = 0;
-      
-      for (int i=0; i < Dim(); i++ )
-         VecMin(_NACME[i]);
-      
-      min *= M_PI/ _mass / GridSystem::Dx(0);
-      
-      return dcomplex(min);
+      return -1 * Emax();
    }
 
    void OGridNAC::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index f8c630b..5c7b96d 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -4,6 +4,7 @@
 
 #include "OGridPosition.h"
 #include "WFGridSystem.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
@@ -85,12 +86,12 @@ namespace QDLIB {
 
    dcomplex OGridPosition::Emax()
    {
-      return(dcomplex(GridSystem::Xmax(_dim)));
+      return dcomplex(VecMax( *((dVec*) this) ));
    }
    
    dcomplex OGridPosition::Emin()
    {
-      return(dcomplex(GridSystem::Xmin(_dim)));
+      return dcomplex(VecMin( *((dVec*) this) ));
    }
 
    
diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 44a892f..d3edc13 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -35,12 +35,17 @@ namespace QDLIB {
 
    dcomplex OGridRaman::Emax()
    {
-      return dcomplex(0.5 * VecMax( *((dVec*) this) ) * VecMax( (dVec&) *GetLaser(0) ) * VecMax( (dVec&) *GetLaser(1) ));
+      dVec& pol = *((dVec*) this);
+      dVec& E0 = (dVec&) *GetLaser(0);
+      dVec& E1 = (dVec&) *GetLaser(1);
+
+      return dcomplex(0.5 * fmax(fabs(VecMin(pol)), fabs(VecMax(pol))) * fmax(fabs(VecMin(E0)), fabs(VecMax(E0)))
+               * fmax(fabs(VecMin(E1)), fabs(VecMax(E1))));
    }
 
    dcomplex OGridRaman::Emin()
    {
-      return dcomplex(0);
+      return -1 * Emax();
    }
 
    void OGridRaman::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 77c993d..c426b2e 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -172,7 +172,7 @@ namespace QDLIB
       for(int i=0; i< _nstates; i++){
          for(int j=0; j < _nstates; j++){
 	    if (_matrix[i][j] != NULL)
-               Mmax(i,j) = cabs(_matrix[i][j]->Emax());
+               Mmax(i,j) = (i == j) ? _matrix[i][j]->Emax().real() : cabs(_matrix[i][j]->Emax());
 	 }
       }
       
@@ -193,7 +193,7 @@ namespace QDLIB
       for(int i=0; i< _nstates; i++){
          for(int j=0; j < _nstates; j++){
 	    if (_matrix[i][j] != NULL)
-               Mmin(i,j) = cabs(_matrix[i][j]->Emin());
+               Mmin(i,j) = (i == j) ? _matrix[i][j]->Emin().real() : cabs(_matrix[i][j]->Emin());
 	 }
       }
       
diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index 927569e..b777565 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -27,6 +27,8 @@ namespace QDLIB {
 
       if (_params.isPresent("im"))
 	  _params.GetValue("im",_value._imag);
+
+      if (_value._imag != 0) _hermitian = false;
    }
    
    void OScalar::Init(WaveFunction * Psi)
-- 
2.43.0


From 674e431cb2edf03629630b48185f3ab06dee199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 025/116] fix: keep the data when a transform is planned for a
 buffer in k-space

---
 src/fft/fft.cpp | 53 ++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/fft/fft.cpp b/src/fft/fft.cpp
index a97d608..fca358a 100644
--- a/src/fft/fft.cpp
+++ b/src/fft/fft.cpp
@@ -94,30 +94,33 @@ namespace QDLIB {
          _dims[i] = grid.DimSize(i);
       }
 
+      /* Planning may destroy the data in both buffers */
+      cVec inbuf(grid.Size()), outbuf(grid.Size());
+      for (lint i = 0; i < grid.Size(); i++) {
+         inbuf[i] = _cin[i];
+         outbuf[i] = _cout[i];
+      }
+
       /* Create fftw plans */
       _planf[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cin, (fftw_complex*) _cout,
                FFTW_FORWARD, optflag | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
 
-      if (_planf[0] == NULL){ /* Create fresh, optimized plan */
-         cVec inbuf;
-         inbuf = in; /* Save for planning */
+      if (_planf[0] == NULL) /* Create fresh, optimized plan */
          _planf[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cin, (fftw_complex*) _cout,
                   FFTW_FORWARD, optflag);
 
-         in = inbuf;
-      }
-
       /* backward plan */
       if (!(_oneway = oneway)) {
          _planb[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cout, (fftw_complex*) _cin,
                   FFTW_BACKWARD, optflag | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
-         if (_planb[0] == NULL){
-            cVec inbuf;
-            inbuf = in; /* Save for planning */
+         if (_planb[0] == NULL)
             _planb[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cout, (fftw_complex*) _cin,
                      FFTW_BACKWARD, optflag);
-            in = inbuf;
-         }
+      }
+
+      for (lint i = 0; i < grid.Size(); i++) {
+         _cin[i] = inbuf[i];
+         _cout[i] = outbuf[i];
       }
    }
    
@@ -165,8 +168,12 @@ namespace QDLIB {
       int lothers = _lothers(dim);  /* points in lower dims */
       int cdim = _ndims - dim - 1; /* reversed dim index (C-order) */
 
-      cVec outbuf(_lothers(_ndims)); /* Save for planning (source of the backward transform) */
-      for (lint i=0; i < outbuf.size(); i++) outbuf[i] = _cout[i];
+      /* Planning may destroy the data in both buffers */
+      cVec inbuf(_lothers(_ndims)), outbuf(_lothers(_ndims));
+      for (lint i=0; i < outbuf.size(); i++) {
+         inbuf[i] = _cin[i];
+         outbuf[i] = _cout[i];
+      }
 
       /* describe 1D-stripes */
       fftw_iodim datadim;
@@ -193,16 +200,11 @@ namespace QDLIB {
 
 
 
-      if (_planf[dim+1] == NULL){ /* Create fresh, optimized plan */
-         cVec inbuf;
-         inbuf = *_in; /* Save for planning */
+      if (_planf[dim+1] == NULL) /* Create fresh, optimized plan */
          _planf[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                           (fftw_complex*) _cin,
                                           (fftw_complex*) _cout,
                                           FFTW_FORWARD, optflag);
-         *_in = inbuf;
-      }
-
 
       /* backward plan */
       if (!_oneway){
@@ -212,20 +214,17 @@ namespace QDLIB {
                                           (fftw_complex*) _cin,
                                           FFTW_BACKWARD, FFTW_PATIENT | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
 
-         if (_planb[dim+1] == NULL){ /* Create fresh, optimized plan */
-            cVec inbuf;
-            inbuf = *_in; /* Save for planning */
+         if (_planb[dim+1] == NULL) /* Create fresh, optimized plan */
             _planb[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                              (fftw_complex*) _cout,
                                              (fftw_complex*) _cin,
                                              FFTW_BACKWARD, optflag);
-           *_in = inbuf;
-         }
-
       }
 
-      /* Planning may have destroyed the output buffer */
-      for (lint i=0; i < outbuf.size(); i++) _cout[i] = outbuf[i];
+      for (lint i=0; i < outbuf.size(); i++) {
+         _cin[i] = inbuf[i];
+         _cout[i] = outbuf[i];
+      }
 
       delete[] loopdim;
    }
-- 
2.43.0


From e6ec131845d13e863ed0ce7e0c985e4c358f135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 026/116] fix: pass the clock on to the members of a grid sum

---
 src/qdlib/OGridSum.cpp | 9 ++++++++-
 src/qdlib/OGridSum.h   | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 15729f6..ca06afe 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -58,6 +58,13 @@ namespace QDLIB {
 	 throw ( EIncompatible("Operator and WF differ in size") );
    }
 
+   void OGridSum::Clock( QDClock * cl )
+   {
+      clock = cl;
+      for (int i=0; i < _size; i++)
+	 _O[i]->Clock(cl);
+   }
+
    void OGridSum::UpdateTime( )
    {
       if (_size > 0) _Update();
@@ -189,7 +196,7 @@ namespace QDLIB {
 	 throw ( EParamProblem("Sum Operator can only take operators with same grid size") );
       
       if (O->isTimeDep()) _isTimedependent = true;
-      O->Clock(clock);
+      if (clock != NULL) O->Clock(clock);
       
       _O[_size] = O;
       _size++;
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index 7cbaaa5..2d6beaf 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -50,6 +50,8 @@ namespace QDLIB {
 	 
 	 virtual const string& Name();
 	 
+	 virtual void Clock(QDClock *cl);
+	 
 	 virtual void UpdateTime();
 	 
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
-- 
2.43.0


From 87d54270a1bf142c32ceca7357d4c34b7ae49d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 027/116] fix: coupling factor in copies and in the pulse
 energy of laser fields

---
 src/qdlib/Laser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 49a2cbc..e6d9020 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -155,6 +155,7 @@ namespace QDLIB {
    {
       *((dVec*) this) = (dVec) laser;
       _clock = laser._clock;
+      _scale = laser._scale;
        _params = laser._params;
       _dt = laser._dt;
       if (_spectrum != NULL){
@@ -178,7 +179,7 @@ namespace QDLIB {
       for(int i=0; i < size(); i++){
 	 d += (*this)[i] * (*this)[i];
       }
-      d *= _scale;
+      d *= _scale * _scale;
       return ( 137.0359996  / (4 * M_PI) * d * _dt );
       /*       c0 in au          eps_0 in au             */
    }
-- 
2.43.0


From 259577ceb6416889010278320060af1c3f7fda6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 028/116] fix: field scaling of matrix dipoles read from binary
 files

---
 src/qdlib/OMatDipole.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qdlib/OMatDipole.cpp b/src/qdlib/OMatDipole.cpp
index f73d754..546a268 100644
--- a/src/qdlib/OMatDipole.cpp
+++ b/src/qdlib/OMatDipole.cpp
@@ -36,6 +36,12 @@ namespace QDLIB
       /* Let parents do initialisation */
       OHermitianMatrix::Init(params);
 
+      /* The parameters stored with a matrix file don't know about the scaling of the field */
+      if (params.isPresent("scale")) {
+         string scale;
+         params.GetValue("scale", scale);
+         Operator::_params.SetValue("scale", scale);
+      }
    }
 
    dcomplex OMatDipole::Emax()
-- 
2.43.0


From 1bb881cffdb20b5d5088d12ab3a3ce0abffa5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 029/116] fix: RK4 step into another wave function and clock of
 its Hamiltonian

---
 src/qdlib/ORK4.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 01744e4..48303ac 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -41,13 +41,14 @@ namespace QDLIB
       }
 
       OPropagator::Init(Psi);
+      H->Clock(Operator::Clock());
       H->Init(Psi);
    }
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      *sourcePsi = destPsi;
-      Apply(sourcePsi);
+      *destPsi = sourcePsi;
+      Apply(destPsi);
    }
 
 
-- 
2.43.0


From 72ede4938f9a3edcfdb34bba515107bdcb1e14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 030/116] fix: race in the norm of the Chebychev propagator

---
 src/qdlib/OCheby.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index a52cf6a..cb67304 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -72,7 +72,7 @@ namespace QDLIB
       double norm(0);
 
 #ifdef _OPENMP
-#pragma omp parallel for shared(norm)
+#pragma omp parallel for reduction(+:norm)
 #endif
       for (int s = rank; s < strides; s += msize) {
          double lnorm(0);
-- 
2.43.0


From b258296e3c786e8f53be0a86bcf5bf7a5c5c28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 031/116] fix: Arnoldi propagator for unnormalized states and
 exhausted vector spaces

---
 src/qdlib/OArnoldi.cpp | 18 ++++++++++++------
 src/qdlib/OArnoldi.h   |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index a39e7ff..290fb70 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -12,7 +12,7 @@ namespace QDLIB
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OArnoldi)
 
    OArnoldi::OArnoldi() :
-            OPropagator(), _name("OArnoldi"), _maxorder(ARNOLDI_DEF_ORDER), _order(ARNOLDI_DEF_ORDER), _conv(ARNOLDI_CONV),
+            OPropagator(), _name("OArnoldi"), _maxorder(ARNOLDI_DEF_ORDER), _order(ARNOLDI_DEF_ORDER), _conv(ARNOLDI_CONV), _psinorm(1),
             buf0(NULL), buf1(NULL)
    {
    }
@@ -88,9 +88,13 @@ namespace QDLIB
       buf0->Reaquire();
       buf1->Reaquire();
 
-      double PsiNorm = Psi->Norm();
+      _psinorm = Psi->Norm();
 
       *buf1 = Psi;
+      if (_psinorm > 0)
+         *buf1 *= 1./_psinorm;  /* The Arnoldi vectors are normalized */
+
+      _order = 1;
 
       _Lzb.Set(0, buf1);
 
@@ -101,6 +105,8 @@ namespace QDLIB
          if (it == 1)
             H->RecalcInternals(false); /* Non-linear operator must not re-calculate internal WF specific values until end of recursion */
 
+         double hnorm = buf0->Norm();
+
          /* Orthogonalize */
          for (int j=0; j <= it-1; j++){
             WaveFunction* wfj = _Lzb[j];
@@ -110,7 +116,7 @@ namespace QDLIB
 
          double norm = buf0->Norm();
 
-         if (norm < ARNOLDI_UNDERRUN){
+         if (norm <= ARNOLDI_UNDERRUN * hnorm){
             break;  /* Zero vector reached */
          }
 
@@ -121,12 +127,12 @@ namespace QDLIB
          _order = it+1;
 
          /* Estimate the error of the next L-vector */
-         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0) * PsiNorm;
+         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0);
          for (int i=1; i < it - 2; i++){
             err *=  _tHA(i+1,i) / double(i);
          }
 
-         if (cabs(err) > PsiNorm)
+         if (cabs(err) > 1)
            cout << "Warning: Lanczos expansion becomes unstable: " << cabs(err) << endl;
 
          if (cabs(err) < _conv) break;
@@ -194,7 +200,7 @@ namespace QDLIB
         cout << "Warning: Arnoldi series expansion is not converged: " << last <<  " > " << _conv << endl;
 
       for (int i = 1; i < _order; i++) {
-         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _psinorm * _vect[i]);
       }
    }
 
diff --git a/src/qdlib/OArnoldi.h b/src/qdlib/OArnoldi.h
index c074d73..c5c7efa 100644
--- a/src/qdlib/OArnoldi.h
+++ b/src/qdlib/OArnoldi.h
@@ -32,6 +32,7 @@ namespace QDLIB {
             int _maxorder;     /* Max. Recursion depth, size of basis */
             int _order;        /* Converged order of */
             double _conv;      /* Convergence criteria */
+            double _psinorm;   /* Norm of the wave function the vectors are built from */
             WFBuffer _Lzb;     /* Buffer for Lanczos basis */
             WaveFunction *buf0, *buf1;   /* Buffers */
             cVec _evals;      /* Eigenvalues */
-- 
2.43.0


From dc04a44e294053a588bd423c15dfbed3802494f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 032/116] fix: Lanczos propagator for unnormalized states and
 exhausted vector spaces

---
 src/qdlib/OSIL.cpp | 35 ++++++++++++++++++++++++++++-------
 src/qdlib/OSIL.h   |  2 ++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 325e7e8..13255ae 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -11,7 +11,7 @@ namespace QDLIB {
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OSIL)
 	 
     OSIL::OSIL()
-            : OPropagator(), _name("OSIL"), _order(SIL_DEF_ORDER), _convorder(SIL_DEF_ORDER),  _err(SIL_DEF_ERR), buf0(NULL), buf1(NULL), buf2(NULL)
+            : OPropagator(), _name("OSIL"), _order(SIL_DEF_ORDER), _convorder(SIL_DEF_ORDER),  _err(SIL_DEF_ERR), _psinorm(1), buf0(NULL), buf1(NULL), buf2(NULL)
     {
     }
 
@@ -90,9 +90,14 @@ namespace QDLIB {
         _alpha =  0;
         _beta = 0;
 
-        double psinorm = Psi->Norm();
+        _psinorm = Psi->Norm();
 
-        _Lzb.Set(0, Psi);
+        /* The Lanczos vectors are normalized */
+        *buf1 = Psi;
+        if (_psinorm > 0)
+           *buf1 *= 1 / _psinorm;
+
+        _Lzb.Set(0, buf1);
         H->Apply(buf0,  _Lzb[0]);           /* H*q_0 */
         H->RecalcInternals(false);  /* Non-linear operator must not re-calculate internal WF specific values until end of recursion */
         _alpha[0] = (*(_Lzb[0]) * buf0).real();     /* a_0 = <q_0 | H | _q0 > */
@@ -103,6 +108,16 @@ namespace QDLIB {
 
         _beta[0] = _Lzb[1]->Norm();
 
+        double hnorm = buf0->Norm();
+        if (_beta[0] <= SIL_UNDERRUN * hnorm){ /* Eigenstate: Zero vector reached */
+           _beta[0] = 0;
+           _convorder = 1;
+           H->RecalcInternals(true);
+           buf0->Retire();
+           buf1->Retire();
+           return;
+        }
+
         *(_Lzb[1]) *= 1 / _beta[0];     /* b0 = Norm(q1) = <q1 | H | q0 > */
 
         _convorder = 2;
@@ -116,14 +131,14 @@ namespace QDLIB {
            err = cabs(err);
 
 
-           if (err > psinorm){
+           if (err > 1){
               cout << "Warning: Lanczos expansion becomes unstable: " << err << endl;
               //break;
            }
            _convorder++;
 
            if (it == _order - 1)
-              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err * psinorm << endl;
+              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err << endl;
 
             /* buf0 = H * q_i-1 */
             H->Apply(_Lzb[it], _Lzb[it-1]);
@@ -137,6 +152,12 @@ namespace QDLIB {
 
             _beta[it-1] = _Lzb[it]->Norm();
 
+            if (_beta[it-1] <= SIL_UNDERRUN * hnorm){ /* Zero vector reached */
+               _beta[it-1] = 0;
+               _convorder--;
+               break;
+            }
+
             *(_Lzb[it]) *= 1 / _beta[it-1];
 
             /* Check orthogonality of LZB */
@@ -147,7 +168,7 @@ namespace QDLIB {
             }
 
             /* convergence reached */
-            if (err < _err * psinorm) break;
+            if (err < _err) break;
         }
 
         _alpha[it-1] = H->Expec(_Lzb[it-1]);
@@ -180,7 +201,7 @@ namespace QDLIB {
         *Psi *= _vect[0];
 
         for (int i = 1; i < _convorder; i++){
-            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _psinorm * _vect[i]);
         }
     }
 
diff --git a/src/qdlib/OSIL.h b/src/qdlib/OSIL.h
index 46cf58d..ccfcbd3 100644
--- a/src/qdlib/OSIL.h
+++ b/src/qdlib/OSIL.h
@@ -10,6 +10,7 @@
 
 #define SIL_DEF_ORDER 20
 #define SIL_DEF_ERR 1e-12
+#define SIL_UNDERRUN 1e-13
 
 namespace QDLIB {
 
@@ -29,6 +30,7 @@ namespace QDLIB {
             int _order;       /* Max. Recursion depth, size of basis */
             int _convorder;    /* Converged order of */
             double _err;       /* Error bound to use */
+            double _psinorm;   /* Norm of the wave function the vectors are built from */
             WFBuffer _Lzb;  /* Buffer for Lanczos basis */
             WaveFunction *buf0, *buf1, *buf2;   /* Buffers */ 
             dVec _alpha;      /* Store alpha coeffs */
-- 
2.43.0


From 7af9c40e6b912e7a68dae77839a961b9ffa1e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 033/116] fix: normalization of the first split operator step

---
 src/qdlib/OGSPO.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 2fd0f6e..4803bd1 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -35,10 +35,6 @@ namespace QDLIB
          if ((_ops[i]->isTimeDep() && _laststep != clock->TimeStep()) || _laststep == -1
                   || _lastexp.real() != Exponent().real() || _lastexp.imag() != Exponent().imag()) {
             _ops[i]->InitExponential(&(_exp[i]), Exponent() * sf);
-            /* Include transform normalization here */
-            if (_ops[i]->Transformation() != NULL){
-               _exp[i] *= _ops[i]->Transformation()->Normalization();
-            }
          }
          sf = 0.5; /* All other elements are outer ones => factor 1/2 */
       }
@@ -117,24 +113,22 @@ namespace QDLIB
 
       /* e^1/2B e^1/2C ..., apply from right */
       for (int i = _spoLen - 1; i > 0; i--) {
-         if (_ops[i]->Transformation() != NULL)
+         if (_ops[i]->Transformation() != NULL) {
             _ops[i]->Transformation()->Forward(Psi);
-
-         MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
-
-         if (_ops[i]->Transformation() != NULL)
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]), _ops[i]->Transformation()->Normalization());
             _ops[i]->Transformation()->Backward(Psi);
+         } else
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
       }
 
       /* ... e^1/2C e^1/2B e^A , apply from right */
       for (int i = 0; i < _spoLen; i++) {
-         if (_ops[i]->Transformation() != NULL)
+         if (_ops[i]->Transformation() != NULL) {
             _ops[i]->Transformation()->Forward(Psi);
-
-         MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
-
-         if (_ops[i]->Transformation() != NULL)
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]), _ops[i]->Transformation()->Normalization());
             _ops[i]->Transformation()->Backward(Psi);
+         } else
+            MultElements((cVec*) Psi, (cVec*) &(_exp[i]));
       }
    }
 
@@ -166,7 +160,7 @@ namespace QDLIB
 
    bool OGSPO::Valid(WaveFunction *Psi)
    {
-      bool valid = false;
+      bool valid = (_spoLen > 0);
 
       for (int i = 0; i < _spoLen; i++) {
          if (_ops[i]->Valid(Psi) == false)
-- 
2.43.0


From afb6e0e764379bfcb7861d37136d76d2fb8c6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 034/116] fix: time dependent elements of multistate operators
 in the split operator

---
 src/qdlib/ODMultistate.cpp | 23 +++++++++++++----------
 src/qdlib/ODSpace.h        | 10 ++++++++++
 src/qdlib/OGridDipole.h    |  1 +
 src/qdlib/OGridRaman.h     |  1 +
 src/qdlib/OMultistate.h    |  2 +-
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 95f87bd..45e6fde 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -120,13 +120,6 @@ namespace QDLIB
          _dspace = new dVec();
          _dspace->newsize(_state_size * States(), States());
          
-         if (_IsFullDiag){ /* Diagonal H*/
-            for (int k = 0; k < States(); k++) {
-               ODSpace *state = dynamic_cast<ODSpace*>(State(k,k));
-               _dspace->StrideCopy(*(state->Dspace()), 0,k);
-            }
-         }
-         
          if (_T == NULL && ! _IsFullDiag){ /* Init Grid of Matrices */
             _X = new dMat*[_state_size];
             for (int i = 0; i < _state_size; i++) {
@@ -135,6 +128,15 @@ namespace QDLIB
          }
       }
       
+      if (_IsFullDiag){ /* Diagonal H*/
+         for (int k = 0; k < States(); k++) {
+            ODSpace *state = dynamic_cast<ODSpace*>(State(k,k));
+            double *d = _dspace->begin(k);
+            for (int i = 0; i < _state_size; i++)
+               d[i] = (state != NULL) ? state->DspaceFactor() * (*(state->Dspace()))[i] : 0;
+         }
+      }
+
       if (_T == NULL && !_IsFullDiag){ /* Grid Diagonalization - Internal Transform */
          dVec evals(States());
    
@@ -144,7 +146,7 @@ namespace QDLIB
                for (int l = 0; l < States(); l++) {
                   if ( State(k,l) != NULL){
                      ODSpace *state = dynamic_cast<ODSpace*>(State(k,l));
-                     (*(_X[i]))(k,l) = (*(state->Dspace()))[i];  /* get gridpoint */ 
+                     (*(_X[i]))(k,l) = state->DspaceFactor() * (*(state->Dspace()))[i];  /* get gridpoint */ 
                   } else
                      (*(_X[i]))(k,l) = 0;
                }
@@ -168,9 +170,10 @@ namespace QDLIB
    
    void ODMultistate::InitExponential(cVec * exp, dcomplex c)
    {
-      if (_T == NULL)
+      if (_T == NULL) {
+         if (isTimeDep()) InitDspace(); /* The diagonal representation changes with the fields */
          ODSpace::InitExponential(exp, c);
-      else {
+      } else {
          cVec tmpe(_state_size);
          for (int s=0; s < States(); s++){
             ODSpace *state = dynamic_cast<ODSpace*>(State(s,s));
diff --git a/src/qdlib/ODSpace.h b/src/qdlib/ODSpace.h
index b4b51bd..7a1f6ff 100644
--- a/src/qdlib/ODSpace.h
+++ b/src/qdlib/ODSpace.h
@@ -56,6 +56,16 @@ namespace QDLIB
           */
          virtual Transform* Transformation() = 0;
 
+         /**
+          * Factor of the diagonal space at the current time step.
+          *
+          * Has to be provided by operators which are coupled to a time dependent field.
+          */
+         virtual double DspaceFactor()
+         {
+            return 1;
+         }
+
          /**
           * Create a exponential from the diagonal \f$ e^{c * \hat O_D}\f$.
           *
diff --git a/src/qdlib/OGridDipole.h b/src/qdlib/OGridDipole.h
index 6041d1f..c5bd0e6 100644
--- a/src/qdlib/OGridDipole.h
+++ b/src/qdlib/OGridDipole.h
@@ -53,6 +53,7 @@ namespace QDLIB
 
          /* DSpace features */
          virtual void InitExponential (cVec *exp, dcomplex c);
+         virtual double DspaceFactor() { return -1 * GetLaser()->Get(); }
          
          /* OLaser features */
          
diff --git a/src/qdlib/OGridRaman.h b/src/qdlib/OGridRaman.h
index 12f22f2..c01114b 100644
--- a/src/qdlib/OGridRaman.h
+++ b/src/qdlib/OGridRaman.h
@@ -53,6 +53,7 @@ namespace QDLIB
 
          /* DSpace features */
          virtual void InitExponential (cVec *exp, dcomplex c);
+         virtual double DspaceFactor() { return -.5 * GetLaser(0)->Get() * GetLaser(1)->Get(); }
          
          /* OLaser features */
          
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index 23b1ff5..db4e0f6 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -23,7 +23,7 @@ namespace QDLIB
     * 
     *	@author Markus Kowalewski <markus.kowalewski@cup.uni-muenchen.de>
     */
-   class OMultistate : public Operator
+   class OMultistate : public virtual Operator
    {
       private:
 	 string _name;
-- 
2.43.0


From 66fef6d1993c3c8b01621e95a250fba3fd85652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 035/116] fix: states without operator in diagonal multistate
 operators

---
 src/qdlib/ODMultistate.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 45e6fde..6836419 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -45,7 +45,7 @@ namespace QDLIB
       
       lint last_size = wfm->State(0)->size();
       for (int i=1; i < States(); i++){
-         if (last_size != wfm->State(0)->size())
+         if (last_size != wfm->State(i)->size())
             throw( EIncompatible("ODMultistate relies on states with same size") );
       }
       _state_size = last_size;
@@ -53,7 +53,8 @@ namespace QDLIB
       bool external=false;
       _IsFullDiag=true;
       _T = new Transform*[States()];
-      
+      for (int i=0; i < States(); i++)
+         _T[i] = NULL;
       
       /* Check for transform type & validty of matrix elements */
       for (int i=0; i < States(); i++){
@@ -74,8 +75,12 @@ namespace QDLIB
             }
          }
       }
-      if (external) _XT.ExternalTransform(_T);
-      else {
+      if (external) {
+         for (int i=0; i < States(); i++)
+            if (_T[i] == NULL)
+               throw ( EIncompatible ("ODMultistate needs the same kind of operator for all states") );
+         _XT.ExternalTransform(_T);
+      } else {
          delete[] _T;
          _T = NULL;
       }
-- 
2.43.0


From 9ac570d669b168690f97b6e8e63198290bc9d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 036/116] fix: absorber as a negative imaginary potential in
 the split operator

---
 src/qdlib/OGobbler.cpp | 9 +++++++++
 src/qdlib/OGobbler.h   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index d445a10..8be8492 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -217,6 +217,15 @@ namespace QDLIB {
 	 MultElements( (cVec*) Psi, (dVec*) this);
    }
    
+   void OGobbler::InitExponential(cVec *exp, dcomplex c)
+   {
+      /* The adjoint operator is used for the backward propagation */
+      if (_nip)
+         c *= dcomplex(0, _conj ? 1 : -1);
+
+      OGridSystem::InitExponential(exp, c);
+   }
+
    Operator * OGobbler::operator =(Operator * O)
    {
       return Copy(O);
diff --git a/src/qdlib/OGobbler.h b/src/qdlib/OGobbler.h
index 74b4d45..cd683af 100644
--- a/src/qdlib/OGobbler.h
+++ b/src/qdlib/OGobbler.h
@@ -65,6 +65,8 @@ namespace QDLIB {
 	 virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 	 
 	 virtual void Apply(WaveFunction *Psi);
+
+	 virtual void InitExponential(cVec *exp, dcomplex c);
 	 
 	 virtual Operator* operator=(Operator* O);
 	 
-- 
2.43.0


From 6afdce03dc22faa39b91b4d475cf05228d689b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 037/116] fix: adjoint of complex scalars

---
 src/qdlib/OScalar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index b777565..cc6d7b2 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -50,13 +50,13 @@ namespace QDLIB {
    
    void OScalar::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
    {
-      MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _value);
+      MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _conj ? _value.conj() : _value);
    }
 
    
    void OScalar::Apply(WaveFunction * Psi)
    {
-      MultElements((cVec*) Psi, _value);
+      MultElements((cVec*) Psi, _conj ? _value.conj() : _value);
    }
 
    Operator * OScalar::operator =(Operator * O)
-- 
2.43.0


From 6070543034fb4da43fb370836898f64d9bd672cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 038/116] fix: adjoint of the momentum operator

---
 src/qdlib/OGridNabla.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 99ed516..ddd7979 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -81,7 +81,7 @@ namespace QDLIB {
       opPsi = dynamic_cast<WFGridSystem*>(destPsi);
 
       double sgn = 1;
-      if (_conj) sgn = -1; /* Switch sign for complex conjugate */
+      if (_conj && !_momentum) sgn = -1; /* Switch sign for complex conjugate, the momentum is hermitian */
 
       _FFT.Forward(ket);
       opPsi->IsKspace(true);
@@ -102,7 +102,7 @@ namespace QDLIB {
       opPsi = dynamic_cast<WFGridSystem*>(Psi);
 
       double sgn = 1;
-      if (_conj) sgn = -1; /* Switch sign for complex conjugate */
+      if (_conj && !_momentum) sgn = -1; /* Switch sign for complex conjugate, the momentum is hermitian */
 
       _FFT.Forward(opPsi);
       if (_momentum)
-- 
2.43.0


From bf96a55a0b5abadb5b0af117c23fd715475d27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 039/116] fix: adjoint of the non-adiabatic coupling

---
 src/qdlib/OGridNAC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index 7ae93be..c746091 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -119,11 +119,13 @@ namespace QDLIB {
 
    void OGridNAC::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
    {
+      double sgn = _conj ? -1 : 1; /* The coupling is antihermitian */
+
       _buf->Reaquire();
 
       for (int i=0; i < Dim(); i++ ){
          /* 1/2 f del psi*/
-         _Nabla[i].PreFactor(0.5 * _sign / _mass);
+         _Nabla[i].PreFactor(0.5 * sgn * _sign / _mass);
          _Nabla[i].Apply(_buf, sourcePsi);
          _NACME[i].Apply(_buf);
          
@@ -133,7 +135,7 @@ namespace QDLIB {
             *destPsi += _buf;
          
          /* 1/2 del f psi*/
-         _Nabla[i].PreFactor(0.5 * _sign / _mass);
+         _Nabla[i].PreFactor(0.5 * sgn * _sign / _mass);
          _NACME[i].Apply(_buf, sourcePsi);
          _Nabla[i].Apply(_buf);
    
-- 
2.43.0


From ae2c0fae770db4e255b70fe6c29c0c96e93de71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 040/116] fix: order of the factors in adjoint products

---
 src/qdlib/OProduct.cpp | 16 +++++++++++-----
 src/qdlib/OProduct.h   |  2 ++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/OProduct.cpp b/src/qdlib/OProduct.cpp
index b26e51d..daa6359 100644
--- a/src/qdlib/OProduct.cpp
+++ b/src/qdlib/OProduct.cpp
@@ -51,27 +51,33 @@ namespace QDLIB {
        return val;
     }
 
+    /* Operator which acts in place i. The adjoint acts in reversed order. */
+    Operator* OProduct::Factor(int i)
+    {
+       return Get(_conj ? Size()-1-i : i);
+    }
+
     void OProduct::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
     {
-       Get(Size()-1)->Apply(destPsi, sourcePsi);
+       Factor(Size()-1)->Apply(destPsi, sourcePsi);
        
        for (int i=Size()-2; i >= 0; i--)
-          Get(i)->Apply(destPsi);
+          Factor(i)->Apply(destPsi);
 
     }
 
     void OProduct::Apply(WaveFunction * Psi)
     {
        for (int i=Size()-1; i >= 0; i--)
-          Get(i)->Apply(Psi);
+          Factor(i)->Apply(Psi);
     }
 
     void QDLIB::OProduct::ApplyParent(WaveFunction * destPsi, WaveFunction * sourcePsi)
     {
-       Get(Size()-1)->ApplyParent(destPsi, sourcePsi);
+       Factor(Size()-1)->ApplyParent(destPsi, sourcePsi);
        
        for (int i=Size()-2; i >= 0; i--)
-          Get(i)->ApplyParent(destPsi, destPsi);
+          Factor(i)->ApplyParent(destPsi, destPsi);
 
     }
     
diff --git a/src/qdlib/OProduct.h b/src/qdlib/OProduct.h
index b6abdff..cd55aac 100644
--- a/src/qdlib/OProduct.h
+++ b/src/qdlib/OProduct.h
@@ -20,6 +20,8 @@ namespace QDLIB {
    {
       private:
          string _name;
+
+         Operator* Factor(int i);
       public:
          OProduct();
       
-- 
2.43.0


From 49c03394d229849211d83cfb165c6ce94033a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 041/116] fix: adjoint of multistate operators

---
 src/qdlib/OMultistate.cpp | 21 +++++++++++++++++----
 src/qdlib/OMultistate.h   |  3 +++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index c426b2e..64c6aa3 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -76,6 +76,17 @@ namespace QDLIB
       }
    } 
 
+   void OMultistate::Conj(bool conj)
+   {
+      Operator::Conj(conj);
+      for(int i=0; i < _nstates; i++){
+         for(int j=0;  j < _nstates; j++){
+            if (_matrix[i][j] != NULL)
+               _matrix[i][j]->Conj(conj);
+         }
+      }
+   }
+
    void OMultistate::Init( ParamContainer & params )
    {
       _params = params;
@@ -220,8 +231,9 @@ namespace QDLIB
       for (int i = rank; i < _nstates; i += msize) {
          *(dPsi->State(i)) = 0.;
          for (int j = 0; j < _nstates; j++) {
-            if (_matrix[i][j] != NULL) {
-               _matrix[i][j]->ApplyAdd(dPsi->State(i), psi->State(j));
+            Operator *O = _conj ? _matrix[j][i] : _matrix[i][j]; /* The adjoint needs the transpose */
+            if (O != NULL) {
+               O->ApplyAdd(dPsi->State(i), psi->State(j));
             } else if (i == j && _unity) { /* Diagonal without operator means 1 */
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (psi->State(j)));
             }
@@ -256,8 +268,9 @@ namespace QDLIB
       int msize = sourcePsi->MPIsize();
       for (int i = rank; i < _nstates; i += msize) {
          for(int j=0; j< _nstates; j++){
-            if (_matrix[i][j] != NULL){
-               _matrix[i][j]->ApplyParent(_buf1->State(i), psi->State(j));
+            Operator *O = _conj ? _matrix[j][i] : _matrix[i][j];
+            if (O != NULL){
+               O->ApplyParent(_buf1->State(i), psi->State(j));
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (_buf1->State(i)));
             } else if (i==j && _unity) { /* Diagonal without operator means 1 */
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (psi->State(j)));
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index db4e0f6..b696e7f 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -82,6 +82,9 @@ namespace QDLIB
 	 
 	 /* Overide Clock setter */
 	 virtual void Clock (QDClock *cl);
+
+	 /* Overide adjoint setter */
+	 virtual void Conj(bool conj);
 	 
 	 /* Interface implementation */
 	 virtual Operator* NewInstance();
-- 
2.43.0


From a6c33225eeaa8bc9c38eeacb52effc5c5f50a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 042/116] fix: complex energy range of the Chebychev propagator
 in backward direction

---
 src/qdlib/OCheby.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index cb67304..a5fe88c 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -93,6 +93,7 @@ namespace QDLIB
    {
       WaveFunction *swap;
       double norm = raw_norm(Psi);
+      dcomplex offset = _conj ? _offset.conj() : _offset; /* Spectrum of the adjoint */
 
       _exp = OPropagator::Exponent() / clock->Dt();
 
@@ -101,12 +102,12 @@ namespace QDLIB
       H->Apply(ket1, Psi);
       H->RecalcInternals(false); /* Non-linear operator should not re-calculate internal WF specific values until end of recursion */
 
-      AddElements((cVec*) ket1, (cVec*) Psi, -1 * _offset); /* Offset*/
+      AddElements((cVec*) ket1, (cVec*) Psi, -1 * offset); /* Offset*/
       MultElements((cVec*) ket1, _exp / _scaling);
 
-      MultElements((cVec*) Psi, _coeff[0] * cexp(OPropagator::Exponent() * _offset));
+      MultElements((cVec*) Psi, _coeff[0] * cexp(OPropagator::Exponent() * offset));
       MultElementsCopy((cVec*) buf, (cVec*) ket1, _coeff[1] * cexp(OPropagator::Exponent()
-               * _offset));
+               * offset));
 
       *Psi += buf;
       dcomplex *k2, *bf, *k0, *k1, *psi;
@@ -119,7 +120,7 @@ namespace QDLIB
 
       for (int i = 2; i < _order; i++) {
 	 double accnorm(0);
-         dcomplex coeff = _coeff[i] * cexp(OPropagator::Exponent() * _offset);
+         dcomplex coeff = _coeff[i] * cexp(OPropagator::Exponent() * offset);
          H->Apply(buf, ket1);
          int s;
          int rank = Psi->MPIrank();
@@ -135,7 +136,7 @@ namespace QDLIB
             k2 = ket2->begin(s);
             psi = Psi->begin(s);
 #ifdef HAVE_SSE2
-            m128dc vk2, vbf, vk0, vk1, vpsi, v_o(_offset), v_exp2(exp2), v_coeff(coeff);
+            m128dc vk2, vbf, vk0, vk1, vpsi, v_o(offset), v_exp2(exp2), v_coeff(coeff);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static) default(shared) private(j, vk0, vk1, vk2, vbf, vpsi) reduction(+:accnorm)
 #endif
@@ -165,7 +166,7 @@ namespace QDLIB
 #pragma omp parallel for schedule(static) default(shared) private(j) reduction(+:accnorm)
 #endif
             for (j = 0; j < size; j++) {
-               bf[j] = (bf[j] - _offset * k1[j]) / _scaling; /* Offset + Scaling */
+               bf[j] = (bf[j] - offset * k1[j]) / _scaling; /* Offset + Scaling */
                bf[j] *= exp2;
                k2[j] = bf[j] + k0[j];
                k0[j] = k2[j];
@@ -178,7 +179,7 @@ namespace QDLIB
          /* Check for convergence */
          double nconv = abs(norm - accnorm) / norm;
 
-         if (nconv  < _prec && _offset.imag() == 0)
+         if (nconv  < _prec && offset.imag() == 0)
             break;
 
          /* Convergence only make sense for norm preserving propagations */
-- 
2.43.0


From 9073c62724108673f2e5847aa98e5868bc67bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 043/116] fix: sign of first derivatives by finite differences
 in backward direction

---
 src/qdlib/OGridHOFD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index 9a14078..eb6ac3b 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -129,6 +129,9 @@ namespace QDLIB {
          }
       } else
          _hofd->Diff((cVec*) destPsi, (cVec*) sourcePsi, _dim);
+
+      if (_conj && _deriv == 1)
+         *destPsi *= -1.0; /* Switch sign for complex conjugate */
    }
 
    Operator* OGridHOFD::operator =(Operator* O)
-- 
2.43.0


From 05b352b122c43432a83eeece70e80ba2f264d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 044/116] fix: keep full double precision in parameter
 containers

---
 src/tools/ParamContainer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 18e9b2a..4bf49c1 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: gpl-3-only
 
+#include <limits>
 #include <sstream>
 #include <iostream>
 #include <fstream>
@@ -585,6 +586,7 @@ namespace QDLIB {
    {
      stringstream ss;
 
+     ss.precision(numeric_limits<double>::max_digits10);
      ss << value;
      ss >> _param_map[name];
 
@@ -615,6 +617,7 @@ namespace QDLIB {
    {
       stringstream cat;
 
+      cat.precision(numeric_limits<double>::max_digits10);
       for (size_t i=0; i < n; i++){
          cat << values[i];
          if (i != n-1) cat << ",";
-- 
2.43.0


From 127e0a6cdd924378a7e6184c3fdcf590b65fff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 045/116] fix: read back the type names written by parameter
 containers

---
 src/tools/ParamContainer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 4bf49c1..25adf24 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -764,8 +764,8 @@ namespace QDLIB {
 
             if (tpos1 != key.npos) { /* extract typedef */
                string stype;
-               if (tpos2 != key.npos)
-                  stype = key.substr(tpos1+1, tpos1);
+               if (tpos2 != key.npos && tpos2 > tpos1)
+                  stype = key.substr(tpos1+1, tpos2-tpos1-1);
                else
                   stype = key.substr(tpos1+1);
 
-- 
2.43.0


From 7c64ff4393beb8a991f54d822d2eeeb712be2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 046/116] fix: endless loop on long lines when parsing a
 parameter file

---
 src/tools/ParamContainer.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 25adf24..4f9b5bf 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -734,16 +734,10 @@ namespace QDLIB {
    void ParamContainer::Parse(istream &stream, const char* eof)
    {
       string s;
-      char line[MAX_LINE_LENGTH];
       size_t pos;
 
       clear();
-      while (!stream.eof()) { // Reading loop
-         stream.getline(line, MAX_LINE_LENGTH);
-         //if (file.fail()) return false;
-
-         s.assign(line);
-
+      while (getline(stream, s)) { // Reading loop
          if (eof != NULL)
             if (s == eof) break;
 
-- 
2.43.0


From 4c038a8a6357b5c5ca3bf9575a67f43b1cd7de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 047/116] fix: trim texts which consist of white space only

---
 src/tools/helpers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/helpers.cpp b/src/tools/helpers.cpp
index 64f69f0..a2e8491 100644
--- a/src/tools/helpers.cpp
+++ b/src/tools/helpers.cpp
@@ -15,6 +15,9 @@ namespace QDLIB {
 	 pos = s.find_first_not_of(" \t");
 	 if (pos != s.npos) {
 	    s.erase(0,pos);
+	 } else {                              // only whitespaces
+	    s.clear();
+	    return s;
 	 }
       }
 	 
-- 
2.43.0


From 1ddb5a7a3d7901939e9f0e8fca8f64eadb4865c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 048/116] fix: memory available after lowering the limit below
 the current use

---
 src/tools/Memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 6a5f8e2..88edcc9 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -85,6 +85,8 @@ namespace QDLIB
      */
     size_t Memory::CurrentSizeAvail() const
     {
+       if (_used >= _MaxMem) return 0; /* The limit may have been lowered */
+
        return _MaxMem - _used;
     }
 
-- 
2.43.0


From 0acb81fb95c7e58080466749b7410a533afab149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 049/116] fix: empty numbers and overflow in memory sizes given
 as text

---
 src/tools/Memory.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 88edcc9..40999e6 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -23,6 +23,8 @@
 #include <emmintrin.h>
 #endif
 
+#include <errno.h>
+#include <limits>
 #include <string.h>
 
 
@@ -110,9 +112,12 @@ namespace QDLIB
        size_t factor;
        string s = value;
 
-       if (s[s.length()-1] == 'B')
+       if (s.length() > 0 && s[s.length()-1] == 'B')
           s.erase(s.length()-1, 1); /* Remove suffix B */
 
+       if (s.length() == 0)
+          throw( EParamProblem ("Wrong format for memory type number") );
+
        /* Search for unit suffix K, M or G and convert to factor */
        char suffix = s[s.length()-1];
        switch(suffix){
@@ -150,15 +155,16 @@ namespace QDLIB
 
        /* Check validity */
        size_t found=s.find_first_not_of("0123456789");
-       if (found!=string::npos)
+       if (found!=string::npos || s.length() == 0)
           throw( EParamProblem ("Wrong format for memory type number") );
 
        /* Convert to number */
-       size_t result;
-       sscanf(s.c_str(), "%lu", (size_t*) &result);
-       result *= factor;
+       errno = 0;
+       size_t result = strtoul(s.c_str(), NULL, 10);
+       if (errno == ERANGE || result > numeric_limits<size_t>::max() / factor)
+          throw( EParamProblem ("Memory type number is too large") );
 
-       return result;
+       return result * factor;
     }
 
 
-- 
2.43.0


From e1dd4bd00d9f8c4c23fab9fc31ef099d2e820ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 050/116] fix: reading past the magic of files which are not in
 stream format

---
 src/tools/FileSingle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index ded6ea1..09d8720 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1059,7 +1059,7 @@ namespace QDLIB
 
       _sin->read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
 
-      if (string(intro.magic) != PBUF_MAGIC)
+      if (_sin->gcount() != sizeof(PbufHeader) || memcmp(intro.magic, PBUF_MAGIC, sizeof(intro.magic)) != 0)
          throw(EIOError("Malformated stream. No stream magic found."));
 
       if ((unsigned int) intro.version != PBUF_VERSION)
-- 
2.43.0


From 3c3bfbc7f8e28a13c95ecce2060e418f410c7dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 051/116] fix: compressed output of incompressible data did not
 fit the buffer

---
 src/tools/FileSingle.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 09d8720..10f917b 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -605,7 +605,7 @@ namespace QDLIB
       if (deflateInit(&strm, 4) != Z_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      _buffer_size = deflateBound(&strm, data->sizeBytes()); /* Incompressible data grows */
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
@@ -690,7 +690,7 @@ namespace QDLIB
       if (BZ2_bzCompressInit(&strm, 4, 0, 0) != BZ_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      _buffer_size = data->sizeBytes() + data->sizeBytes() / 100 + 600; /* Incompressible data grows (see bzip2 manual) */
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
-- 
2.43.0


From 911c0acdd59268c027435f095fb964eb31ba1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 052/116] fix: new instances of a level wave function lost the
 parameters, compressed files could not be read

---
 src/qdlib/WFLevel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 10a9114..238a329 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -13,6 +13,7 @@ namespace QDLIB {
    WaveFunction* WFLevel::NewInstance()
    {
       WFLevel* p = new WFLevel(size());
+      p->_params = _params;
       return p;
    }
    
-- 
2.43.0


From feac9774c81af5cbbb769778c6ba31e8512897e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 053/116] fix: compression dropped negative amplitudes of level
 wave functions

---
 src/qdlib/WFLevel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 238a329..9515b86 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -6,6 +6,7 @@
 #include "tools/Exception.h"
 #include "tools/ZCopyStream.h"
 
+#include <math.h>
 #include <stdint.h>
 
 namespace QDLIB {
@@ -110,12 +111,12 @@ namespace QDLIB {
       
       for (int i=0; i <  size; i++){
          /* treat real & imag seperately */
-         if ( (*this)[i].real() < norm )
+         if ( fabs((*this)[i].real()) < norm )
             (*out)[i]._real = 0;
          else
             (*out)[i]._real = (*this)[i].real();
          
-         if ( (*this)[i].imag() < norm )
+         if ( fabs((*this)[i].imag()) < norm )
             (*out)[i]._imag = 0;
          else
             (*out)[i]._imag = (*this)[i].imag();
-- 
2.43.0


From 988cf93d90cdec16ac04b86cf7148fae164ac219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 054/116] fix: level wave functions read from a stream lost
 their size parameter

---
 src/qdlib/WFLevel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 9515b86..5586405 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -158,6 +158,7 @@ namespace QDLIB {
          throw( EIOError("Can't read WFLevel: wrong header") );
 
       newsize(sizee);
+      _params.SetValue("size", (int) sizee);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
    }
-- 
2.43.0


From 5989f87d41647a3595881a6f0bcc5ce517175abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 055/116] fix: wave functions read from a stream or compressed
 file lost their shape parameters

---
 src/qdlib/WFGridSystem.cpp | 3 +++
 src/qdlib/WFLevel.cpp      | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 58e999d..c9050dc 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -129,6 +129,7 @@ namespace QDLIB {
       IsKspace(true);
       *((GridSystem*) this) = *((GridSystem*) psi);
       *((cVec*) this) = *((cVec*) psi);
+      grid_sys.DumpParams(_params);
 
       CheckFFT();
       _fft->backward();
@@ -174,6 +175,8 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      grid_sys.DumpParams(_params);
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 5586405..5bc13fa 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -131,6 +131,7 @@ namespace QDLIB {
       WFLevel* wf = dynamic_cast<WFLevel*>(Psi);
 
       newsize(wf->size());
+      _params.SetValue("size", (int) wf->size());
       FastCopy(*wf);
    }
    
-- 
2.43.0


From 7ed61708db4155e150d042776fad44d39ba5cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 056/116] fix: operators and lasers read from a stream lost
 their shape parameters

---
 src/qdlib/Laser.cpp            | 2 ++
 src/qdlib/OGridsystem.cpp      | 2 ++
 src/qdlib/OHermitianMatrix.cpp | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index e6d9020..f8a042b 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -235,6 +235,8 @@ namespace QDLIB {
       _dt = dt;
 
       newsize(size);
+      _params.SetValue("dt", dt);
+      _params.SetValue("Nt", (int) size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
    }
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 08b7bb7..aa5f888 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -93,6 +93,8 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      grid_sys.DumpParams(_params);
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index dfffcd2..fb2163a 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -298,6 +298,7 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
       newsize(size, size);
+      _params.SetValue("size", (int) size);
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
    }
-- 
2.43.0


From ee9884e70b8757d402d3fe011c665b8f35c30e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 057/116] fix: vectors and matrices whose memory can not be
 allocated

---
 src/math/Matrix.h | 12 ++++++++++--
 src/math/Vector.h | 22 ++++++++++++++++------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index 1e6f378..8d49c47 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -1,6 +1,7 @@
 #ifndef QDLIBMATRIX_H
 #define QDLIBMATRIX_H
 
+#include <limits.h>
 #include "Vector.h"
 #include "config.h"
 
@@ -79,11 +80,18 @@ namespace QDLIB {
    template <class T>
    void Matrix<T>::_init(lint m, lint n)
    {
+      if (m < 0 || n < 0 || (n > 0 && m > INT_MAX / n))
+         throw(EMemory());
+
+      _mn = 0;
+      _m = 0;
+      _n = 0;
+
+      Memory::Instance().Align((void**) (&_v), sizeof(T) * m * n);
+
       _mn = m*n;
       _m = m;
       _n = n;
-      
-      Memory::Instance().Align((void**) (&_v), sizeof(T) * _mn);
 
       _col = new T*[_n];
       
diff --git a/src/math/Vector.h b/src/math/Vector.h
index b3821e0..7928c95 100644
--- a/src/math/Vector.h
+++ b/src/math/Vector.h
@@ -116,15 +116,25 @@ class Vector
       _StorageLocked = false;
       
       for (lint i=0; i < nstrides_; i++){
-         if (stride_size_ == 0)
-            v_[i] = NULL;
-         else {
-            Memory& mem = Memory::Instance();
-            mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
-         }
+         v_[i] = NULL;
          _StrideRefObj[i] = NULL;
          _SourceStride[i] = -1;
       }
+
+      if (stride_size_ == 0) return;
+
+      try {
+         for (lint i=0; i < nstrides_; i++)
+            Memory::Instance().Align((void**) &(v_[i]), sizeof(T)*stride_size_);
+      } catch (EMemory& e) { /* Leave an empty vector behind */
+         for (lint i=0; i < nstrides_ && v_[i] != NULL; i++){
+            Memory::Instance().Free(v_[i]);
+            v_[i] = NULL;
+         }
+         n_ = 0;
+         stride_size_ = 0;
+         throw;
+      }
     }
    
     /** copy only part out of the strides. */
-- 
2.43.0


From 05fd362cd191c746ace3e5a3f73fbb474b329917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 058/116] fix: uninitialized values for parameters which are
 not a number

---
 src/tools/ParamContainer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 4f9b5bf..dd4cbe0 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -150,6 +150,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%d", &value);
          return true;
       }
@@ -168,6 +169,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, unsigned int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%u", &value);
          return true;
       }
@@ -187,6 +189,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, long int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%ld", &value);
          return true;
       }
@@ -205,6 +208,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, size_t &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%lu", &value);
          return true;
       }
@@ -224,6 +228,7 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, double &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
+         value = 0;
          sscanf( _param_map[name].c_str(), "%lf", &value);
          return true;
       }
@@ -286,7 +291,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         double value;
+         double value = 0;
          sscanf( vbuf[i].c_str(), "%lf", &value);
          array.push_back(value);
       }
@@ -308,7 +313,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         int value;
+         int value = 0;
          sscanf( vbuf[i].c_str(), "%d", &value);
          array.push_back(value);
       }
@@ -330,7 +335,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         unsigned int value;
+         unsigned int value = 0;
          sscanf( vbuf[i].c_str(), "%u", &value);
          array.push_back(value);
       }
-- 
2.43.0


From a3ed9a7341d20a46a695730ff5cbe6cb31e57d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 059/116] fix: limits of the number of states in multistate
 wave functions

---
 src/qdlib/WFMultistate.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index e3b031c..8c5aa8a 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -42,7 +42,7 @@ namespace QDLIB
     */
    void WFMultistate::Add( WaveFunction * Psi, lint index)
    {
-      if (index+1 >= QD_MAX_STATES )
+      if (index < 0 || index >= QD_MAX_STATES )
 	 throw( EOverflow( "More states requested than possible (QD_MAX_STATES)") );
       
       if (index+1 > _nstates){
@@ -88,7 +88,9 @@ namespace QDLIB
 
    void WFMultistate::Init( int reqsize )
    {
-      
+      if (reqsize > QD_MAX_STATES)
+         throw( EOverflow( "More states requested than possible (QD_MAX_STATES)") );
+
       WaveFunction *wflast = NULL;
 
       /* look for empty states */
-- 
2.43.0


From a5ad3330eb73cecad2911a811a0ce6f70ceb8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 060/116] fix: damaged and truncated wave function, operator
 and laser files

---
 src/qdlib/FileWF.cpp           |  43 +++++++++++-
 src/qdlib/FileWF.h             |   2 +
 src/qdlib/GridSystem.cpp       |  49 +++++++++++++
 src/qdlib/GridSystem.h         |   4 ++
 src/qdlib/Laser.cpp            |  20 ++++--
 src/qdlib/OGridsystem.cpp      |  13 +---
 src/qdlib/OHermitianMatrix.cpp |  12 +++-
 src/qdlib/WFGridSystem.cpp     |  13 +---
 src/qdlib/WFLevel.cpp          |   9 ++-
 src/tools/FileSingle.h         | 125 ++++++++++++++++++++++++---------
 src/tools/helpers.cpp          |  21 ++++++
 src/tools/helpers.h            |  11 +++
 12 files changed, 256 insertions(+), 66 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 95dc772..52ec2dc 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -16,6 +16,7 @@ namespace QDLIB {
    FileWF::FileWF() : _compTolerance(FILEWF_COMPRESSION_TOLERANCE)
    {
       Suffix(BINARY_WF_SUFFIX);
+      _exact_size = true; /* Detect compressed data which has lost its tag */
 
       ParamContainer& gp = GlobalParams::Instance();
 
@@ -69,6 +70,15 @@ namespace QDLIB {
    {}
 
 
+   /**
+    * A single wave function in a stream must have data.
+    */
+   void FileWF::CheckPayload()
+   {
+      if (Format() == stream && GetMeta().header.payload_size() == 0)
+         throw( EIOError("No data in stream", Name()) );
+   }
+
    /**
     * Create WF Instance based on meta file information.
     *
@@ -142,6 +152,7 @@ namespace QDLIB {
             tmp_data = ModuleLoader<WaveFunction>::Instance()->Load(classname);
          }
 
+         CheckPayload();
          ReadData(tmp_data);
 
          if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
@@ -182,6 +193,11 @@ namespace QDLIB {
          int counter = Counter();
 
          if (Format() == binary){ /* The old way of storing files. */
+            int states;
+            pmt.GetValue("states", states);
+            if (states > wfm->States())
+               throw( EIncompatible("More states in file than in the wave function", Name()) );
+
             for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
                Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
                stringstream ss;
@@ -201,6 +217,8 @@ namespace QDLIB {
             unsigned int i=0;
             while (GetMeta().header.more_files_follow()) {
                Counter(counter);
+               if ((int) i >= wfm->States())
+                  throw( EIncompatible("More states in file than in the wave function", Name()) );
                ReadWaveFunction(wfm->State(i));
                i++;
             }
@@ -217,6 +235,7 @@ namespace QDLIB {
             tmp_data = data->NewInstance();
          }
 
+         CheckPayload();
          ReadData(tmp_data);
 
          if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
@@ -307,7 +326,17 @@ namespace QDLIB {
       if (data == NULL)
          throw EIncompatible("Can't WF read into NULL pointer");
 
-      file.ReadWaveFunction(data);
+      string name = file.Name();
+
+      try {
+         file.ReadWaveFunction(data);
+      } catch (...) { /* Start over with the next file */
+         file.CloseINStream();
+         file.Name(name);
+         throw;
+      }
+
+      file.CloseINStream();
    }
 
    /**
@@ -317,7 +346,17 @@ namespace QDLIB {
     */
    void operator >>(FileWF & file, WaveFunction ** data)
    {
-      *data = file.LoadWaveFunctionByMeta();
+      string name = file.Name();
+
+      try {
+         *data = file.LoadWaveFunctionByMeta();
+      } catch (...) { /* Start over with the next file */
+         file.CloseINStream();
+         file.Name(name);
+         throw;
+      }
+
+      file.CloseINStream();
    }
 
 }
diff --git a/src/qdlib/FileWF.h b/src/qdlib/FileWF.h
index cf4af89..26d5dfd 100644
--- a/src/qdlib/FileWF.h
+++ b/src/qdlib/FileWF.h
@@ -19,12 +19,14 @@ namespace QDLIB {
    class FileWF : public FileSingle<WaveFunction>
    {
       private:
+         void CheckPayload();
          int _compLevel;         /* Compression level 0..9; 0 = no compression, 9 = best */
          double _compTolerance;   /* Cut off factor for lossy compression */
 
       public:
          FileWF();
          virtual ~FileWF();
+         using FileSingle<WaveFunction>::CloseINStream;
          WaveFunction* LoadWaveFunctionByMeta();
          virtual void ReadWaveFunction (WaveFunction *data);
          virtual void WriteWaveFunction (WaveFunction *data, bool more_files_follow = false);
diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index a4c8c20..55ab06d 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -3,8 +3,10 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #include <iostream>
+#include <limits.h>
 #include "GridSystem.h"
 #include "tools/Exception.h"
+#include "tools/helpers.h"
 
 #define GRID_EPS 1e-10
 
@@ -52,6 +54,53 @@ namespace QDLIB {
          i++;
          sprintf(c, "%d", i);
       }
+
+      Check();
+   }
+
+   /**
+    * Check if the header describes a grid.
+    */
+   void GridSystemHeaderPm::Check() const
+   {
+      if (header.dims() <= 0 || header.dims() > MAX_DIMS)
+         throw(EParamProblem("Dims not initialized or to large"));
+
+      if ((size_t) header.dim_size() != header.dims())
+         throw(EParamProblem("Number of dimensions does not match the grid"));
+
+      uint64_t size = 1;
+      for (int i=0; i < header.dim_size(); i++){
+         size *= header.dim(i).size();
+
+         if (size == 0)
+            throw(EParamProblem("Zero elements grid defined"));
+
+         if (size > INT_MAX)
+            throw(EParamProblem("Too many grid points"));
+
+         if (!(header.dim(i).xmax() - header.dim(i).xmin() > 0))
+            throw(EParamProblem("Zero length grid defined"));
+      }
+   }
+
+   /**
+    * Read the header in front of serialized grid data.
+    */
+   void GridSystemHeaderPm::ReadFromStream(std::istream& is)
+   {
+      uint32_t size = 0;
+      GridSystemHeaderPm pm;
+      string buf;
+
+      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+
+      if (is.gcount() != sizeof(uint32_t) || !ReadBlock(is, size, buf) || !pm.header.ParseFromString(buf))
+         throw(EIOError("Can't read the grid from stream"));
+
+      pm.Check();
+
+      header = pm.header;
    }
 
    void GridSystemHeaderPm::DumpParams(ParamContainer& pm)
diff --git a/src/qdlib/GridSystem.h b/src/qdlib/GridSystem.h
index f9774b2..5103c36 100644
--- a/src/qdlib/GridSystem.h
+++ b/src/qdlib/GridSystem.h
@@ -5,6 +5,8 @@
 #ifndef QDLIBGRIDSYSTEM_H
 #define QDLIBGRIDSYSTEM_H
 
+#include <istream>
+
 #include "math/typedefs.h"
 #include "qdlib/GridSystem.pb.h"
 #include "tools/ParamContainer.h"
@@ -18,6 +20,8 @@ namespace QDLIB
          GridSystemHeader header;
          void InitFromParamContainer(ParamContainer& pm);
          void DumpParams(ParamContainer& pm);
+         void Check() const;
+         void ReadFromStream(std::istream& is);
    };
 
    /**
diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index f8a042b..d5b6ae3 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -5,6 +5,7 @@
 #include "Laser.h"
 #include "tools/Exception.h"
 #include "tools/ZCopyStream.h"
+#include <limits.h>
 
 namespace QDLIB {
    
@@ -45,7 +46,13 @@ namespace QDLIB {
       if (!_params.isPresent("Nt"))
 	 throw ( EParamProblem("The laser is missing the number of time steps") );
       _params.GetValue("Nt", Nt);
-      
+
+      if (!(_dt > 0))
+	 throw ( EParamProblem("Laser field got a non-sense dt: ", _dt) );
+
+      if (Nt <= 0)
+	 throw ( EParamProblem("Laser field has zero size") );
+
       dVec::newsize(Nt);
    }
 
@@ -219,17 +226,20 @@ namespace QDLIB {
 
    void Laser::DeSerialize (std::istream&is)
    {
-      uint64_t size;
+      uint64_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(size));
 
       if (size == 0)
          throw(EParamProblem("Laser field has zero size"));
 
-      double dt;
+      if (size > INT_MAX)
+         throw(EIOError("Can't read laser field: wrong header"));
+
+      double dt = 0;
       is.read(reinterpret_cast<char*>(&dt), sizeof(dt));
 
-      if (dt <= 0)
+      if (!(dt > 0))
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
 
       _dt = dt;
@@ -239,6 +249,8 @@ namespace QDLIB {
       _params.SetValue("Nt", (int) size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if ((size_t) is.gcount() != sizeBytes())
+         throw(EIOError("Can't read laser field: not enough data"));
    }
    
 }
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index aa5f888..a037d9f 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -78,21 +78,14 @@ namespace QDLIB {
    void OGridSystem::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
-
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
-
-      char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
-
-      delete[] buf;
+      grid_sys.ReadFromStream(is);
 
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if ((size_t) is.gcount() != sizeBytes())
+         throw(EIOError("Can't read operator from stream: not enough data"));
 
       grid_sys.DumpParams(_params);
    }
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index fb2163a..5096506 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -7,6 +7,7 @@
 #include "tools/Exception.h"
 #include "linalg/LapackDiag.h"
 #include "tools/ZCopyStream.h"
+#include <limits.h>
 
 namespace QDLIB {
 
@@ -74,7 +75,7 @@ namespace QDLIB {
       /* Init with params */
 
       /* Zero size matrix doesn't make sense */
-      if (size == 0) {
+      if (size <= 0) {
 	 ParamContainer missing;
 	 missing.SetValue("size", 0);
 	 throw( EParamProblem(missing, "Missing size") );
@@ -292,15 +293,20 @@ namespace QDLIB {
    void OHermitianMatrix::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
+      uint32_t size = 0, cols = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+      is.read(reinterpret_cast<char*>(&cols), sizeof(uint32_t));
+
+      if (size == 0 || size > INT_MAX || size != cols)
+         throw( EIOError("Can't read matrix: wrong header") );
 
       newsize(size, size);
       _params.SetValue("size", (int) size);
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
+      if ((size_t) is.gcount() != sizeBytes())
+         throw( EIOError("Can't read matrix: not enough data") );
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index c9050dc..fedfb26 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -159,22 +159,15 @@ namespace QDLIB {
    void WFGridSystem::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
-
-      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
-
-      char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
-
-      delete[] buf;
+      grid_sys.ReadFromStream(is);
 
       // Read data
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if ((size_t) is.gcount() != sizeBytes())
+         throw(EIOError("Can't read WF from stream: not enough data"));
 
       grid_sys.DumpParams(_params);
    }
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 5bc13fa..66d5d98 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -5,6 +5,7 @@
 #include "WFLevel.h"
 #include "tools/Exception.h"
 #include "tools/ZCopyStream.h"
+#include <limits.h>
 
 #include <math.h>
 #include <stdint.h>
@@ -37,7 +38,7 @@ namespace QDLIB {
       _params.GetValue("size", size);
       
       /* Zero vector doesn't make sense */
-      if (size == 0) {
+      if (size <= 0) {
 	 ParamContainer missing;
 	 missing.SetValue("size", 0);
 	 throw( EParamProblem(missing, "Missing size") );
@@ -150,18 +151,20 @@ namespace QDLIB {
 
    void WFLevel::DeSerialize (std::istream& is)
    {
-      uint64_t sizee, sizeb;
+      uint64_t sizee = 0, sizeb = 0;
 
       is.read(reinterpret_cast<char*>(&sizee), sizeof(sizee));
       is.read(reinterpret_cast<char*>(&sizeb), sizeof(sizeb));
 
-      if (sizee * sizeof(dcomplex) != sizeb)
+      if (sizee == 0 || sizee > INT_MAX || sizee * sizeof(dcomplex) != sizeb)
          throw( EIOError("Can't read WFLevel: wrong header") );
 
       newsize(sizee);
       _params.SetValue("size", (int) sizee);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
+      if ((uint64_t) is.gcount() != sizeb)
+         throw( EIOError("Can't read WFLevel: not enough data") );
    }
 } /* namespace QDLIB */
 
diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 10f917b..a85d12a 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -36,6 +36,7 @@
 
 #include "ParamContainer.h"
 #include "Exception.h"
+#include "helpers.h"
 
 #include "qdlib/WaveFunction.h"
 #include "qdlib/Operator.h"
@@ -232,6 +233,7 @@ namespace QDLIB
 #ifdef HAVE_LIBZ
          void _CompressZLIB(C * data);
          void _DecompressZLIB(istream *in, size_t size, C* data);
+         void _DecompressBlock(const string &in, ostream& out);
 #endif
 
 #ifdef HAVE_LIBBZ2
@@ -260,6 +262,7 @@ namespace QDLIB
 
 
          compMethod_t _compMethod; /* Compression method */
+         bool _exact_size; /* Raw binary files must not be longer than needed */
 
          void BuildMetaFileName(string &name);
          void BuildDataFileName(string &name);
@@ -273,6 +276,7 @@ namespace QDLIB
 
 
          void OpenINStream();
+         void CloseINStream();
          void CheckIntroFromStream();
          const FileSingleHeaderPm& ReadMetaFromStream();
 
@@ -417,7 +421,7 @@ namespace QDLIB
      _counter(0), _increment(1), _sin(NULL), _our_in_stream(false), _intro_read(false),
      _sout(NULL), _our_out_stream(false), _intro_written(false),
      _buffer(NULL), _buffer_size(0),
-     _drop_meta(false), _counter_last(0),  _fsize(0), _freadsize(0), _compMethod(UNCOMPRESSED)
+     _drop_meta(false), _counter_last(0),  _fsize(0), _freadsize(0), _compMethod(UNCOMPRESSED), _exact_size(false)
    {
    }
 
@@ -659,15 +663,51 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<Bytef*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (inflate(&strm, Z_FINISH) != Z_STREAM_END)
-      { /* Compression */
-         Memory::Instance().Free(buffer);
+      int ret = inflate(&strm, Z_FINISH);
+
+      inflateEnd(&strm);
+      Memory::Instance().Free(buffer);
+
+      if (ret != Z_STREAM_END || strm.avail_out != 0) /* All the data must be there */
          throw(EIOError("zlib decompression failed"));
-      }
+   }
+
+   /**
+    * Decompress a complete block of gziped content.
+    *
+    * The checksum at the end of the block must be reached.
+    */
+   template<class C>
+   void FileSingle<C>::_DecompressBlock(const string &in, ostream& out)
+   {
+      z_stream strm;
+
+      memset((void*) &strm, 0, sizeof(strm));
+      strm.zalloc = Z_NULL;
+      strm.zfree = Z_NULL;
+      strm.opaque = Z_NULL;
+
+      if (inflateInit2(&strm, 15 + 32) != Z_OK) /* Init stream, zlib or gzip header */
+         throw(EIOError("z-lib init failed"));
+
+      strm.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
+      strm.avail_in = in.size();
+
+      vector<char> buf(65536);
+      int ret;
+
+      do {
+         strm.next_out = reinterpret_cast<Bytef*>(&buf[0]);
+         strm.avail_out = buf.size();
+
+         ret = inflate(&strm, Z_NO_FLUSH);
+         out.write(&buf[0], buf.size() - strm.avail_out);
+      } while (ret == Z_OK);
 
       inflateEnd(&strm);
 
-      Memory::Instance().Free(buffer);
+      if (ret != Z_STREAM_END)
+         throw(EIOError("zlib decompression failed"));
    }
 #endif
 
@@ -746,15 +786,13 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<char*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (BZ2_bzDecompress(&strm) != BZ_STREAM_END)
-      { /* Compression */
-         Memory::Instance().Free(buffer);
-         throw(EIOError("zlib decompression failed"));
-      }
+      int ret = BZ2_bzDecompress(&strm);
 
       BZ2_bzDecompressEnd(&strm);
-
       Memory::Instance().Free(buffer);
+
+      if (ret != BZ_STREAM_END || strm.avail_out != 0) /* All the data must be there */
+         throw(EIOError("bzip2 decompression failed"));
    }
 
 #endif
@@ -1044,6 +1082,23 @@ namespace QDLIB
 
    }
 
+   /**
+    * Close the input stream, if it is our own.
+    *
+    * The next read operation starts with a new file.
+    */
+   template<class C>
+   void FileSingle<C>::CloseINStream()
+   {
+      _intro_read = false;
+
+      if (_our_in_stream){
+         delete _sin;
+         _sin = NULL;
+         _our_in_stream = false;
+      }
+   }
+
    /**
     * Check for a correct header.
     */
@@ -1079,18 +1134,14 @@ namespace QDLIB
       /* message/meta data length */
       _sin->read(reinterpret_cast<char*>(&mlen), sizeof(uint32_t));
 
-      char* buf = new char[mlen];
-      _sin->read(reinterpret_cast<char*>(buf), mlen);
+      string buf;
 
       // Parse header
       MetaData.ClearAll();
-      if (!MetaData.header.ParseFromArray(reinterpret_cast<const void*>(buf), mlen)){
-         delete[] buf;
+      if (_sin->gcount() != sizeof(uint32_t) || !ReadBlock(*_sin, mlen, buf) || !MetaData.header.ParseFromString(buf)){
          throw(EIOError("Error reading meta data from stream"));
       }
 
-      delete[] buf;
-
       return MetaData;
    }
 
@@ -1155,28 +1206,20 @@ namespace QDLIB
                break;
             case FileSingleHeader_Compression_BZIP:
             case FileSingleHeader_Compression_ZLIB:
-               char* inbuf = new char[MetaData.header.payload_size()];
+               string inbuf;
 
-               _sin->read(inbuf, MetaData.header.payload_size());
-
-               if ( (size_t) _sin->gcount() != MetaData.header.payload_size() )
+               if (!ReadBlock(*_sin, MetaData.header.payload_size(), inbuf))
                   throw(EIOError("Reading from stream failed"));
 
-               ArrayInputStream arrin(inbuf, MetaData.header.payload_size());
-               GzipInputStream gzip(&arrin);
                stringstream outbuf;
-
-               const void* gzbuf;
-               int size;
-
-               while (gzip.Next(&gzbuf, &size)){
-                  outbuf.write(reinterpret_cast<const char*>(gzbuf), size);
-               }
-
+#ifdef HAVE_LIBZ
+               _DecompressBlock(inbuf, outbuf);
+#else
+               throw(EIOError("Compressed streams need zlib"));
+#endif
                outbuf.seekg(0);
                data->DeSerialize(outbuf);
 
-               delete[] inbuf;
                break;
          }
       }
@@ -1203,6 +1246,10 @@ namespace QDLIB
    {
       CheckIntroFromStream();
       ReadMetaFromStream();
+
+      if (MetaData.header.payload_size() == 0)
+         throw(EIOError("No data in stream"));
+
       ReadDataFromStream(data);
 
       if (_sequence) _counter += _increment;
@@ -1265,6 +1312,11 @@ namespace QDLIB
 
       switch(MetaData.header.compression()) {
          case FileSingleHeader_Compression_UNCOMPRESSED:
+            file.seekg(0, ios::end);
+            if ((size_t) file.tellg() < data->sizeBytes() || (_exact_size && (size_t) file.tellg() != data->sizeBytes()))
+               throw(EIOError("Binary file has the wrong size", s));
+            file.seekg(0);
+
             file.read((char*) data->begin(0), data->sizeBytes());
 
             if ((size_t) file.gcount() != data->sizeBytes())
@@ -1573,7 +1625,12 @@ namespace QDLIB
             ReadSingleFileFromRaw(data);
             break;
          case stream:
-            ReadSingleFileFromStream(data);
+            try {
+               ReadSingleFileFromStream(data);
+            } catch (...) {
+               CloseINStream();
+               throw;
+            }
             break;
          case ascii:
             throw(Exception("ASCII Unsupported"));
diff --git a/src/tools/helpers.cpp b/src/tools/helpers.cpp
index a2e8491..3ac020b 100644
--- a/src/tools/helpers.cpp
+++ b/src/tools/helpers.cpp
@@ -54,6 +54,27 @@ namespace QDLIB {
 
 
 
+   bool ReadBlock(std::istream &is, size_t size, string &buf)
+   {
+      const size_t chunk = 65536;
+
+      buf.clear();
+
+      while (buf.size() < size){
+         size_t pos = buf.size();
+         size_t len = size - pos < chunk ? size - pos : chunk;
+
+         buf.resize(pos + len);
+         is.read(&buf[pos], len);
+
+         if ((size_t) is.gcount() != len){
+            buf.resize(pos + is.gcount());
+            return false;
+         }
+      }
+
+      return true;
+   }
 }
 
 
diff --git a/src/tools/helpers.h b/src/tools/helpers.h
index c21a011..c798c57 100644
--- a/src/tools/helpers.h
+++ b/src/tools/helpers.h
@@ -8,6 +8,7 @@
 #include <string>
 #include <vector>
 #include <iomanip>
+#include <istream>
 #include "math/typedefs.h"
 
 #define printbuffer(BUFFER,SIZE) \
@@ -56,6 +57,16 @@ namespace QDLIB {
 
    extern void split(const string &s, vector<string>& array);
 
+   /**
+    * Reads a block of known length from a stream.
+    *
+    * The buffer grows with the data, i.e. a wrong length does not
+    * allocate more memory than there is data in the stream.
+    *
+    * \return true if the block could be read completely.
+    */
+   extern bool ReadBlock(std::istream &is, size_t size, string &buf);
+
    /**
     * Convert and std vector into an raw C-array.
     *
-- 
2.43.0


From f05cd8d6d572bd14120f225e641cc2be54b567ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 061/116] fix: memory use of multistate wave functions

---
 src/qdlib/WFMultistate.cpp | 13 +++++++++++++
 src/qdlib/WFMultistate.h   |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 8c5aa8a..dadbc79 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -244,6 +244,19 @@ namespace QDLIB
    }
 
    
+   /**
+    * Size of all states in bytes.
+    */
+   size_t WFMultistate::size_bytes()
+   {
+      size_t size = 0;
+
+      for (int i=0; i < _nstates; i++)
+         if (_states[i] != NULL) size += _states[i]->size_bytes();
+
+      return size;
+   }
+
    WaveFunction* WFMultistate::Reduce(double tolerance)
    {
       throw(EIncompatible("WFMultistate::Reduce should never be called"));
diff --git a/src/qdlib/WFMultistate.h b/src/qdlib/WFMultistate.h
index c3f11f2..f6d869e 100644
--- a/src/qdlib/WFMultistate.h
+++ b/src/qdlib/WFMultistate.h
@@ -53,6 +53,8 @@ namespace QDLIB
 
          virtual void IsKspace(bool is);
 
+         virtual size_t size_bytes();
+
          virtual WaveFunction* Reduce(double tolerance);
 
          virtual void Restore(WaveFunction* Psi);
-- 
2.43.0


From c7b0fae592ad1d035ab7379c6a95b1ab256b28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 062/116] fix: wave function buffer lost, mixed up or damaged
 entries when it spilled to disk

---
 src/qdlib/WFBuffer.cpp | 226 +++++++++++++++++++++++++++++++----------
 src/qdlib/WFBuffer.h   |   6 +-
 2 files changed, 176 insertions(+), 56 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index c7389d6..0ee91db 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -5,6 +5,7 @@
 #include "WFBuffer.h"
 #include "tools/GlobalParams.h"
 #include "qdlib/FileWF.h"
+#include "qdlib/WFMultistate.h"
 
 #include <typeinfo>
 #include <unistd.h>
@@ -67,7 +68,11 @@ namespace QDLIB {
 
    WFBuffer::~WFBuffer()
    {
-      Clear();
+      while (!_buf.empty()){
+         try {
+            Clear();
+         } catch (EIOError& e) {} /* The tmp file is already gone */
+      }
    }   
   
    string WFBuffer::_GetFileName(size_t pos)
@@ -100,33 +105,114 @@ namespace QDLIB {
       return NULL;
    }   
    
+   /**
+    * A position is protected explicitly or since it was accessed lately.
+    */
    bool WFBuffer::_IsLocked(size_t mempos)
    {
-      for (size_t i=0; i < _LastAccess.size(); i++){
+      for (size_t i=0; i < _LastAccess.size() && i < _LastLocks; i++){
          if ( _LastAccess[i] == mempos) return true;
       }
 
-      for (size_t i=0; i < _buf.size(); i++){
-         if (_buf[i].Locked) return true;
+      return _buf[mempos].Locked;
+   }
+
+   /**
+    * All entries must be of the same kind.
+    */
+   void WFBuffer::_CheckType(WaveFunction* Psi)
+   {
+      WaveFunction* wf = _ValidEntry();
+
+      if (wf == NULL) return;
+
+      if (typeid(*Psi) != typeid(*wf) || Psi->size() != wf->size() || Psi->strides() != wf->strides())
+         throw (EIncompatible("WFBuffer: Incompatible types"));
+   }
+
+   /**
+    * Remove an entry from memory and disk.
+    */
+   void WFBuffer::_Remove(size_t pos)
+   {
+      bool ondisk = _buf[pos].ondisk;
+
+      if (_buf[pos].Psi != NULL)
+         DELETE_WF(_buf[pos].Psi);
+      else if (ondisk)
+         _ondisk--;
+
+      _buf[pos] = BufMap();
+
+      if (ondisk) FS::Remove(_GetFileName(pos));
+   }
+
+   /**
+    * Write the wave function with all its states.
+    */
+   void WFBuffer::_Write(ostream& os, WaveFunction* Psi)
+   {
+      WFMultistate* multi = dynamic_cast<WFMultistate*>(Psi);
+
+      if (multi != NULL){
+         for (int i=0; i < multi->States(); i++)
+            _Write(os, multi->State(i));
+      } else {
+         os.put(Psi->IsKspace());
+         Psi->Serialize(os);
       }
+   }
+
+   /**
+    * Read what has been written by _Write.
+    */
+   void WFBuffer::_Read(istream& is, WaveFunction* Psi)
+   {
+      WFMultistate* multi = dynamic_cast<WFMultistate*>(Psi);
+
+      if (multi != NULL){
+         for (int i=0; i < multi->States(); i++)
+            _Read(is, multi->State(i));
 
-      return false;
+         bool kspace = multi->State(0)->IsKspace();
+         multi->IsKspace(!kspace);
+         multi->IsKspace(kspace);
+      } else {
+         Psi->IsKspace(is.get() == 1);
+         Psi->DeSerialize(is);
+      }
    }
-   
+
    /**
     * Copy a membuf element into the disk buffer.
+    *
+    * At least one element is kept in memory, since it is needed to restore the others.
+    *
+    * \param keep Position which must stay in memory.
     */
-   void WFBuffer::_MoveToDisk()
+   void WFBuffer::_MoveToDisk(size_t keep)
    {
-      for (size_t i = _buf.size()-1; i > 0; i--){ /* walk through membuf - backwards */
-         if (_buf[i].Psi != NULL && !_buf[i].Locked){ /* This is an Element in memory */
+      size_t inmem = 0;
+      for (size_t i=0; i < _buf.size(); i++)
+         if (_buf[i].Psi != NULL) inmem++;
+
+      if (inmem < 2) return;
+
+      for (size_t i = _buf.size(); i-- > 0; ){ /* walk through membuf - backwards */
+         if (_buf[i].Psi != NULL && i != keep && !_IsLocked(i)){ /* This is an Element in memory */
 
             // Dump to file
             ofstream file;
-            file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _buf[i].Psi->Serialize(file); // TODO: Error checking!!
+            file.open(_GetFileName(i).c_str(), ios_base::trunc | ios_base::binary);
+            _Write(file, _buf[i].Psi);
             file.close();
 
+            if (file.fail()){
+               FS::Remove(_GetFileName(i));
+               _buf[i].ondisk = false;
+               throw (EIOError("WFBuffer: Can not write temporary file", _GetFileName(i)));
+            }
+
             // Book keeping
             _ondisk++;
 
@@ -145,14 +231,22 @@ namespace QDLIB {
    void WFBuffer::_MoveToMem(size_t pos)
    {
       /* Initialize buffer position */
-      if (_buf[pos].Psi == NULL)
-         _buf[pos].Psi = _ValidEntry()->NewInstance();
+      WaveFunction* psi = _ValidEntry()->NewInstance();
 
-      ifstream file;
-      file.open(_GetFileName(pos).c_str());
-      _buf[pos].Psi->DeSerialize(file); // TODO: Error checking!!
-      file.close();
-      
+      try {
+         ifstream file;
+         file.open(_GetFileName(pos).c_str(), ios_base::binary);
+
+         if (!file.is_open())
+            throw (EIOError("WFBuffer: Can not read temporary file", _GetFileName(pos)));
+
+         _Read(file, psi);
+      } catch (...) {
+         DELETE_WF(psi);
+         throw;
+      }
+
+      _buf[pos].Psi = psi;
       _ondisk--;
    }
 
@@ -164,22 +258,30 @@ namespace QDLIB {
       size_t oldsize = _buf.size();
 
       if (oldsize > size) { /* Reduce size */
-         for (size_t i=oldsize-1; i >= size; i--){
-            if (_buf[i].Psi != NULL){ /* Remove wf from memory */
-               DELETE_WF(_buf[i].Psi);
-            }
+         size_t i = 0, keep = 0;
 
-            if (_buf[i].ondisk) { /* Remove wf from disk buf */
-               FS::Remove(_GetFileName(i));
-               _ondisk--;
-            }
+         /* Keep at least one of the remaining elements in memory */
+         while (i < size && _buf[i].Psi == NULL) i++;
+
+         if (i == size && size > 0 && _ValidEntry() != NULL){
+            while (keep < size && !_buf[keep].ondisk) keep++;
 
+            if (keep < size)
+               _MoveToMem(keep);
+            else
+               _buf[0].Psi = _ValidEntry()->NewInstance();
+         }
+
+         while (_buf.size() > size){
+            _Remove(_buf.size()-1);
             _buf.pop_back(); /* remove last element */
          }
 
          /* Clear all locks */
          _LastAccess.clear();
          _locked = 0;
+         for (size_t i=0; i < size; i++)
+            _buf[i].Locked = false;
       } else if (oldsize < size) { /* Enlarge */
          _buf.resize(size);
       }
@@ -202,15 +304,10 @@ namespace QDLIB {
          _buf[0].Psi = Psi->NewInstance();
       } else {
          /* Check for validity */
-         WaveFunction* wf = _ValidEntry();
-
-         if (wf != NULL){
-            if (typeid(Psi) != typeid(wf))
-               throw (EIncompatible("WFBuffer: Incompatible types"));
-
-            if (Psi->size() != wf->size())
-               throw (EIncompatible("WFBuffer: Incompatible types"));
-         }
+         if (_ValidEntry() == NULL)
+            _buf[0].Psi = Psi->NewInstance();
+         else
+            _CheckType(Psi);
       }
 
 
@@ -223,6 +320,8 @@ namespace QDLIB {
     */
    void WFBuffer::Set(size_t pos, WaveFunction *Psi)
    {
+      _CheckType(Psi);
+
       /* Check for right map size */
       if (pos >= _buf.size()){
          _buf.resize(pos+1);
@@ -230,14 +329,23 @@ namespace QDLIB {
 
       /* Ensure we have some space */
       if (_BytesInMem() >= _MaxBuf){/* Move an element to disk storage */
-         _MoveToDisk();
+         _MoveToDisk(pos);
       }
             
       if (_buf[pos].Psi == NULL) { /* Create in mem element*/
-         _buf[pos].Psi = Psi->NewInstance();
-      }
-      
-      *(_buf[pos].Psi) = Psi;
+         WaveFunction* psi = Psi->NewInstance();
+
+         try {
+            *psi = Psi;
+         } catch (...) {
+            DELETE_WF(psi);
+            throw;
+         }
+
+         _buf[pos].Psi = psi;
+         if (_buf[pos].ondisk) _ondisk--; /* The copy on disk is outdated */
+      } else
+         *(_buf[pos].Psi) = Psi;
 
       /* Make sure we're not to large */
       if (_BytesInMem() >= _MaxBuf){/* Move an element to disk storage */
@@ -259,15 +367,14 @@ namespace QDLIB {
       if (pos >= _buf.size())
          throw (EIncompatible("Tried to read invalid WFBuffer element"));
 
-      _buf[pos].Locked = true;
-      
-      if (_LastLocks > 0 ) _LastAccess.push_front(pos);
-      if (_LastAccess.size() > _LastLocks) {
-         _buf[_LastAccess.back()].Locked = false;
+      /* The oldest access isn't protected any more */
+      while (!_LastAccess.empty() && _LastAccess.size() >= _LastLocks)
          _LastAccess.pop_back();
-      }
 
       if (_buf[pos].Psi == NULL){
+         if (_ValidEntry() == NULL)
+            throw (EIncompatible("Tried to read from an empty WFBuffer"));
+
          if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
             _MoveToDisk();
          }
@@ -278,14 +385,20 @@ namespace QDLIB {
             _MoveToMem(pos);
 
          if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-            _MoveToDisk();
+            _MoveToDisk(pos);
          }
 
          if (_BytesInMem() > _MaxBuf){
+            DELETE_WF(_buf[pos].Psi);
+            _buf[pos].Psi = NULL;
+            if (_buf[pos].ondisk) _ondisk++;
+
             throw(EMemError("WFBuffer: buffer space execeeded. Increase MaxBufferSize."));
          }
       }
 
+      if (_LastLocks > 0 ) _LastAccess.push_front(pos);
+
       return _buf[pos].Psi;
    }
   
@@ -336,6 +449,8 @@ namespace QDLIB {
             counter++;
          }
       } catch (EIOError& e) {}
+
+      DELETE_WF(psi);
    }
   
   
@@ -345,13 +460,12 @@ namespace QDLIB {
     */
    void WFBuffer::Lock(size_t pos)
    {
+      if (pos >= _buf.size())
+         throw (EIncompatible("Tried to lock invalid WFBuffer element"));
+
       /* try to reduce the size */
-      if (_BytesInMem() >= _MaxBuf){
-         bool locked = _buf[pos].Locked;
-         _buf[pos].Locked = true;
-         _MoveToDisk();
-         _buf[pos].Locked = locked;
-      }
+      if (_BytesInMem() >= _MaxBuf)
+         _MoveToDisk(pos);
 
       if (_BytesInMem() > _MaxBuf)
          throw (EMemError("Can't lock another wave function to memory. Increase MaxBufferSize"));
@@ -366,6 +480,9 @@ namespace QDLIB {
     */
    void WFBuffer::UnLock(size_t pos)
    {
+      if (pos >= _buf.size())
+         throw (EIncompatible("Tried to unlock invalid WFBuffer element"));
+
       if (_buf[pos].Locked) _locked--;
       _buf[pos].Locked = false;
    }
@@ -387,8 +504,7 @@ namespace QDLIB {
    {
 
       while (! _buf.empty() ){
-         DELETE_WF(_buf.back().Psi);
-         if (_buf.back().ondisk) FS::Remove(_GetFileName(_buf.size()-1));
+         _Remove(_buf.size()-1);
          _buf.pop_back();
       }
       
diff --git a/src/qdlib/WFBuffer.h b/src/qdlib/WFBuffer.h
index 82193db..6cf64e8 100644
--- a/src/qdlib/WFBuffer.h
+++ b/src/qdlib/WFBuffer.h
@@ -54,10 +54,14 @@ namespace QDLIB {
 
          WaveFunction* _ValidEntry();
          bool _IsLocked(size_t mempos);
-         void _MoveToDisk();
+         void _MoveToDisk(size_t keep = SIZE_MAX);
          void _MoveToMem(size_t pos);
          string _GetFileName(size_t pos);
          size_t _BytesInMem();
+         void _CheckType(WaveFunction* Psi);
+         void _Remove(size_t pos);
+         static void _Write(ostream& os, WaveFunction* Psi);
+         static void _Read(istream& is, WaveFunction* Psi);
       public:
          WFBuffer();
          ~WFBuffer();
-- 
2.43.0


From 158f6b481066310d0e6080c922a9d0217d83cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 063/116] fix: qdz default method, series with damaged members
 and failure status, qdinfo on damaged files

---
 src/qdng_info.cpp    | 12 ++++++------
 src/qdz.cpp          | 33 ++++++++++++++++++++++++++-------
 src/tools/Getopt.cpp | 17 +++++++++--------
 3 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/qdng_info.cpp b/src/qdng_info.cpp
index 5abf936..5a0a9ce 100644
--- a/src/qdng_info.cpp
+++ b/src/qdng_info.cpp
@@ -55,21 +55,21 @@ int main(int argc, char **argv)
          throw(EIOError("Can not read intro from stream"));
       }
 
-      if (string(intro.magic) != PBUF_MAGIC)
+      if (memcmp(intro.magic, PBUF_MAGIC, sizeof(intro.magic)) != 0)
          throw(EIOError("Malformated stream. No stream magic found."));
 
       if ((unsigned int) intro.version != PBUF_VERSION)
          throw(EIOError("Wrong stream version"));
 
       /* Print out header */
-      int header_size;
+      uint32_t header_size;
       file.read((char*) &header_size, sizeof(header_size));
 
-      char* buffer = new char[header_size];
-      file.read((char*) buffer, header_size);
-
+      string buffer;
       FileSingleHeader MetaData;
-      MetaData.ParseFromArray((void*) buffer, header_size);
+
+      if (file.gcount() != sizeof(header_size) || !ReadBlock(file, header_size, buffer) || !MetaData.ParseFromString(buffer))
+         throw(EIOError("Can not read header from stream"));
 //
 //      google::protobuf::Descriptor* descriptor = MetaData.GetDescriptor();
 //
diff --git a/src/qdz.cpp b/src/qdz.cpp
index fc8d5f8..d02278e 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -36,11 +36,24 @@ void PrepareCmdline(Getopt &cmdline)
                    "compression level (0=no compression, 9=best & slowest)", "4");
 
    cmdline.SetHelp('m', "compression method", false,
-                   "compression method (z=zlib [default], j=bzip2)", "m");
+                   "compression method (z=zlib [default], j=bzip2)", "z");
 
 
 }
 
+/**
+ * Check for the next member of a series.
+ * The members of a multistate series in binary format have one file for each state.
+ */
+bool Exists(const string& fname, int counter)
+{
+   stringstream ss;
+   ss << "_" << counter << BINARY_WF_SUFFIX;
+
+   return ifstream((fname + ss.str()).c_str()).is_open() || ifstream((fname + "-0" + ss.str()).c_str()).is_open();
+}
+
+
 /**
  * Decompress WF files.
  * 
@@ -80,6 +93,8 @@ void DeCompress(string fname, bool series)
       try {
          while (true){
             counter = wio.Counter();
+            if (!Exists(fname, counter)) break;
+
             wio >> WF;
             
             cout << "inflate " << counter << endl;
@@ -90,8 +105,9 @@ void DeCompress(string fname, bool series)
             wio.Counter(counter);
             wio << WF;
          }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
+      } catch (Exception& e) {
+         DELETE_WF(WF);
+         throw;
       }
          
    }
@@ -142,6 +158,8 @@ void Compress(string fname, bool series, double tol, int level, const string &me
       try {
          while (true){
             counter = wio.Counter();
+            if (!Exists(fname, counter)) break;
+
             wio >> WF;
             
             cout << "deflate " << counter << endl;
@@ -149,8 +167,9 @@ void Compress(string fname, bool series, double tol, int level, const string &me
             wio.Counter(counter);
             wio << WF;
          }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
+      } catch (Exception& e) {
+         DELETE_WF(WF);
+         throw;
       }
 
    }
@@ -188,7 +207,7 @@ int main (int argc, char **argv)
    } catch (Exception e) {
       cerr << e.GetMessage() << "\n";
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
    
    /* Global try-catch block */
@@ -204,7 +223,7 @@ int main (int argc, char **argv)
          string method;
          
          cmdline.GetOption('t', tol);
-         if (tol > 1)
+         if (!(tol <= 1))
             throw (EParamProblem("Tolerance value larger one is nonsense"));
          
          cmdline.GetOption('l', level);
diff --git a/src/tools/Getopt.cpp b/src/tools/Getopt.cpp
index df1d0bc..42b0b30 100644
--- a/src/tools/Getopt.cpp
+++ b/src/tools/Getopt.cpp
@@ -11,6 +11,7 @@
 #endif
 
 #include "Getopt.h"
+#include "Exception.h"
 #include <unistd.h>
 
 namespace QDLIB {
@@ -229,10 +230,10 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, int &value)
    {
-      if (!value_map[letter].empty())
-	 sscanf( value_map[letter].c_str(), "%d", &value);
-      else 
-	 sscanf( default_map[letter].c_str(), "%d", &value);
+      const string& s = value_map[letter].empty() ? default_map[letter] : value_map[letter];
+
+      if (sscanf(s.c_str(), "%d", &value) != 1)
+         throw (EParamProblem("Command line option needs a number: ", string(1, letter) + " " + s));
    }
    
    /**
@@ -242,10 +243,10 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, double &value)
    {
-      if (!value_map[letter].empty())
-	 sscanf( value_map[letter].c_str(), "%lf", &value);
-      else
-	 sscanf( default_map[letter].c_str(), "%lf", &value);
+      const string& s = value_map[letter].empty() ? default_map[letter] : value_map[letter];
+
+      if (sscanf(s.c_str(), "%lf", &value) != 1)
+         throw (EParamProblem("Command line option needs a number: ", string(1, letter) + " " + s));
    }
    
    /**
-- 
2.43.0


From 5dd47423287f832acef4c76a415c496fd45af6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 064/116] fix: objects left at the end of a program outlived
 the memory management

---
 src/tools/Collector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/Collector.h b/src/tools/Collector.h
index b020e43..0eb0a60 100644
--- a/src/tools/Collector.h
+++ b/src/tools/Collector.h
@@ -8,6 +8,8 @@
 #include <vector>
 #include <cstdlib>
 
+#include "tools/Memory.h"
+
 using namespace std;
 
 namespace QDLIB {
@@ -65,6 +67,7 @@ namespace QDLIB {
    template<typename T>
    Collector<T>* Collector<T>::Instance()
    {
+      Memory::Instance(); /* Needed by the objects until the end => must be destroyed after them */
       static Collector<T> ref;
       return &ref;
    }
-- 
2.43.0


From 53f33723d7cf6677054273bd1dbfe3f7da90cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 065/116] fix: linear combinations, state maps and coefficients
 of initial wave functions

---
 src/ChainLoader.cpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 0c092d7..7af33dd 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -176,12 +176,14 @@ namespace QDLIB
       WFMultistate *multi = new WFMultistate();
       while (WFNode->EndNode()){
          string name;
-         stringstream ss;
          int state;
 
          name = WFNode->Name();
-         ss << name.substr(2);
-         ss >> state;
+         istringstream ss(name.length() > 2 ? name.substr(2) : "");
+         if (!(ss >> state))
+            throw (EParamProblem("Multistate wave function: section name without a state index: ", name));
+         if (state >= 0 && state < multi->States() && multi->State(state) != NULL)
+            throw (EParamProblem("Multistate wave function: state defined more than once: ", name));
          log.cout() << "-State " << state << endl;
 
          wfsub = LoadWaveFunctionChain( WFNode, seqnum );
@@ -211,6 +213,9 @@ namespace QDLIB
          pm.GetArray("statemap", statemap);
       }
 
+      if (statemap.empty())
+         throw(EParamProblem("Multimap: no statemap given"));
+
       if (statemap.size() > uint(wfin->States()))
 	throw(EParamProblem("More states in statemap than input states available"));
 
@@ -228,18 +233,21 @@ namespace QDLIB
 	   if (statemap[i] >= wfin->States() || statemap[i] < 0)
 	      throw (EParamProblem("Multimap: state index is invalid"));
 
-	   wfout->Add(wfin->State(i), statemap[i]);
+	   WaveFunction *wfstate = wfin->State(statemap[i])->NewInstance();
+	   *wfstate = wfin->State(statemap[i]);
+	   wfout->Add(wfstate, i);
 
 	   if (i >= coeffs.size()) {
-	      *(wfout->State(statemap[i])) *= 0;
+	      *wfstate *= 0;
 	   } else {
-	      *(wfout->State(statemap[i])) *= coeffs[i];
-	      log.cout() << coeffs[i] << " * " << i << " -> " << statemap[i] << endl;
+	      *wfstate *= coeffs[i];
+	      log.cout() << coeffs[i] << " * " << statemap[i] << " -> " << i << endl;
 	   }
 	}
 
 	ParamContainer mspm;
 	wfout->Init(mspm);
+	DELETE_WF(wfin);
 
 	return wfout;
       } else { /* Map Multistate to a single state WF */
@@ -248,7 +256,9 @@ namespace QDLIB
 
 	  WaveFunction *wfout = wfin->State(statemap[0])->NewInstance();
 	  *wfout = wfin->State(statemap[0]);
-	  *wfout *= coeffs[0];
+	  if (!coeffs.empty())
+	     *wfout *= coeffs[0];
+	  DELETE_WF(wfin);
 
 	  return wfout;
       }
@@ -261,13 +271,8 @@ namespace QDLIB
       ParamContainer pm_child;
 
       while (WFNode->EndNode()){
-         double coeff=0;
-
          wfadd = LoadWaveFunctionChain( WFNode, seqnum );
 
-         if(coeff != 0)
-            MultElements((cVec*) wfadd, coeff);
-
          if (WF == NULL){
             WF = wfadd->NewInstance();
             *WF = wfadd;
@@ -275,7 +280,6 @@ namespace QDLIB
             *WF += wfadd;
          }
 
-         *WF += wfadd;
          DELETE_WF(wfadd);
          WFNode->NextNode();
       }
@@ -411,17 +415,19 @@ namespace QDLIB
          *WF *= cexpI(phase * M_PI);
       }
 
-      double coeff=0;
+      double coeff=1;
 
       if (pm.isPresent("coeff")){
          pm.GetValue("coeff", coeff);
 
       } else if (pm.isPresent("coeff2")){
          pm.GetValue("coeff2", coeff);
+         if (coeff < 0)
+            throw (EParamProblem("Negative squared coefficient: ", coeff));
          coeff = sqrt(coeff);
       }
 
-      if(coeff != 0){
+      if(pm.isPresent("coeff") || pm.isPresent("coeff2")){
          log.cout().precision(8);
          log.cout() << fixed << "Coefficient = " << coeff << endl;
          log.cout() << fixed << "Coefficient^2 = " << coeff*coeff << endl;
-- 
2.43.0


From 46feb8b0e14d684996617b0a7a82c4be03dedfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 066/116] fix: crash on empty sections in the input

---
 src/ChainLoader.cpp   | 15 +++++----------
 src/ProgCfun.cpp      |  5 ++---
 src/ProgEigen.cpp     |  2 +-
 src/ProgFilter.cpp    |  2 +-
 src/ProgOCT.cpp       |  2 +-
 src/ProgPropa.cpp     |  2 +-
 src/tools/XmlNode.cpp | 18 ++++++++++++++++++
 src/tools/XmlNode.h   |  2 ++
 8 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 7af33dd..fb390f6 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -54,8 +54,7 @@ namespace QDLIB
       pm.GetValue("key", key);
 
       if (name == "GridSum") { /* Grid sum operator */
-	 child = Onode->NextChild();
-	 child->AdjustElementNode();
+	 child = Onode->RequireChild();
 	 Operator *osub;
 	 OGridSystem *gsub;
 	 OGridSum *sum = new OGridSum;
@@ -85,8 +84,7 @@ namespace QDLIB
 	 else log.cout() << "default offdiagonal : Hij = Hji+ \n";
 
 	 log.IndentInc();
-	 child = Onode->NextChild();
-	 child->AdjustElementNode();
+	 child = Onode->RequireChild();
 	 Operator *osub;
 	 OMultistate *matrix = NULL;
          if (name == "Multistate") matrix = new OMultistate();
@@ -321,8 +319,7 @@ namespace QDLIB
       if (name == "Multistate"){ /* Further recursion for multistate WF */
 	 log.cout() << "Multi state wave function:" << endl;
 	 log.IndentInc();
-	 child = WFNode->NextChild();
-	 child->AdjustElementNode();
+	 child = WFNode->RequireChild();
 
 	 WF = LoadWFMultistate_( child, pm, seqnum);
 
@@ -340,8 +337,7 @@ namespace QDLIB
          log.IndentInc();
 
          /* load the wf from the sub node */
-         child = WFNode->NextChild();
-         child->AdjustElementNode();
+         child = WFNode->RequireChild();
 
          WF = LoadWFMultimap_(child, pm, seqnum);
          log.IndentDec();
@@ -349,8 +345,7 @@ namespace QDLIB
       } else if (name == "LC"){ /* Further recursion for linear combination */
 	 log.cout() << "Build linear combination from wave functions:" << endl;
 	 log.IndentInc();
-	 child = WFNode->NextChild();
-	 child->AdjustElementNode();
+	 child = WFNode->RequireChild();
 
 	 WF = ChainLoader::LoadWFLC_( child,  pm,  seqnum);
 
diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 0170d32..cffef1c 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -110,8 +110,7 @@ namespace QDLIB
       log.Header( "Read definiton for " + name, Logger::SubSection);
       log.IndentInc();
 
-      XmlNode *child = section->NextChild();
-      child->AdjustElementNode();
+      XmlNode *child = section->RequireChild();
 
       while (child->EndNode()){
 	  if ( child->Name() == "U" ) {
@@ -397,7 +396,7 @@ namespace QDLIB
     log.Header( "Propagator: ", Logger::SubSection);
 
     /* fetch the ChildNodes */
-    ContentNodes_ = CfunNode_.NextChild();
+    ContentNodes_ = CfunNode_.RequireChild();
 
     /* Load & Init the propagator */
     section = ContentNodes_->FindNode( "propagator" );
diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 105a940..35cc2cc 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -663,7 +663,7 @@ namespace QDLIB
       _InitParams();
 
       /* Load & Init the propagator */
-      _ContentNodes = _EigenNode.NextChild();
+      _ContentNodes = _EigenNode.RequireChild();
 
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
diff --git a/src/ProgFilter.cpp b/src/ProgFilter.cpp
index cfe090e..5d7d414 100644
--- a/src/ProgFilter.cpp
+++ b/src/ProgFilter.cpp
@@ -132,7 +132,7 @@ namespace QDLIB
 
       wffiles >> &WF;
 
-      XmlNode *ContentNodes = _FilterNode.NextChild();
+      XmlNode *ContentNodes = _FilterNode.RequireChild();
 
       /* Post step filters */
       XmlNode *section = ContentNodes->FindNode( "filterdef" );
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 60c5f8d..8253014 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -811,7 +811,7 @@ namespace QDLIB
       _InitParams();
 
       /* fetch the ChildNodes */
-      _ContentNodes = _octNode.NextChild();
+      _ContentNodes = _octNode.RequireChild();
 
       log.Header("QM Initialization", Logger::Section);
       log.Header("Propagator: ", Logger::SubSection);
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 8bbb9be..c93d749 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -185,7 +185,7 @@ namespace QDLIB {
       _InitParams();
       
       /* fetch the ChildNodes */
-      _ContentNodes = _propaNode.NextChild();
+      _ContentNodes = _propaNode.RequireChild();
       
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
diff --git a/src/tools/XmlNode.cpp b/src/tools/XmlNode.cpp
index e14efd6..77f3aeb 100644
--- a/src/tools/XmlNode.cpp
+++ b/src/tools/XmlNode.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #include "XmlNode.h"
+#include "Exception.h"
 
 namespace QDLIB {
 
@@ -49,6 +50,10 @@ namespace QDLIB {
             if ( child->_cur_node->type == XML_ELEMENT_NODE ) break;
             child->_cur_node = child->_cur_node->next;
          }
+         if (child->_cur_node == NULL) { /* only text or comments */
+            delete child;
+            return NULL;
+         }
 	 _child_stack.push(child);
 	 return child;
       } else
@@ -56,6 +61,19 @@ namespace QDLIB {
       
    }
    
+   /**
+    * Return the first subsection of a section which can not be empty.
+    */
+   XmlNode* XmlNode::RequireChild()
+   {
+      XmlNode *child = NextChild();
+
+      if (child == NULL)
+         throw (EParamProblem("Section without content: ", Name()));
+
+      return child;
+   }
+
    /**
     * \return false if no children left in list.
     */
diff --git a/src/tools/XmlNode.h b/src/tools/XmlNode.h
index 8b50962..e5dd4f2 100644
--- a/src/tools/XmlNode.h
+++ b/src/tools/XmlNode.h
@@ -41,6 +41,8 @@ namespace QDLIB
          void Init( xmlNode *node );
          
 	 XmlNode* NextChild();
+
+	 XmlNode* RequireChild();
 	 bool EndChild();
 	 
          void NextNode();
-- 
2.43.0


From ed063138bf0d995080b24fd8e9d2e43ad9be54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 067/116] fix: exit status of command line errors, input buffer
 without terminator

---
 src/qdng.cpp              | 36 ++++++++++++++++++++++--------------
 src/simpleXml/qds2qdi.cpp |  2 +-
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index 48b03be..0455f12 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -118,19 +118,18 @@ void CheckInput(const string &name, string &xml)
       fstream infile;
       infile.open(name.c_str(), fstream::in);
 
-      char* buf = (char*) malloc(QDNG_INPUT_BUFFER);
-      size_t size = 0;
+      char* buf = new char[QDNG_INPUT_BUFFER];
 
       /* Read clean XML input */
-      while (! infile.eof() ){
-         if (size > 0) buf = (char*) realloc(buf, size + QDNG_INPUT_BUFFER);
-
-         infile.read(buf+size, QDNG_INPUT_BUFFER);
-
-         size += infile.gcount();
+      xml.clear();
+      while (infile.good()){
+         infile.read(buf, QDNG_INPUT_BUFFER);
+         xml.append(buf, infile.gcount());
       }
-      xml = buf;
-      free(buf);
+      delete[] buf;
+
+      if (!infile.eof())
+         throw(EIOError("Can't read from file: ", name));
    }
 
    if (type == QDSXML::UNKNOWN) {
@@ -190,10 +189,10 @@ int main(int argc, char **argv)
    cmdline.SetHelp( 'p', "num threads", false, "Specify the number of threads to use", "1");
 #endif
 
-   cmdline.ReadArgs(argc, argv);
-   cmdline.CheckOptions();
-
    try {
+      cmdline.ReadArgs(argc, argv);
+      cmdline.CheckOptions();
+
       /*Show the help ?*/
       if (cmdline.GetOption('h'))
          exit(retval);
@@ -237,6 +236,8 @@ int main(int argc, char **argv)
       /* Get the number of openmp threads */
       if (cmdline.GetOption('p')) {
          cmdline.GetOption( 'p', procs);
+         if (procs < 1)
+            throw(EParamProblem("Invalid number of threads: ", procs));
       } else {
         char *omp_num_threads = getenv("OMP_NUM_THREADS");
           if (omp_num_threads != NULL) {
@@ -278,7 +279,7 @@ int main(int argc, char **argv)
       cerr << e.GetMessage() << "\n";
       show_version();
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
 
    log.Header("QDng - Quantum Dynamics", Logger::Chapter);
@@ -332,6 +333,13 @@ int main(int argc, char **argv)
       log.cout() << e.GetMessage() << "\n\n\n";
       log.cout() << "Error termination\n\n";
       retval = EXIT_FAILURE;
+   } catch (exception &e) { /* errors reported by the standard library, e.g. out of memory */
+      log.ConsoleOutput();
+      log.flush();
+      log.cout() << "\n\n\t!!!A problematic error occured:\n\t";
+      log.cout() << e.what() << "\n\n\n";
+      log.cout() << "Error termination\n\n";
+      retval = EXIT_FAILURE;
    }
 
 
diff --git a/src/simpleXml/qds2qdi.cpp b/src/simpleXml/qds2qdi.cpp
index e2596a4..a0a816a 100644
--- a/src/simpleXml/qds2qdi.cpp
+++ b/src/simpleXml/qds2qdi.cpp
@@ -52,7 +52,7 @@ int main(int argc, char** argv)
    } catch (Exception e) {
       cerr << e.GetMessage() << "\n";
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
 
    try {
-- 
2.43.0


From d70e40e76feb23b90662acb456e0a8ec1c0df064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 068/116] fix: propagation runs continued with start, write
 cycle of zero and metadata of aborted runs

---
 src/ProgPropa.cpp | 33 +++++++++++++++++----------------
 src/ProgPropa.h   |  4 ++--
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index c93d749..548d1b6 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -50,7 +50,7 @@ namespace QDLIB {
    
       if (dt == 0)
 	 throw ( EParamProblem("Zero time step defined") );
-      if (steps == 0)
+      if (steps < 1)
 	 throw ( EParamProblem("Zero number of time step defined") );
    
       clock->Dt(dt);
@@ -60,7 +60,7 @@ namespace QDLIB {
       /* Init write cycles */
       if ( attr.isPresent("wcycle") ) {
 	 attr.GetValue("wcycle", _wcycle);
-	 if ( steps < 1)
+	 if ( _wcycle < 1)
 	    throw ( EParamProblem ("Write cycle less than one defined") );
 	 _reporter.WriteCycle(_wcycle);
       }
@@ -84,6 +84,13 @@ namespace QDLIB {
 	 if (_start < 0)
 	    throw ( EParamProblem ("Only positive counter start counter numbers are allowed") );
       }
+
+      /* The inital wave function is the one written before the first one of this run */
+      if (_start > 0) {
+	 if (_start - 1 > steps / _wcycle)
+	    throw ( EParamProblem ("First written wave function is behind the last time step") );
+	 clock->TimeStep((_start - 1) * _wcycle);
+      }
       
       log.Header("Propagation parameters", Logger::Section);
     
@@ -154,21 +161,21 @@ namespace QDLIB {
       p.SetValue("Wcycle", _wcycle);
 
       if (!p.WriteToFile(_dir + "Propagation" + METAFILE_SUFFIX))
-         EIOError("Can not write meta file");
+         throw ( EIOError("Can not write meta file") );
    }
 
    /**
     * Close log files und write Propagation.meta
     */
-   void ProgPropa::_Finalize()
+   void ProgPropa::_Finalize(int Nt)
    {
       Logger& log = Logger::InstanceRef();
 
       if (_writenorm)
          log.FileClose();
 
+      _WriteMeta(Nt);
       _reporter.Finalize();
-      _WriteMeta();
    }
 
 
@@ -305,16 +312,10 @@ namespace QDLIB {
          log.FileOutput( _nfile );
       }
 
-      lint start;
-      if (_start == 0)
-	 start=1;
-      else
-	 start = _start;
-      
-      clock->TimeStep(_start);
-      
+      lint i = clock->TimeStep() + 1;
+
       try {
-      for (lint i=start; i <= clock->Steps(); i++){
+      for (; i <= clock->Steps(); i++){
 	 if (_usepre) _prefilter.Apply( Psi ); /* Apply pre-filters*/
 	 _reporter.Analyze( Psi );      /* propagation report. */
 	_U->Apply(Psi);                 /* Propagate */
@@ -326,12 +327,12 @@ namespace QDLIB {
         }
       }
       } catch (Exception &e) {
-         _Finalize();
+         _Finalize(i - 1);
          DELETE_WF(Psi);
          throw;
       }
 
-      _Finalize();
+      _Finalize(clock->Steps());
       DELETE_WF(Psi);
    }
 
diff --git a/src/ProgPropa.h b/src/ProgPropa.h
index 4441741..8b9dace 100644
--- a/src/ProgPropa.h
+++ b/src/ProgPropa.h
@@ -73,8 +73,8 @@ namespace QDLIB {
 
 	 void _InitParams();
 	 void _InitSumOperator();
-	 void _Finalize();
-	 void _WriteMeta(int Nt = QDGlobalClock::Instance()->Steps());
+	 void _Finalize(int Nt);
+	 void _WriteMeta(int Nt);
 
       public:
 	 ProgPropa(XmlNode &PropaNode);
-- 
2.43.0


From b08da47d434ea079435aba862952cc5c7a0223d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 069/116] fix: stale time of operators in filters, field behind
 its last time step, rho filter without states

---
 src/FiltersList.cpp | 8 ++++++++
 src/qdlib/Laser.cpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index 6df5467..5afc52f 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -140,6 +140,8 @@ namespace QDLIB {
          log.cout() << "Filter expectation value file: " << _fname << endl;
          log.flush();
          _ofile.open(_fname.c_str());
+         if (!_ofile.is_open())
+            throw EIOError("Can't write filter expectation value file: ", _fname);
          _ofile.precision(10);
       }
    }
@@ -271,6 +273,9 @@ namespace QDLIB {
 	       _ofile << _filter[i].label << "\t";
 
 	    /* validity of "states" defintion */
+	    if (_filter[i].action == rho && (_filter[i].ms[0] < 0 || _filter[i].ms[1] < 0))
+		throw(EParamProblem("Filter 'rho' needs the two states ('ms')."));
+
 	    if (_filter[i].ms[0] > -1 || _filter[i].ms[1] > -1){
 		WFMultistate* psi  = dynamic_cast<WFMultistate*>(Psi);
 		if ( psi == NULL )
@@ -290,6 +295,9 @@ namespace QDLIB {
       
       /* Apply filters */
       for(int i=0; i < _size; i++){
+	 if (_filter[i].action != normalize && _filter[i].action != rho)
+	    _filter[i].op->UpdateTime();
+
 	 switch (_filter[i].action ){
 	   case expec:
 	   case expeconly:
diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index d5b6ae3..932ae52 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -131,6 +131,10 @@ namespace QDLIB {
     */
    double Laser::Get()
    {
+      /* No field before the first and after the last time step */
+      if (_clock->TimeStep() < 0 || _clock->TimeStep() >= dVec::size())
+         return 0;
+
       return (*this)[_clock->TimeStep()] * _scale;
    }
    
-- 
2.43.0


From 36b1a7f53613b7cc2d3f58d4d29ff20f448ec6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 070/116] fix: energies reported with the Hamiltonian of an
 earlier time step, unwritable result files

---
 src/ProgEigen.cpp |  8 ++------
 src/Reporter.cpp  | 10 +++++-----
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 35cc2cc..edb1604 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -52,14 +52,13 @@ namespace QDLIB
     */
    void ProgEigen::WriteEnergyFile( )
    {
-      Logger& log = Logger::InstanceRef();
       /* Write energy dat */
       ofstream enfile;
       string sn;
       sn = _dir + _ename;
-      try {
 	 enfile.open(sn.c_str());
-	 if (!enfile.is_open()) throw;
+	 if (!enfile.is_open())
+	    throw ( EIOError("Can't write energy file: ", sn) );
 
 	 for (int i=0; i < _Nef; i++){
 
@@ -83,9 +82,6 @@ namespace QDLIB
 	    enfile << endl;
 	 }
 	 enfile.close();
-      } catch (...){
-	 log.cout() << "!!! Can't write energy file\n\n";
-      }
    }
 
    /**
diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index 7e87690..bde0f06 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -77,6 +77,7 @@ namespace QDLIB
       /* Write header */
       if (_step == 0){
  	 _specbuf.newsize(clock->Steps());
+ 	 _specbuf = dcomplex(0);
 	 log.cout() << "Step\tTime[au]";
 	 if (_norm) log.cout() << "\tPopulation";
 	 if (_multistate && _norm){
@@ -129,6 +130,7 @@ namespace QDLIB
       if (_energy)
       {
          log.cout().precision(8);
+	 _H->UpdateTime();
 	 log.cout() << "\t" << _H->Expec(Psi);
       }
 
@@ -165,9 +167,9 @@ namespace QDLIB
       ofstream ofile;
       
       /* Autocorellation power spectrum */
-      try {
        ofile.open(name.c_str());
-       if (!ofile.is_open()) throw;
+       if (!ofile.is_open())
+          throw ( EIOError("Can't write auto correlation spectrum: ", name) );
        
        fftw.forward();
        
@@ -187,8 +189,6 @@ namespace QDLIB
        }
        ofile.close();
        log.cout() << "Autocorellation power spectrum written to file: " << name.c_str() << endl << endl;
-      }  catch (...)
-      {log.cout() << "!!! Can't write auto correlation spectrum\n\n";}
    }
    
 
@@ -205,7 +205,7 @@ namespace QDLIB
       
       log.cout() << "\n\n" << clock->Steps() << " step done (" << clock->Steps() *  clock->Dt() << " au)\n\n";
       
-      if (_spectrum){
+      if (_spectrum && _specbuf.size() > 0){
          if (_window){
             log.cout() << "Apply Hann-window function to autocorrelation" << endl;
             FunctionGenerator<cVec>::Hann(_specbuf);
-- 
2.43.0


From 1a5a8f4d6ec15337561e86d06941bf20b2fc52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 071/116] fix: sums thrown as plain text

---
 src/qdlib/OSum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OSum.cpp b/src/qdlib/OSum.cpp
index a03dfcd..19fb4e8 100644
--- a/src/qdlib/OSum.cpp
+++ b/src/qdlib/OSum.cpp
@@ -93,12 +93,12 @@ namespace QDLIB {
    
    void OSum::Apply(Operator * destOp, Operator * sourceOp)
    {
-      throw ("Not implementet YET");
+      throw EIncompatible("Not implementet YET");
    }
 
    void OSum::Apply(Operator * Op)
    {
-      throw ("Not implementet YET");
+      throw EIncompatible("Not implementet YET");
    }
 
    
-- 
2.43.0


From 3161d8ffffb8c7b836fbc5f0d7133946e540b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 072/116] fix: endless recursion on reading a single member of
 a raw multistate series

---
 src/qdlib/FileWF.cpp | 26 ++++++++++++++++++++------
 src/qdlib/FileWF.h   |  1 +
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 52ec2dc..94fcf9b 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -79,6 +79,24 @@ namespace QDLIB {
          throw( EIOError("No data in stream", Name()) );
    }
 
+   /**
+    * Name for reading a state of a multistate wave function in the raw format.
+    *
+    * A member of a sequence has no meta file of its own, the sequence index is
+    * the last part of the names of its states.
+    */
+   string FileWF::StateName(const string &basename, int state)
+   {
+      stringstream ss;
+      ss << "-" << state;
+
+      size_t pos = basename.rfind('_');
+      if (pos != string::npos && !ifstream((basename + METAFILE_SUFFIX).c_str()).is_open())
+         return basename.substr(0, pos) + ss.str() + basename.substr(pos);
+
+      return basename + ss.str();
+   }
+
    /**
     * Create WF Instance based on meta file information.
     *
@@ -117,9 +135,7 @@ namespace QDLIB {
    #endif
             for (int i=rank; i < states; i +=msize ){/* Loop over states */
                Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
+               Name(StateName(basename, i));
                wfm->Add( LoadWaveFunctionByMeta(), i ); /* Load module */
             }
             //cout << "rank : " << rank << endl << *wf<< endl;
@@ -200,9 +216,7 @@ namespace QDLIB {
 
             for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
                Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
+               Name(StateName(basename, i));
                ReadWaveFunction(wfm->State(i)); /* Load data */
             }
 
diff --git a/src/qdlib/FileWF.h b/src/qdlib/FileWF.h
index 26d5dfd..532f9f6 100644
--- a/src/qdlib/FileWF.h
+++ b/src/qdlib/FileWF.h
@@ -20,6 +20,7 @@ namespace QDLIB {
    {
       private:
          void CheckPayload();
+         string StateName(const string &basename, int state);
          int _compLevel;         /* Compression level 0..9; 0 = no compression, 9 = best */
          double _compTolerance;   /* Cut off factor for lossy compression */
 
-- 
2.43.0


From 40e0124dcd453f56e73a7ab35519fe51e3f03f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 073/116] fix: empty diagonal elements of multistate operators
 are zero unless unity is requested, as documented and printed

---
 src/qdlib/OMultistate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 64c6aa3..3dbd612 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -101,7 +101,7 @@ namespace QDLIB
          if (_nstates > QD_MAX_STATES)
             throw (EOverflow("More than QD_MAX_STATES not possible"));
       }
-     _params.GetValue( "unity",_unity,true);
+     _params.GetValue( "unity",_unity,false);
 
       
       
-- 
2.43.0


From f0ffd7a2db5d2d7169f253cc76196b71314421c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 074/116] fix: exponentials of a DMultistate operator include
 the unity diagonal elements

---
 src/qdlib/ODMultistate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 6836419..6f917a0 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -138,7 +138,7 @@ namespace QDLIB
             ODSpace *state = dynamic_cast<ODSpace*>(State(k,k));
             double *d = _dspace->begin(k);
             for (int i = 0; i < _state_size; i++)
-               d[i] = (state != NULL) ? state->DspaceFactor() * (*(state->Dspace()))[i] : 0;
+               d[i] = (state != NULL) ? state->DspaceFactor() * (*(state->Dspace()))[i] : (Unity() ? 1 : 0);
          }
       }
 
@@ -153,7 +153,7 @@ namespace QDLIB
                      ODSpace *state = dynamic_cast<ODSpace*>(State(k,l));
                      (*(_X[i]))(k,l) = state->DspaceFactor() * (*(state->Dspace()))[i];  /* get gridpoint */ 
                   } else
-                     (*(_X[i]))(k,l) = 0;
+                     (*(_X[i]))(k,l) = (k == l && Unity()) ? 1 : 0;
                }
             }
             LAPACK::FullDiagHermitian(_X[i], &evals);
-- 
2.43.0


From ff23104f4c85a3f18a840e2da787517c48b42c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 075/116] fix: eigen diagonalises the complete Hermitian
 matrix, not only its real part

---
 src/ProgEigen.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index edb1604..4378f9d 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -93,16 +93,16 @@ namespace QDLIB
 
       log.Header("Diagonalize Hamiltonian", Logger::SubSection);
       /* Create Hamiltonian Matrix */
-      dMat S;
+      cMat S;
       S.newsize(_Nef, _Nef);
       _Energies_diag.newsize(_Nef);
-      S = 0;
+      S = dcomplex(0);
       WaveFunction *bra, *ket;
       for (int i = 0; i < _Nef; i++) {
          bra = _P->Get(i);
          for (int j = 0; j < i; j++) {
             ket = _P->Get(j);
-            S(j, i) = _H->MatrixElement(bra, ket).real();
+            S(j, i) = _H->MatrixElement(ket, bra);
          }
          S(i, i) = _Energies_raw[i];
       }
-- 
2.43.0


From 80c89831d372d69c9be80bcd4480afa3af711ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 076/116] fix: eigen takes the time axis of a propagation it
 reads, accepts base names and directories without a slash

---
 src/ProgEigen.cpp     | 7 +++++++
 src/tools/fstools.cpp | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 4378f9d..ac6ba47 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -467,6 +467,9 @@ namespace QDLIB
 	   string s;
 	   int wcycle;
 
+	   if (_read[_read.length()-1] != '/')
+	      _read += "/";
+
 	   meta.ReadFromFile(_read+"Propagation.meta");
 
 	   meta.GetValue("CLASS", s);
@@ -509,6 +512,10 @@ namespace QDLIB
 	if (_MaxSteps < 2)
 	   throw (EIOError("Not enough files for autocorrelation found"));
 
+	/* The time axis is that of the stored propagation */
+	clock->Dt(_dt);
+	clock->Steps(_MaxSteps);
+
 	autocorr.newsize(_MaxSteps);
 	spectrum.newsize(_MaxSteps);
 
diff --git a/src/tools/fstools.cpp b/src/tools/fstools.cpp
index dd3ac1f..67aedb3 100644
--- a/src/tools/fstools.cpp
+++ b/src/tools/fstools.cpp
@@ -107,6 +107,9 @@ namespace QDLIB {
       
       ret =  stat(name.c_str(), &statbuf);
       
+      if (ret != 0 && (errno == ENOENT || errno == ENOTDIR)) /* There is nothing of this name */
+         return false;
+
       if (ret != 0)
 	 throw ( EIOError(errno, name) );
       
-- 
2.43.0


From f01ed1873b76f6e08a242b2e7fbf86e78444f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 077/116] fix: GridNAC's in-place application releases its
 temporary wave function properly

---
 src/qdlib/OGridNAC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index c746091..63e4b8c 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -152,7 +152,7 @@ namespace QDLIB {
       Apply(opPsi, Psi);
       *Psi = opPsi;
       
-      delete opPsi;
+      DELETE_WF(opPsi);
    }
 
    Operator * OGridNAC::operator =(Operator * O)
-- 
2.43.0


From 9758dab5cb4a3c43a1bd3d6df0ecdead9817a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 078/116] fix: correlation functions use the bra at the time of
 the ket

---
 src/ProgCfun.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index cffef1c..70e200d 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -215,11 +215,11 @@ namespace QDLIB
 	if ( bra == NULL) {
 	    cfun[t] = *ket * psi_t;
 	} else {
-	    for (int tb=0; tb < wcycle_; tb++) {
+	    cfun[t] = *bra * psi_t;
+	    for (int tb=0; tb < wcycle_; tb++) { /* to the next point in time */
 		U_->Apply(bra);
 		++master_clock_;
 	    }
-	    cfun[t] = *bra * psi_t;
 	}
     }
 
@@ -314,11 +314,11 @@ namespace QDLIB
 	// Propagate independent bra side
 	if (bra != NULL){
 	    int step = master_clock_.TimeStep();
-	    for (int i=0; i < wcycle_; i++) {
+	    *psi_t_b = bra;
+	    for (int i=0; i < wcycle_; i++) { // to the next point in time
 		U_->Apply(bra);
 		++master_clock_;
 	    }
-	    *psi_t_b = bra;
 	    master_clock_.TimeStep(step); // restore time step
 	}
 
-- 
2.43.0


From 0adc651aebdaa96f8d8393cc96c3434e53336ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 079/116] fix: correlation functions apply the operators of the
 ket and bra in their places

---
 src/ProgCfun.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 70e200d..6c1f651 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -165,9 +165,10 @@ namespace QDLIB
       *psi_t = Psi0;
     }
 
-    if (bra) {
+    if (bra)
       bra_first_op_ = first_op;
-    }
+    else
+      ket_first_op_ = first_op;
 
     return psi_t;
   }
@@ -271,13 +272,14 @@ namespace QDLIB
     log.flush();
 
 
-    // find the first operators after the first U in ket and bra
-    uint nUket = 0; uint first_ket = 0;
+    // find the first operators after the first U in ket and bra, and after the last U in the ket
+    uint nUket = 0; uint first_ket = 0; uint ketsigop = 0;
     for (uint i=0; i < ket_.size(); i++){
 	if ( ket_[i] == NULL ) {
 	    nUket++;
-	} else
-	    if (nUket == 1) first_ket = i;
+	    if (nUket == 1) first_ket = i + 1;
+	    ketsigop = i + 1;
+	}
     }
 
     uint nUbra = 0; uint first_bra = 0;
@@ -285,8 +287,8 @@ namespace QDLIB
 	for (uint i=0; i < bra_.size(); i++){
 	    if ( bra_[i] == NULL ) {
 		nUbra++;
-	    } else
-		if (nUbra == 1) first_bra = i;
+		if (nUbra == 1) first_bra = i + 1;
+	    }
 	}
 
     // figure out which variant to use
@@ -343,10 +345,6 @@ namespace QDLIB
 
 	    // Signal interaction on ket
 	    *psi_t_s = psi_t_k;
-	    int ketsigop = first_ket+2;
-	    if (!lhsint)
-		ketsigop = first_ket;
-
 	    for (uint i=ketsigop; i < ket_.size(); i++){
 		if (ket_[i] != NULL){
 		    ket_[i]->Apply(psi_t_s);
-- 
2.43.0


From 9e64bffdfe15987bacad6ceef7e79cc9cf022f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 080/116] fix: correlation functions are written under the
 given file name

---
 src/ProgCfun.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 6c1f651..583282b 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -232,7 +232,7 @@ namespace QDLIB
     CreateMetaData(1, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_1");
+    file.Name(dir_ + fname_ + "_1");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
@@ -378,7 +378,7 @@ namespace QDLIB
     CreateMetaData(2, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_2");
+    file.Name(dir_ + fname_ + "_2");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
-- 
2.43.0


From fe9de26d39a129c52086bf87704808b2cca3b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 081/116] fix: correlation functions refuse an empty ket and
 accept stored baselines without a bra

---
 src/ProgCfun.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 583282b..a40d978 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -475,10 +475,13 @@ namespace QDLIB
 	    throw (EParamProblem("Last operator in bra definition has to be a propagator"));
     }
 
+    if (ket_.size() == 0)
+	throw (EParamProblem("No ket definition found"));
+
     if (ket_.back() == NULL)
-	throw (EParamProblem("Last operator in bra definition has to be the signal mode operator"));
+	throw (EParamProblem("Last operator in ket definition has to be the signal mode operator"));
 
-    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || bra_[0] != NULL))
+    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || (bra_.size() > 0 && bra_[0] != NULL)))
       throw (EParamProblem("Pre-propagated time series requires a propagator as first element int the ket and bra definitions."));
 
     /* Run initial time series, if not already present */
-- 
2.43.0


From 1ac24af005edd3c13a28666c0f734b9bacf56385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 082/116] fix: correlation functions refuse a write cycle below
 one

---
 src/ProgCfun.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index a40d978..41f2aad 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -84,6 +84,8 @@ namespace QDLIB
 
     if ( attr.isPresent("wcycle") ) {
 	attr.GetValue("wcycle", wcycle_);
+	if (wcycle_ < 1)
+	    throw ( EParamProblem("wcycle must be larger than 0") );
     }
 
     log.Header("Correlation function parameters", Logger::Section);
-- 
2.43.0


From f6cb4a3ff430bbd04344ff2bda186f5d0b5cf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 083/116] fix: correlation functions read the stored baseline
 propagation they are given

---
 src/ProgCfun.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 41f2aad..7b21588 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -432,21 +432,28 @@ namespace QDLIB
 	int Nt, wcycle;
 	double dt;
 	propagation_meta.GetValue("Nt", Nt);
-	propagation_meta.GetValue("wcycle", wcycle);
+	propagation_meta.GetValue("Wcycle", wcycle);
 	propagation_meta.GetValue("dt", dt);
 
+	if (wcycle < 1)
+	    throw(EParamProblem("Propagation meta file has no write cycle"));
+
+	string wf_name;
+	propagation_meta.GetValue("WFBaseName", wf_name);
+
 	master_clock_.Dt(dt);
 	master_clock_.Steps(Nt);
 	wcycle_ = wcycle;		/* use wcycle from propagation */
 
 	/* Read propagation */
-	wfbuffer.ReadFromFiles(read_dir_);
+	wfbuffer.ReadFromFiles(read_dir_ + "/" + wf_name, 0, 1, Nt/wcycle);
 
-	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size());
+	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size() * wcycle);
 	if (wfbuffer.Size() < 1 )
 	  throw (EParamProblem("Wave function buffer is empty"));
 
-	Psi0 = wfbuffer[0];
+	Psi0 = wfbuffer[0]->NewInstance();
+	*Psi0 = wfbuffer[0];
     }
 
     log.IndentDec();
-- 
2.43.0


From 1b2f28ce32f103df66cfe8c5ed40048a75c28d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 084/116] fix: the check of the initial guess keeps the moving
 targets of the optimal control

---
 src/ProgOCT.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 8253014..a5b8afd 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -457,7 +457,10 @@ namespace QDLIB
    {
       QDClock *clock = QDGlobalClock::Instance(); /* use the global clock */
 
-      for (int t = 0; t < _ntargets; t++) /* Save t=0 */
+      /* The buffer holds the moving targets, if there are some */
+      bool save = !(_mv && _ttype == ov);
+
+      for (int t = 0; t < _ntargets && save; t++) /* Save t=0 */
          _memwfbuf[t].Set(0, wf[t]);
 
       clock->Begin();
@@ -468,7 +471,8 @@ namespace QDLIB
                _Gobbler->Apply(wf[t]);
                wf[t]->Normalize();
             }
-            _memwfbuf[t].Set(s + 1, wf[t]);
+            if (save)
+               _memwfbuf[t].Set(s + 1, wf[t]);
          }
          ++(*clock);
       }
-- 
2.43.0


From 9291e1518107ddbc3d4e7e6bfef702161b53ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 085/116] fix: optimal control finds field couplings on the
 diagonal of a multistate Hamiltonian

---
 src/ChainLoader.h | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/ChainLoader.h b/src/ChainLoader.h
index de09de6..87daa21 100644
--- a/src/ChainLoader.h
+++ b/src/ChainLoader.h
@@ -106,12 +106,16 @@ namespace QDLIB
          sop = new C*[n];
 	 package->States(ms->States());
 	 for(int i=0; i < ms->States(); i++){
-            for(int j=0; j < i; j++){
-	       if (ms->State(i,j) != NULL){ 
+            for(int j=0; j < ms->States(); j++){
+               /* Elements assumed to be adjoint share one operator */
+               if (j > i && ms->State(i,j) == ms->State(j,i)) continue;
+
+	       if (ms->State(i,j) != NULL){
                   max=n;
                   res = FindOperatorType<C>(ms->State(i,j), sop, max, label, index+nops);
 		  if (res != NULL){
 		     package->Add(res, i, j);
+		     if (ms->State(j,i) == NULL) package->Hermitian(false);
                      for (int k=0; k < max; k++){
                         found[index+nops+k] = sop[index+nops+k];
                         if (nops+k >= n){
@@ -120,24 +124,6 @@ namespace QDLIB
                         }
                      }
                      nops += max;
-		     if (ms->State(i,j) != ms->State(j,i) && ms->State(j,i) != NULL) {
-                        cout << "Look for NH counterpart: " << ms->State(i,j) << " " << ms->State(j,i) << endl;
-                        cout << "Label: " << *label << endl;
-                        max=n;
-                        res = FindOperatorType<C>(ms->State(j,i), sop, max, label, index+nops);
-		        if (res != NULL){
-                           cout << "Found an j,i" << ms->State(j,i)->Name()  << endl;
-		           package->Add(res, j, i);
-                           for (int k=0; k < max; k++){
-                              found[index+nops+k] = sop[index+nops+k];
-                              if (nops+k >= n){
-                                 delete[] sop;
-                                 return package;
-                              }
-                           }
-                           nops += max;
-                        }
-		     }
 		  }
                   /* Abort if limit is reached prematurely */
                   if (nops > n){
-- 
2.43.0


From c89f6cebdcaf6075569fabf32c81caeec897b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 086/116] fix: the feedback iteration of the optimal control
 propagates backward in the field it calculates

---
 src/ProgOCT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index a5b8afd..69fdcf3 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -642,7 +642,7 @@ namespace QDLIB
 
 
          for (int l = 0; l < _nlaser; l++)
-            _laserb[l]->Set(laser);
+            _laserf[l]->Set(laser); /* (the fields are exchanged) */
 
          /* Save back steps */
          for (int t=0; t < _ntargets; t++)
-- 
2.43.0


From 94ea8d21366c5e3e897b4c897d1eff4f72683187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 087/116] fix: the frequency restricted optimal control reports
 the overlap with the target itself

---
 src/ProgOCT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 69fdcf3..ace9e33 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -799,6 +799,10 @@ namespace QDLIB
          }
          ++(*clock);
       }
+      if (!_mv) {
+         for (int t=0; t < _ntargets; t++)
+            *(phit[t]) = _memwfbuf[t][clock->Steps()];
+      }
    }
 
    /**
-- 
2.43.0


From 9f4f5b4584317f5f214228119f1336e8a4a32dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 088/116] fix: the search for coupling operators releases
 unused containers only once

---
 src/ChainLoader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ChainLoader.h b/src/ChainLoader.h
index 87daa21..7c8a064 100644
--- a/src/ChainLoader.h
+++ b/src/ChainLoader.h
@@ -91,7 +91,7 @@ namespace QDLIB
          n = nops;
          delete[] sop;
          if (nops == 0) {
-            delete package;
+            DELETE_OP(package);
             return NULL;
          } else {
             return package;
@@ -130,7 +130,7 @@ namespace QDLIB
                      n = nops;
                      delete[] sop;
                      if (nops == 0) {
-                        delete package;
+                        DELETE_OP(package);
                         return NULL;
                      } else {
                         return package;
@@ -142,7 +142,7 @@ namespace QDLIB
          n = nops;
          delete[] sop;
          if (nops == 0) {
-            delete package;
+            DELETE_OP(package);
             return NULL;
          } else {
             return package;
-- 
2.43.0


From 98e1ba31f6e4646a01b5cf3a943d745b063d5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:19 +0000
Subject: [PATCH 089/116] fix: an optimal control set-up that fails ends
 without deleting an undefined operator

---
 src/ProgOCT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index ace9e33..bcf02b6 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -21,7 +21,7 @@ namespace QDLIB
       _octNode(OCTNode), _ContentNodes(NULL), _fname(DEFAULT_BASENAME_LASER), _dir(""),
                _iterations(DEFAULT_ITERATIONS), _convergence(DEFAULT_CONVERGENCE), _writel(false),
                _method(krotov), _coupling(dipole), _ttype(ov), _phase(false),
-               _ntargets(1), _mv(false), _alpha(1), _Gobbler(NULL), _opwf(NULL)
+               _ntargets(1), _mv(false), _alpha(1), _Coup(NULL), _Gobbler(NULL), _opwf(NULL)
    {
       for (int i = 0; i < MAX_TARGETS; i++) {
          PsiI[i] = NULL;
-- 
2.43.0


From a7b98a99625b5581252cb893d0b42a7d751644f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 090/116] fix: the feedback iteration of the optimal control
 applies the target operator to the final state

---
 src/ProgOCT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index bcf02b6..1c33d38 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -622,7 +622,7 @@ namespace QDLIB
       /* Create target */
       if (_ttype == op)
          for (int t = 0; t < _ntargets; t++)
-            _Otarget[t]->Apply(phit[t], phii[t]);
+            _Otarget[t]->Apply(phit[t], _memwfbuf[t][clock->Steps()]);
 
       /* Propagate Target Backward with new field (1) */
       clock->End();
-- 
2.43.0


From 1f9f7e3e6fada9e4d9be122e3bec9b5b7226b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 091/116] fix: optimal control refuses targets that don't match
 the initial wave function

---
 src/ProgOCT.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 1c33d38..20b7ed0 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -879,6 +879,8 @@ namespace QDLIB
             } else /* Load simple target */
             PsiT[t] = ChainLoader::LoadWaveFunctionChain(section);
             delete section;
+            if (PsiT[t]->Name() != PsiI[t]->Name() || PsiT[t]->size() != PsiI[t]->size())
+               throw(EIncompatible("Target does not match the initial wave function: ", PsiT[t]->Name()));
          }
          if (_mv){
             for (int t = 0; t < _ntargets; t++)
-- 
2.43.0


From e3ac0681487e40f11986ec8ca7fc7af168d138b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 092/116] fix: frequency restricted optimal control restores
 the targets only where absorption requires it

---
 src/ProgOCT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 20b7ed0..aea5739 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -799,7 +799,7 @@ namespace QDLIB
          }
          ++(*clock);
       }
-      if (!_mv) {
+      if (!_mv && _Gobbler) { /* Absorbed targets are not restored by the forward propagation */
          for (int t=0; t < _ntargets; t++)
             *(phit[t]) = _memwfbuf[t][clock->Steps()];
       }
-- 
2.43.0


From fc4124b2122abe3ff9ccde8dab00ff2cc9c80f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 093/116] fix: comments and line ends of short inputs are
 accepted everywhere, unknown characters refused

---
 src/simpleXml/grammar.yy   | 4 +---
 src/simpleXml/simpleXml.ll | 6 ++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simpleXml/grammar.yy b/src/simpleXml/grammar.yy
index e20c167..ad71727 100644
--- a/src/simpleXml/grammar.yy
+++ b/src/simpleXml/grammar.yy
@@ -117,7 +117,7 @@ void CheckRoot()
 
 %locations
 %error-verbose
-%token <sval> TOKID QSTRING BEGINSEC ENDSEC EQUAL QUOTE COMMENT VARDEF VAREXP FOR CONCAT FMT
+%token <sval> TOKID QSTRING BEGINSEC ENDSEC EQUAL QUOTE VARDEF VAREXP FOR CONCAT FMT
 %type <sval> strexp 
 %left CONCAT
 
@@ -126,8 +126,6 @@ lines:
 	| lines line
 ;
 line:
-   COMMENT { }
-   |
    VARDEF EQUAL strexp
    {
       varlist[string($1)] = $3;
diff --git a/src/simpleXml/simpleXml.ll b/src/simpleXml/simpleXml.ll
index ea3df16..737d62e 100644
--- a/src/simpleXml/simpleXml.ll
+++ b/src/simpleXml/simpleXml.ll
@@ -5,10 +5,11 @@
 /* Helper for line numbers */
 #define YY_USER_INIT yylloc.first_line=1;
 extern int line_num;
+void yyerror(const char *str);
 %}
 
 %%
-[#].*$                    yylval.sval=strdup(yytext);  return COMMENT;
+[#].*                     ;
 for                       yylval.sval=strdup(yytext);  return FOR;
 $[a-zA-Z0-9_]+            {
 		             yylval.sval=strdup(yytext+1);
@@ -33,6 +34,7 @@ $\([a-zA-Z0-9_]+\)        {
 \"		return QUOTE;
 \~		return CONCAT;
 \n yylloc.first_line++; line_num++;
-[ \t] ;
+[ \t\r] ;
+.               yyerror("xmlsimple parser: Unknown character"); return QUOTE;
 %%
 
-- 
2.43.0


From 4496d5c42cc11f7cc5696116b11a3ede70b0345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 094/116] fix: missing and superfluous braces of short inputs
 are reported

---
 src/simpleXml/Simple2Xml.cpp | 17 +++++++++++++++--
 src/simpleXml/grammar.yy     |  6 ++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 414491f..86cc9d3 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -17,6 +17,19 @@ int yyparse();
 extern FILE* yyin;
 extern FILE* _yyout;
 extern stringstream ss_yy_buf;
+extern int indent;
+
+/**
+ * Translate the input file.
+ */
+static void ParseInput()
+{
+   yyparse();
+   fclose(yyin);
+
+   if (indent != 0)
+      throw (QDLIB::EParamProblem("xmlsimple parser: Missing closing brace"));
+}
 
 namespace QDSXML {
 
@@ -96,7 +109,7 @@ namespace QDSXML {
          throw (QDLIB::EIOError(errno, oname) );
 
       
-      yyparse();
+      ParseInput();
 
       of << ss_yy_buf.str();
       //fclose(_yyout);
@@ -114,7 +127,7 @@ namespace QDSXML {
       if (!yyin)
          throw (QDLIB::EIOError(errno, iname) );
 
-      yyparse();
+      ParseInput();
 
       buf = ss_yy_buf.str();
    }
diff --git a/src/simpleXml/grammar.yy b/src/simpleXml/grammar.yy
index ad71727..eef68a9 100644
--- a/src/simpleXml/grammar.yy
+++ b/src/simpleXml/grammar.yy
@@ -190,13 +190,15 @@ line:
    |
 	ENDSEC
 	{        
+             if (level == NULL || level->Parent() == NULL)
+             	throw (QDLIB::EParamProblem("Too many closing braces!"));
              indent--;
              level = level->Parent();
-             if (level == NULL) 
-             	throw (QDLIB::EParamProblem("Too many closing braces!"));
              if (indent == 0){
                 root->execute();
                 delete root;
+                root = NULL;
+                level = NULL;
              }
 	}
    | error
-- 
2.43.0


From b8911e7e465e56edac4af0f6bf1c9895894671e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 095/116] fix: loops of short inputs run to their end with the
 full value of the variable

---
 src/simpleXml/SyntacticTreeModel.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index aa9da65..e533c83 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -34,9 +34,9 @@ int Str2Int(string& s){
 
 double Str2Double(const char* s){
    double val;
-   int ret;
-   ret = sscanf(s, "%lf", &val);
-   if (ret <= 0)
+   int ret, len = 0;
+   ret = sscanf(s, "%lf%n", &val, &len);
+   if (ret <= 0 || s[len] != 0)
      throw (QDLIB::EParamProblem("Not an floating point number", s));
    return val;
 }
@@ -236,17 +236,29 @@ class forloop: public block
          loopvar = var;
       }
 
+      /**
+       * Number of passes, the end is included. The step always leads towards the end.
+       */
+      int Count()
+      {
+         if ((end - begin) * step < 0) step = -step;
+
+         double n = fabs((begin-end)/step) + 1e-9;
+         if (step == 0 || !(n < 1e9))
+            throw (QDLIB::EParamProblem("Invalid range for loop variable", loopvar));
+         return int(n) + 1;
+      }
+
       virtual void execute()
       {
+         int n = Count();
          Indent();
          ss_yy_buf << "<!-- for " << loopvar << " = " << begin << " " << end << " " << step << " -->\n";
-         double d = begin;
-         for (uint i=0; i <= int(fabs((begin-end)/step)); i++){
+         for (int i=0; i < n; i++){
             char s[64];
-            sprintf(s, "%g", d);
+            snprintf(s, 64, "%.12g", begin + i * step);
             varlist[loopvar] = s;
             block::execute();
-            d += step;
          }
       }
 };
-- 
2.43.0


From 77c06f7bedf1552cb41bb79c6c25160bd4dc8687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 096/116] fix: variables of short inputs take their whole
 value, in the order of the input

---
 src/simpleXml/SyntacticTreeModel.h | 168 +++++++++++++++++++----------
 src/simpleXml/grammar.yy           |  50 ++-------
 2 files changed, 122 insertions(+), 96 deletions(-)

diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index e533c83..3cd251c 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -91,47 +91,68 @@ class varstring
          fmtlist.push_back(string(fmt));
       }
 
-      string& GetString()
+      /**
+       * The string with the present values of the variables.
+       */
+      string GetString()
       {
-         string *s = new string();
-         for (size_t i = 0; i < seqlist.size(); i++) {
-            if (seqtype[i] == str)
-               *s += seqlist[i];
-            else
-               *s += varlist[seqlist[i]];
-         }
-         return *s;
-      }
+         string res;
+         char buf[SIMPLEXML_BUF_SIZE];
 
-      void print()
-      {
-	 char buf[SIMPLEXML_BUF_SIZE];
          for (size_t i = 0; i < seqlist.size(); i++) {
-            if (seqtype[i] == str)
-               snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), seqlist[i].c_str());
-            else {
-               string& s = fmtlist[i];
-               char& fmt = s[s.length() - 1];
-               switch (fmt) {
-                  case 'd':
-                     snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), Str2Int(varlist[seqlist[i]]));
-                     break;
-                  case 'f':
-                    snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), Str2Double(varlist[seqlist[i]]));
-
-                     break;
-                  case 's':
-                  default:
-                    snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), varlist[seqlist[i]].c_str());
-                     break;
+            string s = seqlist[i];
+            if (seqtype[i] == var) {
+               s = varlist[seqlist[i]];
+               string& fmt = fmtlist[i];
+               if (fmt != "%s") {
+                  switch (fmt[fmt.length() - 1]) {
+                     case 'd':
+                        snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), Str2Int(s));
+                        break;
+                     case 'f':
+                        snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), Str2Double(s));
+                        break;
+                     case 's':
+                     default:
+                        snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), s.c_str());
+                        break;
+                  }
+                  s = buf;
                }
             }
-            ss_yy_buf << buf;
+            res += s;
          }
-
+         return res;
       }
 };
 
+/**
+ * Replace the characters with a special meaning in XML.
+ */
+string EscapeString(const string& s)
+{
+   string es;
+   for (size_t i = 0; i < s.length(); i++) {
+      switch (s[i]) {
+         case '<':
+            es += "&lt;";
+            break;
+         case '>':
+            es += "&gt;";
+            break;
+         case '&':
+            es += "&amp;";
+            break;
+         case '"':
+            es += "&quot;";
+            break;
+         default:
+            es += s[i];
+      }
+   }
+   return es;
+}
+
 /**
  * A basic code block.
  */
@@ -174,12 +195,14 @@ class block
       }
 
       /**
-       * Execute/Run the translation.
+       * Execute/Run the translation, in the order of the input.
+       *
+       * \param attr  collects the attributes of the enclosing xml node
        */
-      virtual void execute()
+      virtual void execute(string& attr)
       {
          for (uint i = 0; i < children.size(); i++)
-            children[i]->execute();
+            children[i]->execute(attr);
       }
 
       virtual ~block()
@@ -190,6 +213,46 @@ class block
 
 };
 
+/**
+ * Definition of a variable.
+ */
+class assignment: public block
+{
+   private:
+      string name;
+      varstring value;
+   public:
+      assignment(const char *s, varstring &v) :
+         name(s), value(v)
+      {
+      }
+
+      virtual void execute(string& attr)
+      {
+         varlist[name] = value.GetString();
+      }
+};
+
+/**
+ * Attribute of an xml node.
+ */
+class attribute: public block
+{
+   private:
+      string name;
+      varstring value;
+   public:
+      attribute(const char *s, varstring &v) :
+         name(s), value(v)
+      {
+      }
+
+      virtual void execute(string& attr)
+      {
+         attr += " " + name + "=\"" + EscapeString(value.GetString()) + "\"";
+      }
+};
+
 /**
  * Block representing a for loop.
  */
@@ -249,7 +312,7 @@ class forloop: public block
          return int(n) + 1;
       }
 
-      virtual void execute()
+      virtual void execute(string& attr)
       {
          int n = Count();
          Indent();
@@ -258,7 +321,7 @@ class forloop: public block
             char s[64];
             snprintf(s, 64, "%.12g", begin + i * step);
             varlist[loopvar] = s;
-            block::execute();
+            block::execute(attr);
          }
       }
 };
@@ -269,8 +332,6 @@ class forloop: public block
 class xmlnode: public block
 {
    private:
-      vector<varstring> attributes;
-      vector<varstring> values;
       string name;
    public:
       xmlnode(char *s) :
@@ -281,27 +342,20 @@ class xmlnode: public block
       {
          name = s;
       }
-      void AddAttribute(varstring &attr, varstring &val)
-      {
-         attributes.push_back(attr);
-         values.push_back(val);
-      }
 
-      virtual void execute()
+      virtual void execute(string& attr)
       {
-         Indent();
-         ss_yy_buf << "<" << name;
-         for (uint i = 0; i < attributes.size(); i++) {
-            ss_yy_buf << " ";
-            attributes[i].print();
-            ss_yy_buf << "=\"";
-            values[i].print();
-            ss_yy_buf << "\"";
-         }
+         string own;           /* attributes */
+         stringstream content; /* child nodes */
 
-         if (children.size() > 0) {
-            ss_yy_buf << ">\n";
-            block::execute();
+         content.swap(ss_yy_buf);
+         block::execute(own);
+         content.swap(ss_yy_buf);
+
+         Indent();
+         ss_yy_buf << "<" << name << own;
+         if (content.str().length() > 0) {
+            ss_yy_buf << ">\n" << content.str();
             Indent();
             ss_yy_buf << "</" << name << ">\n";
          } else
diff --git a/src/simpleXml/grammar.yy b/src/simpleXml/grammar.yy
index eef68a9..4fdc6f3 100644
--- a/src/simpleXml/grammar.yy
+++ b/src/simpleXml/grammar.yy
@@ -53,40 +53,6 @@ block *level = NULL;
 varstring *vstr = NULL;
 
 
-char* EscapeString(const char* s)
-{
-	char* es = (char*) malloc(strlen(s)*6+1);
-	char* scpy = es;
- 	for(size_t i=0; i < strlen(s); i++){
- 		switch(s[i]) {
- 		 	case '<':
- 		 	 		 *scpy = '&';scpy++;
- 		 	 		 *scpy = 'l';scpy++;
- 		 	 		 *scpy = 't';scpy++;
- 		 	 		 *scpy = ';';scpy++;
- 		 	 		 break;
- 		 	case '>':
- 		 	 		 *scpy = '&';scpy++;
- 		 	 		 *scpy = 'g';scpy++;
- 		 	 		 *scpy = 't';scpy++;
- 		 	 		 *scpy = ';';scpy++;
- 		 	 		 break;
- 		 	case '&':
- 		 	 		 *scpy = '&';scpy++;
- 		 	 		 *scpy = 'a';scpy++;
- 		 	 		 *scpy = 'm';scpy++;
- 		 	 		 *scpy = 'p';scpy++;
- 		 	 		 *scpy = ';';scpy++;
- 		 	 		 break;
- 		 	default:
-    				*scpy = s[i];	
- 					scpy++;
- 		}
- 	}
- 	*scpy = 0;
- 	return es;
-}
-
 void AppendStr(const char* s)
 {
 	if (vstr == NULL) vstr = new varstring(s);
@@ -128,7 +94,13 @@ lines:
 line:
    VARDEF EQUAL strexp
    {
-      varlist[string($1)] = $3;
+      assignment *node = new assignment($1, *vstr);
+      if (level == NULL) {
+         string attr;
+         node->execute(attr);
+         delete node;
+      } else
+         level->AddChild(node);
       delete vstr;
       vstr = NULL;
    }
@@ -182,8 +154,7 @@ line:
          err = ss.str();
          yyerror(err.c_str());
       }
-      varstring attr($1);
-      node->AddAttribute(attr, *vstr);
+      node->AddChild(new attribute($1, *vstr));
       delete vstr;
       vstr = NULL;
    }
@@ -195,7 +166,8 @@ line:
              indent--;
              level = level->Parent();
              if (indent == 0){
-                root->execute();
+                string attr;
+                root->execute(attr);
                 delete root;
                 root = NULL;
                 level = NULL;
@@ -212,7 +184,7 @@ line:
 ;
 strexp:
 	TOKID { AppendStr($1); }
-	| QSTRING { char* es=EscapeString($1); AppendStr(es);  free(es);}
+	| QSTRING { AppendStr($1); }
 	| VAREXP { AppendVar(strdup(string($1).c_str())); }	
 	| VAREXP FMT { AppendVar(strdup(string($1).c_str()),$2); }
 	| strexp CONCAT strexp { }
-- 
2.43.0


From 16cdb9310cd316e11696820ad1409d8b87215264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 097/116] fix: invalid formats in short inputs are refused

---
 src/simpleXml/SyntacticTreeModel.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index 3cd251c..7b15d0a 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -14,6 +14,8 @@
 
 #include "tools/Exception.h"
 #include <math.h>
+#include <string.h>
+#include <algorithm>
 
 #define SIMPLEXML_BUF_SIZE 1024
 
@@ -105,18 +107,23 @@ class varstring
                s = varlist[seqlist[i]];
                string& fmt = fmtlist[i];
                if (fmt != "%s") {
-                  switch (fmt[fmt.length() - 1]) {
+                  int len, flags = strspn(fmt.c_str() + 1, "0123456789.") + 1;
+                  if (flags + 1 != (int) fmt.length() || count(fmt.begin(), fmt.end(), '.') > 1)
+                     throw (QDLIB::EParamProblem("Invalid format", fmt));
+                  switch (fmt[flags]) {
                      case 'd':
-                        snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), Str2Int(s));
+                        len = snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), Str2Int(s));
                         break;
                      case 'f':
-                        snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), Str2Double(s));
+                        len = snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), Str2Double(s));
                         break;
                      case 's':
                      default:
-                        snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), s.c_str());
+                        len = snprintf(buf, SIMPLEXML_BUF_SIZE, fmt.c_str(), s.c_str());
                         break;
                   }
+                  if (len < 0 || len >= SIMPLEXML_BUF_SIZE)
+                     throw (QDLIB::EParamProblem("Formatted value too long", fmt));
                   s = buf;
                }
             }
-- 
2.43.0


From 6c9dd9cf4f52539a1a2b2f98059ca02a8c51b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 098/116] fix: the type of an input file doesn't depend on its
 comments and length

---
 src/simpleXml/Simple2Xml.cpp | 63 +++++++++++-------------------------
 1 file changed, 18 insertions(+), 45 deletions(-)

diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 86cc9d3..e600b77 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -11,8 +11,6 @@
 #include <sstream>
 #include "tools/Exception.h"
 
-#define CHUNK 1024
-
 int yyparse();
 extern FILE* yyin;
 extern FILE* _yyout;
@@ -40,52 +38,27 @@ namespace QDSXML {
     */
    FileType CheckType(const string & name)
    {
-      FILE *file;
-      char buf[CHUNK];
-      char *ind = NULL;
-      size_t size = CHUNK;
-      
+      std::ifstream file(name.c_str());
+
       /* Open file */
-      file = fopen(name.c_str(), "r");
-      
-      if (!file)
+      if (!file.is_open())
          throw (QDLIB::EIOError(errno, name) );
-      
-      memset( (void*) buf, 0, CHUNK);
-      
-      /* Read a test chunk */
-      size = fread( (void*) buf, 1, CHUNK, file );
-      
-      if ( size == 0 ) {
+
+      std::stringstream ss;
+      ss << file.rdbuf();
+      string buf = ss.str();
+
+      if (buf.empty())
          throw (QDLIB::EIOError("Can't read from file: ", name) );
-      }
-      
-      fclose(file);
-      
-      /* Look for file type indications - quick & dirty */
-      bool simple = false;
-      bool xml = false;
-      
-      /* Check for XML */
-//      ind = strstr(buf, "<");
-//      if (ind != NULL) xml = true;
-      ind = strstr(buf, "/>");
-      if (ind != NULL) xml |= true;
-      ind = strstr(buf, "</");
-      if (ind != NULL) xml |= true;
-//      ind = strstr(buf, ">");
-//      if (ind != NULL) xml &= true;
-      
-      if (xml) return XML;
-      
-      /* Check for XML */
-      ind = strstr(buf, "{");
-      if (ind != NULL) simple = true;
-      ind = strstr(buf, "}");
-      if (ind != NULL) simple &= true;
-      
-      if (simple) return SIMPLE;
-      
+
+      /* XML starts with a tag, possibly after a byte order mark */
+      size_t start = buf.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : 0;
+      start = buf.find_first_not_of(" \t\r\n", start);
+
+      if (start != string::npos && buf[start] == '<') return XML;
+
+      if (buf.find('{') != string::npos && buf.find('}') != string::npos) return SIMPLE;
+
       return UNKNOWN;
    }
 
-- 
2.43.0


From 41f9046f43c29f822ca8a468c29b45a47812841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 099/116] fix: invalid number of OCT targets: no access beyond
 the target list while the error is reported

---
 src/ProgOCT.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index aea5739..9be0dad 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -215,11 +215,13 @@ namespace QDLIB
 
       /* Target type to use */
       if (attr.isPresent("ntargets")) {
-         attr.GetValue("ntargets", _ntargets);
-         if (_ntargets < 1)
-            throw(EParamProblem("Number of targets to small", _ntargets));
-         if (_ntargets > MAX_TARGETS)
-            throw(EParamProblem("Number of targets exceeding MAX_TARGETS", _ntargets));
+         int ntargets = _ntargets;
+         attr.GetValue("ntargets", ntargets);
+         if (ntargets < 1)
+            throw(EParamProblem("Number of targets to small", ntargets));
+         if (ntargets > MAX_TARGETS)
+            throw(EParamProblem("Number of targets exceeding MAX_TARGETS", ntargets));
+         _ntargets = ntargets;
       }
 
       if (attr.isPresent("alpha")) {
-- 
2.43.0


From 19093f41f65e6e7033a51da40685513ba8fd7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 100/116] fix: operator lists refuse a negative index (empty
 product)

---
 src/qdlib/OList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 3003f7e..8031503 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -46,7 +46,7 @@ namespace QDLIB {
     */
    Operator * OList::Get(int index)
    {
-      if (index >= _size)
+      if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
       return _O[index];
    }
-- 
2.43.0


From 7b3a8602bf80421ee34508010033ee095f54a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 101/116] fix: jump operator without clock or without operators
 is an error

---
 src/qdlib/OJump.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qdlib/OJump.cpp b/src/qdlib/OJump.cpp
index 945d864..982f235 100644
--- a/src/qdlib/OJump.cpp
+++ b/src/qdlib/OJump.cpp
@@ -58,6 +58,12 @@ namespace QDLIB {
 
     void OJump::Apply(WaveFunction *Psi)
     {
+       if (clock == NULL)
+          throw(EParamProblem("OJump: Operator has no clock"));
+
+       if (Size() < 1)
+          throw(EParamProblem("OJump: No jump operators given"));
+
        WaveFunction *buf = Psi->NewInstance();
        std::vector<double> csum(Size());
 
-- 
2.43.0


From c3dfd64e3bfb0bc853604ec5683c7ed3628d7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 102/116] fix: exponential of an operator without diagonal
 representation is an error

---
 src/qdlib/ODSpace.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qdlib/ODSpace.h b/src/qdlib/ODSpace.h
index 7a1f6ff..264ecc6 100644
--- a/src/qdlib/ODSpace.h
+++ b/src/qdlib/ODSpace.h
@@ -75,6 +75,8 @@ namespace QDLIB
          virtual void InitExponential (cVec *exp, dcomplex c)
          {
             if (_dspace == NULL) InitDspace();
+            if (_dspace == NULL || _dspace->size() != exp->size())
+               throw(EIncompatible("Operator has no diagonal representation", this->Name()));
             ExpElements(exp, _dspace, c);
          }
 
-- 
2.43.0


From 617b49d5bcb5058912aa4730b628dc79cf0f033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 103/116] fix: errors are printed when they occur while
 messages are suppressed

---
 src/qdng.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index 0455f12..bd1738b 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -329,6 +329,7 @@ int main(int argc, char **argv)
    } catch (Exception &e) {
       log.ConsoleOutput();
       log.flush();
+      log.Supress(false);
       log.cout() << "\n\n\t!!!A problematic error occured:\n\t";
       log.cout() << e.GetMessage() << "\n\n\n";
       log.cout() << "Error termination\n\n";
@@ -336,6 +337,7 @@ int main(int argc, char **argv)
    } catch (exception &e) { /* errors reported by the standard library, e.g. out of memory */
       log.ConsoleOutput();
       log.flush();
+      log.Supress(false);
       log.cout() << "\n\n\t!!!A problematic error occured:\n\t";
       log.cout() << e.what() << "\n\n\n";
       log.cout() << "Error termination\n\n";
-- 
2.43.0


From 357efa168c4798ed2d7ee3131fcb10a3e9d3c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:27 +0000
Subject: [PATCH 104/116] fix: interactive mode: answers of GET_GLOBAL_PARAMS,
 GET_EXPEC and GET_MATEL lack required fields

---
 src/CmdHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 8580ad2..544327d 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -592,7 +592,9 @@ namespace QDLIB
       gp.Write(s, false);
 
       Response resp;
+      resp.set_response(Response_response_t_OK);
       resp.set_msg(s);
+      resp.set_data_follows(false);
 
       send_response(resp);
    }
@@ -734,6 +736,7 @@ namespace QDLIB
 
       Response resp;
       resp.set_response(Response_response_t_OK);
+      resp.set_data_follows(false);
       resp.add_result(res.real());
       resp.add_result(res.imag());
       send_response(resp);
@@ -769,6 +772,7 @@ namespace QDLIB
       double res = Op->Expec(bk);
       Response resp;
       resp.set_response(Response_response_t_OK);
+      resp.set_data_follows(false);
       resp.add_result(res);
       send_response(resp);
    }
-- 
2.43.0


From 8545332c8b8a5592c3d6bbd9f9845ca4e527b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 105/116] fix: interactive mode: GET_MATEL does not acknowledge
 the command before it waits for the wave functions

---
 src/CmdHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 544327d..5a4e22e 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -712,6 +712,8 @@ namespace QDLIB
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
 
+      send_OK(false);
+
       // Get bra and ket
       FileWF file;
       file.SetInputStream(*sin_);
-- 
2.43.0


From b1c3146ba67f0df8d0c674f589a9bd2c3ec29a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 106/116] fix: interactive mode: commands with an operator,
 wave function or parameter missing are answered once and not carried out

---
 src/CmdHandler.cpp | 47 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 5a4e22e..0450e10 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -380,6 +380,7 @@ namespace QDLIB
       file.Name(cmd.param_s1());
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL) return;
 
       // Write to stream
       file.Compress(false);
@@ -570,6 +571,7 @@ namespace QDLIB
 
       if (!cmd.has_param_s1()){
          send_error_message("SET_GLOBAL_PARAMS is missing key/values");
+         return;
       }
 
       ParamContainer pm;
@@ -611,24 +613,32 @@ namespace QDLIB
 
    void CmdHandler::cmd_load_op(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()){
          send_error_message("LOAD_OP is missing a XML operator definition");
+         return;
+      }
 
-      get_operator_from_command(cmd);
+      if (get_operator_from_command(cmd) == NULL) return;
 
       send_OK(false);
    }
 
    void CmdHandler::cmd_load_U(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()){
          send_error_message("LOAD_U is missing a XML operator definition");
+         return;
+      }
 
-      if (!cmd.has_param_d1())
+      if (!cmd.has_param_d1()){
          send_error_message("LOAD_U is missing a time step");
+         return;
+      }
 
-      if (!cmd.has_param_d2())
+      if (!cmd.has_param_d2()){
          send_error_message("LOAD_U is missing  Nt");
+         return;
+      }
 
       try {
           XmlParser XMLfile;
@@ -659,6 +669,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       // Chose time step
       if (cmd.has_param_d1()){
@@ -686,12 +697,14 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL) return;
 
       // Send Response
       try {
          if (!Op->Valid(wf)) Op->Init(wf);
          if (!Op->Valid(wf)) {
             send_error_message("Operator initialized with incompatible wfs");
+            DELETE_WF(wf);
             return;
          }
          Op->Apply(wf);
@@ -711,6 +724,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       send_OK(false);
 
@@ -719,23 +733,32 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* bra = get_wf(file);
+      if (bra == NULL) return;
+
       WaveFunction* ket = get_wf(file);
+      if (ket == NULL) {
+         DELETE_WF(bra);
+         return;
+      }
+
+      dcomplex res;
 
       // Send Response
       try {
          if (!Op->Valid(bra)) Op->Init(bra);
          if (!Op->Valid(bra) || !Op->Valid(ket)) {
             send_error_message("Operator initialized with incompatible wfs");
+            DELETE_WF(bra);
+            DELETE_WF(ket);
             return;
          }
+         res = Op->MatrixElement(bra, ket);
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
          throw(e);
       }
 
       // Send response
-      dcomplex res = Op->MatrixElement(bra, ket);
-
       Response resp;
       resp.set_response(Response_response_t_OK);
       resp.set_data_follows(false);
@@ -751,6 +774,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       send_OK(false);
 
@@ -759,24 +783,31 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* bk = get_wf(file);
+      if (bk == NULL) return;
+
+      double res;
 
       // Send Response
       try {
          if (!Op->Valid(bk)) Op->Init(bk);
          if (!Op->Valid(bk)) {
             send_error_message("Operator initialized with incompatible wfs");
+            DELETE_WF(bk);
             return;
          }
+         res = Op->Expec(bk);
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
+         throw(e);
       }
 
-      double res = Op->Expec(bk);
       Response resp;
       resp.set_response(Response_response_t_OK);
       resp.set_data_follows(false);
       resp.add_result(res);
       send_response(resp);
+
+      DELETE_WF(bk);
    }
 
    /**
-- 
2.43.0


From 71c2633cd76184a8113905c8c79b4421f7a56fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 107/116] fix: interactive mode: unknown operator classes and
 commands which are not implemented end the session without an answer

---
 src/CmdHandler.cpp | 49 +++++++++++++++++++++++++++++++---------------
 src/CmdHandler.h   |  1 +
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 0450e10..0c6a0f7 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -313,6 +313,20 @@ namespace QDLIB
       return NULL;
    }
 
+   /**
+    * Create an operator from its class name. In case of an error NULL is returned.
+    */
+   Operator* CmdHandler::load_operator_class(const string& name)
+   {
+      try {
+         return ModuleLoader<Operator>::Instance()->Load(name);
+      } catch (Exception& e) {
+         send_error_message(e.GetMessage());
+      }
+
+      return NULL;
+   }
+
    /**
     * Get a wf from stream.
     *
@@ -450,16 +464,16 @@ namespace QDLIB
          return;
       }
 
-      Operator* op = ModuleLoader<Operator>::Instance()->Load(cmd.param_s2());
-
-      if (op == NULL)
-         throw(EParamProblem("Operator module not found"));
-
+      Operator* op = load_operator_class(cmd.param_s2());
+      if (op == NULL) return;
 
       Serializiable* ser = dynamic_cast<Serializiable*>(op);
 
-      if (ser == NULL)
-         throw(EIncompatible("Not a serializable object", op->Name()));
+      if (ser == NULL){
+         send_error_message("Not a serializable object: " + op->Name());
+         DELETE_OP(op);
+         return;
+      }
 
       // Read Operator from file
       FileSingle<Serializiable> file;
@@ -511,20 +525,23 @@ namespace QDLIB
          ser = dynamic_cast<Serializiable*>(laser);
       } else {
          string op_name(cmd.param_s2());
-         if (op_name.length() == 0)
-            throw(EParamProblem("Empty operator name"));
+         if (op_name.length() == 0){
+            send_error_message("Empty operator name");
+            return;
+         }
 
          if (op_name[0] == 'O') op_name.erase(0, 1); // Kill the leading O
 
-         op = ModuleLoader<Operator>::Instance()->Load(op_name);
-
-         if (op == NULL)
-            throw(EParamProblem("Operator module not found"));
+         op = load_operator_class(op_name);
+         if (op == NULL) return;
 
          ser = dynamic_cast<Serializiable*>(op);
 
-         if (ser == NULL)
-            throw(EIncompatible("Not a serializable object", op->Name()));
+         if (ser == NULL){
+            send_error_message("Not a serializable object: " + op->Name());
+            DELETE_OP(op);
+            return;
+         }
       }
 
       send_OK(false);
@@ -887,7 +904,7 @@ namespace QDLIB
                cmd_apply_op(cmd);
                break;
             default:
-               throw(EParamProblem("Unknown command code: ", cmd.cmd()));
+               send_error_message("Command not implemented");
             break;
          }
 
diff --git a/src/CmdHandler.h b/src/CmdHandler.h
index f634308..4434312 100644
--- a/src/CmdHandler.h
+++ b/src/CmdHandler.h
@@ -42,6 +42,7 @@ namespace QDLIB
          void RecvBinary();
 
          Operator* get_operator_from_command(Command& cmd);
+         Operator* load_operator_class(const string& name);
          WaveFunction* get_wf(FileWF& file);
          void put_wf_to_stream(FileWF& file, WaveFunction* wf);
 
-- 
2.43.0


From 7d7ef98d8e22f765d647b23e4f4442a99d56e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 108/116] fix: interactive mode: an input that ends or cannot
 be understood is not detected

---
 src/CmdHandler.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 0c6a0f7..cf91d48 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -240,7 +240,7 @@ namespace QDLIB
    /**
     * Initialize interactive mode with given I/O streams to exchange commands.
     */
-   CmdHandler::CmdHandler(istream& in, ostream& out) : fifo_(NULL), sin_(&in), sout_(&out)
+   CmdHandler::CmdHandler(istream& in, ostream& out) : buffer(NULL), fifo_(NULL), sin_(&in), sout_(&out)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -836,6 +836,7 @@ namespace QDLIB
 
       Logger& log = Logger::InstanceRef();
 
+      const uint32_t max_size = 1 << 28;
       uint32_t msg_size;
       Command cmd;
       Response resp;
@@ -844,13 +845,25 @@ namespace QDLIB
          log.coutdbg() << "Waiting for input.." << endl;
          log.flush();
          sin_->read(reinterpret_cast<char*>(&msg_size), sizeof(msg_size));
+         if (sin_->fail())
+            throw (EIOError("Couldn't read the next command"));
+
          log.coutdbg() << "msg_size: " << msg_size << endl;
 
+         if (msg_size > max_size) {
+            send_error_message("Command is too large");
+            throw (EParamProblem("Command is too large"));
+         }
+
          buffer = new char[msg_size];
          sin_->read(reinterpret_cast<char*>(buffer), msg_size);
+         if (sin_->fail())
+            throw (EIOError("Couldn't read the next command"));
 
-         if ( !cmd.ParseFromArray(buffer, msg_size) )
+         if ( !cmd.ParseFromArray(buffer, msg_size) ) {
+            send_error_message("Parsing the command from input failed");
             throw (EParamProblem("Parsing the command from input failed"));
+         }
 
          log.cout() << "cmd_type: "
                   << cmd.command_t_descriptor()->FindValueByNumber(cmd.cmd())->name() << endl;
-- 
2.43.0


From 52de6d8b818d736b9f4882897fb0ccc84a91378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 109/116] fix: interactive mode: CLEAR_OBJECTS leaves the
 loaded operators in the storage and deletes the clocks they use

---
 src/CmdHandler.cpp   | 2 +-
 src/GlobalOpList.cpp | 6 ++++--
 src/GlobalOpList.h   | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index cf91d48..70d553a 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -623,7 +623,7 @@ namespace QDLIB
     */
    void CmdHandler::cmd_clear_objects()
    {
-      GlobalOpList::Instance().Clear();
+      GlobalOpList::Instance().Clear(true);
       Collector<QDClock>::Instance()->Delete();
       send_OK(false);
    }
diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 1b26364..09629b0 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -208,14 +208,16 @@ namespace QDLIB {
 
    /**
     * Clear the Operators in the storage, but leave persistent Ops untouched.
+    *
+    * \param all Clear the persistent Ops too.
     */
-   void QDLIB::GlobalOpList::Clear()
+   void QDLIB::GlobalOpList::Clear(bool all)
    {
       map<string, _OpEntry>::iterator it;
 
       it = _OpStore.begin();
       while ( it != _OpStore.end() ) {
-         if ( ! ((*it).second).persist ) {
+         if ( all || ! ((*it).second).persist ) {
             DELETE_OP(((*it).second).Op);
             _OpStore.erase(it);
             it = _OpStore.begin(); /* iterator is now invalid => start over */
diff --git a/src/GlobalOpList.h b/src/GlobalOpList.h
index 4ee35d1..d25e44f 100644
--- a/src/GlobalOpList.h
+++ b/src/GlobalOpList.h
@@ -43,7 +43,7 @@ namespace QDLIB {
          static GlobalOpList& Instance();
          static void Destroy();
          
-         void Clear();
+         void Clear(bool all = false);
          
          void Add(string &key, Operator* op, bool persist = false);
          
-- 
2.43.0


From 28c3e6bbfc7c879c8caf8f281a01e338f24cdf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:16 +0000
Subject: [PATCH 110/116] fix: FIFO: reason of a failure is not reported, first
 FIFO is left behind

---
 src/tools/FIFO.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/FIFO.cpp b/src/tools/FIFO.cpp
index 2a21e8d..2906a20 100644
--- a/src/tools/FIFO.cpp
+++ b/src/tools/FIFO.cpp
@@ -16,6 +16,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <stdlib.h>
+#include <errno.h>
 
 
 #include "Exception.h"
@@ -30,12 +31,15 @@ namespace QDLIB
       int ret = mkfifo((_fname + "rx").c_str(), S_IRUSR | S_IWUSR);
 
       if (ret != 0)
-         throw(EIOError(ret, _fname));
+         throw(EIOError(errno, _fname + "rx"));
 
       ret = mkfifo((_fname + "tx").c_str(), S_IRUSR | S_IWUSR);
 
-      if (ret != 0)
-         throw(EIOError(ret, _fname));
+      if (ret != 0) {
+         ret = errno;
+         FS::Remove(_fname + "rx");
+         throw(EIOError(ret, _fname + "tx"));
+      }
 
       /* Open the FIFO
        * Since a FIFO is unidirectional according to posix standard we have to open two.
-- 
2.43.0


From eba74600e266f2f21512b99f73d63ce0d9322694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 111/116] fix: interactive mode: operators which only check
 sizes are used without being initialised

---
 src/CmdHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 70d553a..e2e3502 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -718,6 +718,7 @@ namespace QDLIB
 
       // Send Response
       try {
+         GlobalOpList::Instance().Init(Op, wf);
          if (!Op->Valid(wf)) Op->Init(wf);
          if (!Op->Valid(wf)) {
             send_error_message("Operator initialized with incompatible wfs");
@@ -762,6 +763,7 @@ namespace QDLIB
 
       // Send Response
       try {
+         GlobalOpList::Instance().Init(Op, bra);
          if (!Op->Valid(bra)) Op->Init(bra);
          if (!Op->Valid(bra) || !Op->Valid(ket)) {
             send_error_message("Operator initialized with incompatible wfs");
@@ -806,6 +808,7 @@ namespace QDLIB
 
       // Send Response
       try {
+         GlobalOpList::Instance().Init(Op, bk);
          if (!Op->Valid(bk)) Op->Init(bk);
          if (!Op->Valid(bk)) {
             send_error_message("Operator initialized with incompatible wfs");
-- 
2.43.0


From cb44ea0c33c002e9b7b28d482f5c343921cb08f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 112/116] fix: crash if an output file can not be created

---
 src/tools/FileSingle.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index a85d12a..4f24cc3 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -990,14 +990,13 @@ namespace QDLIB
       /* Create file if needed */
       if (_sout == NULL){
          ofstream* out = new ofstream(); // TODO: Fix this. don't go via an ofstream
-         _our_out_stream = true;
 
          string name;
          BuildDataFileName(name);
          out->open(name.c_str(), ios_base::binary);
 
          if (! out->is_open() ){
-            FinalizeOutStream();
+            delete out;
             throw(EIOError("Can not open binary stream for writing", name));
          }
          _sout = out;
-- 
2.43.0


From 0a07f49de5b5536f0c1800108598152c48b35896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 113/116] fix: PML: default thickness is not checked against
 the size of the grid

---
 src/qdlib/PML.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/PML.cpp b/src/qdlib/PML.cpp
index 0794d5b..4b41f31 100644
--- a/src/qdlib/PML.cpp
+++ b/src/qdlib/PML.cpp
@@ -75,11 +75,11 @@ namespace QDLIB
             _thick = val[0];
          else
             _thick = val[dim];
-
-         if (_thick > _grid.DimSize(_dim))
-            throw (EParamProblem("PML: layer is thicker than the whole grid"));
       }
 
+      if (_thick < 0 || _thick > _grid.DimSize(_dim))
+         throw (EParamProblem("PML: layer is thicker than the whole grid"));
+
 
       if (pm.isPresent("p")){
          vector<double> val;
-- 
2.43.0


From f0aaadbff3d9ca0a74503eacc071ad9ea6590925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 114/116] fix: interactive mode: WRITE_OP of a laser field
 crashes

---
 src/qdlib/Laser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/Laser.h b/src/qdlib/Laser.h
index 9cb6929..9eaf0fe 100644
--- a/src/qdlib/Laser.h
+++ b/src/qdlib/Laser.h
@@ -10,6 +10,7 @@
 #include "tools/QDClock.h"
 #include "fft/fft.h"
 #include "tools/FileSingle.h"
+#include "qdlib/Serializable.h"
 
 namespace QDLIB
 {
@@ -17,7 +18,7 @@ namespace QDLIB
    /**
     * Class which represents a laser field.
     */
-   class Laser : public dVec
+   class Laser : public dVec, public Serializiable
    {
       public:
          typedef FileSingle<Laser> FileLaser;
-- 
2.43.0


From 99e575be362945d978466b2767a65ed21ca9dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 115/116] fix: sum of grid operators is never valid for a wave
 function (can not be used in interactive mode)

---
 src/qdlib/OGridSum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index ca06afe..72fcce6 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #include "OGridSum.h"
+#include "qdlib/WFGridSystem.h"
 
 namespace QDLIB {
    
@@ -56,6 +57,10 @@ namespace QDLIB {
    
       if (dVec::size() != Psi->size())
 	 throw ( EIncompatible("Operator and WF differ in size") );
+
+      WFGridSystem *psi = dynamic_cast<WFGridSystem*>(Psi);
+      if (psi != NULL)
+         *((GridSystem*) this) = *((GridSystem*) psi);
    }
 
    void OGridSum::Clock( QDClock * cl )
-- 
2.43.0


From 0aacd260f4bb709bae95240adbc8dca359d33942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 116/116] fix: operators with a field in correlation functions
 had no clock

---
 src/ProgCfun.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 7b21588..2a73579 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -154,6 +154,7 @@ namespace QDLIB
 
     if ((*ops)[0] != NULL) {
       /* apply operator list before propagating */
+      master_clock_.Begin();
       *psi_t = Psi0;
       for (size_t i=0; i < ops->size(); i++) {
          if ((*ops)[i] == NULL) {
@@ -468,13 +469,19 @@ namespace QDLIB
     /* Get defintion for bra */
     bra_first_op_ = ReadKetBra("bra", bra_);
     for (uint i=0; i < bra_.size(); i++) {
-	if (bra_[i] != NULL) bra_[i]->Init(Psi0);
+	if (bra_[i] != NULL) {
+	    bra_[i]->Clock( &master_clock_ );
+	    bra_[i]->Init(Psi0);
+	}
     }
 
     /* Get defintion for ket */
     ket_first_op_ = ReadKetBra("ket", ket_);
     for (uint i=0; i < ket_.size(); i++) {
-       if (ket_[i] != NULL) ket_[i]->Init(Psi0);
+       if (ket_[i] != NULL) {
+          ket_[i]->Clock( &master_clock_ );
+          ket_[i]->Init(Psi0);
+       }
     }
 
     if (bra_.size() == 0){ /* no bra means: <psi|U+ */
-- 
2.43.0


#include <sstream>
#include "drv.h"
#include "math/Matrix.h"
#include "math/VectorView.h"
#include "math/math_functions.h"
#include "linalg/LapackDiag.h"
#include "linalg/Bessel.h"
#include "fft/fft.h"
#include "qdlib/GridSystem.h"
#include "qdlib/Kspace.h"
#include "qdlib/TransformFFT.h"
#include "qdlib/TransformMat.h"
#include "qdlib/TransformMSD.h"
#include "qdlib/WFMultistate.h"
#include "tools/PeakFinder.h"
using namespace QDLIB;

static cVec* CV(size_t i, int strides = 1) {
   const std::string& s = S(i);
   lint n = s.size() / sizeof(dcomplex);
   cVec* v = new cVec(n, strides);
   for (int k = 0; k < strides; k++) memcpy((void*) v->begin(k), s.data() + k * (n / strides) * sizeof(dcomplex), (n / strides) * sizeof(dcomplex));
   return v;
}
static dVec* DV(size_t i, int strides = 1) {
   const std::string& s = S(i);
   lint n = s.size() / sizeof(double);
   dVec* v = new dVec(n, strides);
   for (int k = 0; k < strides; k++) memcpy((void*) v->begin(k), s.data() + k * (n / strides) * sizeof(double), (n / strides) * sizeof(double));
   return v;
}
template <class V> static void outvec(V* v) {
   std::string o;
   for (int s = 0; s < v->strides(); s++) o.append((const char*) v->begin(s), v->lsize() * sizeof(*v->begin(s)));
   out(o);
}
/* vec op strides A B C(complex) D(real) d c : all vectors are returned after the call */
CMD("vec") {
   const string& f = S(1);
   int st = Int(2);
   cVec *a = CV(3, st), *b = CV(4, st), *c = CV(5, st);
   dVec *D = DV(6, st);
   double d = Dbl(7);
   std::vector<double> zz = Dvec(8);
   dcomplex z(zz[0], zz[1]);
   if (f == "AddElements") AddElements(a, b);
   else if (f == "AddElements_d") AddElements(a, b, d);
   else if (f == "AddElements_c") AddElements(a, b, z);
   else if (f == "AddElementsEq") AddElementsEq(a, b, c);
   else if (f == "ExpElements") ExpElements(a, b, z);
   else if (f == "ExpElements_D") ExpElements(a, D, z);
   else if (f == "Im") Im(a);
   else if (f == "Im2") Im(a, b);
   else if (f == "Re") Re(a);
   else if (f == "Re2") Re(a, b);
   else if (f == "MultElementsAdd_BD") MultElementsAdd(a, b, D);
   else if (f == "MultElementsAdd_BDd") MultElementsAdd(a, b, D, d);
   else if (f == "MultElementsAdd_c") MultElementsAdd(a, b, z);
   else if (f == "MultElementsAdd_d") MultElementsAdd(a, b, d);
   else if (f == "MultElements_B") MultElements(a, b);
   else if (f == "MultElements_BD") MultElements(a, b, D);
   else if (f == "MultElements_BDd") MultElements(a, b, D, d);
   else if (f == "MultElements_Bd") MultElements(a, b, d);
   else if (f == "MultElements_D") MultElements(a, D);
   else if (f == "MultElements_Dc") MultElements(a, D, z);
   else if (f == "MultElements_Dd") MultElements(a, D, d);
   else if (f == "MultElements_c") MultElements(a, z);
   else if (f == "MultElements_d") MultElements(a, d);
   else if (f == "MultElementsComplex_BDd") MultElementsComplex(a, b, D, d);
   else if (f == "MultElementsComplex_Bd") MultElementsComplex(a, b, d);
   else if (f == "MultElementsComplex_Dd") MultElementsComplex(a, D, d);
   else if (f == "MultElementsComplexEq") MultElementsComplexEq(a, b, D, d);
   else if (f == "MultElementsConjugate3") MultElementsConjugate(a, b, c, d);
   else if (f == "MultElementsConjugate2") MultElementsConjugate(a, b, d);
   else if (f == "MultElementsCopy_BC") MultElementsCopy(a, b, c);
   else if (f == "MultElementsCopy_BCd") MultElementsCopy(a, b, c, d);
   else if (f == "MultElementsCopy_BD") MultElementsCopy(a, b, D);
   else if (f == "MultElementsCopy_BDd") MultElementsCopy(a, b, D, d);
   else if (f == "MultElementsCopy_c") MultElementsCopy(a, b, z);
   else if (f == "MultElementsCopy_d") MultElementsCopy(a, b, d);
   else if (f == "MultElementsReal_d") MultElements(D, d);
   else if (f == "Abs") Abs(D, a);
   else if (f == "VecScalar") *a *= z;
   else if (f == "FastCopy") a->FastCopy(*b);
   else if (f == "Assign") *a = *b;
   else if (f == "AssignScalar") *a = z;
   else if (f == "CopyCtor") { cVec* n = new cVec(*b); a = n; }
   else if (f == "Swap") a->swap(*b);
   else if (f == "StrideCopy") { int src = int(zz[0]), dst = int(zz[1]); outi(a->StrideCopy(*b, src, dst)); outvec(a); return; }
   else if (f == "RetireReacquire") { a->RetireStorage(); a->ReaquireStorage(); outi(a->size()); *a = z; }
   else throw DrvError("vec " + f);
   outvec(a); outvec(b); outvec(c); outvec(D);
}
CMD("vec.scal") {   /* scalar results */
   const string& f = S(1); int st = Int(2);
   if (f == "maxc") outd(VecMax(*CV(3, st)));
   else if (f == "maxd") outd(VecMax(*DV(3, st)));
   else if (f == "mind") outd(VecMin(*DV(3, st)));
   else if (f == "normd") outd(DV(3, st)->Norm());
   else throw DrvError("vec.scal");
}
CMD("vec.binary") {   /* value operators: + - * by scalar */
   const string& f = S(1); int st = Int(2);
   cVec *a = CV(3, st), *b = CV(4, st);
   std::vector<double> zz = Dvec(5); dcomplex z(zz[0], zz[1]);
   if (f == "+") { cVec r = *a + *b; outvec(&r); }
   else if (f == "-") { cVec r = *a - *b; outvec(&r); }
   else throw DrvError("vec.binary");
   (void) z;
   outvec(a); outvec(b);
}
/* complex scalars: op a b d n */
CMD("cplx") {
   const string& f = S(1);
   std::vector<double> av = Dvec(2), bv = Dvec(3);
   dcomplex a(av[0], av[1]), b(bv[0], bv[1]); double d = Dbl(4);
   if (f == "+") outc(a + b); else if (f == "-") outc(a - b); else if (f == "*") outc(a * b); else if (f == "/") outc(a / b);
   else if (f == "+d") outc(a + d); else if (f == "-d") outc(a - d); else if (f == "*d") outc(a * d); else if (f == "/d") outc(a / d);
   else if (f == "d*") outc(d * a); else if (f == "d/") outc(d / a);
   else if (f == "+=") { a += b; outc(a); } else if (f == "-=") { a -= b; outc(a); } else if (f == "*=") { a *= b; outc(a); } else if (f == "/=") { a /= b; outc(a); }
   else if (f == "*=d") { a *= d; outc(a); }
   else if (f == "conj") outc(a.conj()); else if (f == "conjf") outc(conj(a)); else if (f == "conjugate") { a.conjugate(); outc(a); }
   else if (f == "cexpI") outc(cexpI(d)); else if (f == "cexp") outc(cexp(a)); else if (f == "cabs") outd(cabs(a)); else if (f == "phase") outd(phase(a));
   else if (f == "I*") outc(I * a); else if (f == "*I") outc(a * I); else if (f == "I*d") outc(I * d); else if (f == "d*I") outc(d * I);
   else if (f == "powI") outc(cpow(I, int(d)));
   else throw DrvError("cplx");
}
static cMat* CM(size_t i, int r, int c) { /* row-major input */
   const std::string& s = S(i);
   const dcomplex* p = (const dcomplex*) s.data();
   if (s.size() != sizeof(dcomplex) * r * c) throw DrvError("mat size");
   cMat* m = new cMat(r, c);
   for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) (*m)(a, b) = p[a * c + b];
   return m;
}
static dMat* DM(size_t i, int r, int c) {
   const std::string& s = S(i);
   const double* p = (const double*) s.data();
   if (s.size() != sizeof(double) * r * c) throw DrvError("mat size");
   dMat* m = new dMat(r, c);
   for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) (*m)(a, b) = p[a * c + b];
   return m;
}
dMat* mkMat(size_t i, int r, int c) { return DM(i, r, c); }
template <class M> static void outmat(M& m) {
   std::string o;
   for (int a = 0; a < m.rows(); a++) for (int b = 0; b < m.cols(); b++) o.append((const char*) &m(a, b), sizeof(m(a, b)));
   out(o);
}
CMD("eig.d") { dMat* m = DM(2, Int(1), Int(1)); dVec e; outi(LAPACK::FullDiagHermitian(m, &e)); outvec(&e); outmat(*m); }
CMD("eig.z") { cMat* m = CM(2, Int(1), Int(1)); dVec e; outi(LAPACK::FullDiagHermitian(m, &e)); outvec(&e); outmat(*m); }
CMD("eig.tri") { dVec *d = DV(2), *s = DV(3); dMat ev; outi(LAPACK::TriDiagHermitian(d, s, &ev, Int(1))); outvec(d); outmat(ev); }
CMD("eig.gen") { int n = Int(1); cMat* m = CM(2, n, n); cVec e(n); cMat L(n, n), Rr(n, n); outi(LAPACK::DiagGeneral(m, &e, &L, &Rr)); outvec(&e); outmat(L); outmat(Rr); }
CMD("eig.hess") { int n = Int(1); cMat* m = CM(2, n, n); cVec e(n); cMat L(n, n), Rr(n, n); outi(LAPACK::DiagHessenberg(m, &e, &L, &Rr)); outvec(&e); outmat(L); outmat(Rr); }
CMD("inv.gen") { int n = Int(1); cMat* m = CM(2, n, n); outi(LAPACK::InvertGeneral(m)); outmat(*m); }
CMD("diag22") { double e[2]; diag22symm(Dbl(1), Dbl(2), Dbl(3), e); outd(e[0]); outd(e[1]);
   double e2[2], v0[2], v1[2]; double* v[2] = {v0, v1}; diag22symm(Dbl(1), Dbl(2), Dbl(3), e2, v); std::vector<double> o{e2[0], e2[1], v0[0], v0[1], v1[0], v1[1]}; outv(o); }
CMD("bessel") { dVec c; int nz = 0; int r = S(1) == "J" ? BesselJ0(Int(2), Dbl(3), c, nz) : BesselI0(Int(2), Dbl(3), c, nz); outi(r); outi(nz); outvec(&c); }
CMD("mat") {   /* op r c M(complex) vec/M2 */
   const string& f = S(1); int r = Int(2), c = Int(3);
   if (f == "transpose") { cMat* m = CM(4, r, c); m->transpose(); outmat(*m); }
   else if (f == "transposed") { dMat* m = DM(4, r, c); m->transpose(); outmat(*m); }
   else if (f == "diag") { dMat* m = DM(4, r, c); dVec* d = m->diag(); outvec(d); }
   else if (f == "setdiag") { dMat* m = DM(4, r, c); m->diag(DV(5)); outmat(*m); }
   else if (f == "column") { dMat* m = DM(4, r, c); dVec* d = m->coloumn(Int(5)); outvec(d); }
   else if (f == "copy") { cMat* m = CM(4, r, c); cMat n; n = *m; outmat(n); outi(n.rows()); outi(n.cols()); }
   else if (f == "scale") { cMat* m = CM(4, r, c); std::vector<double> z = Dvec(5); *m *= dcomplex(z[0], z[1]); outmat(*m); }
   else if (f == "fill") { cMat m(r, c); std::vector<double> z = Dvec(5); m = dcomplex(z[0], z[1]); outmat(m); }
   else if (f == "resize") { cMat m; m.newsize(r, c); outi(m.rows()); outi(m.cols()); outi(m.sizeBytes()); m = dcomplex(1, 2); outmat(m); }
   else if (f == "vec" || f == "vect" || f == "veca") {
      cMat* m = CM(4, r, c); cVec* a = CV(5); cVec b(a->size());
      MatVecMult(&b, m, a, f != "vec", f == "veca"); outvec(&b);
   }
   else if (f == "dvec" || f == "dvect" || f == "dveca") {
      dMat* m = DM(4, r, c); cVec* a = CV(5); cVec b(a->size());
      MatVecMult(&b, m, a, f != "dvec", f == "dveca"); outvec(&b);
   }
   else throw DrvError("mat");
}
CMD("view") {   /* dims data, then ops: dim kind vec ... */
   std::vector<int> dims = Ivec(1);
   cVec* v = CV(2);
   VectorView<dcomplex> w(*v, dims.size(), dims.data());
   for (size_t i = 3; i + 2 < N() + 0; i += 3) {
      w.ActiveDim(Int(i));
      cVec* x = CV(i + 2);
      if (S(i + 1) == "=") w = *x; else if (S(i + 1) == "*") w *= *x; else w += *x;
   }
   outvec(v);
}
static GridSystem mkGrid(size_t i) {
   std::vector<double> g = Dvec(i);   /* n xmin xmax ... */
   std::vector<int> n; std::vector<double> a, b;
   for (size_t k = 0; k + 2 < g.size(); k += 3) { n.push_back(int(g[k])); a.push_back(g[k+1]); b.push_back(g[k+2]); }
   GridSystem G; G.SetFromArrays(n, a, b);
   return G;
}
CMD("grid") {
   GridSystem g0 = mkGrid(1), g; g = g0;
   outi(g.Dim()); outi(g.Size());
   std::vector<double> v; for (int i = 0; i < g.Dim(); i++) { v.push_back(g.DimSize(i)); v.push_back(g.Xmin(i)); v.push_back(g.Xmax(i)); v.push_back(g.Dx(i)); }
   outv(v);
   /* index map: for every dim and every line all grid indices */
   std::vector<double> ix;
   for (int d = 0; d < g.Dim(); d++) {
      g.ActiveDim(d);
      for (int o = 0; o < g.NumOthers(); o++) for (int k = 0; k < g.NumActive(); k++) ix.push_back(g.Index(k, o));
   }
   outv(ix);
}
CMD("grid.eq") { GridSystem a = mkGrid(1), b = mkGrid(2); outi(a == b); outi(a != b); }
CMD("kspace") {   /* grid dim factor kind */
   GridSystem g = mkGrid(1); dVec* k;
   if (S(4) == "d2m") k = Kspace::Init1Dd2dx2(Dbl(3), g, Int(2));
   else if (S(4) == "d2") k = Kspace::Init1Dd2dx2(g, Int(2), Dbl(3));
   else k = Kspace::Init1Dddx(g, Int(2), Dbl(3));
   outd(Kspace::Dk(g, Int(2))); outvec(k);
}
CMD("fft") {   /* grid data seq: list of dims (forward d>=0 / -1 all ; backward encoded 100+) */
   GridSystem g = mkGrid(1);
   cVec* in = CV(2); cVec o(in->size());
   cVec data(*in);
   FFT f(g, *in, o);
   for (lint i = 0; i < in->size(); i++) (*in)[i] = data[i];   /* planning may overwrite */
   std::vector<int> seq = Ivec(3);
   for (int c : seq) { if (c < 50) f.forward(c); else f.backward(c - 100); }
   outvec(in); outvec(&o);
}
CMD("fft1") {  /* 1D complex, no grid */
   cVec* in = CV(1); cVec data(*in); cVec o(in->size());
   FFT f(*in, o);
   for (lint i = 0; i < in->size(); i++) (*in)[i] = data[i];
   f.forward(); outvec(&o);
   f.backward(); outvec(in);
}
CMD("fftr") {  /* 1D real */
   dVec* in = DV(1); dVec data(*in); cVec o(in->size() / 2 + 1);
   FFT f(*in, o);
   for (lint i = 0; i < in->size(); i++) (*in)[i] = data[i];
   f.forward(); outvec(&o);
   f.backward(); outvec(in);
}
static TransformFFT tfft;
CMD("tr.fft") { WaveFunction* w = WF(S(2)); int d = Int(3);
   if (S(1) == "f") { if (d < 0) tfft.Forward(w); else tfft.Forward(w, d); } else { if (d < 0) tfft.Backward(w); else tfft.Backward(w, d); }
   outd(tfft.Normalization()); }
CMD("tr.mat") {  /* f|b wf n M seq */
   TransformMat t; int n = Int(3); dMat* m = DM(4, n, n);
   t.SetMatrix(m);
   for (char c : S(1)) { if (c == 'f') t.Forward(WF(S(2))); else t.Backward(WF(S(2))); }
   outd(t.Normalization());
}
CMD("tr.msd") {  /* seq wf states npoints mats */
   TransformMSD t; int ns = Int(3), np = Int(4);
   std::vector<double> mats = Dvec(5);
   dMat** X = new dMat*[np];
   for (int i = 0; i < np; i++) { X[i] = new dMat(ns, ns); for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) (*X[i])(a, b) = mats[(i * ns + a) * ns + b]; }
   Transform** T = new Transform*[ns]; for (int i = 0; i < ns; i++) T[i] = NULL;
   t.SetMatrixArray(X); (void) T;
   for (char c : S(1)) { if (c == 'f') t.Forward(WF(S(2))); else t.Backward(WF(S(2))); }
   outd(t.Normalization());
}
CMD("peaks") {
   dVec* v = DV(2); PeakFinder p; p.Tolerance(Dbl(1)); p.Find(*v);
   std::vector<double> o; for (int i = 0; i < p.NumPeaks(); i++) o.push_back(p[i]); outv(o);
}

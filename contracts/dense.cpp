// NATIVE: g++
// LINK: base/utils/utils.cpp base/linalg/bla_extension.cpp
// Entries to the dense block algebra (no logic of their own).
#include "utils_denseLA.cpp"
using namespace amg;
#define X extern "C"
template<int H, int W = H> static INLINE Mat<H, W, double> LM(const double *p) { Mat<H, W, double> A; for (int i = 0; i < H; i++) for (int j = 0; j < W; j++) A(i, j) = p[W * i + j]; return A; }
template<int H, int W = H> static INLINE void SM(Mat<H, W, double> const &A, double *p) { for (int i = 0; i < H; i++) for (int j = 0; j < W; j++) p[W * i + j] = A(i, j); }
#define FORN(M) M(1) M(2) M(3) M(6)
#define P3(N) \
  X void d_triple##N(double *a, double *b, double *c, double *o) { SM(TripleProd<N>(LM<N>(a), LM<N>(b), LM<N>(c)), o); } \
  X void d_addtriple##N(double f, double *a, double *b, double *c, double *o) { auto O = LM<N>(o); AddTripleProd<N>(f, O, LM<N>(a), LM<N>(b), LM<N>(c)); SM(O, o); } \
  X void d_atba##N(double *a, double *b, double *o) { SM(AT_B_A<N>(LM<N>(a), LM<N>(b)), o); } \
  X void d_addatba##N(double f, double *a, double *b, double *o) { auto O = LM<N>(o); Add_AT_B_A<N>(f, O, LM<N>(a), LM<N>(b)); SM(O, o); }
P3(1) P3(2) P3(3)
X void d_triples(double a, double b, double c, double *o) { o[0] = TripleProd(a, b, c); }
X void d_addtriples(double f, double a, double b, double c, double *o) { AddTripleProd(f, o[0], a, b, c); }
X void d_atbas(double a, double b, double *o) { o[0] = AT_B_A(a, b); }
X void d_addatbas(double f, double a, double b, double *o) { Add_AT_B_A(f, o[0], a, b); }
// o = trace, average trace (Mat and FlatMatrix)
#define TRC(N) X void d_trace##N(double *a, double *o) { auto A = LM<N>(a); o[0] = calc_trace(A); o[1] = CalcAvgTrace(A); FlatMatrix<double> F(N, N, a); o[2] = calc_trace(F); o[3] = CalcAvgTrace(F); }
FORN(TRC)
X void d_traces(double a, double *o) { o[0] = calc_trace(a); o[1] = CalcAvgTrace(a); }
// transfers between a 6 x 6 matrix and blocks
#define BLK(N) \
  X void d_addtm##N(double *m, int i, int j, double s, double *x) { FlatMatrix<double> F(6, 6, m); addTM(F, i, j, s, LM<N>(x)); } \
  X void d_setfromtm##N(double *m, int i, int j, double s, double *x) { FlatMatrix<double> F(6, 6, m); setFromTM(F, i, j, s, LM<N>(x)); } \
  X void d_addtotm##N(double *x, int i, int j, double s, double *m) { FlatMatrix<double> F(6, 6, m); auto A = LM<N>(x); addToTM(A, s, F, i, j); SM(A, x); } \
  X void d_settm##N(double *x, int i, int j, double s, double *m) { FlatMatrix<double> F(6, 6, m); auto A = LM<N>(x); setTM(A, s, F, i, j); SM(A, x); }
BLK(1) BLK(2) BLK(3)
X void d_addtms(double *m, int i, int j, double s, double x) { FlatMatrix<double> F(6, 6, m); addTM(F, i, j, s, x); }
X void d_setfromtms(double *m, int i, int j, double s, double x) { FlatMatrix<double> F(6, 6, m); setFromTM(F, i, j, s, x); }
X void d_addtotms(double *x, int i, int j, double s, double *m) { FlatMatrix<double> F(6, 6, m); addToTM(x[0], s, F, i, j); }
X void d_settms(double *x, int i, int j, double s, double *m) { FlatMatrix<double> F(6, 6, m); setTM(x[0], s, F, i, j); }
// identities
#define IDE(N) X void d_ident##N(double s, double *o1, double *o2, double *o3) { auto A = LM<N>(o1); SetIdentity(A); SM(A, o1); auto B = LM<N>(o2); SetScalIdentity(s, B); SM(B, o2); auto C = LM<N>(o3); addIdentity(C, s); SM(C, o3); }
FORN(IDE)
X void d_identr(double s, double *o1, double *o2) { auto A = LM<2, 3>(o1); SetIdentity(A); SM(A, o1); auto B = LM<3, 2>(o2); SetScalIdentity(s, B); SM(B, o2); }
X void d_idents(double s, double *o1, double *o2, double *o3) { SetIdentity(o1[0]); SetScalIdentity(s, o2[0]); addIdentity(o3[0], s); }
X void d_identf(double s, double *o1, double *o2) { SetIdentity(FlatMatrix<double>(3, 3, o1)); SetScalIdentity(s, FlatMatrix<double>(3, 3, o2)); }
X void d_identb(double s, double *o1, double *o2) { SetIdentity(FlatMatrix<Mat<2, 2, double>>(2, 2, (Mat<2, 2, double>*)o1)); SetScalIdentity(s, FlatMatrix<Mat<2, 2, double>>(2, 2, (Mat<2, 2, double>*)o2)); }
X void d_identw(double s, double *o1, double *o2) { SetIdentity(FlatMatrixFixWidth<3, double>(3, o1)); SetScalIdentity(s, FlatMatrixFixWidth<3, double>(3, o2)); }
// block matrix <-> flat matrix, 2 x 2 blocks
#define FLT(N) \
  X void d_m2s##N(double *b, double *f) { mat_to_scal<Mat<N, N, double>>(2, FlatMatrix<Mat<N, N, double>>(2, 2, (Mat<N, N, double>*)b), FlatMatrix<double>(2 * N, 2 * N, f)); } \
  X void d_s2m##N(double *f, double *b) { scal_to_mat<Mat<N, N, double>>(2, FlatMatrix<double>(2 * N, 2 * N, f), FlatMatrix<Mat<N, N, double>>(2, 2, (Mat<N, N, double>*)b)); } \
  X void d_toflat##N(double *b, double *f) { ToFlat<N>(FlatMatrix<Mat<N, N, double>>(2, 2, (Mat<N, N, double>*)b), FlatMatrix<double>(2 * N, 2 * N, f)); } \
  X void d_totm##N(double *f, double *b) { ToTM<N>(FlatMatrix<double>(2 * N, 2 * N, f), FlatMatrix<Mat<N, N, double>>(2, 2, (Mat<N, N, double>*)b)); } \
  X void d_toflatm##N(double *b, double *f) { ToFlat<N>(*(Mat<N, N, double>*)b, FlatMatrix<double>(N, N, f)); } \
  X void d_totmm##N(double *f, double *b) { ToTM<N>(FlatMatrix<double>(N, N, f), *(Mat<N, N, double>*)b); }
FLT(2) FLT(3)
// sub-blocks of a 6 x 6 matrix: rows 1..2, columns 3..5
X void d_sub(double *a, double *b, double *o1, double *o2, double *o3, double *o4, double s) {
  auto A = LM<6>(a); auto B = LM<2, 3>(b); auto O = LM<6>(o1); MakeFlatMat<1, 2, 3, 3>(O) = B; SM(O, o1);
  auto O2 = LM<6>(o2); MakeFlatMat<1, 2, 3, 3>(O2) += B; SM(O2, o2); auto O3 = LM<6>(o3); MakeFlatMat<1, 2, 3, 3>(O3) = s; SM(O3, o3);
  Mat<2, 3, double> R = MakeFlatMat<1, 2, 3, 3>(A); SM(R, o4); }

// ---- bounded: decompositions (LAPACK)
static LocalHeap &LHP() { static LocalHeap lh(64 * 1024 * 1024, "dense"); lh.CleanUp(); return lh; }
template<int N, class T> static void binv(int op, int n, double *a) {
  Array<Mat<N, N, T>> d(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) d[i * n + j](k, l) = a[(i * N + k) * n * N + j * N + l];
  FlatMatrix<Mat<N, N, T>> F(n, n, d.Data());
  if (op == 0) CalcPseudoInverseTryNormal(F, LHP());
  else if (op == 1) CalcPseudoInverseNew(F, LHP());
  else if constexpr (is_same<T, double>::value) { if (op == 2) CalcPseudoInverseWithTol(F, LHP()); else CalcPseudoInverseWithTol(F, LHP(), 1e-10, 1e-10); }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) a[(i * N + k) * n * N + j * N + l] = d[i * n + j](k, l);
}
template<class T> static int finv(int op, int n, double *a) {
  Array<T> d(n * n); for (int i = 0; i < n * n; i++) d[i] = a[i]; FlatMatrix<T> F(n, n, d.Data()); int r = 0;
  if (op == 0) CalcPseudoInverseTryNormal(F, LHP());
  else if (op == 1) CalcPseudoInverseNew(F, LHP());
  else if (op == 2) r = TryDirectInverse(F, LHP());
  else if (op == 3) r = TryDirectInverse_Lapack(F, LHP());
  else if (op == 4) r = TryDirectInverse_simple(F, LHP());
  else if constexpr (is_same<T, double>::value) {
    if (op == 5) CalcPseudoInverseFM(F, LHP());
    else if (op == 6) r = CalcPseudoInverseWithTol(F, LHP());
    else if (op == 7) r = CalcPseudoInverseWithTolNonZeroBlock(F, LHP(), 1e-12, 1e-12);
    else if (op == 8) CalcPseudoInverseFB(F, LHP());
    else if (op == 9) CPI_TN_Lapack(F, LHP());
    else if (op == 10) CPI_TN(F, LHP());
  }
  for (int i = 0; i < n * n; i++) a[i] = d[i]; return r;
}
X int d_finv(int op, int n, double *a) { return finv<double>(op, n, a); }
X int d_finvf(int op, int n, double *a) { return finv<float>(op, n, a); }
X void d_binv2(int op, int n, double *a) { binv<2, double>(op, n, a); }
X void d_binv3(int op, int n, double *a) { binv<3, double>(op, n, a); }
#define MINV(N) X void d_minv##N(int op, double *a) { auto A = LM<N>(a); if (op == 0) CalcPseudoInverseTryNormal(A, LHP()); else if (op == 1) CalcPseudoInverseNew(A, LHP()); else if (op == 2) CalcPseudoInverse<N>(A); else CalcPseudoInverse<N>(A, LHP()); SM(A, a); }
MINV(2) MINV(3) MINV(6)
X void d_sinv(int op, double *a) { if (op == 0) CalcPseudoInverseTryNormal(a[0], LHP()); else if (op == 1) CalcPseudoInverseNew(a[0], LHP()); else CalcPseudoInverseNew(a[0]); }
X int d_spd(int op, int n, double *a) { Array<double> d(n * n); for (int i = 0; i < n * n; i++) d[i] = a[i]; FlatMatrix<double> F(n, n, d.Data()); return op ? CheckForSSPD(F, LHP()) : CheckForSPD(F, LHP()); }
X int d_spdf(int op, int n, double *a) { Array<float> d(n * n); for (int i = 0; i < n * n; i++) d[i] = a[i]; FlatMatrix<float> F(n, n, d.Data()); return op ? CheckForSSPD(F, LHP()) : CheckForSPD(F, LHP()); }
// o = bounds of B relative to A
X void d_equiv(int n, double *a, double *b, double *o) { auto [l, u, k] = DenseEquivTestAAA(FlatMatrix<double>(n, n, a), FlatMatrix<double>(n, n, b), LHP()); o[0] = l; o[1] = u; o[2] = k; }
#define EV(N) X double d_ev##N(int op, double *a, double *b, double *r) { if (op == 0) return MEV<N>(FlatMatrix<double>(N, N, a), FlatMatrix<double>(N, N, r)); \
    if (op == 1) return MIN_EV_HARM2<N>(LM<N>(a), LM<N>(b), LM<N>(r)); if (op == 3) return MIN_EV_FG_ONE_SIDE2<N>(LM<N>(a), LM<N>(b), LM<N>(r)); return MIN_EV_FG2<N>(LM<N>(a), LM<N>(b), LM<N>(r)); }
EV(2) EV(3) EV(6)
X double d_evs(int op, double a, double b, double r) { return op ? MIN_EV_HARM2(a, b, r) : MIN_EV_FG2(a, b, r); }
X void d_reg(int op, double m, double *a) {
  if (op == 0) { auto A = LM<6>(a); RegTM<0, 6, 6>(A, m); SM(A, a); } else if (op == 1) { auto A = LM<6>(a); RegTM<3, 3, 6>(A, m); SM(A, a); }
  else if (op == 2) { auto A = LM<3>(a); RegTM<0, 3, 3>(A, m); SM(A, a); } else { auto A = LM<3>(a); RegTM<2, 1, 3>(A, m); SM(A, a); } }
// apply "twice the matrix" to the block of non-zero diagonals
X int d_nzb(int n, double *a) { int k = 0; FlatMatrix<double> F(n, n, a); CallOnNonZeroDiagonalBlock(F, LHP(), [&](FlatMatrix<double> M) { k = M.Height(); M *= 2.0; }); return k; }
X int d_nzb3(double *a) { int k = 0; auto A = LM<3>(a); CallOnNonZeroDiagonalBlock(A, LHP(), [&](FlatMatrix<double> M) { k = M.Height(); M *= 2.0; }); SM(A, a); return k; }
X int d_nzbb2(int n, double *a) { int k = 0; constexpr int N = 2; Array<Mat<N, N, double>> d(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < N; q++) for (int l = 0; l < N; l++) d[i * n + j](q, l) = a[(i * N + q) * n * N + j * N + l];
  FlatMatrix<Mat<N, N, double>> F(n, n, d.Data()); CallOnNonZeroDiagonalBlock(F, LHP(), [&](FlatMatrix<double> M) { k = M.Height(); M *= 2.0; });
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < N; q++) for (int l = 0; l < N; l++) a[(i * N + q) * n * N + j * N + l] = d[i * n + j](q, l); return k; }

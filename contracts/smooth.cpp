// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/smoothers/hybrid_smoother.cpp base/smoothers/hybrid_base_smoother.cpp
// Native entries to the public interface of the smoothers (bounded contracts: enumerated and random small systems).
#include "base_smoother.cpp"
#include "gssmoother.cpp"
using namespace amg;
#define X extern "C"
template<class TM> static double &ent(TM &m, int i, int j) { if constexpr (is_same<TM, double>::value) return m; else return m(i, j); }
template<class T> struct dm { static constexpr int H = 1, W = 1; };
template<int h, int w> struct dm<Mat<h, w, double>> { static constexpr int H = h, W = w; };
// sparse matrix with the pattern pat (n x m) and the block values of the dense matrix a
template<class TM> static shared_ptr<SparseMatrix<TM>> MK(int n, int m, const signed char *pat, const double *a) {
  constexpr int H = dm<TM>::H, W = dm<TM>::W;
  Array<int> per(n); per = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (pat[i * m + j]) per[i]++;
  auto s = make_shared<SparseMatrix<TM>>(per, m);
  for (int i = 0; i < n; i++) { int c = 0; auto ri = s->GetRowIndices(i); auto rv = s->GetRowValues(i);
    for (int j = 0; j < m; j++) if (pat[i * m + j]) { ri[c] = j; for (int r = 0; r < H; r++) for (int t = 0; t < W; t++) ent(rv[c], r, t) = a[(i * H + r) * m * W + j * W + t]; c++; } }
  return s;
}
static shared_ptr<BitArray> BA(int n, const signed char *b) { auto r = make_shared<BitArray>(n); r->Clear(); for (int i = 0; i < n; i++) if (b[i]) r->SetBit(i); return r; }
struct Vv { unique_ptr<S_BaseVectorPtr<double>> v; BaseVector &operator*() { return *v; } };
static S_BaseVectorPtr<double> WV(int n, int N, double *p) { return S_BaseVectorPtr<double>(n, N, p); }
static void go(BaseSmoother &s, int type, int k, BaseVector &x, BaseVector &b, BaseVector &r, bool ru, bool ur, bool xz) {
  switch (type) {
    case 0: s.Smooth(x, b, r, ru, ur, xz); break;
    case 1: s.SmoothBack(x, b, r, ru, ur, xz); break;
    case 2: s.SmoothSymm(x, b, r, ru, ur, xz); break;
    case 3: s.SmoothK(k, x, b, r, ru, ur, xz); break;
    case 4: s.SmoothBackK(k, x, b, r, ru, ur, xz); break;
    case 5: s.SmoothSymmK(k, x, b, r, ru, ur, xz); break;
  }
}
// cls 0: GSS3, 1: Jacobi, 2: Richardson with preconditioner p, 3: Proxy around GSS3
template<class TM> static int SM(int cls, int n, signed char *pat, double *a, int sub, signed char *bits, int pinv, int rep, double *repl, double *p, double om, int nst, int symm,
    int type, int k, int ru, int ur, int xz, double *x, double *b, double *r, double *madd) {
  constexpr int N = dm<TM>::H;
  auto A = MK<TM>(n, n, pat, a); auto fr = sub ? BA(n, bits) : nullptr;
  Array<TM> R; if (rep) { R.SetSize(n); for (int i = 0; i < n; i++) for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) ent(R[i], u, v) = repl[(i * N + u) * N + v]; }
  shared_ptr<BaseSmoother> s;
  auto gs = [&]() { return rep ? make_shared<GSS3<TM>>(A, R, fr, bool(pinv)) : make_shared<GSS3<TM>>(A, fr, bool(pinv)); };
  if (cls == 0) s = gs();
  if (cls == 1) s = make_shared<JacobiSmoother<TM>>(A, fr, om);
  if (cls == 2) s = make_shared<RichardsonSmoother>(A, MK<TM>(n, n, pat, p), om);
  if (cls == 3) s = make_shared<ProxySmoother>(gs(), nst, bool(symm));
  auto vx = WV(n, N, x), vb = WV(n, N, b), vr = WV(n, N, r), vm = WV(n, N, madd);
  if (cls == 0 || cls == 3) s->MultAdd(om, vb, vm);
  go(*s, type, k, vx, vb, vr, ru, ur, xz);
  return 0;
}
#define ARGS int cls, int n, signed char *pat, double *a, int sub, signed char *bits, int pinv, int rep, double *repl, double *p, double om, int nst, int symm, int type, int k, int ru, int ur, int xz, double *x, double *b, double *r, double *madd
#define PASS cls, n, pat, a, sub, bits, pinv, rep, repl, p, om, nst, symm, type, k, ru, ur, xz, x, b, r, madd
typedef Mat<2,2,double> M2;
typedef Mat<3,3,double> M3;
X int s_sm1(ARGS) { return SM<double>(PASS); }
X int s_sm2(ARGS) { return SM<M2>(PASS); }
X int s_sm3(ARGS) { return SM<M3>(PASS); }
// GSS4: type 0/1 forward/backward with right hand side, 2/3 with residual
template<class TM> static int S4(int n, signed char *pat, double *a, int sub, signed char *bits, int pinv, int rep, double *repl, double om, int type, double *x, double *b, double *r, double *madd) {
  constexpr int N = dm<TM>::H;
  auto A = MK<TM>(n, n, pat, a); auto fr = sub ? BA(n, bits) : nullptr;
  Array<TM> R; if (rep == 1) { R.SetSize(n); for (int i = 0; i < n; i++) for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) ent(R[i], u, v) = repl[(i * N + u) * N + v]; }
  auto s = rep ? make_shared<GSS4<TM>>(A, R, fr, bool(pinv)) : make_shared<GSS4<TM>>(A, fr, bool(pinv));
  auto vx = WV(n, N, x), vb = WV(n, N, b), vr = WV(n, N, r), vm = WV(n, N, madd);
  s->MultAdd(om, vb, vm);
  if (type == 0) s->Smooth(vx, vb); if (type == 1) s->SmoothBack(vx, vb); if (type == 2) s->SmoothRES(vx, vr); if (type == 3) s->SmoothBackRES(vx, vr);
  return 0;
}
#define ARG4 int n, signed char *pat, double *a, int sub, signed char *bits, int pinv, int rep, double *repl, double om, int type, double *x, double *b, double *r, double *madd
#define PAS4 n, pat, a, sub, bits, pinv, rep, repl, om, type, x, b, r, madd
X int s_g41(ARG4) { return S4<double>(PAS4); }
X int s_g42(ARG4) { return S4<M2>(PAS4); }
X int s_g43(ARG4) { return S4<M3>(PAS4); }
// Hiptmair: Gauss-Seidel in the range space and in the potential space
X int s_hm(int n, signed char *pat, double *a, int m, signed char *patp, double *ap, signed char *patd, double *d, int potFirst, int adOpt, int type, int k, int ru, int ur, int xz, double *x, double *b, double *r) {
  auto A = MK<double>(n, n, pat, a); auto P = MK<double>(m, m, patp, ap); auto D = MK<double>(n, m, patd, d);
  vector<signed char> pt(n * m); vector<double> dt(n * m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { pt[j * n + i] = patd[i * m + j]; dt[j * n + i] = d[i * m + j]; }
  auto DT = MK<double>(m, n, pt.data(), dt.data());
  auto s = make_shared<HiptMairSmoother>(make_shared<GSS3<double>>(P), make_shared<GSS3<double>>(A), P, A, D, DT, bool(adOpt), bool(potFirst));
  auto vx = WV(n, 1, x), vb = WV(n, 1, b), vr = WV(n, 1, r);
  go(*s, type, k, vx, vb, vr, ru, ur, xz);
  return 0;
}

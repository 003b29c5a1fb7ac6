// NATIVE: g++
// LINK: base/utils/utils.cpp base/linalg/bla_extension.cpp base/utils/utils_denseLA.cpp
// Entries to the strength-of-connection measures on the real AgglomerationData (the mesh only has to hand out its edge connectivity).
#include <base.hpp>
#include <elasticity.hpp>
#include <elasticity_mesh.hpp>
#include <elasticity_energy_impl.hpp>
#include <h1.hpp>
#include <h1_energy_impl.hpp>
#include <spw_agg.hpp>
#include <spw_agg_impl.hpp>
using namespace amg;
#define X extern "C"
static LocalHeap &LHP() { static LocalHeap lh(40000000, "soc"); lh.CleanUp(); return lh; }
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(); } };
template<int N> static INLINE Mat<N, N, double> LM(const double *p) { Mat<N, N, double> A; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) = p[N * i + j]; return A; }
template<int N> static INLINE void SM(Mat<N, N, double> const &A, double *p) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) p[N * i + j] = A(i, j); }
struct MockMesh { shared_ptr<SparseMatrix<double>> cm; shared_ptr<SparseMatrix<double>> GetEdgeCM() const { return cm; } };
static shared_ptr<SparseMatrix<double>> edgeCM(int n, int ne, int *ei) {
  Array<int> cnt(n); cnt = 0; for (int e = 0; e < 2 * ne; e++) cnt[ei[e]]++;
  auto m = make_shared<SparseMatrix<double>>(cnt, n);
  for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < n; j++) for (int e = 0; e < ne; e++) if ((ei[2 * e] == i && ei[2 * e + 1] == j) || (ei[2 * e] == j && ei[2 * e + 1] == i)) { m->GetRowIndices(i)[c] = j; m->GetRowValues(i)[c++] = e; } }
  return m; }
template<int D> using EE = EpsEpsEnergy<D, ElastVData<D>, ElasticityEdgeData<D>>;
template<int D> static double agg(int op, int n, double *pos, double *rs, int ne, int *ei, double *em, double *ad, int vi, int vj, double rho, int flag, int k1, int k2, int *mem, double *out) {
  using EN = EE<D>; constexpr int N = EN::DPV; using TM = typename EN::TM; Quiet q; auto &lh = LHP();
  MockMesh mesh{edgeCM(n, ne, ei)}; AgglomerationData<MockMesh, EN, TM, double> A(mesh);
  A.vData.SetSize(n); A.auxDiags.SetSize(n); A.edgeMats.SetSize(ne); int id = -1;
  for (int i = 0; i < n; i++) { ElastVData<D> v(0.0); for (int d = 0; d < D; d++) v.pos(d) = pos[D * i + d]; v.rot_scaling = rs[i]; A.vData[i] = v; A.auxDiags[i] = LM<N>(ad + N * N * i); }
  for (int e = 0; e < ne; e++) { A.edgeMats[e] = LM<N>(em + N * N * e); if ((ei[2 * e] == vi && ei[2 * e + 1] == vj) || (ei[2 * e] == vj && ei[2 * e + 1] == vi)) id = e; }
  FlatArray<int> m1(k1, mem), m2(k2, mem + k1); SPWConfig cfg; cfg.neibBoost = flag;
  if (op == 0) { auto B = AssembleAhatBlock<EN, double>(A, m1, lh); for (int i = 0; i < k1 * N; i++) for (int j = 0; j < k1 * N; j++) out[i * k1 * N + j] = B(i, j); return B.Height(); }
  if (op == 1) return AggregateWideStabilityCheck<EN>(rho, A, m1, m2, flag != 0, false, lh);
  if (op == 2) { TM E = A.edgeMats[id]; AddNeibBoost<EN>(E, vi, A.vData[vi], vj, A.vData[vj], id, A, lh); SM<N>(E, out); return 0; }
  if (op == 3) { TM E, C; PrepRobSOC<EN>(E, C, vi, vj, id, A, cfg, lh); SM<N>(E, out); SM<N>(C, out + N * N); return 0; }
  if (op == 4) return CheckRobSOC<EN>(rho, vi, vj, id, A, cfg, lh);
  if (op == 5) return CalcRobSOC<EN>(vi, vj, id, A, cfg, lh);
  if (op == 6) return CheckRobJoinSOC<EN>(rho, vi, vj, id, A, cfg, lh);
  if (op == 7) return CalcRobJoinSOC<EN>(vi, vj, id, A, cfg, lh);
  return -77; }
#define AP (int op, int n, double *pos, double *rs, int ne, int *ei, double *em, double *ad, int vi, int vj, double rho, int flag, int k1, int k2, int *mem, double *out)
#define AA (op, n, pos, rs, ne, ei, em, ad, vi, vj, rho, flag, k1, k2, mem, out)
X double s_agg2 AP { return agg<2> AA; }
X double s_agg3 AP { return agg<3> AA; }
X double s_aggh(int op, int n, int ne, int *ei, double *em, double *ad, double rho, int flag, int k1, int k2, int *mem, double *out) {
  using EN = H1Energy<2, IVec<2, double>, double>; Quiet q; auto &lh = LHP(); MockMesh mesh{edgeCM(n, ne, ei)}; AgglomerationData<MockMesh, EN, double, double> A(mesh);
  A.vData.SetSize(n); A.auxDiags.SetSize(n); A.edgeMats.SetSize(ne); for (int i = 0; i < n; i++) { A.vData[i] = IVec<2, double>(0.0); A.auxDiags[i] = ad[i]; } for (int e = 0; e < ne; e++) A.edgeMats[e] = em[e];
  FlatArray<int> m1(k1, mem), m2(k2, mem + k1);
  if (op == 0) { auto B = AssembleAhatBlock<EN, double>(A, m1, lh); for (int i = 0; i < k1; i++) for (int j = 0; j < k1; j++) out[i * k1 + j] = B(i, j); return B.Height(); }
  return AggregateWideStabilityCheck<EN>(rho, A, m1, m2, flag != 0, false, lh); }
// pairs of matrices
template<int N> static double pairs(int op, double rho, double *a, double *b, double *c, double *o) {
  auto A = LM<N>(a), B = LM<N>(b), C = LM<N>(c); auto &lh = LHP();
  if (op == 0) return MinGEV(A, B, lh);
  if (op == 1) return PairStabilityCheck<N, double>(rho, A, B, lh);
  if (op == 2) return PairStabilityCheckWInv<N, double>(rho, A, B, lh);
  if (op == 3) return CalcRobustPairSOC(A, B, lh);
  if (op == 4) return CalcRobustPairSOCViaInvs(A, B, C, lh);
  if constexpr (N == 3 || N == 6) { constexpr int D = N == 3 ? 2 : 3;
    if (op == 5) { ElastVData<D> vi(0.0), vj(0.0); vi.wt = A; vj.wt = B; AddL2Boost<EE<D>>(C, 0, vi, 1, vj); SM<N>(C, o); return 0; }
    if (op == 6) return CheckVertexWeight<EE<D>>(o[0], o[1], o[2], A, B, lh); }
  return -77; }
#define PP (int op, double rho, double *a, double *b, double *c, double *o)
X double s_pair2 PP { return pairs<2>(op, rho, a, b, c, o); }
X double s_pair3 PP { return pairs<3>(op, rho, a, b, c, o); }
X double s_pair6 PP { return pairs<6>(op, rho, a, b, c, o); }
X double s_mingev(int n, double *e, double *d) { return MinGEV(FlatMatrix<double>(n, n, e), FlatMatrix<double>(n, n, d), LHP()); }
// numbers
X double s_avg(int t, int op, double a, double b) {
  if (op == 0) return Average(AVG_TYPE(t), a, b); if (op == 2) return HalfHarmonicAvg(a, b); if (op == 3) return MinGEV(a, b); if (op == 4) return CalcScalVertexSOC(a, b);
  switch (t) { case MIN: return Average<MIN>(a, b); case GEOM: return Average<GEOM>(a, b); case HARM: return Average<HARM>(a, b); case ALG: return Average<ALG>(a, b); default: return Average<MAX>(a, b); } }
X double s_soc(int op, int t, double w, double di, double dj, double li, double lj, int l2) { using EN = H1Energy<1, IVec<2, double>, double>; IVec<2, double> vi(0.0), vj(0.0); vi[0] = li; vj[0] = lj;
  bool b = l2; return op ? CalcApproxJoinSOC<EN>(vi, vj, w, di, dj, b) : CalcApproxSOC<EN, double>(AVG_TYPE(t), vi, vj, w, di, dj, b); }
X int s_vwt(double rt, double vt, double mx, double l, double d) { return CheckVertexWeight<H1Energy<1, IVec<2, double>, double>>(rt, vt, mx, l, d, LHP()); }
// neighbour selection with measures given as tables
X int s_pick(int n, int *neibs, double *soc, double *rob, int *allow, int *big, int robPick, int aggWide, double rel, double ar, double ab) {
  return FindNeib3Step(0, FlatArray<int>(n, neibs), robPick != 0, aggWide != 0, rel, ar, ab, [&](auto j) { return soc[j]; }, [&](auto j) { return rob[j]; },
    [&](auto j, auto rho) { return rob[j] >= rho; }, [&](auto j, auto rho) { return double(big[j]) / 16 >= rho; }, [&](auto i, auto v) { for (int k = 0; k < n; k++) if (neibs[k] == v) return allow[k] != 0; return false; }, LHP()); }

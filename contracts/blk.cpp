// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/smoothers/hybrid_smoother.cpp base/smoothers/hybrid_base_smoother.cpp
// LINK: base/smoothers/base_smoother.cpp base/smoothers/gssmoother.cpp base/smoothers/block_gssmoother.cpp base/smoothers/loc_block_gssmoother.cpp
// Native entries to the block smoothers and the dynamically blocked sparse matrix (bounded contracts: enumerated and random small systems).
#include <base.hpp>
#include <block_gssmoother.hpp>
#include <loc_block_gssmoother.hpp>
#include <dyn_block.hpp>
#include <dyn_block_impl.hpp>
#include "dyn_block_smoother.cpp"
using namespace amg;
#define X extern "C"
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(); } };
template<class TM> static double &ent(TM &m, int i, int j) { if constexpr (is_same<TM, double>::value) return m; else return m(i, j); }
template<class T> struct dm { static constexpr int H = 1, W = 1; };
template<int h, int w> struct dm<Mat<h, w, double>> { static constexpr int H = h, W = w; };
template<class TM> static shared_ptr<SparseMatrix<TM>> MK(int n, int m, const signed char *pat, const double *a) {
  constexpr int H = dm<TM>::H, W = dm<TM>::W;
  Array<int> per(n); per = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (pat[i * m + j]) per[i]++;
  auto s = make_shared<SparseMatrix<TM>>(per, m);
  for (int i = 0; i < n; i++) { int c = 0; auto ri = s->GetRowIndices(i); auto rv = s->GetRowValues(i);
    for (int j = 0; j < m; j++) if (pat[i * m + j]) { ri[c] = j; for (int r = 0; r < H; r++) for (int t = 0; t < W; t++) ent(rv[c], r, t) = a[(i * H + r) * m * W + j * W + t]; c++; } }
  return s;
}
static shared_ptr<BitArray> BA(int n, const signed char *b) { auto r = make_shared<BitArray>(n); r->Clear(); for (int i = 0; i < n; i++) if (b[i]) r->SetBit(i); return r; }
static S_BaseVectorPtr<double> WV(int n, int N, double *p) { return S_BaseVectorPtr<double>(n, N, p); }
static void go(BaseSmoother &s, int type, int k, BaseVector &x, BaseVector &b, BaseVector &r, bool ru, bool ur, bool xz) {
  switch (type) {
    case 0: s.Smooth(x, b, r, ru, ur, xz); break;
    case 1: s.SmoothBack(x, b, r, ru, ur, xz); break;
    case 2: s.SmoothSymm(x, b, r, ru, ur, xz); break;
    case 3: s.SmoothK(k, x, b, r, ru, ur, xz); break;
    case 4: s.SmoothBackK(k, x, b, r, ru, ur, xz); break;
    case 5: s.SmoothSymmK(k, x, b, r, ru, ur, xz); break;
  }
}
static Table<int> TB(int nb, const int *off, const int *d) { Array<int> per(nb); for (int i = 0; i < nb; i++) per[i] = off[i + 1] - off[i]; Table<int> t(per); for (int i = 0; i < nb; i++) for (int j = off[i]; j < off[i + 1]; j++) t[i][j - off[i]] = d[j]; return t; }
// cls 0: BSmoother, 1: BSmoother2; ord receives the order in which the blocks are visited going forward
template<class TM> static int BS(int cls, int n, signed char *pat, double *a, int nb, int *off, int *bd, int par, int sl2, int pinv, int no, int rep, double *repl, int type, int k, int ru, int ur, int xz, double om,
    double *x, double *b, double *r, double *madd, int *ord, int ng, int *goff, int gm, int *grp) {
  constexpr int N = dm<TM>::H; Quiet q; auto A = MK<TM>(n, n, pat, a);
  Array<TM> R; if (rep) { R.SetSize(n); for (int i = 0; i < n; i++) for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) ent(R[i], u, v) = repl[(i * N + u) * N + v]; }
  auto vx = WV(n, N, x), vb = WV(n, N, b), vr = WV(n, N, r), vm = WV(n, N, madd);
  if (cls == 0) {
    auto s = rep ? make_shared<BSmoother<TM>>(A, TB(nb, off, bd), par, sl2, pinv, R) : make_shared<BSmoother<TM>>(A, TB(nb, off, bd), par, sl2, pinv);
    int c = 0; if (par) { for (auto row : s->block_colors) for (auto j : row) { if (c >= nb) return -1; ord[c++] = j; } } else for (; c < nb; c++) ord[c] = c;
    if (c != nb) return -2;
    s->MultAdd(om, vb, vm); go(*s, type, k, vx, vb, vr, ru, ur, xz);
  } else {
    shared_ptr<BSmoother2<TM>> s; for (int i = 0; i < nb; i++) ord[i] = i;
    if (ng) { Array<Table<int>> T(ng); for (int g = 0; g < ng; g++) T[g] = TB(goff[g + 1] - goff[g], off + goff[g], bd); 
              s = rep ? make_shared<BSmoother2<TM>>(A, T, par, sl2, pinv, no, R) : make_shared<BSmoother2<TM>>(A, T, par, sl2, pinv, no); }
    else s = rep ? make_shared<BSmoother2<TM>>(A, TB(nb, off, bd), par, sl2, pinv, no, R) : make_shared<BSmoother2<TM>>(A, TB(nb, off, bd), par, sl2, pinv, no);
    s->MultAdd(om, vb, vm);
    if (type < 6) go(*s, type, k, vx, vb, vr, ru, ur, xz);
    else { Array<int> G(gm); for (int i = 0; i < gm; i++) G[i] = grp[i]; s->SmoothGroups(G, k, vx, vb, vr, ru, ur, xz, type == 7, type == 8); }
  }
  return 0;
}
#define ARGS int cls, int n, signed char *pat, double *a, int nb, int *off, int *bd, int par, int sl2, int pinv, int no, int rep, double *repl, int type, int k, int ru, int ur, int xz, double om, double *x, double *b, double *r, double *madd, int *ord, int ng, int *goff, int gm, int *grp
#define PASS cls, n, pat, a, nb, off, bd, par, sl2, pinv, no, rep, repl, type, k, ru, ur, xz, om, x, b, r, madd, ord, ng, goff, gm, grp
X int k_bs1(ARGS) { return BS<double>(PASS); }
X int k_bs2(ARGS) { return BS<Mat<2,2,double>>(PASS); }
X int k_bs3(ARGS) { return BS<Mat<3,3,double>>(PASS); }
// the dynamically blocked matrix: mode 0: blocking found from the graph, 1: given row (= column) blocking, 2: given row and column blocking
static DynVectorBlocking<> VB(int nb, const int *off) { Array<unsigned> o(nb + 1); for (int i = 0; i <= nb; i++) o[i] = off[i]; return DynVectorBlocking<>(nb, off[nb], std::move(o)); }
static shared_ptr<DynBlockSparseMatrix<double>> DY(int mode, int n, int m, signed char *pat, double *a, int nr, int *ro, int nc, int *co) {
  auto A = MK<double>(n, m, pat, a);
  switch (mode) {
    case 0: { if (nc) { auto c = VB(nc, co); return make_shared<DynBlockSparseMatrix<double>>(*A, &c); } return make_shared<DynBlockSparseMatrix<double>>(*A); }
    case 1: return make_shared<DynBlockSparseMatrix<double>>(*A, VB(nr, ro));
    case 2: { auto r = VB(nr, ro); return make_shared<DynBlockSparseMatrix<double>>(*A, r); }
    case 3: return make_shared<DynBlockSparseMatrix<double>>(*A, VB(nr, ro), VB(nc, co), false);
    case 4: { auto r = VB(nr, ro), c = VB(nc, co); return make_shared<DynBlockSparseMatrix<double>>(*A, r, c, false); }
    default: return ConvertToDynSPM(*A);
  }
}
// o = {height, width, blocks, entries, max rows, max columns, ...}; d: dense matrix reassembled from the blocks, hit: how often each entry is stored; rb: block of each row
X int k_dyn(int mode, int n, int m, signed char *pat, double *a, int nr, int *ro, int nc, int *co, double s, double *x, double *y, double *z, int *o, double *d, int *hit, int *rb) {
  Quiet q; auto D = DY(mode, n, m, pat, a, nr, ro, nc, co);
  o[0] = D->Height(); o[1] = D->Width(); o[2] = D->GetNumBlocks(); o[3] = D->GetNZE(); o[4] = D->GetMaxScalRowsInRowBlock(); o[5] = D->GetMaxScalColsInRowBlock();
  Array<unsigned> b0(n + 1), b1(m + 1);
  for (int k = 0; k < o[2]; k++) { auto [R, C, V] = D->GetBlockRCV(k, b0, b1);
    for (auto i : Range(R)) { rb[R[i]] = rb[R[i]] == -1 ? k : -2; for (auto j : Range(C)) { hit[R[i] * m + C[j]]++; d[R[i] * m + C[j]] = V(i, j); } } }
  auto vx = WV(m, 1, x), vy = WV(n, 1, y), vz = WV(n, 1, z);
  D->Mult(vx, vy); D->MultAdd(s, vx, vz);
  return 0;
}
// rb: block of each row
X int k_dys(int mode, int n, signed char *pat, double *a, int nr, int *ro, int sub, signed char *bits, int rep, double *repl, double om, int type, int k, int ru, int ur, int xz, double *x, double *b, double *r, int *rb) {
  Quiet q; auto D = DY(mode, n, n, pat, a, nr, ro, 0, nullptr); auto fr = sub ? BA(n, bits) : nullptr;
  for (unsigned g = 0; g < D->GetNumBlocks(); g++) for (auto br : D->GetBlockRows(g)) for (auto i : D->GetScalRows(br)) rb[i] = g;
  Array<double> R(rep ? n : 0); for (int i = 0; i < int(R.Size()); i++) R[i] = repl[i];
  auto s = rep ? make_shared<DynBlockSmoother<double>>(D, R, fr, om) : make_shared<DynBlockSmoother<double>>(D, fr, om);
  auto vx = WV(n, 1, x), vb = WV(n, 1, b), vr = WV(n, 1, r);
  if (type < 6) go(*s, type, k, vx, vb, vr, ru, ur, xz);
  else { // a selection of blocks, in the order given
    Array<unsigned> G; for (unsigned g = 0; g < D->GetNumBlocks(); g++) if (g % 2 == unsigned(k % 2)) G.Append(g);
    auto fx = vx.FV<double>(), fb = vb.FV<double>(), fr = vr.FV<double>();
    if (type == 6) s->updateBlocksRHS<FORWARD>(G, fx, fb); if (type == 7) s->updateBlocksRHS<BACKWARD>(G, fx, fb);
    if (type == 8) s->updateBlocksRes<FORWARD>(G, fx, fr); if (type == 9) s->updateBlocksRes<BACKWARD>(G, fx, fr); }
  return 0;
}

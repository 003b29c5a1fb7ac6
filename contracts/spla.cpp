// LINK: base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp
// Native entries to the sparse matrix utilities (bounded contracts).  Matrices come in and go out as (row, column, block) triples.
#include "utils_sparseLA.cpp"
using namespace amg;
#define X extern "C"
template<class TM> static double &ent(TM &m, int i, int j) { if constexpr (is_same<TM, double>::value) return m; else return m(i, j); }
// rows of the input are given in increasing order with increasing columns
template<int H, int W> static shared_ptr<SparseMat<H, W>> IN(int n, int m, int k, int *r, int *c, double *v) {
  Array<int> per(n); per = 0; for (int i = 0; i < k; i++) per[r[i]]++;
  auto s = make_shared<SparseMat<H, W>>(per, m); per = 0;
  for (int i = 0; i < k; i++) { int p = per[r[i]]++; s->GetRowIndices(r[i])[p] = c[i]; for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) ent(s->GetRowValues(r[i])[p], a, b) = v[(i * H + a) * W + b]; }
  return s;
}
// o = {height, width, entries, entry height, entry width}; returns -1 if there is no room
template<int H, int W, class T> static int OUT(T const &s, int cap, int *o, int *r, int *c, double *v) {
  o[0] = s.Height(); o[1] = s.Width(); o[3] = H; o[4] = W; int k = 0;
  for (int i = 0; i < s.Height(); i++) { auto ri = s.GetRowIndices(i); auto rv = s.GetRowValues(i);
    for (size_t j = 0; j < ri.Size(); j++) { if (k >= cap) return -1; r[k] = i; c[k] = ri[j]; for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) { auto x = rv[j]; v[(k * H + a) * W + b] = ent(x, a, b); } k++; } }
  o[2] = k; return 0;
}
static int OUTG(shared_ptr<BaseMatrix> s, int cap, int *o, int *r, int *c, double *v) {
  int ret = -2; if (!s) return -3;
  DispatchOverMatrixDimensions(*s, [&](auto const &A, auto h, auto w) { ret = OUT<decltype(h)::value, decltype(w)::value>(A, cap, o, r, c, v); });
  return ret;
}
#define IM(A) int A##n, int A##m, int A##k, int *A##r, int *A##c, double *A##v
#define OM int cap, int *o, int *r, int *c, double *v
#define PI(A) A##n, A##m, A##k, A##r, A##c, A##v
#define PO cap, o, r, c, v
#define TR(H, W) X int m_tr##H##W(IM(A), OM) { auto A = IN<H, W>(PI(A)); auto T = TransposeSPM(*A); return OUT<W, H>(*T, PO); } \
                 X int m_trg##H##W(IM(A), OM) { return OUTG(TransposeAGeneric(IN<H, W>(PI(A))), PO); } \
                 X int m_cmp##H##W(IM(A), double th, OM) { return OUTG(CompressAGeneric(IN<H, W>(PI(A)), th), PO); } \
                 X int m_add##H##W(IM(A), IM(B), double al, double be, int sc, double sa, double sb, OM) { shared_ptr<BaseMatrix> A = IN<H, W>(PI(A)), B = IN<H, W>(PI(B)); \
                   if (sc & 1) A = make_shared<VScaleMatrix<double>>(A, sa); if (sc & 2) B = make_shared<VScaleMatrix<double>>(B, sb); return OUTG(AddABGeneric(al, A, be, B), PO); }
#define MM(H, K, W) X int m_mm##H##K##W(IM(A), IM(B), OM) { auto A = IN<H, K>(PI(A)); auto B = IN<K, W>(PI(B)); auto C = MatMultAB(*A, *B); return OUT<H, W>(*C, PO); } \
                    X int m_mg##H##K##W(IM(A), IM(B), OM) { return OUTG(MatMultABGeneric(IN<H, K>(PI(A)), IN<K, W>(PI(B))), PO); } \
                    X int m_mu##H##K##W(IM(A), IM(B), double *va, double *vb, OM) { auto A = IN<H, K>(PI(A)); auto B = IN<K, W>(PI(B)); auto C = MatMultAB(*A, *B); \
                      auto A2 = IN<H, K>(An, Am, Ak, Ar, Ac, va); auto B2 = IN<K, W>(Bn, Bm, Bk, Br, Bc, vb); MatMultABUpdateVals(*A2, *B2, *C); return OUT<H, W>(*C, PO); }
TR(1, 1) TR(2, 2) TR(1, 2) TR(2, 3) TR(3, 1) TR(3, 6) TR(6, 6)
MM(1, 1, 1) MM(2, 2, 2) MM(1, 1, 2) MM(2, 1, 2) MM(2, 3, 3) MM(3, 3, 6) MM(6, 3, 6) MM(3, 1, 3)
// Galerkin product with both factors kept
#define RK(H, W) X int m_rk##H##W(IM(A), IM(B), int which, OM) { auto A = IN<H, H>(PI(A)); auto P = IN<H, W>(PI(B)); auto PT = TransposeSPM(*P); \
  if (which == 2) { auto C = RestrictMatrix<H, W>(*PT, *A, *P); return OUT<W, W>(*C, PO); } \
  auto [AP, PTAP] = RestrictMatrixKeepFactor(*A, *P, *PT); return OUTG(which ? PTAP : AP, PO); }
RK(1, 1) RK(2, 2) RK(3, 3)
X int m_rb(IM(A), int nb, int nr, int *roff, int *rr, int nc, int *coff, int *cc, double th, OM);
template<int H> static int RB(IM(A), int nb, int nr, int *roff, int *rr, int nc, int *coff, int *cc, double th, OM) {
  Array<int> pr(nb), pc(nb); for (int i = 0; i < nb; i++) { pr[i] = roff[i + 1] - roff[i]; pc[i] = coff[i + 1] - coff[i]; }
  Table<int> R(pr), C(pc); for (int i = 0; i < nb; i++) { for (int j = roff[i]; j < roff[i + 1]; j++) R[i][j - roff[i]] = rr[j]; for (int j = coff[i]; j < coff[i + 1]; j++) C[i][j - coff[i]] = cc[j]; }
  return OUTG(restrictMatrixToBlocks(IN<H, H>(PI(A)), R, C, th), PO);
}
X int m_rb1(IM(A), int nb, int nr, int *roff, int *rr, int nc, int *coff, int *cc, double th, OM) { return RB<1>(PI(A), nb, nr, roff, rr, nc, coff, cc, th, PO); }
X int m_rb2(IM(A), int nb, int nr, int *roff, int *rr, int nc, int *coff, int *cc, double th, OM) { return RB<2>(PI(A), nb, nr, roff, rr, nc, coff, cc, th, PO); }
#define PM(H) X int m_pm##H(int n, int *sort, OM) { auto P = BuildPermutationMatrix<H>(FlatArray<int>(n, sort)); return OUT<H, H>(*P, PO); }
PM(1) PM(3) PM(6)
// symbolic expressions of two n x n matrices: 0 A^T  1 A B  2 A+B  3 A+I  4 I+A  5 A I  6 I A  7 (A+B)^T  8 A (A+B)  9 embedding into rows [off, off+n) of h rows  10 embedding of a sum
template<int H> static int EX(IM(A), IM(B), int what, int off, int h, OM) {
  shared_ptr<BaseMatrix> A = IN<H, H>(PI(A)), B = IN<H, H>(PI(B)), E;
  auto sum = [](shared_ptr<BaseMatrix> a, shared_ptr<BaseMatrix> b) { return make_shared<SumMatrix>(a, b); };
  auto prod = [](shared_ptr<BaseMatrix> a, shared_ptr<BaseMatrix> b) { return make_shared<ProductMatrix>(a, b); };
  auto id = [&](int n) { return make_shared<IdentityMatrix>(n, false); };
  switch (what) {
    case 0: E = make_shared<Transpose>(A); break;
    case 1: E = prod(A, B); break;
    case 2: E = sum(A, B); break;
    case 3: E = sum(A, id(An)); break;
    case 4: E = sum(id(An), A); break;
    case 5: E = prod(A, id(An)); break;
    case 6: E = prod(id(An), A); break;
    case 7: E = make_shared<Transpose>(sum(A, B)); break;
    case 8: E = prod(A, sum(A, B)); break;
    case 9: E = make_shared<EmbeddedMatrix>(h, IntRange(off, off + An), A); break;
    case 10: E = make_shared<EmbeddedMatrix>(h, IntRange(off, off + An), sum(A, B)); break;
  }
  return OUTG(BaseMatrixToSparse(E), PO);
}
X int m_ex1(IM(A), IM(B), int what, int off, int h, OM) { return EX<1>(PI(A), PI(B), what, off, h, PO); }
X int m_ex2(IM(A), IM(B), int what, int off, int h, OM) { return EX<2>(PI(A), PI(B), what, off, h, PO); }
// block matrix with nr x nc blocks; block (i,j), if present, holds the entries of A whose row / column lie in the i-th / j-th range
template<int H> static int BM(IM(A), int nr, int *ro, int nc, int *co, signed char *pres, OM) {
  Array<Array<shared_ptr<BaseMatrix>>> bl(nr);
  for (int i = 0; i < nr; i++) { bl[i].SetSize(nc); for (int j = 0; j < nc; j++) { bl[i][j] = nullptr; if (!pres[i * nc + j]) continue;
    vector<int> r2, c2; vector<double> v2; for (int q = 0; q < Ak; q++) if (Ar[q] >= ro[i] && Ar[q] < ro[i + 1] && Ac[q] >= co[j] && Ac[q] < co[j + 1]) { r2.push_back(Ar[q] - ro[i]); c2.push_back(Ac[q] - co[j]); for (int t = 0; t < H * H; t++) v2.push_back(Av[q * H * H + t]); }
    bl[i][j] = IN<H, H>(ro[i + 1] - ro[i], co[j + 1] - co[j], r2.size(), r2.data(), c2.data(), v2.data()); } }
  auto B = make_shared<BlockMatrix>(bl);
  return OUTG(BaseMatrixToSparse(B), PO);
}
X int m_bm1(IM(A), int nr, int *ro, int nc, int *co, signed char *pres, OM) { return BM<1>(PI(A), nr, ro, nc, co, pres, PO); }
X int m_bm2(IM(A), int nr, int *ro, int nc, int *co, signed char *pres, OM) { return BM<2>(PI(A), nr, ro, nc, co, pres, PO); }

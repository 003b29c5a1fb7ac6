// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/smoothers/hybrid_smoother.cpp base/smoothers/hybrid_base_smoother.cpp
// LINK: base/smoothers/base_smoother.cpp base/smoothers/gssmoother.cpp
// Native entries to the level transfers (DOFMap and its steps) and to the multigrid cycles (AMGMatrix, EmbeddedAMGMatrix, AMGSmoother); bounded contracts.
#include <base.hpp>
#include "dof_map.cpp"
#include "amg_matrix.cpp"
#include <gssmoother.hpp>
#include <dyn_block_impl.hpp>
using namespace amg;
#define X extern "C"
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(); std::cerr.clear(); } };
template<class TM> static double &ent(TM &m, int i, int j) { if constexpr (is_same<TM, double>::value) return m; else return m(i, j); }
template<int H, int W> static shared_ptr<SparseMat<H, W>> MK(int n, int m, const signed char *pat, const double *a) {
  Array<int> per(n); per = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (pat[i * m + j]) per[i]++;
  auto s = make_shared<SparseMat<H, W>>(per, m);
  for (int i = 0; i < n; i++) { int c = 0; auto ri = s->GetRowIndices(i); auto rv = s->GetRowValues(i);
    for (int j = 0; j < m; j++) if (pat[i * m + j]) { ri[c] = j; for (int r = 0; r < H; r++) for (int t = 0; t < W; t++) ent(rv[c], r, t) = a[(i * H + r) * m * W + j * W + t]; c++; } }
  return s;
}
static void put(BaseVector &v, const double *p) { auto f = v.FVDouble(); for (size_t i = 0; i < f.Size(); i++) f[i] = p[i]; v.SetParallelStatus(CUMULATED); }
static void get(double *p, const BaseVector &v) { auto f = v.FVDouble(); for (size_t i = 0; i < f.Size(); i++) p[i] = f[i]; }
// block sizes of the finer and the coarser level -> step
template<int H, int W> static shared_ptr<BaseDOFMapStep> PM(int n, int m, signed char *pat, double *a, bool late) {
  auto s = make_shared<ProlMap<StripTM<H, W>>>(MK<H, W>(n, m, pat, a), UniversalDofs(n, H), UniversalDofs(m, W));
  if (late) { s->Finalize(); auto z = MK<H, W>(n, m, pat, a); for (int i = 0; i < n; i++) for (auto &x : z->GetRowValues(i)) x *= 2; s->SetProl(z); s->Finalize(); s->SetProl(MK<H, W>(n, m, pat, a)); }
  s->Finalize(); return s; }
#define DIMS(F, ...) switch (h * 10 + w) { case 11: return F<1, 1>(__VA_ARGS__); case 12: return F<1, 2>(__VA_ARGS__); case 21: return F<2, 1>(__VA_ARGS__); case 22: return F<2, 2>(__VA_ARGS__); case 13: return F<1, 3>(__VA_ARGS__); case 31: return F<3, 1>(__VA_ARGS__); \
  case 23: return F<2, 3>(__VA_ARGS__); case 32: return F<3, 2>(__VA_ARGS__); case 33: return F<3, 3>(__VA_ARGS__); case 36: return F<3, 6>(__VA_ARGS__); case 66: return F<6, 6>(__VA_ARGS__); case 16: return F<1, 6>(__VA_ARGS__); } return nullptr;
static shared_ptr<BaseDOFMapStep> PMX(int h, int w, int n, int m, signed char *pat, double *a, bool late) { DIMS(PM, n, m, pat, a, late) }
template<int h, int w> static shared_ptr<BaseMatrix> SQ(int n, signed char *pat, double *a) { return MK<h, w>(n, n, pat, a); }
static shared_ptr<BaseMatrix> FM(int h, int n, signed char *pat, double *a) { int w = h; DIMS(SQ, n, pat, a) }
template<int h, int w> static BaseMatrix *SQD(const BaseMatrix &A, int n, double *d, signed char *p) {
  auto &S = dynamic_cast<const SparseMatTM<h, w>&>(A); if (int(S.Height()) != n || int(S.Width()) != n) throw Exception("size of a level matrix");
  for (int i = 0; i < n; i++) { auto ri = S.GetRowIndices(i); auto rv = S.GetRowValues(i); for (size_t q = 0; q < ri.Size(); q++) { p[i * n + ri[q]]++; for (int r = 0; r < h; r++) for (int t = 0; t < w; t++) d[(i * h + r) * n * w + ri[q] * w + t] = ent(rv[q], r, t); } }
  return nullptr; }
static BaseMatrix *DMP(int h, const BaseMatrix &A, int n, double *d, signed char *p) { int w = h; DIMS(SQD, A, n, d, p) }
static DynVectorBlocking<> VB(int n, int bs) { Array<unsigned> o; for (int i = 0; i < n; i += bs) o.Append(i); o.Append(n); int nb = o.Size() - 1; return DynVectorBlocking<>(nb, n, std::move(o)); }
// kind 0: plain, 1: MultiDofMapStep with one map, 2: two maps, 3: ConcDMS around one step, 4: dynamic blocks with transposed, 5: dynamic blocks without transposed, 6: prolongation replaced after Finalize
static shared_ptr<BaseDOFMapStep> STEP(int kind, int h, int w, int n, int m, signed char *pat, double *a) {
  auto s = PMX(h, w, n, m, pat, a, kind == 6); if (!s) throw Exception("dims");
  Array<shared_ptr<BaseDOFMapStep>> v; v.Append(s);
  switch (kind) {
    case 1: return make_shared<MultiDofMapStep>(v);
    case 2: { Array<double> z(n * h * m * w); for (int i = 0; i < n * h * m * w; i++) z[i] = 3 * a[i] + 1; v.Append(PMX(h, w, n, m, pat, z.Data(), false)); return make_shared<MultiDofMapStep>(v); }
    case 3: return make_shared<ConcDMS>(v);
    case 4: { auto P = dynamic_pointer_cast<ProlMap<double>>(s); auto f = VB(n, 2), c = VB(m, 3);
              return make_shared<DynBlockProlMap<double>>(make_shared<DynBlockSparseMatrix<double>>(*P->GetProl(), f, c, false), make_shared<DynBlockSparseMatrix<double>>(*P->GetProlTrans(), c, f, false), s->GetUDofs(), s->GetMappedUDofs()); }
    case 5: { auto f = VB(n, 2), c = VB(m, 3); return ConvertToDynSparseProlMap(*dynamic_pointer_cast<ProlMap<double>>(s), f, c); }
  }
  return s;
}
static int trans(BaseDOFMapStep &s, int what, double fac, double *x, double *y) {
  shared_ptr<BaseVector> f = s.CreateVector(), c = s.CreateMappedVector(); bool f2c = what < 2; auto &in = f2c ? *f : *c; auto &out = f2c ? *c : *f; put(in, x); put(out, y);
  switch (what) { case 0: s.TransferF2C(f.get(), c.get()); break; case 1: s.AddF2C(fac, f.get(), c.get()); break; case 2: s.TransferC2F(f.get(), c.get()); break; case 3: s.AddC2F(fac, f.get(), c.get()); break; }
  get(x, in); get(y, out); return 0;
}
// build 0: AddStep only, 1: first step prepended, 2: one step replaced
static shared_ptr<DOFMap> MAP(int build, int nl, int *nd, int *bs, int *kind, int *po, signed char *pat, int *vo, double *val) {
  auto m = make_shared<DOFMap>(); Array<shared_ptr<BaseDOFMapStep>> st;
  for (int l = 0; l + 1 < nl; l++) st.Append(STEP(kind[l], bs[l], bs[l + 1], nd[l], nd[l + 1], pat + po[l], val + vo[l]));
  for (int l = build == 1; l + 1 < nl; l++) m->AddStep(st[l]);
  if (build == 1) m->PrependStep(st[0]);
  if (build == 2) { int k = nl / 2 - (nl == 2); Array<double> z(nd[k] * bs[k] * nd[k + 1] * bs[k + 1]); z = 1.0; auto w = STEP(0, bs[k], bs[k + 1], nd[k], nd[k + 1], pat + po[k], z.Data()); m->ReplaceStep(k, w); m->ReplaceStep(k, st[k]); }
  m->Finalize(); return m;
}
// how 0: the steps of the map, one after the other (in-between vectors created by the map), 1: TransferAtoB, 2: ConcStep symbolic, 3: ConcStep not symbolic, 4: SubMap + TransferAtoB, 5: MakeSingleStep2, 6: ConcDMS without vectors
X int m_trans(int build, int nl, int *nd, int *bs, int *kind, int *po, signed char *pat, int *vo, double *val, int how, int la, int lb, int what, double fac, int nx, int ny, double *x, double *y, int *o) {
  Quiet q; auto m = MAP(build, nl, nd, bs, kind, po, pat, vo, val); shared_ptr<BaseDOFMapStep> s;
  for (int l = 0; l < nl; l++) { auto v = m->CreateVector(l); o[l] = v->FVDouble().Size(); }
  if (how == 1 || how == 4) { if (how == 4) { m = m->SubMap(la, lb); lb -= la; la = 0; m->Finalize(); } if (what > 1) swap(la, lb);
    shared_ptr<BaseVector> a = m->CreateVector(la), b = m->CreateVector(lb); put(*a, x); put(*b, y); m->TransferAtoB(la, lb, a.get(), b.get()); get(x, *a); get(y, *b); return 0; }
  Array<shared_ptr<BaseDOFMapStep>> st; for (int l = la; l < lb; l++) st.Append(m->GetStep(l));
  switch (how) {
    case 0: { bool f2c = what < 2; int first = f2c ? la : lb - 1, d = f2c ? 1 : -1; shared_ptr<BaseVector> v = m->CreateVector(f2c ? la : lb); put(*v, x);
      for (int l = first; l >= la && l < lb; l += d) { bool last = l == (f2c ? lb - 1 : la); shared_ptr<BaseVector> w = m->CreateVector(f2c ? l + 1 : l); if (last) put(*w, y); auto *F = f2c ? v.get() : w.get(), *C = f2c ? w.get() : v.get();
        if (f2c) { if (last && what == 1) m->AddF2C(l, fac, F, C); else m->TransferF2C(l, F, C); } else { if (last && what == 3) m->AddC2F(l, fac, F, C); else m->TransferC2F(l, F, C); }
        if (last) get(y, *w); if (l == first) get(x, *v); v = std::move(w); }
      return 0; }
    case 2: s = m->ConcStep(la, lb, true); break;
    case 3: s = m->ConcStep(la, lb, false); s->Finalize(); break;
    case 5: s = MakeSingleStep2(st); s->Finalize(); break;
    default: s = make_shared<ConcDMS>(st); s->Finalize(); break;
  }
  if (s->GetBlockSize() != bs[la] || s->GetMappedBlockSize() != bs[lb] || int(s->GetUDofs().GetND()) != nd[la] || int(s->GetMappedUDofs().GetND()) != nd[lb]) return -1;
  return trans(*s, what, fac, x, y);
}
// how 0: DOFMap::AssembleMatrices, 2/3/5/6: the steps from 0 to lb as one step (only the last matrix is written)
X int m_asm(int build, int nl, int *nd, int *bs, int *kind, int *po, signed char *pat, int *vo, double *val, int how, int lb, signed char *apat, double *a, int *ao, double *d, int *pp, signed char *p) {
  Quiet q; auto m = MAP(build, nl, nd, bs, kind, po, pat, vo, val); auto A = FM(bs[0], nd[0], apat, a); shared_ptr<BaseDOFMapStep> s;
  if (how == 0) { auto M = m->AssembleMatrices(A); if (int(M.Size()) != nl) return -1; for (int l = 0; l < nl; l++) DMP(bs[l], *M[l], nd[l], d + ao[l], p + pp[l]); return 0; }
  Array<shared_ptr<BaseDOFMapStep>> st; for (int l = 0; l < lb; l++) st.Append(m->GetStep(l));
  switch (how) { case 2: s = m->ConcStep(0, lb, true); break; case 3: s = m->ConcStep(0, lb, false); break; case 5: s = MakeSingleStep2(st); break; default: s = make_shared<ConcDMS>(st); }
  s->Finalize(); DMP(bs[lb], *s->AssembleMatrix(A), nd[lb], d + ao[lb], p + pp[lb]); return 0;
}
// multigrid
struct Dense : public BaseMatrix { int n, bs; double *p; Dense(int _n, int _bs, double *_p) : n(_n), bs(_bs), p(_p) {} bool IsComplex() const override { return false; } int VHeight() const override { return n; } int VWidth() const override { return n; }
  AutoVector CreateRowVector() const override { return make_unique<S_BaseVectorPtr<double>>(n, bs); } AutoVector CreateColVector() const override { return CreateRowVector(); }
  void Mult(const BaseVector &x, BaseVector &y) const override { auto fx = x.FVDouble(), fy = y.FVDouble(); int N = n * bs; Vector<double> t(N); for (int i = 0; i < N; i++) { t[i] = 0; for (int j = 0; j < N; j++) t[i] += p[i * N + j] * fx[j]; } fy = t; } };
// sm[l]: 0 Gauss-Seidel, 1 Jacobi (0.5), 2: two Gauss-Seidel steps, 3: one symmetric Gauss-Seidel step, 4: compressed Gauss-Seidel on all rows; inv 0: none, 1: null, 2: dense
template<int N> static shared_ptr<BaseSmoother> SM(int type, shared_ptr<BaseMatrix> M, shared_ptr<BitArray> fr) {
  using TM = StripTM<N, N>; auto A = dynamic_pointer_cast<SparseMatrix<TM>>(M); if (!A) A = make_shared<SparseMatrix<TM>>(std::move(dynamic_cast<SparseMatrixTM<TM>&>(*M)));
  switch (type) { case 1: return make_shared<JacobiSmoother<TM>>(A, fr, 0.5); case 2: return make_shared<ProxySmoother>(make_shared<GSS3<TM>>(A, fr, false), 2, false); case 3: return make_shared<ProxySmoother>(make_shared<GSS3<TM>>(A, fr, false), 1, true); }
  return make_shared<GSS3<TM>>(A, fr, false);
}
// op 0: Mult, 1: MultTrans, 2: MultAdd, 3: MultTransAdd, 4: SmoothVFromLevel(st), 5/6: AMGSmoother(st) Smooth/SmoothBack, 7/8: the same with a single smoothing step, 9: CINV, 10: GetBF(level st, dof, comp, on level ru), 11..14: as 0..3 for the embedded matrix (first step is the embedding), 15: CINV and 16: GetBF of the embedded matrix
template<int N> static int MG(int nl, int *nd, int *kind, int *po, signed char *pat, int *vo, double *val, signed char *apat, double *a, int *sm, int sub, signed char *bits, int inv, double *ci, int vwb, int op, int emb, int st, int ru, int ur, int xz, double s, int rep, int nx, double *x, double *b, double *r) {
  Quiet q; Array<int> bs(nl); bs = N; auto m = MAP(0, nl, nd, bs.Data(), kind, po, pat, vo, val); auto A = FM(N, nd[0], apat, a); auto M = m->AssembleMatrices(A);
  shared_ptr<BitArray> fr; if (sub) { fr = make_shared<BitArray>(nd[0]); fr->Clear(); for (int i = 0; i < nd[0]; i++) if (bits[i]) fr->SetBit(i); }
  Array<shared_ptr<BaseSmoother>> S; for (int l = 0; l + 1 < nl; l++) S.Append(SM<N>(sm[l], M[l], l ? nullptr : fr));
  bool E = op > 10; auto D = make_shared<Dense>(nd[nl - 1], N, ci); auto map = E ? m->SubMap(1) : m; if (E) map->Finalize(); Array<shared_ptr<BaseSmoother>> SL; for (int l = E; l + 1 < nl; l++) SL.Append(S[l]);
  auto G = make_shared<AMGMatrix>(map, SL); if (inv) G->SetCoarseInv(inv == 1 ? nullptr : D, M[nl - 1]); G->SetVWB(vwb);
  if (int(G->GetNLevels(0)) != nl - E) return -1;
  UniversalDofs U(nd[op == 4 || op == 5 || op == 6 || op == 7 || op == 8 ? st : op == 10 ? ru : 0], N); shared_ptr<BaseVector> vx = U.CreateVector(), vb = op == 9 || op == 15 ? shared_ptr<BaseVector>(U.CreateVector()) : shared_ptr<BaseVector>(U.CreateVector()), vr = U.CreateVector();
  put(*vx, x); put(*vb, b); put(*vr, r); auto EM = E ? make_shared<EmbeddedAMGMatrix>(emb ? S[0] : nullptr, G, m->GetStep(0)) : nullptr; BaseMatrix &O = E ? (BaseMatrix&)*EM : (BaseMatrix&)*G;
  for (int t = 0; t < rep; t++) {
    switch (op) {
      case 0: case 11: O.Mult(*vb, *vx); break; case 1: case 12: O.MultTrans(*vb, *vx); break; case 2: case 13: O.MultAdd(s, *vb, *vx); break; case 3: case 14: O.MultTransAdd(s, *vb, *vx); break;
      case 4: G->SmoothVFromLevel(st, *vx, *vb, *vr, ru, ur, xz); break;
      case 5: case 7: AMGSmoother(G, st, op == 7).Smooth(*vx, *vb, *vr, ru, ur, xz); break;
      case 6: case 8: AMGSmoother(G, st, op == 8).SmoothBack(*vx, *vb, *vr, ru, ur, xz); break;
      case 9: G->CINV(vx, vb); break; case 10: G->GetBF(*vx, st, ur, xz, 0, ru); break; case 15: EM->CINV(vx, vb); break; case 16: EM->GetBF(*vx, st, ur, xz, 0); break;
    }
  }
  get(x, *vx); get(b, *vb); get(r, *vr); return 0;
}
#define MARGS int nl, int *nd, int *kind, int *po, signed char *pat, int *vo, double *val, signed char *apat, double *a, int *sm, int sub, signed char *bits, int inv, double *ci, int vwb, int op, int emb, int st, int ru, int ur, int xz, double s, int rep, int nx, double *x, double *b, double *r
#define MPASS nl, nd, kind, po, pat, vo, val, apat, a, sm, sub, bits, inv, ci, vwb, op, emb, st, ru, ur, xz, s, rep, nx, x, b, r
X int m_mg1(MARGS) { return MG<1>(MPASS); }
X int m_mg2(MARGS) { return MG<2>(MPASS); }
X int m_mg3(MARGS) { return MG<3>(MPASS); }

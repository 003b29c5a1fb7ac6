// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/smoothers/hybrid_smoother.cpp base/smoothers/hybrid_base_smoother.cpp
// LINK: base/smoothers/base_smoother.cpp base/smoothers/gssmoother.cpp base/smoothers/block_gssmoother.cpp base/smoothers/loc_block_gssmoother.cpp
// Native entries to the parallel linear algebra (exchange of vector entries, hybrid matrices, hybrid smoothers), on several ranks (threads) over the in-process message passing of fakempi.h; bounded contracts.
#include <base.hpp>
#include <hybrid_matrix.hpp>
#include <dcc_map.hpp>
#include <gssmoother.hpp>
#include <block_gssmoother.hpp>
#include <dyn_block.hpp>
#include <dyn_block_impl.hpp>
#include "dyn_block_smoother.cpp"
#include "fakempi.h"
using namespace amg;
#define X extern "C"
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(); std::cerr.clear(); } };
static int code(const std::string &e) { if (e.empty()) return 0; if (getenv("VC_SHOW")) fprintf(stderr, "%s\n", e.c_str()); if (e == "deadlock") return 1; if (e.rfind("exception", 0) == 0) return 2; if (e.rfind("a message", 0) == 0) return 3; return 4; }
static Table<int> tab(const std::vector<Array<int>> &v) { Array<int> s(v.size()); for (size_t i = 0; i < v.size(); i++) s[i] = v[i].Size(); Table<int> t(s); for (size_t i = 0; i < v.size(); i++) t[i] = v[i]; return t; }
#include "pla_common.h"
// exchange of entries: alg 0 lowest rank, 1 chunks; rounds of distributed -> concentrated -> cumulated
X int p_dcc(SARGS, int alg, int chunk, int rounds, int *st, int nv, double *v, int no, double *o) { Quiet q; DOut O(np); S_;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { int r = c.Rank(); auto l = s.local(c); auto &w = O.r[r];
    shared_ptr<DCCMap<double>> m; if (alg) { auto h = make_shared<EQCHierarchy>(l.pd, true); m = make_shared<ChunkedDCCMap<double>>(h, l.pd, chunk); } else m = make_shared<BasicDCCMap<double>>(l.pd);
    auto md = m->GetMasterDOFs(); for (int i : Range(l.gl)) w.push_back(md->Test(i)); auto ex = l.pd->GetDistantProcs();
    for (int k : Range(ex)) { w.push_back(m->GetMDOFs(k).Size()); for (int x : m->GetMDOFs(k)) w.push_back(x); w.push_back(m->GetGDOFs(k).Size()); for (int x : m->GetGDOFs(k)) w.push_back(x); }
    for (int k = 0; k < rounds; k++) { auto x = s.vec(l, r, v + k * nd * np * bs, st[k]); m->StartDIS2CO(*x); m->ApplyDIS2CO(*x); m->FinishDIS2CO(); put(w, *x); m->StartCO2CU(*x); m->ApplyCO2CU(*x); m->FinishCO2CU(); put(w, *x); } });
  O.put(o, no); return code(e); }
template <class H> static void hybops(Sys &s, Sys::L &l, int r, H &h, D &w, int nop, int *op, int nv, double *v) {
  for (int k = 0; k < nop; k++) { auto x = s.vec(l, r, v + (2 * k) * s.nd * s.np * s.bs, op[3 * k + 1]), y = s.vec(l, r, v + (2 * k + 1) * s.nd * s.np * s.bs, op[3 * k + 2]);
    switch (op[3 * k]) { case 0: h.Mult(*x, *y); break; case 1: h.MultAdd(-2.5, *x, *y); break; case 2: h.MultTrans(*x, *y); break; case 3: h.MultTransAdd(.5, *x, *y); break; } put(w, *x); put(w, *y); } }
X int p_hyb(SARGS, bool dyn, bool chunked, int nop, int *op, int nv, double *v, int no, double *o) { Quiet q; DOut O(np); S_;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { int r = c.Rank(); auto l = s.local(c); s.fill(l, r); auto &w = O.r[r]; shared_ptr<DCCMap<double>> m; if (chunked) { auto h = make_shared<EQCHierarchy>(l.pd, true); m = make_shared<ChunkedDCCMap<double>>(h, l.pd, 2); } else m = make_shared<BasicDCCMap<double>>(l.pd);
    auto md = m->GetMasterDOFs(); for (int i : Range(l.gl)) w.push_back(md->Test(i));
    auto go = [&](auto h, auto tm) { using TM = decltype(tm); w.push_back(h->HasGLocal()); w.push_back(h->HasGGlobal()); w.push_back(h->Height()); w.push_back(h->Width()); if (h->HasGLocal()) spm(w, *h->GetSpG()); spm(w, *h->GetSpM()); hybops(s, l, r, *h, w, nop, op, nv, v); };
    if (dyn) { DynamicBlockHybridMatrix<double> h(l.P, m); w.push_back(h.HasGLocal()); w.push_back(h.HasGGlobal()); w.push_back(h.Height()); w.push_back(h.Width()); hybops(s, l, r, h, w, nop, op, nv, v); }
    else switch (s.bs) { case 1: go(make_shared<HybridMatrix<double>>(l.P, m), double()); break; case 2: go(make_shared<HybridMatrix<Mat<2, 2, double>>>(l.P, m), Mat<2, 2, double>()); break; default: go(make_shared<HybridMatrix<Mat<3, 3, double>>>(l.P, m), Mat<3, 3, double>()); } });
  O.put(o, no); return code(e); }
// smoothers. kind 0 Gauss-Seidel, 1 local inverse, 2 blocks (first kind), 3 blocks (second kind), 4 dynamic blocks
// op: bit 0 backwards, 1 residual up to date, 2 update it, 3 x is zero, 4 b cumulated, 5 x distributed
X int p_sm(SARGS, int kind, bool sub, signed char *fr, bool overlap, bool symm, int nloc, int nb, int *bo, int *bd, int nop, int *op, int nv, double *v, int no, double *o) { Quiet q; DOut O(np); S_;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { int r = c.Rank(); auto l = s.local(c); s.fill(l, r); auto &w = O.r[r]; int n = l.gl.Size();
    shared_ptr<BitArray> f; if (sub) { f = make_shared<BitArray>(n); f->Clear(); for (int i : Range(l.gl)) if (fr[l.gl[i]]) f->SetBit(i); }
    auto blocks = [&]() { std::vector<Array<int>> t; for (int k = 0; k < nb; k++) { Array<int> x; for (int j = bo[k]; j < bo[k + 1]; j++) if (l.loc[bd[j]] >= 0) x.Append(l.loc[bd[j]]); if (x.Size()) t.push_back(std::move(x)); } return tab(t); };
    shared_ptr<BaseSmoother> sm;
    auto go = [&](auto tm) { using TM = decltype(tm); constexpr int N = ngbla::Height<TM>();
      auto md = [&](HybridSmoother<TM> &h, shared_ptr<BitArray> fd) { auto m = h.CalcModDiag(fd); w.push_back(m.Size()); for (auto &x : m) for (int u = 0; u < N; u++) for (int k = 0; k < N; k++) w.push_back(at(x, u, k)); };
      switch (kind) {
        case 0: { auto g = make_shared<HybridGSSmoother<TM>>(l.P, f, false, overlap, false, symm, nloc); g->Finalize(); md(*g, f); w.push_back(g->split_ind); w.push_back(g->_numLocSteps); w.push_back(g->_overlapComm); w.push_back(g->_commInThread); sm = g; break; }
        case 1: { auto g = make_shared<HybridDISmoother<TM>>(l.P, f, overlap, false); md(*g, nullptr); w.push_back(0); w.push_back(g->_numLocSteps); w.push_back(g->_overlapComm); w.push_back(g->_commInThread); sm = g; break; }
        case 2: case 3: { auto g = make_shared<HybridBS<TM>>(l.P, blocks(), false, overlap, false, false, false, kind == 3, false, symm, nloc); md(*g, nullptr); w.push_back(0); w.push_back(g->_numLocSteps); w.push_back(g->_overlapComm); w.push_back(g->_commInThread); sm = g; break; } } };
    if (kind == 4) { auto g = make_shared<HybridDynBlockSmoother<double>>(l.P, f, nloc, false, overlap, 1.0); auto m = g->CalcScalModDiag(f); w.push_back(m.Size()); for (double x : m) w.push_back(x); w.push_back(0); w.push_back(g->_numLocSteps); w.push_back(g->_overlapComm); w.push_back(g->_commInThread); sm = g; }
    else switch (s.bs) { case 1: go(double()); break; case 2: go(Mat<2, 2, double>()); break; default: go(Mat<3, 3, double>()); }
    auto A = sm->GetAMatrix();
    for (int k = 0; k < nop; k++) { int p = op[k]; auto x = s.vec(l, r, v + 2 * k * nd * np * bs, !(p & 32)), b = s.vec(l, r, v + (2 * k + 1) * nd * np * bs, (p & 16) != 0); shared_ptr<BaseVector> res = CreateSuitableVector(n, bs, l.pd);
      if (p & 2) { auto t = s.vec(l, r, v + (2 * k + 1) * nd * np * bs, (p & 16) != 0); t->Distribute(); auto y = s.vec(l, r, v + 2 * k * nd * np * bs, !(p & 32)); y->Cumulate(); res->SetParallelStatus(DISTRIBUTED); res->FVDouble() = t->FVDouble(); if (n) l.A->MultAdd(-1.0, *y->GetLocalVector(), *res->GetLocalVector()); } else { res->FVDouble() = 4711.0; res->SetParallelStatus(DISTRIBUTED); }
      if (p & 1) sm->SmoothBack(*x, *b, *res, p & 2, p & 4, p & 8); else sm->Smooth(*x, *b, *res, p & 2, p & 4, p & 8); put(w, *x); put(w, *b); put(w, *res); } });
  O.put(o, no); return code(e); }

// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/mesh/base_mesh.cpp base/coarsening/base_coarse.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp
// LINK: base/factory/base_factory.cpp base/coarsening/grid_contract.cpp base/coarsening/dof_map.cpp base/coarsening/dof_contract.cpp
// Native entries to the coarsening of energies and to the prolongations of the vertex factories (H1, elasticity), on one or several ranks (threads) over the in-process message passing of fakempi.h; bounded contracts.
#include <h1.hpp>
#include "h1_impl.hpp"
#include "h1_energy_impl.hpp"
#include <elasticity.hpp>
#include "elasticity_impl.hpp"
#include <agglomerate_map.hpp>
#include <spw_agg.hpp>
#include <spw_agg_impl.hpp>
#include <spw_agg_map.hpp>
#include <mis_agg.hpp>
#include <mis_agg_impl.hpp>
#include <mis_agg_map.hpp>
#include "fakempi.h"
using namespace amg;
#define X extern "C"
#include "mesh_common.h"
using D = std::vector<double>;
static double &at(double &a, int, int) { return a; }
static double at(const double &a, int, int) { return a; }
template <int N> static double &at(Mat<N, N, double> &a, int i, int j) { return a(i, j); }
template <int N> static double at(const Mat<N, N, double> &a, int i, int j) { return a(i, j); }
template <class M> static void mat(D &o, const M &m) { constexpr int N = ngbla::Height<M>(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) o.push_back(at(m, i, j)); }
template <class S> static void spm(D &o, const S &A) { o.push_back(A.Height()); o.push_back(A.Width()); for (size_t i = 0; i < A.Height(); i++) { auto ri = A.GetRowIndices(i); auto rv = A.GetRowValues(i); o.push_back(ri.Size()); for (size_t j = 0; j < ri.Size(); j++) { o.push_back(ri[j]); mat(o, rv[j]); } } }
static void arrd(D &o, FlatArray<int> a) { o.push_back(a.Size()); for (int x : a) o.push_back(x); }
static void mesh(D &o, const BlockTM &m) { int n = m.GetEQCHierarchy()->GetNEQCS(); o.push_back(n); for (int k = 0; k < n; k++) { arrd(o, m.GetEQCHierarchy()->GetDistantProcs(k)); Array<int> a; for (auto x : m.GetENodes<NT_VERTEX>(k)) a.Append(x); arrd(o, a); } o.push_back(m.GetNN<NT_EDGE>()); for (auto &e : m.GetNodes<NT_EDGE>()) { o.push_back(e.v[0]); o.push_back(e.v[1]); } }
template <int DIM> static void out(D &o, const ElastVData<DIM> &d) { for (int i = 0; i < DIM; i++) o.push_back(d.pos(i)); o.push_back(d.rot_scaling); mat(o, d.wt); }
static void out(D &o, const IVec<2, double> &d) { o.push_back(d[0]); }
template <int DIM> static void setv(ElastVData<DIM> &d, const int *pos, int rot, const int *w, int vw) { for (int i = 0; i < DIM; i++) d.pos(i) = pos[i] / 4.; d.rot_scaling = std::pow(2., rot); d.wt = 0; for (int i = 0; i < d.wt.Height(); i++) d.wt(i, i) = vw * w[i] / 4.; }
static void setv(IVec<2, double> &d, const int *, int, const int *w, int vw) { d[0] = vw * w[0] / 4.; d[1] = 1; }
template <class M> static M emat(const int *F, int K, int ew) { constexpr int N = ngbla::Height<M>(); M m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < K; k++) s += F[6 * k + i] * F[6 * k + j]; at(m, i, j) = ew * s / 4; } return m; }
struct Par { int alg, K, *pos, *rot, *vw, *vf, *ew, *ef; bool free; signed char *fv; int nx, *xe, *xr, *xw, *xf, *opt; };
template <class FAC, class VDATA, class EDATA> static std::string go(GM &g, int seed, Par p, std::vector<D> &O) {
  using MESH = typename FAC::TMESH; using ENERGY = typename FAC::ENERGY; using TM = typename ENERGY::TM; using ED = std::decay_t<decltype(std::declval<EDATA>().data[0])>; using VD = std::decay_t<decltype(std::declval<VDATA>().data[0])>; constexpr int BS = FAC::BS;
  return fm::run(g.np, seed, [&](NgMPI_Comm c) { int r = c.Rank(), np = g.np; RM R(g, c); D &o = O[r]; size_t NV = R.m->template GetNN<NT_VERTEX>(), NE = R.m->template GetNN<NT_EDGE>(); if (R.h->GetNEQCS() == 0) NV = NE = 0;
    Array<VD> vd(NV); Array<ED> ed(NE); ed = 0.; for (int i : Range(R.gv)) { int x = R.gv[i]; setv(vd[R.vs[i]], p.pos + 3 * x, p.rot[x], p.vf + 6 * x, p.vw[x * np + r]); if (!R.h->IsMasterOfEQC(R.m->template GetEQCOfNode<NT_VERTEX>(R.vs[i]))) { D t; int z[6] = {0}; setv(vd[R.vs[i]], z, 0, p.vf + 6 * x, p.vw[x * np + r]); if constexpr (!std::is_same_v<VD, IVec<2, double>>) vd[R.vs[i]].rot_scaling = 0; else vd[R.vs[i]][1] = 0; } }
    for (int i : Range(R.ge)) { int x = R.ge[i]; ed[R.es[i]] = emat<ED>(p.ef + 36 * x, p.K, p.ew[x * np + r]); }
    auto m = make_shared<MESH>(std::move(*R.m), new VDATA(std::move(vd), DISTRIBUTED), new EDATA(std::move(ed), DISTRIBUTED)); m->CumulateData();
    auto opts = make_shared<typename FAC::Options>(); auto &op = *opts; const int *q = p.opt; using OP = VertexAMGFactoryOptions;
    op.crs_alg = p.alg ? OP::SPW : OP::MIS; op.prol_type = OP::PROL_TYPE(q[0]); op.sp_max_per_row = q[1]; op.sp_max_per_row_classic = q[2]; op.sp_min_frac = q[3] / 1000.; op.sp_omega = q[4] / 100.; op.sp_improve_its = q[5]; op.log_level = BaseAMGFactory::Options::NONE; op.edge_thresh = q[6] / 1000.; op.numRounds = q[7]; op.robustPick = bool(q[8] & 1); op.neibBoost = bool(q[8] & 2); op.mis_dist2 = bool(q[8] & 4); op.orphanRound = bool(q[8] & 8);
    FAC F(opts); typename BaseAMGFactory::State st; st.level = IVec<3>(0, 0, 0); auto fc = make_shared<BaseAMGFactory::LevelCapsule>(), cc = make_shared<BaseAMGFactory::LevelCapsule>(); fc->baselevel = 0; cc->baselevel = 1; fc->eqc_h = R.h; fc->mesh = m; fc->uDofs = F.BuildUDofs(*fc);
    if (p.free) { auto b = make_shared<BitArray>(NV); b->Clear(); for (int i : Range(R.gv)) if (p.fv[R.gv[i]]) b->SetBit(R.vs[i]); fc->free_nodes = b; }
    shared_ptr<BaseDOFMapStep> emb; auto A0 = AssembleAhatSparse<ENERGY>(*m, true); Array<int> loc(g.nv); loc = -1; for (int i : Range(R.gv)) loc[R.gv[i]] = R.vs[i];
    { std::vector<std::set<int>> pat(NV); auto AF = AssembleAhatSparse<ENERGY>(*m, bool(q[9])); for (size_t i = 0; i < NV; i++) for (int j : AF->GetRowIndices(i)) pat[i].insert(j); for (int x = 0; x < p.nx; x++) if (p.xr[x] == r) { int a = loc[p.xe[2 * x]], b = loc[p.xe[2 * x + 1]]; pat[a].insert(b); pat[b].insert(a); }
      Array<int> pr(NV); for (size_t i = 0; i < NV; i++) pr[i] = pat[i].size(); auto A = make_shared<typename FAC::TSPM>(pr, NV); for (size_t i = 0; i < NV; i++) { int k = 0; for (int j : pat[i]) A->GetRowIndices(i)[k++] = j; A->GetRowValues(i) = 0.; auto ri = AF->GetRowIndices(i); for (int k : Range(ri)) (*A)(i, ri[k]) = AF->GetRowValues(i)[k]; }
      auto vdat = get<0>(m->Data())->Data(); for (int x = 0; x < p.nx; x++) if (p.xr[x] == r) { int v[2] = {loc[p.xe[2 * x]], loc[p.xe[2 * x + 1]]}; ED E = emat<ED>(p.xf + 36 * x, p.K, p.xw[x]); Matrix<TM> B(2, 2); ENERGY::CalcRMBlock(B, E, vdat[v[0]], vdat[v[1]]); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) (*A)(v[a], v[b]) += B(a, b); }
      if (q[10]) fc->mat = A;
      if (q[11]) { int ex = q[11]; Array<int> pb(NV + ex), pe(NV + ex); pb = 1; pe = 0; for (size_t i = 0; i < NV; i++) { pb[ex + i] = pr[i]; pe[ex + i] = 1; } auto B = make_shared<typename FAC::TSPM>(pb, NV + ex); auto E = make_shared<SparseMat<BS, BS>>(pe, NV); // a matrix that has not been embedded yet: ex further rows in front
        for (int i = 0; i < ex; i++) { B->GetRowIndices(i)[0] = i; SetIdentity(B->GetRowValues(i)[0]); }
        for (size_t i = 0; i < NV; i++) { auto ri = A->GetRowIndices(i); for (int k : Range(ri)) { B->GetRowIndices(ex + i)[k] = ex + ri[k]; B->GetRowValues(ex + i)[k] = A->GetRowValues(i)[k]; } E->GetRowIndices(ex + i)[0] = i; SetIdentity(E->GetRowValues(ex + i)[0]); }
        fc->mat = B; emb = make_shared<ProlMap<TM>>(E, UniversalDofs(NV + ex, BS), fc->uDofs); } }
    st.curr_cap = fc; auto cm = F.BuildCoarseMap(st, cc); auto pw = F.PWProlMap(*cm, *fc, *cc); auto sp = dynamic_pointer_cast<ProlMap<TM>>(F.BuildCoarseDOFMap(cm, fc, cc, emb)); auto m2 = dynamic_pointer_cast<MESH>(cc->mesh); m2->CumulateData();
    o.push_back(BS); arrd(o, R.gv); arrd(o, R.vs); mesh(o, *m); mesh(o, *m2); arrd(o, cm->template GetMap<NT_VERTEX>()); spm(o, *A0); spm(o, *pw->GetProl()); spm(o, *sp->GetProl()); for (auto &x : get<0>(m2->Data())->Data()) out(o, x); for (auto &x : get<1>(m2->Data())->Data()) mat(o, x); o.push_back(cc->uDofs.GetND()); o.push_back(sp->GetUDofs().GetND()); }); }
X int p_prol(GARGS, int kind, int alg, int K, int *pos, int *rot, int *vw, int *vf, int *ew, int *ef, bool free, signed char *fv, int nx, int *xe, int *xr, int *xw, int *xf, int nopt, int *opt, int no, double *o) { Quiet q; G; std::vector<D> O(np); Par p{alg, K, pos, rot, vw, vf, ew, ef, free, fv, nx, xe, xr, xw, xf, opt}; std::string e;
  if (kind == 0) e = go<H1AMGFactory<1>, H1VData, H1EData>(g, seed, p, O);
  if (kind == 1) e = go<H1AMGFactory<2>, H1VData, H1EData>(g, seed, p, O);
  if (kind == 2) e = go<ElasticityAMGFactory<2>, AttachedEVD<2>, AttachedEED<2>>(g, seed, p, O);
  if (kind == 3) e = go<ElasticityAMGFactory<3>, AttachedEVD<3>, AttachedEED<3>>(g, seed, p, O);
  int c = 0; for (auto &v : O) { if (c < no) o[c++] = v.size(); for (double x : v) if (c < no) o[c++] = x; } return code(e); }

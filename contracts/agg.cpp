// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/mesh/base_mesh.cpp base/coarsening/base_coarse.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp
// Native entries to the agglomeration algorithms (MIS, successive pairwise) on scalar meshes, run on several ranks (threads) over the in-process message passing of fakempi.h; bounded contracts.
#include <h1.hpp>
#include "h1_impl.hpp"
#include "h1_energy_impl.hpp"
#include <agglomerate_map.hpp>
#include <spw_agg.hpp>
#include <spw_agg_impl.hpp>
#include <spw_agg_map.hpp>
#include <mis_agg.hpp>
#include <mis_agg_impl.hpp>
#include <mis_agg_map.hpp>
#include "fakempi.h"
using namespace amg;
#define X extern "C"
#include "mesh_common.h"
struct AO : AggOptions, MISAggOptions, SPWAggOptions {};
using EN = H1Energy<1, IVec<2, double>, double>; using AM = typename H1Mesh::T_MESH_W_DATA;
using SPW = DiscreteAgglomerateCoarseMap<H1Mesh, SPWAgglomerator<EN, AM, EN::NEED_ROBUST>>; using MIS = DiscreteAgglomerateCoarseMap<H1Mesh, MISAgglomerator<EN, AM, EN::NEED_ROBUST>>;
// kind 0: MIS, 1: successive pairwise. vw, ew: vertex and edge weights node * np + rank; fv: free vertices, sv: rank that agglomerates a vertex (solid), alw: allowed edges, fo/fm: fixed agglomerates
// opt: bits of the options; rounds, thr: edge threshold in 1/1000, vthr: vertex threshold in 1/1000
X int a_agg(GARGS, int kind, int *vw, int *ew, bool free, signed char *fv, bool solid, int *sv, bool allow, signed char *alw, int nf, int *fo, int nfm, int *fmv, int rounds, int thr, int vthr, int opt, int avg, int no, int *o) { Quiet q; Out O(np); G;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { int r = c.Rank(); RM R(g, c); auto &v = O.r[r]; arr(v, R.gv); arr(v, R.vs); arr(v, R.ge); arr(v, R.es); rep(*R.m, v); size_t NV = R.m->GetNN<NT_VERTEX>(), NE = R.m->GetNN<NT_EDGE>(); if (R.h->GetNEQCS() == 0) NV = NE = 0;
    Array<IVec<2, double>> vd(NV); Array<double> ed_(NE); for (auto &x : vd) x = IVec<2, double>(0, 0); ed_ = 0; for (int i : Range(R.gv)) { vd[R.vs[i]] = IVec<2, double>(vw[R.gv[i] * np + r], 1); } for (int i : Range(R.ge)) ed_[R.es[i]] = ew[R.ge[i] * np + r];
    auto m = make_shared<H1Mesh>(std::move(*R.m), new H1VData(std::move(vd), DISTRIBUTED), new H1EData(std::move(ed_), DISTRIBUTED));
    AO ao; ao.edge_thresh = thr / 1000.; ao.vert_thresh = vthr / 1000.; ao.numRounds = rounds; ao.orphanRound = bool(opt & 1); ao.robustPick = bool(opt & 2); ao.neibBoost = bool(opt & 4); ao.checkBigSOC = bool(opt & 8); ao.scalAvg = AVG_TYPE(avg); ao.mis_neib_boost = bool(opt & 4); ao.lazy_neib_boost = bool(opt & 8); ao.mis_dist2 = bool(opt & 16); ao.ecw_geom = bool(opt & 32); ao.agg_minmax_avg = AVG_TYPE(avg); ao.crs_robust = bool(opt & 64);
    auto go = [&](auto cm) { cm->Initialize(ao, 0);
      if (free) { auto b = make_shared<BitArray>(NV); b->Clear(); for (int i : Range(R.gv)) if (fv[R.gv[i]]) b->SetBit(R.vs[i]); cm->SetFreeVerts(b); }
      if (solid) { auto b = make_shared<BitArray>(NV); b->Clear(); for (int i : Range(R.gv)) if (sv[R.gv[i]] == r) b->SetBit(R.vs[i]); cm->SetSolidVerts(b); }
      if (allow) { auto b = make_shared<BitArray>(NE); b->Clear(); Array<int> inv(NV); for (int i : Range(R.gv)) inv[R.vs[i]] = R.gv[i]; for (auto &x : m->template GetNodes<NT_EDGE>()) for (int j = 0; j < ne; j++) if (alw[j] && ((inv[x.v[0]] == ed[2 * j] && inv[x.v[1]] == ed[2 * j + 1]) || (inv[x.v[1]] == ed[2 * j] && inv[x.v[0]] == ed[2 * j + 1]))) b->SetBit(x.id); cm->SetAllowedEdges(b); }
      if (nf) { std::vector<Array<int>> t; for (int k = 0; k < nf; k++) { Array<int> a; for (int j = fo[k]; j < fo[k + 1]; j++) for (int i : Range(R.gv)) if (R.gv[i] == fmv[j] && (solid ? sv[fmv[j]] == r : R.h->IsMasterOfEQC(m->template GetEQCOfNode<NT_VERTEX>(R.vs[i])))) a.Append(R.vs[i]); if (a.Size()) { QuickSort(a); t.push_back(std::move(a)); } } cm->SetFixedAggs(tab(t)); }
      auto m2 = dynamic_pointer_cast<H1Mesh>(cm->GetMappedMesh());
      v.push_back(-7); rep(*m2, v); arr(v, cm->template GetMap<NT_VERTEX>()); arr(v, cm->template GetMap<NT_EDGE>()); v.push_back(cm->template GetNN<NT_VERTEX>()); v.push_back(cm->template GetNN<NT_EDGE>()); v.push_back(cm->template GetMappedNN<NT_VERTEX>()); v.push_back(cm->template GetMappedNN<NT_EDGE>());
      auto t = cm->template GetMapC2F<NT_VERTEX>(); v.push_back(t.Size()); for (auto row : t) arr(v, row); auto t2 = cm->template GetMapC2F<NT_EDGE>(); v.push_back(t2.Size()); for (auto row : t2) arr(v, row); Array<int> ce; for (size_t i = 0; i < NV; i++) if (cm->GetAggCenter()->Test(i)) ce.Append(i); arr(v, ce);
      m2->CumulateData(); for (auto x : get<0>(m2->Data())->Data()) { v.push_back(lround(x[0])); v.push_back(lround(x[1])); } for (auto x : get<1>(m2->Data())->Data()) v.push_back(lround(x)); };
    if (kind == 0) go(make_shared<MIS>(m)); else go(make_shared<SPW>(m)); });
  O.put(o, no); return code(e); }

// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/mesh/base_mesh.cpp base/coarsening/base_coarse.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp
// Native entries to the distributed mesh and its coarsening by agglomerates, run on several ranks (threads) over the in-process message passing of fakempi.h; bounded contracts.
#include <base.hpp>
#include <eqchierarchy.hpp>
#include <reducetable.hpp>
#include <base_mesh.hpp>
#include <alg_mesh.hpp>
#include <agglomerate_map.hpp>
#include "fakempi.h"
using namespace amg;
#define X extern "C"
#include "mesh_common.h"
X int m_mesh(GARGS, bool move, int no, int *o) { Quiet q; Out O(np); G;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { RM R(g, c); auto &v = O.r[c.Rank()]; arr(v, R.gv); arr(v, R.vs); arr(v, R.ge); arr(v, R.es); if (move) { BlockTM b(std::move(*R.m)); rep(b, v); } else rep(*R.m, v); });
  O.put(o, no); return code(e); }
// data on vertices (nt 0) and edges (nt 1), values dat[node * np + rank]; how 0: from the master to all, 1: reduction, 2: reduction also of local nodes, 3: accumulation of attached data, 4: distribution of attached data, followed by accumulation
template<NODE_TYPE NT> static void data(RM &R, FlatArray<int> gl, FlatArray<int> mp, int np, int r, int how, int *dat, std::vector<int> &v) { auto &m = *R.m; size_t n = m.GetNN<NT>(); Array<double> a(n); a = 0; for (int i : Range(gl)) a[mp[i]] = dat[gl[i] * np + r];
  auto red = [](auto t) { Array<double> s; if (t.Size() == 0) return s; s.SetSize(t[0].Size()); s = 0; for (auto row : t) for (int j : Range(row)) s[j] = 10 * s[j] + row[j]; return s; };
  v.push_back(-7); auto R2 = [&](auto &b) { Array<int> x; for (double d : b) x.Append(int(d)); arr(v, x); };
  if (how == 0) { m.ScatterNodalData<NT>(a); R2(a); }
  if (how == 1 || how == 2) { m.AllreduceNodalData<NT, double>(a, red, how == 2); R2(a); }
  if (how >= 3) { AttachedNodeData<NT, double> d(std::move(a), how == 4 ? CUMULATED : DISTRIBUTED); d.SetMesh(&m); if (how == 3) { d.Cumulate(); d.Cumulate(); R2(d.GetModData()); v.push_back(d.GetParallelStatus() == CUMULATED); } else { d.Distribute(); R2(d.GetModData()); v.push_back(d.GetParallelStatus() == DISTRIBUTED); d.Distribute(); d.Cumulate(); R2(d.GetModData()); v.push_back(d.GetParallelStatus() == CUMULATED); } } }
X int m_data(GARGS, int nt, int how, int nd, int *dat, int no, int *o) { Quiet q; Out O(np); G;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { RM R(g, c); auto &v = O.r[c.Rank()]; arr(v, R.gv); arr(v, R.vs); arr(v, R.ge); arr(v, R.es); if (nt == 0) data<NT_VERTEX>(R, R.gv, R.vs, np, c.Rank(), how, dat, v); else data<NT_EDGE>(R, R.ge, R.es, np, c.Rank(), how, dat, v); });
  O.put(o, no); return code(e); }
// coarsening by given agglomerates: agglomerate a has center actr[a], members amem[ao[a]..ao[a+1]) (with the center) and is formed on rank arank[a]
struct GivenAgg : BaseAgglomerator { std::function<void(Array<Agglomerate>&, Array<int>&)> f; BlockTM *m; void FormAgglomerates(Array<Agglomerate> &a, Array<int> &b) override { f(a, b); } BlockTM const &GetBTM() const override { return *m; } };
struct GivenMap : BaseAgglomerateCoarseMap { GivenAgg *g; GivenMap(shared_ptr<BlockTM> m) : BaseAgglomerateCoarseMap(m) {} std::function<void(Array<Agglomerate>&, Array<int>&)> f;
  unique_ptr<BaseAgglomerator> createAgglomerator() override { auto p = make_unique<GivenAgg>(); p->f = f; p->m = dynamic_pointer_cast<BlockTM>(mesh).get(); return p; } void allocateMappedMesh(shared_ptr<EQCHierarchy> &h) override { mapped_mesh = make_shared<BlockTM>(h); } void fillCoarseMesh() override {} };
static shared_ptr<GivenMap> coarsen(shared_ptr<BlockTM> m, FlatArray<int> gl, FlatArray<int> mp, int r, bool solid, int na, int *actr, int *arank, int *ao, int *amem) {
  Array<int> loc; for (int i : Range(gl)) { while (int(loc.Size()) <= gl[i]) loc.Append(-1); loc[gl[i]] = mp[i]; }
  auto cm = make_shared<GivenMap>(m); cm->f = [=, loc = Array<int>(loc)](Array<Agglomerate> &A, Array<int> &v2) { v2.SetSize(m->GetNN<NT_VERTEX>()); v2 = -1; for (int a = 0; a < na; a++) if (arank[a] == r) { int id = A.Size(); A.Append(Agglomerate(loc[actr[a]], id)); for (int j = ao[a]; j < ao[a + 1]; j++) { if (amem[j] != actr[a]) A.Last().AddSort(loc[amem[j]]); v2[loc[amem[j]]] = id; } } };
  AggOptions ao_; cm->InitializeAgg(ao_, 0); if (solid) { auto sv = make_shared<BitArray>(m->GetNN<NT_VERTEX>()); sv->Clear(); for (int a = 0; a < na; a++) if (arank[a] == r) for (int j = ao[a]; j < ao[a + 1]; j++) sv->SetBit(loc[amem[j]]); cm->SetSolidVerts(sv); } return cm; }
#define AARGS int na, int *actr, int *arank, int *ao, int nm, int *amem
X int m_crs(GARGS, bool solid, AARGS, int no, int *o) { Quiet q; Out O(np); G;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { RM R(g, c); auto &v = O.r[c.Rank()]; arr(v, R.gv); arr(v, R.vs); arr(v, R.ge); arr(v, R.es); rep(*R.m, v); auto cm = coarsen(R.m, R.gv, R.vs, c.Rank(), solid, na, actr, arank, ao, amem); auto m2 = dynamic_pointer_cast<BlockTM>(cm->GetMappedMesh());
    v.push_back(-7); rep(*m2, v); arr(v, cm->GetMap<NT_VERTEX>()); arr(v, cm->GetMap<NT_EDGE>()); v.push_back(cm->GetNN<NT_VERTEX>()); v.push_back(cm->GetNN<NT_EDGE>()); v.push_back(cm->GetMappedNN<NT_VERTEX>()); v.push_back(cm->GetMappedNN<NT_EDGE>());
    auto t = cm->GetMapC2F<NT_VERTEX>(); v.push_back(t.Size()); for (auto row : t) arr(v, row); auto t2 = cm->GetMapC2F<NT_EDGE>(); v.push_back(t2.Size()); for (auto row : t2) arr(v, row); Array<int> ce; for (size_t i = 0; i < R.m->GetNN<NT_VERTEX>(); i++) if (cm->GetAggCenter()->Test(i)) ce.Append(i); arr(v, ce); });
  O.put(o, no); return code(e); }

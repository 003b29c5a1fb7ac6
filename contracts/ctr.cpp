// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/distributed/eqchierarchy.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/mesh/base_mesh.cpp base/coarsening/base_coarse.cpp
// LINK: base/coarsening/grid_contract.cpp base/coarsening/dof_contract.cpp base/coarsening/dof_map.cpp
// Native entries to the redistribution of meshes, vectors and matrices to fewer ranks, on several ranks (threads) over the in-process message passing of fakempi.h; bounded contracts.
#include <base.hpp>
#include <eqchierarchy.hpp>
#include <reducetable.hpp>
#include <base_mesh.hpp>
#include <alg_mesh.hpp>
#include <grid_contract.hpp>
#include <dof_contract.hpp>
#include "fakempi.h"
using namespace amg;
#define X extern "C"
#include "mesh_common.h"
#include "pla_common.h"
static Table<int> groups(int ng, int *go, int *gm) { std::vector<Array<int>> t; for (int k = 0; k < ng; k++) { Array<int> a; for (int j = go[k]; j < go[k + 1]; j++) a.Append(gm[j]); t.push_back(std::move(a)); } return tab(t); }
struct VD : public AttachedNodeData<NT_VERTEX, double> { using AttachedNodeData<NT_VERTEX, double>::AttachedNodeData; };
struct ED : public AttachedNodeData<NT_EDGE, double> { using AttachedNodeData<NT_EDGE, double>::AttachedNodeData; };
using TM2 = BlockAlgMesh<VD, ED>;
X int c_mesh(GARGS, int ng, int *go, int *gm, bool oriented, int vst, int est, double *vdat, double *edat, int no, int *o) { Quiet q; Out O(np); G;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { int r = c.Rank(); RM R(g, c); auto &v = O.r[r]; arr(v, R.gv); arr(v, R.vs); arr(v, R.ge); arr(v, R.es); rep(*R.m, v); auto &m = *R.m;
    Array<int> gid(m.GetNN<NT_VERTEX>()); for (int i : Range(R.gv)) gid[R.vs[i]] = R.gv[i]; std::map<std::pair<int, int>, int> en; for (int j = 0; j < ne; j++) en[{std::min(ed[2 * j], ed[2 * j + 1]), std::max(ed[2 * j], ed[2 * j + 1])}] = j;
    Array<double> vd(m.GetNN<NT_VERTEX>()), d(m.GetNN<NT_EDGE>()); for (int i : Range(gid)) vd[i] = vdat[gid[i] * np + (vst ? 0 : r)]; for (auto &x : m.GetNodes<NT_EDGE>()) { int a = gid[x.v[0]], b = gid[x.v[1]]; d[x.id] = edat[en[{std::min(a, b), std::max(a, b)}] * np + (est ? 0 : r)]; }
    auto fm2 = make_shared<TM2>(std::move(*R.m), new VD(std::move(vd), vst ? CUMULATED : DISTRIBUTED), new ED(std::move(d), est ? CUMULATED : DISTRIBUTED));
    auto cm = make_shared<AlgContractMap<TM2>>(groups(ng, go, gm), fm2, oriented); auto m2 = dynamic_pointer_cast<TM2>(cm->GetMappedMesh()); v.push_back(cm->IsMaster()); arr(v, cm->GetGroup()); v.push_back(m2 != nullptr); arr(v, cm->GetProcMap());
    if (m2) { auto cc = m2->GetEQCHierarchy()->GetCommunicator(); v.push_back(cc.Rank()); v.push_back(cc.Size()); rep(*m2, v);
      for (int k : Range(cm->GetGroup())) { arr(v, cm->GetNodeMap<NT_VERTEX>(k)); arr(v, cm->GetNodeMap<NT_EDGE>(k)); Array<int> f; if (oriented) for (size_t j = 0; j < cm->GetNodeMap<NT_EDGE>(k).Size(); j++) f.Append(cm->GetFlipNodes<NT_EDGE>(k).Test(j)); arr(v, f); }
      v.push_back(cm->GetMappedNN<NT_VERTEX>()); v.push_back(cm->GetMappedNN<NT_EDGE>());
      auto dat = [&](auto &a) { v.push_back(a.GetParallelStatus() == CUMULATED); Array<int> x; for (double t : a.Data()) x.Append(int(t)); arr(v, x); }; dat(*std::get<0>(m2->Data())); dat(*std::get<1>(m2->Data())); } });
  O.put(o, no); return code(e); }
template <class TV> static void ctr(Sys &s, Sys::L &l, NgMPI_Comm c, Table<int> &gr, int np, int nop, int *op, double *v, D &w) { int r = c.Rank(), mg = -1; for (int k : Range(gr)) if (gr[k].Contains(r)) mg = k; auto my = gr[mg]; bool gmst = my[0] == r;
  Array<int> cm; for (int k : Range(gr)) cm.Append(gr[k][0]); NgsAMG_Comm ac(c); auto cc = ac.CreateSubCommunicatorGlobal(cm); Array<int> cgl; UniversalDofs ud(l.pd), cud; shared_ptr<ParallelDofs> cpd; Table<int> maps; Sys::L cl;
  if (gmst) { cl.loc.SetSize(s.nd); cl.loc = -1; std::vector<Array<int>> dp, mp(my.Size()); for (int i = 0; i < s.nd; i++) { bool in = false; Array<int> d; for (int k : Range(gr)) { bool t = false; for (int p : s.set(s.ds[i])) t |= gr[k].Contains(p); if (t && k == mg) in = true; else if (t) d.Append(k); } if (in) { cl.loc[i] = cl.gl.Size(); cl.gl.Append(i); dp.push_back(std::move(d)); for (int k : Range(my)) if (s.set(s.ds[i]).Contains(my[k])) mp[k].Append(cl.loc[i]); } }
    cpd = make_shared<ParallelDofs>(cc, tab(dp), s.bs, false); cl.pd = cpd; cud = UniversalDofs(cpd); maps = tab(mp); }
  Array<int> grp(my.Size()); grp = my; auto C = make_shared<CtrMap<TV>>(ud, cud, std::move(grp), std::move(maps)); if (gmst) C->_comm_keepalive_hack = cc; C->SetUpMPIStuff(); w.push_back(gmst); w.push_back(C->IsMaster()); w.push_back(C->GetBlockSize()); w.push_back(C->GetMappedBlockSize());
  { auto A = C->AssembleMatrix(l.A); w.push_back(A != nullptr); if (A) spm(w, dynamic_cast<const SparseMatrix<typename CtrMap<TV>::TM>&>(*A)); spm(w, dynamic_cast<const SparseMatrix<typename CtrMap<TV>::TM>&>(*l.A)); }
  for (int k = 0; k < nop; k++) { auto x = s.vec(l, r, v + 2 * k * s.nd * np * s.bs, op[3 * k + 1]); shared_ptr<BaseVector> y; if (gmst) y = s.vec(cl, r, v + (2 * k + 1) * s.nd * np * s.bs, op[3 * k + 2]);
    switch (op[3 * k]) { case 0: C->TransferF2C(x.get(), y.get()); break; case 1: C->AddF2C(-1.5, x.get(), y.get()); break; case 2: C->TransferC2F(x.get(), y.get()); break; default: C->AddC2F(.5, x.get(), y.get()); }
    put(w, *x); if (y) put(w, *y); } }
X int c_dof(SARGS, int ng, int *go, int *gm, int nop, int *op, int nv, double *v, int no, double *o) { Quiet q; DOut O(np); S_;
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { auto l = s.local(c); s.fill(l, c.Rank()); auto gr = groups(ng, go, gm); switch (bs) { case 1: ctr<double>(s, l, c, gr, np, nop, op, v, O.r[c.Rank()]); break; case 2: ctr<Vec<2, double>>(s, l, c, gr, np, nop, op, v, O.r[c.Rank()]); break; default: ctr<Vec<3, double>>(s, l, c, gr, np, nop, op, v, O.r[c.Rank()]); } });
  O.put(o, no); return code(e); }

// NATIVE: g++
// LINK: base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp base/linalg/bla_extension.cpp base/linalg/dyn_block.cpp
// LINK: base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp
// Native entries to the equivalence-class hierarchy and the exchange of tables, run on several ranks (threads) over the in-process message passing of fakempi.h; bounded contracts.
#include <base.hpp>
#include "eqchierarchy.cpp"
#include <reducetable.hpp>
#include "fakempi.h"
using namespace amg;
#define X extern "C"
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(); std::cerr.clear(); } };
static int code(const std::string &e) { if (e.empty()) return 0; if (getenv("VC_SHOW")) fprintf(stderr, "%s\n", e.c_str()); if (e == "deadlock") return 1; if (e.rfind("exception", 0) == 0) return 2; if (e.rfind("a message", 0) == 0) return 3; return 4; }
// what every rank reports, one after the other: length, numbers
struct Out { std::vector<std::vector<int>> r; Out(int np) : r(np) {} void put(int *o, int no) { int c = 0; for (auto &v : r) { if (c < no) o[c++] = v.size(); for (int x : v) if (c < no) o[c++] = x; } } };
struct Sets { int ns; int *so, *mem; FlatArray<int> operator[](int k) const { return FlatArray<int>(so[k + 1] - so[k], mem + so[k]); } bool in(int k, int r) const { return (*this)[k].Contains(r); }
  Array<int> dps(int k, int r) const { Array<int> d; for (int p : (*this)[k]) if (p != r) d.Append(p); return d; } };
static Table<int> tab(const std::vector<Array<int>> &v) { Array<int> s(v.size()); for (size_t i = 0; i < v.size(); i++) s[i] = v[i].Size(); Table<int> t(s); for (size_t i = 0; i < v.size(); i++) t[i] = v[i]; return t; }
// ctor 2: from the exchange pattern of degrees of freedom, 3: from a table of neighbours, 4: from sets each of which some member knows
static shared_ptr<EQCHierarchy> MKE(NgMPI_Comm c, int ctor, bool cut, bool idle, Sets &S, int nd, int *dset, signed char *dsel, int maxd, signed char *know) {
  int r = c.Rank(); std::vector<Array<int>> t;
  switch (ctor) {
    case 2: { Array<int> gl; for (int d = 0; d < nd; d++) if (S.in(dset[d], r)) { t.push_back(S.dps(dset[d], r)); gl.Append(d); }
      auto pd = make_shared<ParallelDofs>(c, tab(t), 1, false); shared_ptr<BitArray> ba; if (dsel) { ba = make_shared<BitArray>(gl.Size()); ba->Clear(); for (int i : Range(gl)) if (dsel[gl[i]]) ba->SetBit(i); }
      size_t mx = -1; if (maxd >= 0) { mx = 0; for (int g : gl) if (g < maxd) mx++; }
      return make_shared<EQCHierarchy>(pd, cut, mx, ba); }
    case 3: t.push_back(Array<int>()); for (int k = 0; k < S.ns; k++) if (S[k].Size() > 1 && S.in(k, r)) t.push_back(S.dps(k, r)); if (idle && r == 0) t.clear();
      return make_shared<EQCHierarchy>(tab(t), NgsAMG_Comm(c), cut, idle);
    default: { Array<int> all; for (int k = 0; k < S.ns; k++) if (S.in(k, r)) { for (int p : S[k]) if (p != r && !all.Contains(p)) all.Append(p); if (know[k * c.Size() + r]) t.push_back(S.dps(k, r)); } QuickSort(all);
      auto tt = tab(t); return make_shared<EQCHierarchy>(all, tt, NgsAMG_Comm(c), cut); } }
}
X int p_eqc(int np, int seed, int ctor, bool cut, bool idle, int ns, int *so, int *mem, int nd, int *dset, bool sel, signed char *dsel, int maxd, signed char *know, int no, int *o) { Quiet q; Out O(np); Sets S{ns, so, mem};
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { auto h = MKE(c, ctor, cut, idle, S, nd, dset, sel ? dsel : nullptr, maxd, know); auto &v = O.r[c.Rank()]; int n = h->GetNEQCS();
    auto arr = [&](FlatArray<int> a) { v.push_back(a.Size()); for (int x : a) v.push_back(x); };
    v.push_back(n); v.push_back(h->IsDummy()); v.push_back(h->IsRankZeroIdle()); v.push_back(h->IsTrulyParallel()); arr(h->GetDistantProcs());
    for (int k = 0; k < n; k++) { arr(h->GetDistantProcs(k)); arr(h->GetDPTable()[k]); v.push_back(h->GetEQCID(k)); v.push_back(h->GetEqcIds()[k]); v.push_back(h->GetEQCOfID(h->GetEQCID(k))); v.push_back(h->GetMasterOfEQC(k)); v.push_back(h->IsMasterOfEQC(k)); v.push_back(h->FindEQCWithDPs(h->GetDistantProcs(k))); }
    for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) { v.push_back(h->IsMergeValid(k, j)); v.push_back(h->GetMergedEQC(k, j)); v.push_back(h->GetMergedEQCIfExists(k, j)); v.push_back(h->GetCommonEQC(k, j)); v.push_back(h->IsLEQ(k, j)); }
    Array<int> none({100, 101}); v.push_back(int(h->FindEQCWithDPs(none))); });
  O.put(o, no); return code(e); }
// table exchange. how 0-2: ReduceTable with own process lists / classes of the rows / one row per class; 3, 4: ScatterEqcData without and with memory, 5: ScatterEQCData, 6: ScatterEQCArray, 7: GatherEQCData with sizes, 8: GatherEQCData with known sizes, 9: PartitionData
// row k belongs to set rs[k]; rank r holds data [ro[k * np + r], ro[k * np + r + 1])
template<class T> static void exch(NgMPI_Comm c, int how, Sets &S, int nr, int *rs, int *ro, int *dat, std::vector<int> &v) {
  int r = c.Rank(), np = c.Size(); NgsAMG_Comm cc(c); auto h = MKE(c, 3, false, false, S, 0, nullptr, nullptr, -1, nullptr); shared_ptr<const EQCHierarchy> hc = h; int n = h->GetNEQCS();
  auto data = [&](int k) { return FlatArray<int>(ro[k * np + r + 1] - ro[k * np + r], dat + ro[k * np + r]); };
  auto setof = [&](int e) { for (int k = 0; k < S.ns; k++) if (S.in(k, r) && S.dps(k, r) == h->GetDistantProcs(e)) return k; return -1; };
  Array<int> rows; Array<size_t> eq; if (how < 2) { for (int k = 0; k < nr; k++) if (S.in(rs[k], r)) { rows.Append(k); eq.Append(h->FindEQCWithDPs(S.dps(rs[k], r))); } }
  else for (int e = 0; e < n; e++) rows.Append(how == 9 ? -1 - setof(e) : setof(e));                 // one row per class: row number = set number (-1: no set)
  std::vector<Array<int>> ti; for (int k : rows) { Array<int> a; if (k >= 0 && how != 9) a = data(k); ti.push_back(a); }
  Array<int> sz(ti.size()); for (size_t i = 0; i < ti.size(); i++) sz[i] = ti[i].Size(); Table<T> t(sz); for (size_t i = 0; i < ti.size(); i++) for (int j : Range(sz[i])) t[i][j] = ti[i][j];
  auto lam = [&](auto tb) { Array<T> res; size_t s = 0; for (auto row : tb) s += row.Size(); if (s % 3 == 2) return res; res.Append(1000 + r); for (auto row : tb) { res.Append(row.Size()); for (auto x : row) res.Append(x); } return res; };
  auto report = [&](auto &tt) { v.push_back(rows.Size()); for (size_t i = 0; i < rows.Size(); i++) { v.push_back(rows[i]); v.push_back(tt[i].Size()); for (auto x : tt[i]) v.push_back(int(x)); } };
  if (how == 0) { auto o = ReduceTable<T, T>(t, cc, [&](auto k) { return S.dps(rs[rows[k]], r); }, lam); report(o); }
  if (how == 1) { auto o = ReduceTable<T, T>(t, eq, hc, lam); report(o); }
  if (how == 2) { auto o = ReduceTable<T, T>(t, hc, lam); report(o); }
  if constexpr (is_same<T, int>::value) { if (how == 3) { auto o = ScatterEqcData<T>(std::move(t), *h); report(o); }
  if (how == 4) { auto o = ScatterEqcData<T>(std::move(t), *h, true); report(o); } }
  if (how == 5) { auto q = h->ScatterEQCData(t); MyMPI_WaitAll(q); report(t); }
  if (how == 6) { Array<T> a(rows.Size()); a = 7; for (size_t i = 0; i < rows.Size(); i++) if (sz[i]) a[i] = t[i][0]; h->ScatterEQCArray(FlatArray<T>(a)); for (size_t i = 0; i < rows.Size(); i++) if (sz[i]) t[i][0] = a[i]; report(t); }
  if (how == 7) { Array<Array<T>> b(rows.Size()); for (size_t i = 0; i < rows.Size(); i++) b[i] = t[i]; auto [q, ind] = GatherEQCData(b, *h); MyMPI_WaitAll(q); report(b); for (auto row : ind) { v.push_back(row.Size()); for (int x : row) v.push_back(x); } }
  if (how == 8) { Array<Array<T>> b(rows.Size()); Array<int> per(rows.Size()); for (size_t i = 0; i < rows.Size(); i++) per[i] = h->GetDistantProcs(i).Size() + 2; Table<int> ind(per);
    for (size_t i = 0; i < rows.Size(); i++) { b[i] = t[i]; ind[i] = 0; ind[i][1] = sz[i]; if (h->IsMasterOfEQC(i)) { int j = 1; for (int p : h->GetDistantProcs(i)) { int k = rows[i], s = k < 0 ? 0 : ro[k * np + p + 1] - ro[k * np + p]; ind[i][j + 1] = ind[i][j] + s; j++; } b[i].SetSize(ind[i].Last()); for (int l : Range(sz[i])) b[i][l] = t[i][l]; } }
    auto q = GatherEQCData(b, ind, *h); MyMPI_WaitAll(q); report(b); }
  if (how == 9) { Array<int> gl;  for (int k = 0; k < nr; k++) if (S.in(rs[k], r)) gl.Append(k); auto o = h->template PartitionData<T>(gl.Size(), [&](size_t k) -> size_t { return gl[k] % 5 == 4 ? NO_EQC : h->FindEQCWithDPs(S.dps(rs[gl[k]], r)); }, [&](size_t k) { return T(gl[k]); }); v.push_back(rows.Size()); for (int i = 0; i < n; i++) { v.push_back(-1 - rows[i]); v.push_back(o[i].Size()); for (auto x : o[i]) v.push_back(int(x)); } }
}
X int p_exch(int np, int seed, int how, bool dbl, int ns, int *so, int *mem, int nr, int *rs, int *ro, int nd, int *dat, int no, int *o) { Quiet q; Out O(np); Sets S{ns, so, mem};
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { if (dbl) exch<double>(c, how, S, nr, rs, ro, dat, O.r[c.Rank()]); else exch<int>(c, how, S, nr, rs, ro, dat, O.r[c.Rank()]); });
  O.put(o, no); return code(e); }
// how 0, 1, 2: exchange with all neighbours (known sizes, sizes from the message), 3-6: send / receive / broadcast a table, 7: send / receive a sparse matrix, 8: reduction of DOF data, 9: neighbours of the DOFs, 10: subcommunicator
X int p_comm(int np, int seed, int how, int root, int nt, int *ts, int *td, int ns, int *so, int *mem, int nd, int *dset, int *dv, int no, int *o) { Quiet q; Out O(np); Sets S{ns, so, mem};
  auto e = fm::run(np, seed, [&](NgMPI_Comm c) { int r = c.Rank(); NgsAMG_Comm cc(c); auto &v = O.r[r];
    auto mk = [&](int f) { Array<int> s(nt); for (int i = 0; i < nt; i++) s[i] = ts[i + 1] - ts[i]; Table<int> t(s); for (int i = 0; i < nt; i++) for (int j : Range(s[i])) t[i][j] = td[ts[i] + j] * 8 + f; return t; };
    auto rep = [&](auto &t) { v.push_back(t.Size()); for (auto &&row : t) { v.push_back(row.Size()); for (auto x : row) v.push_back(int(x)); } };
    auto spm = [&](int f) { int W = 0; Array<int> per(nt); for (int i = 0; i < nt; i++) { per[i] = ts[i + 1] - ts[i]; W = max2(W, per[i]); } auto m = make_shared<SparseMatrixTM<double>>(per, W); for (int i = 0; i < nt; i++) for (int j : Range(per[i])) { m->GetRowIndices(i)[j] = j; m->GetRowValues(i)[j] = td[ts[i] + j] * 8 + f; } return m; };
    auto repm = [&](SparseMatrixTM<double> &m) { v.push_back(m.Height()); v.push_back(m.Width()); for (size_t i = 0; i < m.Height(); i++) { auto ri = m.GetRowIndices(i); auto rv = m.GetRowValues(i); v.push_back(ri.Size()); for (size_t j = 0; j < ri.Size(); j++) { v.push_back(ri[j]); v.push_back(int(rv[j])); } } };
    if (how < 3) { Array<int> dps; for (int p = 0; p < np; p++) if (p != r) dps.Append(p); Array<int> per(dps.Size()), rpe(dps.Size()); for (int k : Range(dps)) { per[k] = ts[(r * 3 + dps[k]) % nt + 1] - ts[(r * 3 + dps[k]) % nt]; rpe[k] = ts[(dps[k] * 3 + r) % nt + 1] - ts[(dps[k] * 3 + r) % nt]; }
      Table<int> s(per), t(rpe); for (int k : Range(dps)) for (int j : Range(per[k])) s[k][j] = td[ts[(r * 3 + dps[k]) % nt] + j] * 8 + r; Array<Array<int>> a(dps.Size());
      if (how == 0) { ExchangePairWise(cc, dps, s, t); rep(t); } else if (how == 1) { ExchangePairWise2(cc, dps, s, a); rep(a); } else { ExchangePairWise_norecbuffer(cc, dps, s, a); rep(a); } }
    if (how == 3) { if (r == root) { auto t = mk(r); for (int p = 0; p < np; p++) if (p != r) cc.Send(FlatTable<int>(t), p, NG_MPI_TAG_AMG); rep(t); } else { Table<int> t; cc.Recv(t, root, NG_MPI_TAG_AMG); rep(t); } }
    if (how == 4) { auto t = mk(r); if (r == root) { Array<NG_MPI_Request> q; for (int p = 0; p < np; p++) if (p != r) q.Append(cc.ISend(FlatTable<int>(t), p, NG_MPI_TAG_AMG)); MyMPI_WaitAll(q); c.Barrier(); rep(t); } else { Table<int> t2; cc.Recv(t2, root, NG_MPI_TAG_AMG); c.Barrier(); rep(t2); } }
    if (how == 5) { Table<int> t; if (r == root) t = mk(r); cc.Bcast(t, root); rep(t); }
    if (how == 6) { auto t = mk(r); Array<int> a; a = t.AsArray(); cc.Bcast(FlatArray<int>(a), root); v.push_back(1); v.push_back(a.Size()); for (int x : a) v.push_back(x); }
    if (how == 7) { auto m = spm(r); if (r == root) { for (int p = 0; p < np; p++) if (p != r) cc.Send(*m, p, NG_MPI_TAG_AMG); repm(*m); c.Barrier(); } else { shared_ptr<SparseMatrixTM<double>> m2; cc.Recv(m2, root, NG_MPI_TAG_AMG); repm(*m2); c.Barrier(); } }
    if (how == 8 || how == 9) { std::vector<Array<int>> t; Array<int> gl; for (int d = 0; d < nd; d++) if (S.in(dset[d], r)) { t.push_back(S.dps(dset[d], r)); gl.Append(d); } ParallelDofs pd(c, tab(t), 1, false);
      if (how == 9) { auto d = BuildDPTable(pd); rep(d); } else { Array<int> x(gl.Size()); for (int i : Range(gl)) x[i] = dv[gl[i] * np + r]; MyAllReduceDofData(pd, FlatArray<int>(x), [](auto &a, auto b) { a = 10 * a + b; }); v.push_back(1); v.push_back(x.Size()); for (int y : x) v.push_back(y); } }
    if (how == 10) { Array<int> pr; for (int p = 0; p < np; p++) if ((root >> p) & 1) pr.Append(p); auto s = cc.CreateSubCommunicatorGlobal(pr); bool in = (root >> r) & 1; v.push_back(in ? s.Rank() : -1); v.push_back(in ? s.Size() : -1); if (in) v.push_back(s.AllReduce(1 << r, NG_MPI_SUM)); else v.push_back(-1); }
    if (how == 11) { Array<int> mem(r == root ? np : 0); cc.Gather(td[r % max2(1, ts[nt])] * 8 + r, FlatArray<int>(mem), root); v.push_back(1); v.push_back(mem.Size()); for (int x : mem) v.push_back(x); }
    if (how == 12) { Array<int> a(nt); for (int i = 0; i < nt; i++) a[i] = ts[i + 1] * (r + 1); cc.AllReduceFA(FlatArray<int>(a)); v.push_back(1); v.push_back(nt); for (int x : a) v.push_back(x); }
  });
  O.put(o, no); return code(e); }

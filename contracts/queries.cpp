// Entries to the queries of the real distributed mesh and class hierarchy (objects assembled member by member over caller-supplied storage) and to the scalar means.
#include <base.hpp>
#include <base_mesh.hpp>
#include <eqchierarchy.hpp>
#include <utils_denseLA.hpp>
#include <h1.hpp>
#include <h1_energy_impl.hpp>
#include <agglomerator.hpp>
#include <spw_agg.hpp>
#include <agglomerator_utils.hpp>
using namespace amg;
#define X extern "C"
template<class T> struct Raw { alignas(64) char c[sizeof(T)]; T *operator->() { return reinterpret_cast<T*>(c); } T &operator*() { return *reinterpret_cast<T*>(c); } };
template<class T> static INLINE void PA(Array<T> &a, size_t n, T *p) { a.size = n; a.data = p; a.allocsize = n; a.mem_to_delete = nullptr; }
template<class F> static INLINE long long mesh(int n, size_t *de, size_t *dc, F f) {
  Raw<BlockTM> m; Raw<Array<size_t>> e[4], c[4];
  struct P4 { Array<size_t> a[4]; }; Raw<P4> E, C;
  for (int k = 0; k < 4; k++) { PA<size_t>(E->a[k], n + 1, de); PA<size_t>(C->a[k], n + 1, dc); }
  PA<Array<size_t>>(m->disp_eqc, 4, E->a); PA<Array<size_t>>(m->disp_cross, 4, C->a);
  return f(*m); }
#define MQ(nm, ex) X long long nm(int n, size_t *de, size_t *dc, int q, int k) { return mesh(n, de, dc, [&](BlockTM &m) -> long long { return ex; }); }
MQ(q_eofe, m.GetEqcOfENode<NT_EDGE>(q)) MQ(q_eofc, m.GetEqcOfCNode<NT_EDGE>(q)) MQ(q_eofn, m.GetEQCOfNode<NT_EDGE>(q)) MQ(q_eofv, m.GetEQCOfNode<NT_VERTEX>(q))
MQ(q_mape, m.MapENodeToEQC<NT_EDGE>(q)) MQ(q_mapc, m.MapCNodeToEQC<NT_EDGE>(q)) MQ(q_mapn, m.MapNodeToEQC<NT_EDGE>(q))
MQ(q_mapek, m.MapENodeToEQC<NT_EDGE>(k, q)) MQ(q_mapck, m.MapCNodeToEQC<NT_EDGE>(k, q)) MQ(q_frome, m.MapENodeFromEQC<NT_EDGE>(q, k)) MQ(q_fromc, m.MapCNodeFromEQC<NT_EDGE>(q, k))
MQ(q_lnre, get<0>(m.MapENodeToEQLNR<NT_EDGE>(q))) MQ(q_lnre1, get<1>(m.MapENodeToEQLNR<NT_EDGE>(q))) MQ(q_lnr, get<0>(m.MapNodeToEQLNR<NT_EDGE>(q))) MQ(q_lnr1, get<1>(m.MapNodeToEQLNR<NT_EDGE>(q)))
template<class F> static INLINE long long hier(int rank, int n, int ne, size_t *fi, int *dp, F f) {
  Raw<EQCHierarchy> h; h->rank = rank; h->neqcs = n; h->dist_procs.size = n; h->dist_procs.index = fi; h->dist_procs.data = dp;
  return f(*h); }
#define HQ(nm, ex) X long long nm(int rank, int n, int ne, size_t *fi, int *dp, int k, int na, int *a) { return hier(rank, n, ne, fi, dp, [&](EQCHierarchy &h) -> long long { return ex; }); }
HQ(q_master, h.GetMasterOfEQC(k)) HQ(q_ismaster, h.IsMasterOfEQC(k)) HQ(q_find, (long long)h.FindEQCWithDPs(FlatArray<int>(na, a))) HQ(q_ndp, h.GetDistantProcs(k).Size()) HQ(q_dp, h.GetDistantProcs(k)[na])
#define TQ(nm, ex) X long long nm(int n, size_t *me, size_t *in, int a, int b) { Raw<EQCHierarchy> h; h->neqcs = n; h->mat_merge.AssignMemory(n, n, me); h->mat_intersect.AssignMemory(n, n, in); return ex; }
TQ(q_merge, h->GetMergedEQC(a, b)) TQ(q_mergeif, h->GetMergedEQCIfExists(a, b)) TQ(q_common, h->GetCommonEQC(a, b)) TQ(q_valid, h->IsMergeValid(a, b))
X double m_avg(int t, double a, double b) { return Average<double>(AVG_TYPE(t), a, b); }
#define AV(nm, T) X double nm(double a, double b) { return Average<T>(a, b); }
AV(m_min, MIN) AV(m_geom, GEOM) AV(m_harm, HARM) AV(m_alg, ALG) AV(m_max, MAX)
X double m_hh(double a, double b) { return HalfHarmonicAvg(a, b); }
X double m_gev(double a, double b) { return MinGEV(a, b); }
X double m_svs(double a, double b) { return CalcScalVertexSOC(a, b); }
using VD = IVec<2, double>; using EN = H1Energy<1, VD, double>;
INLINE VD mkv(double w) { VD v; v[0] = w; v[1] = 0; return v; }
X double m_soc(int t, double vi, double vj, double w, double di, double dj, int l2) { auto a = mkv(vi), b = mkv(vj); return CalcApproxSOC<EN, double>(AVG_TYPE(t), a, b, w, di, dj, bool(l2)); }
X double m_jsoc(double vi, double vj, double w, double di, double dj, int l2) { auto a = mkv(vi), b = mkv(vj); return CalcApproxJoinSOC<EN>(a, b, w, di, dj, bool(l2)); }
X double m_wd(int t, double a, double b) { return t == 0 ? average<MIN, double>(a, b) : t == 1 ? average<GEOM, double>(a, b) : t == 2 ? average<HARM, double>(a, b) : t == 3 ? average<ALG, double>(a, b) : average<MAX, double>(a, b); }

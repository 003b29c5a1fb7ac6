// In-process stand-in for MPI behind NGSolve's MPI function table: every rank is a thread, exactly one runs at a time, the next one is chosen by a seeded generator at every
// call that can block. Sends are eager or wait for the receive (seeded choice, as MPI permits both), receives match in posting order per (source, tag); a state in which no rank can go on is reported as a deadlock.
#pragma once
#include <thread>
#include <mutex>
#include <condition_variable>
#include <deque>
#include <map>
#include <vector>
#include <cstring>
#include <functional>
#include <string>
#include <core/mpi_wrapper.hpp>
namespace fm {
using namespace ngcore;
typedef std::vector<char> Bytes;
struct Type { std::vector<std::pair<long, long>> map; long extent, size; };
struct Req { bool send, active, done, persistent; void *buf; int count; uintptr_t type; int peer, tag; uintptr_t comm; int src; long got; };
struct Msg { int src, tag; Bytes d; Req *s; long len = 0; };   // s: the data is taken from the sender's buffer when the receive matches (rendezvous), otherwise it was copied (eager)
struct Comm { std::vector<int> world; std::map<int, std::deque<Msg>> box; std::map<int, std::vector<Req*>> posted; std::vector<long> seq; };
struct Coll { std::string op; std::vector<Bytes> in; int have = 0, left = 0; uintptr_t made = 0; };
struct Stop : public ngcore::Exception { Stop(const std::string &s) : ngcore::Exception(s) {} };
struct W {
  int np = 1, mode = 0;   // mode 0: eager, 1: rendezvous, 2: chosen per message
  std::mutex mu; std::condition_variable cv; int cur = -1; std::vector<char> alive, idle; std::string failed; unsigned long long rng = 1;
  std::vector<Type> types; std::vector<Comm*> comms; std::vector<std::vector<int>> groups; std::map<std::pair<uintptr_t, long>, Coll> colls; std::vector<Req*> reqs;
};
inline W *w = nullptr; inline thread_local int me = 0;
inline unsigned rnd() { w->rng = w->rng * 6364136223846793005ULL + 1442695040888963407ULL; return unsigned(w->rng >> 33); }
inline void progress() { for (auto &x : w->idle) x = 0; }
inline void pick() { std::vector<int> c; for (int i = 0; i < w->np; i++) if (w->alive[i] && !w->idle[i]) c.push_back(i);
  if (c.empty()) for (int i = 0; i < w->np; i++) if (w->alive[i]) c.push_back(i);
  w->cur = c.empty() ? -1 : c[rnd() % c.size()]; }
inline void yield(bool stuck) {
  if (!w->failed.empty()) throw Stop(w->failed);
  std::unique_lock<std::mutex> l(w->mu);
  if (stuck) { w->idle[me] = 1; bool all = true; for (int i = 0; i < w->np; i++) if (w->alive[i] && !w->idle[i]) all = false; if (all) { w->failed = "deadlock"; progress(); } }
  pick(); w->cv.notify_all(); w->cv.wait(l, [&] { return w->cur == me; });
  if (!w->failed.empty()) throw Stop(w->failed);
}
inline void need(bool ok, const char *what) { if (!ok) { if (w->failed.empty()) w->failed = what; progress(); throw Stop(what); } }
template<class F> inline void block(F f) { while (!f()) yield(true); }
inline Type &T(uintptr_t t) { need(t > 0 && t < w->types.size(), "invalid MPI type"); return w->types[t]; }
inline Bytes pack(const void *b, long n, uintptr_t t) { Type &y = T(t); Bytes o; o.resize(n * y.size); char *p = o.data(); const char *q = (const char*)b; for (long i = 0; i < n; i++) for (auto &m : y.map) { memcpy(p, q + i * y.extent + m.first, m.second); p += m.second; } return o; }
inline void unpack(const Bytes &d, void *b, long n, uintptr_t t) { Type &y = T(t); need((long)d.size() <= n * y.size, "message longer than the receive buffer"); const char *p = d.data(), *e = p + d.size(); char *q = (char*)b;
  for (long i = 0; i < n && p < e; i++) for (auto &m : y.map) { if (p >= e) break; memcpy(q + i * y.extent + m.first, p, m.second); p += m.second; } }
inline Comm &C(uintptr_t c) { need(c > 0 && c < w->comms.size(), "invalid communicator"); return *w->comms[c]; }
inline int rk(Comm &c) { for (size_t i = 0; i < c.world.size(); i++) if (c.world[i] == me) return int(i); need(false, "rank is not in the communicator"); return -1; }
inline bool mt(const Req &r, int src, int tag) { return (r.peer == src || r.peer == -1) && (r.tag == tag || r.tag == -1); }
inline void post(Req *r) { Comm &c = C(r->comm); int m = rk(c); need(r->peer >= -1 && r->peer < int(c.world.size()), "receive from a rank outside the communicator"); r->done = false; r->active = true; auto &b = c.box[m];
  for (size_t i = 0; i < b.size(); i++) if (mt(*r, b[i].src, b[i].tag)) { if (Req *q = b[i].s) { b[i].d = pack(q->buf, q->count, q->type); q->done = true; } unpack(b[i].d, r->buf, r->count, r->type); r->src = b[i].src; r->got = b[i].d.size(); r->done = true; b.erase(b.begin() + i); progress(); return; }
  c.posted[m].push_back(r); }
inline void deliver(Req *s) { uintptr_t cc = s->comm, t = s->type; const void *buf = s->buf; int n = s->count, dest = s->peer, tag = s->tag; s->done = false; s->active = true; Comm &c = C(cc); int m = rk(c); need(dest >= 0 && dest < int(c.world.size()), "send to a rank outside the communicator"); auto &p = c.posted[dest]; long len = long(n) * T(t).size;
  progress();
  for (size_t i = 0; i < p.size(); i++) if (mt(*p[i], m, tag)) { Req *r = p[i]; p.erase(p.begin() + i); Bytes d = pack(buf, n, t); unpack(d, r->buf, r->count, r->type); r->src = m; r->got = d.size(); r->done = s->done = true; return; }
  bool eager = w->mode == 0 || (w->mode == 2 && rnd() % 2); Msg g{m, tag, eager ? pack(buf, n, t) : Bytes(), eager ? nullptr : s}; g.len = len; s->done = eager; c.box[dest].push_back(std::move(g)); }
inline Req *R(NG_MPI_Request r) { return (Req*)r.value; }
inline Req *mk(bool s, void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, bool pers) { Req *r = new Req{s, false, false, pers, b, n, t.value, p, tag, c.value, -1, 0}; w->reqs.push_back(r); return r; }
inline void start(Req *r) { need(!r->active, "start of an active request"); if (r->send) deliver(r); else post(r); }
inline void fin(NG_MPI_Request *q) { Req *r = R(*q); if (!r) return; r->active = false; if (!r->persistent) q->value = 0; }
// collectives: everybody contributes bytes, everybody gets all contributions
inline std::vector<Bytes> coll(uintptr_t cc, const std::string &op, Bytes mine, uintptr_t *made = nullptr, std::vector<int> grp = {}) {
  Comm &c = C(cc); int m = rk(c), n = c.world.size(); long s = c.seq[m]++; Coll &k = w->colls[{cc, s}];
  if (!k.have) { k.op = op; k.in.resize(n); k.left = n; }
  need(k.op == op, "different collective operations at the same time"); k.in[m] = std::move(mine); k.have++; if (made && !k.made && grp.size()) { auto *x = new Comm; x->world = grp; x->seq.assign(grp.size(), 0); w->comms.push_back(x); k.made = w->comms.size() - 1; } progress();
  block([&] { return k.have == n; }); auto o = k.in; if (made) *made = k.made; if (!--k.left) w->colls.erase({cc, s}); return o; }
template<class S> inline void red(S *a, const S *b, long n, int op) { for (long i = 0; i < n; i++) a[i] = op == 1 ? S(a[i] + b[i]) : op == 2 ? std::max(a[i], b[i]) : op == 3 ? std::min(a[i], b[i]) : S(a[i] || b[i]); }
inline Bytes reduce(const std::vector<Bytes> &in, uintptr_t t, uintptr_t op) { Bytes r = in[0]; for (size_t i = 1; i < in.size(); i++) { need(in[i].size() == r.size(), "reduction with different lengths");
  switch (t) { case 1: red((char*)r.data(), (char*)in[i].data(), r.size(), op); break; case 2: red((bool*)r.data(), (bool*)in[i].data(), r.size(), op); break; case 3: red((double*)r.data(), (double*)in[i].data(), r.size() / 8, op); break; case 4: red((float*)r.data(), (float*)in[i].data(), r.size() / 4, op); break;
    case 5: red((int*)r.data(), (int*)in[i].data(), r.size() / 4, op); break; case 6: red((short*)r.data(), (short*)in[i].data(), r.size() / 2, op); break; case 7: red((uint64_t*)r.data(), (uint64_t*)in[i].data(), r.size() / 8, op); break; default: need(false, "reduction of a compound type"); } } return r; }
inline char inplace; inline bool IP(const void *p) { return p == &inplace; }
inline void install() {
  static bool done = false; if (done) return; done = true;
  NG_MPI_COMM_NULL = uintptr_t(0); NG_MPI_COMM_WORLD = uintptr_t(1); NG_MPI_DATATYPE_NULL = uintptr_t(0); NG_MPI_CHAR = uintptr_t(1); NG_MPI_C_BOOL = uintptr_t(2); NG_MPI_DOUBLE = uintptr_t(3); NG_MPI_FLOAT = uintptr_t(4); NG_MPI_INT = uintptr_t(5); NG_MPI_SHORT = uintptr_t(6); NG_MPI_UINT64_T = uintptr_t(7); NG_MPI_CXX_DOUBLE_COMPLEX = uintptr_t(8);
  NG_MPI_SUM = uintptr_t(1); NG_MPI_MAX = uintptr_t(2); NG_MPI_MIN = uintptr_t(3); NG_MPI_LOR = uintptr_t(4); NG_MPI_REQUEST_NULL = uintptr_t(0); NG_MPI_STATUS_IGNORE = nullptr; NG_MPI_STATUSES_IGNORE = nullptr; NG_MPI_ANY_SOURCE = -1; NG_MPI_ANY_TAG = -1; NG_MPI_PROC_NULL = -2; NG_MPI_ROOT = -3; NG_MPI_IN_PLACE = &inplace; NG_MPI_MAX_PROCESSOR_NAME = 64;
  NG_MPI_Wtime = []() { return 0.0; };
  NG_MPI_Initialized = [](int *f) { *f = w != nullptr; return 0; };
  NG_MPI_Comm_rank = [](NG_MPI_Comm c, int *r) { *r = rk(C(c.value)); return 0; };
  NG_MPI_Comm_size = [](NG_MPI_Comm c, int *r) { *r = int(C(c.value).world.size()); return 0; };
  NG_MPI_Comm_free = [](NG_MPI_Comm *) { return 0; };
  NG_MPI_Comm_group = [](NG_MPI_Comm c, NG_MPI_Group *g) { w->groups.push_back(C(c.value).world); g->value = w->groups.size() - 1; return 0; };
  NG_MPI_Group_incl = [](NG_MPI_Group g, int n, int *r, NG_MPI_Group *o) { std::vector<int> v; for (int i = 0; i < n; i++) { need(r[i] >= 0 && r[i] < int(w->groups[g.value].size()), "rank outside the group"); v.push_back(w->groups[g.value][r[i]]); } w->groups.push_back(v); o->value = w->groups.size() - 1; return 0; };
  NG_MPI_Comm_create = [](NG_MPI_Comm c, NG_MPI_Group g, NG_MPI_Comm *o) { auto v = w->groups[g.value]; uintptr_t m = 0; bool in = false; for (int x : v) in |= x == me;
    // disjoint groups are possible: one new communicator for every distinct group
    Bytes b((char*)v.data(), (char*)(v.data() + v.size())); auto all = coll(c.value, "create", b); static std::map<std::pair<uintptr_t, Bytes>, uintptr_t> *reg = nullptr; static W *ow = nullptr; static std::map<std::pair<uintptr_t, Bytes>, std::vector<long>> *cnt = nullptr;
    if (ow != w) { ow = w; reg = new std::map<std::pair<uintptr_t, Bytes>, uintptr_t>; cnt = new std::map<std::pair<uintptr_t, Bytes>, std::vector<long>>; }
    if (in) { auto &u = (*cnt)[{c.value, b}]; u.resize(w->np); long q = u[me]++; Bytes key = b; key.insert(key.end(), (char*)&q, (char*)(&q + 1)); auto &x = (*reg)[{c.value, key}]; if (!x) { auto *n = new Comm; n->world = v; n->seq.assign(v.size(), 0); w->comms.push_back(n); x = w->comms.size() - 1; } m = x; }
    *o = m; return 0; };
  NG_MPI_Comm_create_group = [](NG_MPI_Comm c, NG_MPI_Group g, int, NG_MPI_Comm *o) { auto v = w->groups[g.value]; static std::map<std::pair<uintptr_t, std::vector<int>>, std::pair<std::vector<long>, std::vector<uintptr_t>>> *reg = nullptr; static W *ow = nullptr; if (ow != w) { ow = w; reg = new std::map<std::pair<uintptr_t, std::vector<int>>, std::pair<std::vector<long>, std::vector<uintptr_t>>>; }
    auto &x = (*reg)[{c.value, v}]; x.first.resize(w->np); size_t q = x.first[me]++; if (x.second.size() <= q) { auto *n = new Comm; n->world = v; n->seq.assign(v.size(), 0); w->comms.push_back(n); x.second.push_back(w->comms.size() - 1); } *o = x.second[q]; return 0; };
  NG_MPI_Barrier = [](NG_MPI_Comm c) { coll(c.value, "barrier", {}); return 0; };
  NG_MPI_Bcast = [](void *b, int n, NG_MPI_Datatype t, int root, NG_MPI_Comm c) { bool r = rk(C(c.value)) == root; auto a = coll(c.value, "bcast" + std::to_string(root), r ? pack(b, n, t.value) : Bytes()); if (!r) { need(long(a[root].size()) == n * T(t.value).size, "broadcast with different lengths"); unpack(a[root], b, n, t.value); } return 0; };
  NG_MPI_Allreduce = [](void *s, void *r, int n, NG_MPI_Datatype t, NG_MPI_Op op, NG_MPI_Comm c) { auto a = coll(c.value, "allreduce", pack(IP(s) ? r : s, n, t.value)); unpack(reduce(a, t.value, op.value), r, n, t.value); return 0; };
  NG_MPI_Reduce = [](void *s, void *r, int n, NG_MPI_Datatype t, NG_MPI_Op op, int root, NG_MPI_Comm c) { auto a = coll(c.value, "reduce" + std::to_string(root), pack(IP(s) ? r : s, n, t.value)); if (rk(C(c.value)) == root) unpack(reduce(a, t.value, op.value), r, n, t.value); return 0; };
  NG_MPI_Allgather = [](void *s, int n, NG_MPI_Datatype t, void *r, int m, NG_MPI_Datatype u, NG_MPI_Comm c) { int k = rk(C(c.value)); char *q = (char*)r; long ex = T(u.value).extent * m; auto a = coll(c.value, "allgather", IP(s) ? pack(q + k * ex, m, u.value) : pack(s, n, t.value)); for (size_t i = 0; i < a.size(); i++) unpack(a[i], q + i * ex, m, u.value); return 0; };
  NG_MPI_Gather = [](void *s, int n, NG_MPI_Datatype t, void *r, int m, NG_MPI_Datatype u, int root, NG_MPI_Comm c) { int k = rk(C(c.value)); char *q = (char*)r; auto a = coll(c.value, "gather" + std::to_string(root), IP(s) ? Bytes() : pack(s, n, t.value)); if (k == root) for (size_t i = 0; i < a.size(); i++) if (!(IP(s) && int(i) == root)) unpack(a[i], q + i * T(u.value).extent * m, m, u.value); return 0; };
  NG_MPI_Gatherv = [](void *s, int n, NG_MPI_Datatype t, void *r, int *m, int *d, NG_MPI_Datatype u, int root, NG_MPI_Comm c) { int k = rk(C(c.value)); char *q = (char*)r; auto a = coll(c.value, "gatherv" + std::to_string(root), IP(s) ? Bytes() : pack(s, n, t.value)); if (k == root) for (size_t i = 0; i < a.size(); i++) if (!(IP(s) && int(i) == root)) unpack(a[i], q + d[i] * T(u.value).extent, m[i], u.value); return 0; };
  NG_MPI_Scatter = [](void *s, int n, NG_MPI_Datatype t, void *r, int m, NG_MPI_Datatype u, int root, NG_MPI_Comm c) { Comm &cc = C(c.value); int k = rk(cc); auto a = coll(c.value, "scatter" + std::to_string(root), k == root ? pack(s, long(n) * cc.world.size(), t.value) : Bytes()); if (!IP(r)) { long sz = a[root].size() / cc.world.size(); unpack(Bytes(a[root].begin() + k * sz, a[root].begin() + (k + 1) * sz), r, m, u.value); } return 0; };
  NG_MPI_Alltoall = [](void *s, int n, NG_MPI_Datatype t, void *r, int m, NG_MPI_Datatype u, NG_MPI_Comm c) { Comm &cc = C(c.value); int k = rk(cc); auto a = coll(c.value, "alltoall", pack(s, long(n) * cc.world.size(), t.value)); long sz = T(t.value).size * n; for (size_t i = 0; i < a.size(); i++) unpack(Bytes(a[i].begin() + k * sz, a[i].begin() + (k + 1) * sz), (char*)r + i * T(u.value).extent * m, m, u.value); return 0; };
  NG_MPI_Isend = [](void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *r) { auto *q = mk(true, b, n, t, p, tag, c, false); start(q); r->value = (uintptr_t)q; return 0; };
  NG_MPI_Irecv = [](void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *r) { auto *q = mk(false, b, n, t, p, tag, c, false); start(q); r->value = (uintptr_t)q; return 0; };
  NG_MPI_Send_init = [](void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *r) { r->value = (uintptr_t)mk(true, b, n, t, p, tag, c, true); return 0; };
  NG_MPI_Recv_init = [](void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *r) { r->value = (uintptr_t)mk(false, b, n, t, p, tag, c, true); return 0; };
  NG_MPI_Startall = [](int n, NG_MPI_Request *r) { for (int i = 0; i < n; i++) start(R(r[i])); return 0; };
  NG_MPI_Request_free = [](NG_MPI_Request *r) { r->value = 0; return 0; };
  NG_MPI_Send = [](void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c) { auto *q = mk(true, b, n, t, p, tag, c, false); start(q); block([&] { return q->done; }); return 0; };
  NG_MPI_Recv = [](void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Status *) { auto *q = mk(false, b, n, t, p, tag, c, false); start(q); block([&] { return q->done; }); return 0; };
  NG_MPI_Wait = [](NG_MPI_Request *r, NG_MPI_Status *) { Req *q = R(*r); if (q && q->active) { block([&] { return q->done; }); fin(r); } return 0; };
  NG_MPI_Waitall = [](int n, NG_MPI_Request *r, NG_MPI_Status *) { for (int i = 0; i < n; i++) { Req *q = R(r[i]); if (q && q->active) { block([&] { return q->done; }); fin(r + i); } } return 0; };
  NG_MPI_Waitany = [](int n, NG_MPI_Request *r, int *ix, NG_MPI_Status *) { *ix = -1; bool any = false; for (int i = 0; i < n; i++) any |= R(r[i]) && R(r[i])->active; if (!any) { *ix = -32766; return 0; }
    if (rnd() % 3 == 0) yield(false);
    block([&] { std::vector<int> v; for (int i = 0; i < n; i++) if (R(r[i]) && R(r[i])->active && R(r[i])->done) v.push_back(i); if (v.empty()) return false; *ix = v[rnd() % v.size()]; return true; }); fin(r + *ix); return 0; };
  NG_MPI_Probe = [](int src, int tag, NG_MPI_Comm c, NG_MPI_Status *s) { Comm &cc = C(c.value); int m = rk(cc); Req r; r.peer = src; r.tag = tag; block([&] { for (auto &x : cc.box[m]) if (mt(r, x.src, x.tag)) { if (s) { s->data[0] = x.src; s->data[1] = x.tag; s->data[2] = x.len; } return true; } return false; }); return 0; };
  NG_MPI_Iprobe = [](int src, int tag, NG_MPI_Comm c, int *f, NG_MPI_Status *s) { Comm &cc = C(c.value); int m = rk(cc); Req r; r.peer = src; r.tag = tag; *f = 0; for (auto &x : cc.box[m]) if (mt(r, x.src, x.tag)) { if (s) { s->data[0] = x.src; s->data[1] = x.tag; s->data[2] = x.len; } *f = 1; break; } if (!*f) yield(false); return 0; };
  NG_MPI_Get_count = [](NG_MPI_Status *s, NG_MPI_Datatype t, int *n) { *n = int(s->data[2] / T(t.value).size); return 0; };
  NG_MPI_Type_commit = [](NG_MPI_Datatype *) { return 0; }; NG_MPI_Type_free = [](NG_MPI_Datatype *) { return 0; };
  NG_MPI_Type_size = [](NG_MPI_Datatype t, int *n) { *n = T(t.value).size; return 0; };
  NG_MPI_Type_get_extent = [](NG_MPI_Datatype t, NG_MPI_Aint *l, NG_MPI_Aint *e) { l->value = 0; e->value = T(t.value).extent; return 0; };
  NG_MPI_Type_contiguous = [](int n, NG_MPI_Datatype t, NG_MPI_Datatype *o) { Type &y = T(t.value); Type z; z.extent = n * y.extent; z.size = n * y.size; for (int i = 0; i < n; i++) for (auto &m : y.map) z.map.push_back({m.first + i * y.extent, m.second}); w->types.push_back(z); *o = uintptr_t(w->types.size() - 1); return 0; };
  NG_MPI_Type_indexed = [](int n, int *bl, int *dp, NG_MPI_Datatype t, NG_MPI_Datatype *o) { Type y = T(t.value), z; z.size = 0; z.extent = 0; for (int i = 0; i < n; i++) for (int j = 0; j < bl[i]; j++) for (auto &m : y.map) { z.map.push_back({(dp[i] + j) * y.extent + m.first, m.second}); z.size += m.second; z.extent = std::max(z.extent, (dp[i] + j + 1) * y.extent); } w->types.push_back(z); *o = uintptr_t(w->types.size() - 1); return 0; };
  NG_MPI_Type_create_struct = [](int n, int *bl, NG_MPI_Aint *dp, NG_MPI_Datatype *t, NG_MPI_Datatype *o) { Type z; z.size = 0; z.extent = 0; for (int i = 0; i < n; i++) { Type y = T(t[i].value); for (int j = 0; j < bl[i]; j++) for (auto &m : y.map) { z.map.push_back({dp[i].value + j * y.extent + m.first, m.second}); z.size += m.second; z.extent = std::max(z.extent, long(dp[i].value + (j + 1) * y.extent)); } } w->types.push_back(z); *o = uintptr_t(w->types.size() - 1); return 0; };
  NG_MPI_Type_create_resized = [](NG_MPI_Datatype t, NG_MPI_Aint, NG_MPI_Aint e, NG_MPI_Datatype *o) { Type z = T(t.value); z.extent = e.value; w->types.push_back(z); *o = uintptr_t(w->types.size() - 1); return 0; };
}
// types live as long as the process (NGSolve caches them in static variables)
inline std::vector<Type> types0() { std::vector<Type> t(9); long s[9] = {0, 1, 1, 8, 4, 4, 2, 8, 16}; for (int i = 1; i < 9; i++) t[i] = Type{{{0, s[i]}}, s[i], s[i]}; return t; }
inline std::vector<Type> keep = types0();
// runs f(communicator) on np ranks; returns "" or what went wrong
inline std::string run(int np, unsigned seed, std::function<void(NgMPI_Comm)> f) {
  W x; w = &x; x.np = np; x.mode = seed % 3; x.rng = seed * 2654435761ULL + 88172645463325252ULL; x.alive.assign(np, 1); x.idle.assign(np, 0); x.types = std::move(keep); x.comms.push_back(nullptr); auto *c = new Comm; for (int i = 0; i < np; i++) c->world.push_back(i); c->seq.assign(np, 0); x.comms.push_back(c);
  install(); std::vector<std::thread> th; std::string err; pick();
  for (int i = 0; i < np; i++) th.emplace_back([&, i] { me = i; { std::unique_lock<std::mutex> l(x.mu); x.cv.wait(l, [&] { return x.cur == i; }); }
    try { f(NgMPI_Comm(NG_MPI_COMM_WORLD)); } catch (std::exception &e) { if (x.failed.empty()) x.failed = std::string("exception: ") + e.what(); } catch (...) { if (x.failed.empty()) x.failed = "exception"; }
    std::unique_lock<std::mutex> l(x.mu); x.alive[i] = 0; bool all = true; for (int k = 0; k < np; k++) if (x.alive[k] && !x.idle[k]) all = false; if (all) progress(); pick(); x.cv.notify_all(); });
  for (auto &t : th) t.join();
  err = x.failed; if (err.empty()) for (size_t i = 1; i < x.comms.size(); i++) for (auto &b : x.comms[i]->box) if (!b.second.empty()) err = "a message was sent that nobody received";
  for (auto *r : x.reqs) delete r; for (auto *k : x.comms) delete k; keep = std::move(x.types); w = nullptr; return err; }
}

// shared by mesh.cpp and agg.cpp
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(); std::cerr.clear(); } };
static int code(const std::string &e) { if (e.empty()) return 0; if (getenv("VC_SHOW")) fprintf(stderr, "%s\n", e.c_str()); if (e == "deadlock") return 1; if (e.rfind("exception", 0) == 0) return 2; if (e.rfind("a message", 0) == 0) return 3; return 4; }
struct Out { std::vector<std::vector<int>> r; Out(int np) : r(np) {} void put(int *o, int no) { int c = 0; for (auto &v : r) { if (c < no) o[c++] = v.size(); for (int x : v) if (c < no) o[c++] = x; } } };
static Table<int> tab(const std::vector<Array<int>> &v) { Array<int> s(v.size()); for (size_t i = 0; i < v.size(); i++) s[i] = v[i].Size(); Table<int> t(s); for (size_t i = 0; i < v.size(); i++) t[i] = v[i]; return t; }
// a global mesh: vertex i belongs to the ranks of set vset[i]; edge j joins e[2j], e[2j+1] and is given on the ranks with own[j * np + rank]
struct GM { int np, ns, *so, *mem, nv, *vset, ne, *e; signed char *own; bool idle, dummy;
  FlatArray<int> set(int k) { return FlatArray<int>(so[k + 1] - so[k], mem + so[k]); } bool in(int k, int r) { return set(k).Contains(r); }
  Array<int> dps(int k, int r) { Array<int> d; for (int p : set(k)) if (p != r) d.Append(p); return d; } };
// the mesh of one rank, with the maps from its own numbering (ascending global numbers) to the mesh
struct RM { shared_ptr<EQCHierarchy> h; shared_ptr<BlockTM> m; Array<int> gv, ge, vs, es;
  RM(GM &g, NgMPI_Comm c) { int r = c.Rank(); std::vector<Array<int>> t; t.push_back(Array<int>()); for (int k = 0; k < g.ns; k++) if (g.set(k).Size() > 1 && g.in(k, r)) t.push_back(g.dps(k, r)); if (g.idle && r == 0) t.clear();
    if (g.dummy) h = shared_ptr<EQCHierarchy>(new EQCHierarchy()); else h = make_shared<EQCHierarchy>(tab(t), NgsAMG_Comm(c), true, g.idle);
    Array<int> loc(g.nv); loc = -1; std::vector<Array<int>> dp; for (int i = 0; i < g.nv; i++) if (g.in(g.vset[i], r)) { loc[i] = gv.Size(); gv.Append(i); Array<int> d = g.dps(g.vset[i], r); dp.push_back(std::move(d)); }
    m = make_shared<BlockTM>(h); vs.SetSize(gv.Size()); vs = -1; m->SetVs(gv.Size(), tab(dp), FlatArray<int>(vs));
    Array<decltype(AMG_Node<NT_EDGE>::v)> nd; for (int j = 0; j < g.ne; j++) if (g.own[j * g.np + r] && loc[g.e[2 * j]] >= 0 && loc[g.e[2 * j + 1]] >= 0) { ge.Append(j); int a = vs[loc[g.e[2 * j]]], b = vs[loc[g.e[2 * j + 1]]]; IVec<2, int> v; v[0] = min2(a, b); v[1] = max2(a, b); nd.Append(v); }
    es.SetSize(ge.Size()); es = -1; m->SetNodes<NT_EDGE>(nd.Size(), [&](auto i) { return nd[i]; }, [&](auto i, auto j) { es[i] = j; }); } };
static void arr(std::vector<int> &v, FlatArray<int> a) { v.push_back(a.Size()); for (int x : a) v.push_back(x); }
static void rep(const BlockTM &m, std::vector<int> &v) { auto &h = *m.GetEQCHierarchy(); int n = h.GetNEQCS(); auto P = [&](auto x) { v.push_back(int(x)); };
  P(n); P(m.GetNEqcs()); for (int k = 0; k < n; k++) arr(v, h.GetDistantProcs(k));
  size_t nv = m.GetNN<NT_VERTEX>(), ne = m.GetNN<NT_EDGE>();
  P(m.HasNodes<NT_VERTEX>() && m.HasNodes<NT_EDGE>()); P(nv); P(ne); P(m.GetNNGlobal<NT_VERTEX>()); P(m.GetNNGlobal<NT_EDGE>()); P(m.GetENN<NT_VERTEX>()); P(m.GetENN<NT_EDGE>()); P(m.GetCNN<NT_VERTEX>()); P(m.GetCNN<NT_EDGE>());
  for (int k = 0; k < n; k++) { P(m.GetENN<NT_VERTEX>(k)); P(m.GetENN<NT_EDGE>(k)); P(m.GetCNN<NT_VERTEX>(k)); P(m.GetCNN<NT_EDGE>(k)); Array<int> a, b, c; for (auto x : m.GetENodes<NT_VERTEX>(k)) a.Append(x); for (auto &x : m.GetENodes<NT_EDGE>(k)) b.Append(x.id); for (auto &x : m.GetCNodes<NT_EDGE>(k)) c.Append(x.id); arr(v, a); arr(v, b); arr(v, c); }
  for (size_t i = 0; i < nv; i++) { P(m.GetNode<NT_VERTEX>(i)); int q = m.GetEQCOfNode<NT_VERTEX>(i), l = m.MapNodeToEQC<NT_VERTEX>(i); P(q); P(l); P(m.MapENodeFromEQC<NT_VERTEX>(l, q)); auto [q2, l2] = m.MapNodeToEQLNR<NT_VERTEX>(i); P(q2); P(l2); }
  for (size_t i = 0; i < ne; i++) { auto e = m.GetNode<NT_EDGE>(i); P(e.id); P(e.v[0]); P(e.v[1]); int q = m.GetEQCOfNode<NT_EDGE>(i), l = m.MapNodeToEQC<NT_EDGE>(i); P(q); P(l); P(i < m.GetENN<NT_EDGE>() ? m.MapENodeFromEQC<NT_EDGE>(l, q) : m.MapCNodeFromEQC<NT_EDGE>(l, q)); auto [q2, l2] = m.MapNodeToEQLNR<NT_EDGE>(i); P(q2); P(l2); }
  Array<int> x; m.Apply<NT_VERTEX>([&](auto a) { x.Append(a); }, true); arr(v, x); x.SetSize0(); m.Apply<NT_EDGE>([&](auto &a) { x.Append(a.id); }, true); arr(v, x); x.SetSize0(); m.ApplyEQ<NT_EDGE>([&](auto q, auto &a) { x.Append(q); x.Append(a.id); }, false); arr(v, x);
  auto &E = *m.GetEdgeCM(); P(E.Height()); P(E.Width()); for (size_t i = 0; i < E.Height(); i++) { auto ri = E.GetRowIndices(i); auto rv = E.GetRowValues(i); P(ri.Size()); for (size_t j = 0; j < ri.Size(); j++) { P(ri[j]); P(rv[j]); } } }
#define GARGS int np, int seed, bool idle, bool dummy, int ns, int *so, int *mem, int nv, int *vset, int ne, int *ed, signed char *own
#define G GM g{np, ns, so, mem, nv, vset, ne, ed, own, idle, dummy}

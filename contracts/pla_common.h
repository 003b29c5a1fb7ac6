// shared by pla.cpp and ctr.cpp
using D = std::vector<double>;
struct DOut { std::vector<D> r; DOut(int np) : r(np) {} void put(double *o, int no) { int c = 0; for (auto &v : r) { if (c < no) o[c++] = v.size(); for (double x : v) if (c < no) o[c++] = x; } } };
static double &at(double &a, int, int) { return a; }
template <int N> static double &at(Mat<N, N, double> &a, int i, int j) { return a(i, j); }
static double at(const double &a, int, int) { return a; }
template <int N> static double at(const Mat<N, N, double> &a, int i, int j) { return a(i, j); }
// the degrees of freedom of one rank (ascending global numbers) and its part of a matrix
struct Sys { int np, ns, *so, *mem, nd, *ds, bs, ne, *e; signed char *own; double *a;
  FlatArray<int> set(int k) { return FlatArray<int>(so[k + 1] - so[k], mem + so[k]); }
  struct L { Array<int> gl, loc; shared_ptr<ParallelDofs> pd; shared_ptr<BaseMatrix> A, P; };
  L local(NgMPI_Comm c) { L l; int r = c.Rank(); std::vector<Array<int>> t; l.loc.SetSize(nd); l.loc = -1; for (int i = 0; i < nd; i++) if (set(ds[i]).Contains(r)) { Array<int> d; for (int p : set(ds[i])) if (p != r) d.Append(p); l.loc[i] = l.gl.Size(); l.gl.Append(i); t.push_back(std::move(d)); }
    l.pd = make_shared<ParallelDofs>(c, tab(t), bs, false); return l; }
  template <class TM> shared_ptr<SparseMatrix<TM>> mat(L &l, int r) { constexpr int N = ngbla::Height<TM>(); int n = l.gl.Size(); std::vector<std::map<int, int>> w(n); for (int i = 0; i < n; i++) w[i][i] = l.gl[i];
    for (int j = 0; j < ne; j++) { int x = l.loc[e[2 * j]], y = l.loc[e[2 * j + 1]]; if (own[j * np + r] && x >= 0 && y >= 0) { w[x][y] = nd + 2 * j; w[y][x] = nd + 2 * j + 1; } }
    Array<int> pr(n); for (int i = 0; i < n; i++) pr[i] = w[i].size(); auto A = make_shared<SparseMatrix<TM>>(pr, n); for (int i = 0; i < n; i++) { int q = 0; auto ri = A->GetRowIndices(i); auto rv = A->GetRowValues(i); for (auto &[c, k] : w[i]) { ri[q] = c; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) at(rv[q], u, v) = a[(k * np + r) * N * N + u * N + v]; q++; } }
    return A; }
  template <class TM> void fill(L &l, int r) { auto A = mat<TM>(l, r); l.A = A; l.P = make_shared<ParallelMatrix>(A, l.pd, l.pd, C2D); }
  void fill(L &l, int r) { switch (bs) { case 1: fill<double>(l, r); break; case 2: fill<Mat<2, 2, double>>(l, r); break; default: fill<Mat<3, 3, double>>(l, r); } }
  shared_ptr<BaseVector> vec(L &l, int r, const double *v, int st) { shared_ptr<BaseVector> x = CreateSuitableVector(l.gl.Size(), bs, l.pd); auto f = x->FVDouble(); for (int i : Range(l.gl)) for (int k = 0; k < bs; k++) f[i * bs + k] = v[(l.gl[i] * np + r) * bs + k]; x->SetParallelStatus(st ? CUMULATED : DISTRIBUTED); return x; } };
static void put(D &o, const BaseVector &x) { o.push_back(x.GetParallelStatus() == CUMULATED ? 1 : x.GetParallelStatus() == DISTRIBUTED ? 0 : 2); auto f = x.FVDouble(); o.push_back(f.Size()); for (double y : f) o.push_back(y); }
template <class S> static void spm(D &o, const S &A) { o.push_back(A.Height()); for (size_t i = 0; i < A.Height(); i++) { auto ri = A.GetRowIndices(i); auto rv = A.GetRowValues(i); o.push_back(ri.Size()); for (size_t j = 0; j < ri.Size(); j++) { o.push_back(ri[j]); constexpr int N = ngbla::Height<std::remove_const_t<std::remove_reference_t<decltype(rv[j])>>>(); for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) o.push_back(at(rv[j], u, v)); } } }
#define SARGS int np, int seed, int ns, int *so, int *mem, int nd, int *ds, int bs, int ne, int *ed, signed char *own, double *a
#define S_ Sys s{np, ns, so, mem, nd, ds, bs, ne, ed, own, a}

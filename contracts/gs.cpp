// Entry points to the Gauss-Seidel sweeps of the real smoother classes.  The objects are assembled member by member over
// caller-supplied storage (no set-up code runs here; SetUp / CalcDiags have contracts of their own).
#include "gssmoother.cpp"
using namespace amg;
#define X extern "C"
struct HV final : public BaseVector {
  double *p; HV(size_t n, int es, double *_p) : p(_p) { size = n; entrysize = es; }
  int EntrySizeScal() const throw() override { return entrysize; }
  void *Memory() const override { return p; }
  FlatVector<double> FVDouble() const override { return FlatVector<double>(size * entrysize, p); }
  FlatVector<Complex> FVComplex() const override { throw 1; }
  AutoVector CreateVector() const override { throw 1; }
  void GetIndirect(FlatArray<int>, FlatVector<double>) const override { throw 1; }
  void GetIndirect(FlatArray<int>, FlatVector<Complex>) const override { throw 1; }
};
template<class T> struct Raw { alignas(64) char c[sizeof(T)]; T *operator->() { return reinterpret_cast<T*>(c); } T &operator*() { return *reinterpret_cast<T*>(c); } };
template<class T> static INLINE void PA(Array<T> &a, size_t n, T *p) { a.size = n; a.data = p; a.allocsize = n; a.mem_to_delete = nullptr; }
template<class T> static INLINE void SP(shared_ptr<T> &s, T *p) { struct L { T *p; void *c; }; auto *l = reinterpret_cast<L*>(&s); l->p = p; l->c = nullptr; }
template<class TM> static INLINE void MKM(Raw<SparseMatrix<TM>> &m, size_t n, size_t *fi, size_t nze, int *col, TM *val) {
  m->size = m->width = n; m->nze = nze; PA<size_t>(m->firsti, n + 1, fi); PA<int>(m->colnr, nze, col); PA<TM>(m->data, nze, val); }
template<class TM> static INLINE void GS(int n, int first, int next, int ff, int nf, int nb, unsigned char *bits, double *x, double *b, TM *dinv, size_t *fi, int nze, int *col, TM *val, bool bw, bool res, bool fds) {
  Raw<SparseMatrix<TM>> m; MKM<TM>(m, n, fi, nze, col, val);
  Raw<BitArray> ba; ba->size = n; ba->data = bits;
  Raw<GSS3<TM>> s; s->H = n; SP<SparseMatrix<TM>>(s->spmat, &*m); SP<BitArray>(s->freedofs, fds ? &*ba : nullptr); PA<TM>(s->dinv, n, dinv); s->first_free = ff; s->next_free = nf;
  constexpr int BS = GSS3<TM>::BS();
  HV vx(n, BS, x), vb(n, BS, b);
  if (res) s->GSS3<TM>::SmoothRESInternal(first, next, vx, vb, bw); else s->GSS3<TM>::SmoothRHSInternal(first, next, vx, vb, bw);
}
#define ENT(nm, TM, bw, res, fds) X void nm(int n, int first, int next, int ff, int nf, int nb, unsigned char *bits, double *x, double *b, TM *dinv, size_t *fi, int nze, int *col, TM *val) { GS<TM>(n, first, next, ff, nf, nb, bits, x, b, dinv, fi, nze, col, val, bw, res, fds); }
typedef Mat<2,2,double> M2;
typedef Mat<3,3,double> M3;
#define ALL(s, TM) ENT(h_f##s, TM, false, false, false) ENT(h_b##s, TM, true, false, false) ENT(h_ff##s, TM, false, false, true) ENT(h_bf##s, TM, true, false, true) \
  ENT(h_rf##s, TM, false, true, false) ENT(h_rb##s, TM, true, true, false) ENT(h_rff##s, TM, false, true, true) ENT(h_rbf##s, TM, true, true, true)
ALL(1, double)
ALL(2, M2)
ALL(3, M3)
// compressed variant: rows of cA belong to the entries xdofs[row]
template<class TM> static INLINE void G4(int nx, int n, int *xd, double *x, double *b, TM *dinv, size_t *fi, int nze, int *col, TM *val, bool bw, bool res) {
  Raw<SparseMatrix<TM>> m; MKM<TM>(m, nx, fi, nze, col, val);
  Raw<GSS4<TM>> s; PA<int>(s->xdofs, nx, xd); SP<SparseMatrix<TM>>(s->cA, &*m); PA<TM>(s->dinv, nx, dinv);
  constexpr int BS = GSS4<TM>::BS();
  HV vx(n, BS, x), vb(n, BS, b);
  if (res) s->GSS4<TM>::SmoothRESInternal(vx, vb, bw); else s->GSS4<TM>::SmoothRHSInternal(vx, vb, bw);
}
#define ENT4(nm, TM, bw, res) X void nm(int nx, int n, int *xd, double *x, double *b, TM *dinv, size_t *fi, int nze, int *col, TM *val) { G4<TM>(nx, n, xd, x, b, dinv, fi, nze, col, val, bw, res); }
#define ALL4(s, TM) ENT4(h4_f##s, TM, false, false) ENT4(h4_b##s, TM, true, false) ENT4(h4_rf##s, TM, false, true) ENT4(h4_rb##s, TM, true, true)
ALL4(1, double)
ALL4(2, M2)
ALL4(3, M3)

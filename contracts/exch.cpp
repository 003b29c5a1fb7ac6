// Entries to the copy loops of the parallel vector exchange (the object is assembled member by member over caller-supplied storage; no message is sent here).
#include "dcc_map.cpp"
using namespace amg;
#define X extern "C"
struct HV final : public BaseVector {
  double *p; HV(size_t n, int es, double *_p) : p(_p) { size = n; entrysize = es; }
  int EntrySizeScal() const throw() override { return entrysize; }
  void *Memory() const override { return p; }
  FlatVector<double> FVDouble() const override { return FlatVector<double>(size * entrysize, p); }
  FlatVector<Complex> FVComplex() const override { throw 1; }
  AutoVector CreateVector() const override { throw 1; }
  void GetIndirect(FlatArray<int>, FlatVector<double>) const override { throw 1; }
  void GetIndirect(FlatArray<int>, FlatVector<Complex>) const override { throw 1; }
};
template<class T> struct Raw { alignas(64) char c[sizeof(T)]; T *operator->() { return reinterpret_cast<T*>(c); } T &operator*() { return *reinterpret_cast<T*>(c); } };
template<class T> static INLINE void TAB(Table<T> &t, size_t n, size_t *fi, T *d) { t.size = n; t.index = fi; t.data = d; }
template<int BS> static INLINE void go(int op, int np, int n, int ne, size_t *fi, int *ex, double *buf, double *x) {
  Raw<DCCMap<double>> s; HV v(n, 1, x); s->block_size = BS;
  if (op == 0 || op == 3) { TAB<int>(s->g_ex_dofs, np, fi, ex); TAB<double>(s->g_buffer, np, fi, buf); } else { TAB<int>(s->m_ex_dofs, np, fi, ex); TAB<double>(s->m_buffer, np, fi, buf); }
  auto &D = *s;
  if (op == 0) D.DCCMap<double>::BufferG(v); else if (op == 1) D.DCCMap<double>::ApplyM(v); else if (op == 2) D.DCCMap<double>::BufferM(v); else D.DCCMap<double>::ApplyG(v);
}
#define ENT(nm, op) X void nm(int np, int n, int ne, size_t *fi, int *ex, double *buf, double *x) { go<1>(op, np, n, ne, fi, ex, buf, x); }
ENT(e_bufg, 0) ENT(e_applym, 1) ENT(e_bufm, 2) ENT(e_applyg, 3)

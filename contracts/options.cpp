// Thin entry points to level-specific options and tuple ordering (argument copying only).
#include <base.hpp>
#include <utils.hpp>
#include <SpecOpt.hpp>
using namespace amg;
#define X extern "C"
template<class T> static INLINE void MK(SpecOpt<T> &o, T def, int n, const T *sp) { o.default_opt = def; o.spec_opt.SetSize(n); for (int i = 0; i < n; i++) o.spec_opt[i] = sp[i]; }
X int h_get(int def, int n, int *sp, int level) { SpecOpt<int> o; MK<int>(o, def, n, sp); return o.GetOpt(level); }
X int h_getd(int def, int level) { SpecOpt<int> o(def); return o.GetOpt(level); }
X int h_ctor(int def, int n, int *sp, int level) { Array<int> a(n); for (int i = 0; i < n; i++) a[i] = sp[i]; SpecOpt<int> o(def, move(a)); return o.GetOpt(level); }
X int h_copy(int def, int n, int *sp, int level, int *src) { SpecOpt<int> o; MK<int>(o, def, n, sp); SpecOpt<int> q(o); src[0] = o.GetOpt(level); return q.GetOpt(level); }
X int h_move(int def, int n, int *sp, int level) { SpecOpt<int> o; MK<int>(o, def, n, sp); SpecOpt<int> q(move(o)); return q.GetOpt(level); }
X int h_asg(int def, int n, int *sp, int d2, int n2, int *sp2, int level, int *src) { SpecOpt<int> o, q; MK<int>(o, def, n, sp); MK<int>(q, d2, n2, sp2); q = o; src[0] = o.GetOpt(level); return q.GetOpt(level); }
X int h_asgd(int d2, int n2, int *sp2, int val, int level) { SpecOpt<int> q; MK<int>(q, d2, n2, sp2); q = val; return q.GetOpt(level); }
static INLINE void MKB(SpecOpt<bool> &o, int def, int n, const int *sp) { o.default_opt = def != 0; o.spec_opt.SetSize(n); for (int i = 0; i < n; i++) o.spec_opt[i] = sp[i] != 0; }
X int h_or(int def, int n, int *sp, int d2, int n2, int *sp2, int level) { SpecOpt<bool> o, q; MKB(o, def, n, sp); MKB(q, d2, n2, sp2); o |= q; return o.GetOpt(level) ? 1 : 0; }
// configured from flags.  has: 0 no default flag, 1 default flag given as val; ns: number of special values
template<class T> static INLINE int FG(int def, int has, int val, int ns, int *sp, int lev) {
  Flags f; if (has) f.SetFlag("opt", double(val)); if (ns >= 0) { Array<double> a(ns); for (int i = 0; i < ns; i++) a[i] = sp[i]; f.SetFlag("opt_spec", a); }
  SpecOpt<T> o; o.default_opt = T(def); o.SetFromFlags(f, "opt"); return int(o.GetOpt(lev)); }
X int h_fint(int def, int has, int val, int ns, int *sp, int lev) { return FG<int>(def, has, val, ns, sp, lev); }
X int h_fdbl(int def, int has, int val, int ns, int *sp, int lev) { return FG<double>(def, has, val, ns, sp, lev); }
X int h_fbool(int def, int has, int val, int ns, int *sp, int lev) {
  Flags f; if (has) f.SetFlag("opt", val != 0); if (ns >= 0) { Array<double> a(ns); for (int i = 0; i < ns; i++) a[i] = sp[i]; f.SetFlag("opt_spec", a); }
  SpecOpt<bool> o; o.default_opt = def != 0; o.SetFromFlags(f, "opt"); return o.GetOpt(lev) ? 1 : 0; }
X int h_fxbool(int def, int has, int val, int ns, int *sp, int lev) {
  Flags f; if (has) f.SetFlag("opt", val != 0); if (ns >= 0) { Array<double> a(ns); for (int i = 0; i < ns; i++) a[i] = sp[i]; f.SetFlag("opt_spec", a); }
  SpecOpt<xbool> o; o.default_opt = maybe; o.SetFromFlags(f, "opt"); auto r = o.GetOpt(lev); return r.IsTrue() ? 1 : r.IsFalse() ? 0 : 2; }
static const char *NAMES[] = { "zero", "one", "two", "three", "unknown", "" };
X int h_fstr(int def, int has, int val, int ns, int *sp, int lev) {
  Flags f; if (has) f.SetFlag("opt", string(NAMES[val])); if (ns >= 0) { Array<string> a(ns); for (int i = 0; i < ns; i++) a[i] = NAMES[sp[i]]; f.SetFlag("opt_spec", a); }
  SpecOpt<string> o; o.default_opt = NAMES[def]; o.SetFromFlags(f, "opt"); auto r = o.GetOpt(lev); for (int i = 0; i < 6; i++) if (r == NAMES[i]) return i; return -1; }
X int h_fenum(int def, int has, int val, int ns, int *sp, int lev, int ctor) {
  Flags f; if (has) f.SetFlag("opt", string(NAMES[val])); if (ns >= 0) { Array<string> a(ns); for (int i = 0; i < ns; i++) a[i] = NAMES[sp[i]]; f.SetFlag("opt_spec", a); }
  Array<string> keys(4); Array<int> vals(4); for (int i = 0; i < 4; i++) { keys[i] = NAMES[i]; vals[i] = 10 + i; }
  if (ctor) { SpecOpt<int> o(f, def, "opt", FlatArray<string>(keys), FlatArray<int>(vals)); return o.GetOpt(lev); }
  SpecOpt<int> o; o.default_opt = def; o.SetFromFlagsEnum(f, "opt", FlatArray<string>(keys), FlatArray<int>(vals)); return o.GetOpt(lev); }
X int h_senum(int cur, int has, int val, int hasdef, int def) {
  Flags f; if (has) f.SetFlag("opt", string(NAMES[val])); Array<string> keys(4); Array<int> vals(4); for (int i = 0; i < 4; i++) { keys[i] = NAMES[i]; vals[i] = 10 + i; }
  Array<string> k2(keys); Array<int> v2(vals); int o = cur; if (hasdef) SetEnumOpt<int>(f, o, "opt", move(k2), move(v2), def); else SetEnumOpt<int>(f, o, "opt", move(k2), move(v2)); return o; }
// tuples
template<int N> static INLINE IVec<N,int> IV(const int *p) { IVec<N,int> r; for (int i = 0; i < N; i++) r[i] = p[i]; return r; }
X int h_lt2(int *a, int *b) { return amg::operator<(IV<2>(a), IV<2>(b)); }
X int h_lt3(int *a, int *b) { return amg::operator<(IV<3>(a), IV<3>(b)); }
X int h_lt4(int *a, int *b) { return amg::operator<(IV<4>(a), IV<4>(b)); }
X int h_lt5(int *a, int *b) { return amg::operator<(IV<5>(a), IV<5>(b)); }
X void h_inc3(int *a, int *b, int *o) { auto x = IV<3>(a); amg::operator+=(x, IV<3>(b)); for (int i = 0; i < 3; i++) o[i] = x[i]; }

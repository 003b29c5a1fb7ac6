// Thin entry points to the sorted-array / permutation utilities (argument copying only).
#include <base.hpp>
#include <utils_arrays_tables.hpp>
using namespace amg;
typedef FlatArray<int> FA;
#define X extern "C"
#define LHEAP LocalHeap lh(1000000, "harness");
static INLINE int OUT(FlatArray<int> r, int *o) { int n = r.Size(); memcpy(o, r.Data(), size_t(n)*sizeof(int)); return n; }
static INLINE int OUTA(Array<int> &r, int *o) { int n = r.Size(); memcpy(o, r.Data(), size_t(n)*sizeof(int)); return n; }
// growable arrays: filled with the input, spare capacity left to the caller's choice
#define GROW(A, n, p, cap) Array<int> A(cap); A.SetSize(n); memcpy(A.Data(), p, size_t(n)*sizeof(int));

X int h_lex(int na, int *a, int nb, int *b) { return lex_smaller<int>(FA(na,a), FA(nb,b)); }
X long h_find(int x, int n, int *a) { return find_in_sorted_array<int>(x, FA(n,a)); }
X long h_findc(int x, int n, int *a) { return find_in_sorted_array<int>(x, FA(n,a), [](auto i, auto j){ return i < j; }); }
X long h_mpos(int x, int n, int *a) { return merge_pos_in_sorted_array<int>(x, FA(n,a)); }
X int h_insnd(int x, int n, int *a, int cap, int *o, int *on) { GROW(A, n, a, cap) bool r = insert_into_sorted_array_nodups<int>(x, A); *on = OUTA(A, o); return r; }
X int h_ins(int x, int n, int *a, int cap, int *o) { GROW(A, n, a, cap) insert_into_sorted_array<int>(x, A); return OUTA(A, o); }
X int h_insu(int x, int n, int *a, int cap, int *o, int *on, int *pos) { GROW(A, n, a, cap) auto [r, p] = sorted_insert_unique<int>(x, A); *on = OUTA(A, o); *pos = p; return r; }
X int h_spos(int x, int n, int *a, int cap, int *o, int *on) { GROW(A, n, a, cap) int p = sorted_pos<int>(x, A); *on = OUTA(A, o); return p; }
X int h_remf(int pos, int n, int *a) { return removeEntryFlat<int>(pos, FA(n,a)); }
X int h_rem(int pos, int n, int *a, int *o, int *on) { GROW(A, n, a, n) int r = removeEntry<int>(pos, A); *on = OUTA(A, o); return r; }
X int h_imax(int n, int *a) { return ind_of_max<int>(FA(n,a)); }
// permutations
X void h_perm(int n, int *a, int *p) { ApplyPermutation<int>(FA(n,a), FA(n,p)); }
X void h_permk(int n, int *a, int *p) { ApplyAndKeepPermutation<int>(FA(n,a), FA(n,p)); }
X void h_permb(int n, int *a, int *p, int *buf) { ApplyPermutation<int>(FA(n,a), FA(n,p), FA(n,buf)); }
X void h_perminv(int n, int *p, int *q) { InvertPermutation<int>(FA(n,p), FA(n,q)); }
// set algebra on sorted arrays
X int h_mlh(int na, int *a, int nb, int *b, int *o) { LHEAP return OUT(merge_arrays_lh<int>(FA(na,a), FA(nb,b), lh), o); }
X int h_marr(int na, int *a, int nb, int *b, int cap, int *o) { Array<int> r(cap); merge_arrays<int>(FA(na,a), FA(nb,b), r); return OUTA(r, o); }
X int h_minto(int na, int *a, int nb, int *b, int cap, int *o) { LHEAP GROW(B, nb, b, cap) merge_a_into_b<int>(FA(na,a), B, lh); return OUTA(B, o); }
X int h_posin(int na, int *a, int nb, int *b, int *o) { LHEAP return OUT(posSortedInSorted<int>(FA(na,a), FA(nb,b), lh), o); }
X int h_isect(int na, int *a, int nb, int *b, int cap, int *o) { Array<int> r(cap); intersect_sorted_arrays(FA(na,a), FA(nb,b), r); return OUTA(r, o); }
X int h_isemp(int na, int *a, int nb, int *b) { return is_intersect_empty(FA(na,a), FA(nb,b)); }
X int h_minus(int na, int *a, int nb, int *b, int *o) { LHEAP return OUT(setMinus<int>(FA(na,a), FA(nb,b), lh), o); }
X int h_part(int nA, int *A, int nS, int *S, int BS, int *oA, int *oB, int *n) { LHEAP auto [x, y] = partitionAB(FA(nA,A), FA(nS,S), lh, BS); n[0] = OUT(x, oA); n[1] = OUT(y, oB); return 0; }
X void h_seq(int n, int *o) { LHEAP OUT(makeSequence(n, lh), o); }
// the traversals: log every call-back
X int h_iint(int na, int *a, int nb, int *b, int *li, int *lj, int *wa) { int c = 0; iterate_intersection(FA(na,a), FA(nb,b), [&](auto i, auto j) { li[c] = i; lj[c] = j; wa[i] = c; c++; }); return c; }
X int h_iabc(int na, int *a, int nb, int *b, int *lk, int *li, int *lj, int *wa, int *wb) { int c = 0; iterate_ABC(FA(na,a), FA(nb,b), [&](auto k, auto i, auto j) { lk[c] = k; li[c] = i; lj[c] = j; if (i >= 0) wa[i] = c; if (j >= 0) wb[j] = c; c++; }); return c; }
X int h_iabc3(int na, int *a, int nb, int *b, int *lk, int *li, int *lj, int *wa, int *wb) { int c = 0; iterate_ABC(FA(na,a), FA(nb,b), [&](auto i) { lk[c] = A_NOT_B; li[c] = i; lj[c] = -1; wa[i] = c; c++; },
   [&](auto j) { lk[c] = B_NOT_A; li[c] = -1; lj[c] = j; wb[j] = c; c++; }, [&](auto i, auto j) { lk[c] = INTERSECTION; li[c] = i; lj[c] = j; wa[i] = c; wb[j] = c; c++; }); return c; }
X int h_iac(int na, int *a, int nb, int *b, int *lk, int *li, int *lj, int *wa) { int c = 0; iterate_AC(FA(na,a), FA(nb,b), [&](auto k, auto i, auto j) { lk[c] = k; li[c] = i; lj[c] = j; wa[i] = c; c++; }); return c; }
X int h_ianb(int na, int *a, int nb, int *b, int *li, int *wa) { int c = 0; iterate_anotb(FA(na,a), FA(nb,b), [&](auto i) { li[c] = i; wa[i] = c; c++; }); return c; }
// tables: row k is d[f[k]..f[k+1])
struct RowTab { int nr, *f, *d; size_t Size() const { return nr; } FlatArray<int> operator[](size_t k) const { return FA(f[k+1]-f[k], d+f[k]); } FlatArray<int>* Data() const { return nullptr; } };
X int h_mtab(int nr, int *f, int *d, int *o) { RowTab t{nr, f, d}; auto r = merge_arrays(t); return OUTA(r, o); }
X int h_sumt(int nr, int *f, int *d, int *o) { RowTab t{nr, f, d}; auto r = sum_table(t); return OUTA(r, o); }
X int h_mint(int nr, int *f, int *d, int *o) { RowTab t{nr, f, d}; auto r = min_table(t); return OUTA(r, o); }
X int h_maxt(int nr, int *f, int *d, int *o) { RowTab t{nr, f, d}; auto r = max_table(t); return OUTA(r, o); }
X int h_redt(int nr, int *f, int *d, int *o) { RowTab t{nr, f, d}; auto r = reduce_table(t, [](auto x, auto y) { return 3*x+y; }); return OUTA(r, o); }
X int h_mfa(int nr, int *f, int *d, int *o) { LHEAP return OUT(mergeFlatArrays(nr, lh, [&](auto k) { return FA(f[k+1]-f[k], d+f[k]); }), o); }
X int h_mga(int nr, int *f, int *d, int *o) { LHEAP Array<int> r(1); MergeArrays<int>(r, lh, nr, [&](auto k) { return FA(f[k+1]-f[k], d+f[k]); }); return OUTA(r, o); }
X int h_mrows(int nr, int *f, int *d, int *o) { LHEAP Array<int*> p(nr); Array<int> s(nr); for (int i = 0; i < nr; i++) { p[i] = d+f[i]; s[i] = f[i+1]-f[i]; } int c = 0; MergeArrays(p, s, [&](auto v) { o[c++] = v; }); return c; }

// Thin entry points to the pack / unpack routines of the communication buffers (argument copying only).
#include <base.hpp>
#include <utils_buffering.hpp>
#include <elasticity.hpp>
#include <elasticity_mesh.hpp>
using namespace amg;
#define X extern "C"
static INLINE void LDX(double &v, const double *p) { v = *p; }
static INLINE void STX(double const &v, double *p) { *p = v; }
template<int N> static INLINE void LDX(Vec<N,double> &v, const double *p) { for (int i=0;i<N;i++) v(i)=p[i]; }
template<int N> static INLINE void STX(Vec<N,double> const &v, double *p) { for (int i=0;i<N;i++) p[i]=v(i); }
template<int N> static INLINE void LDX(IVec<N,double> &v, const double *p) { for (int i=0;i<N;i++) v[i]=p[i]; }
template<int N> static INLINE void STX(IVec<N,double> const &v, double *p) { for (int i=0;i<N;i++) p[i]=v[i]; }
template<int N> static INLINE void LDX(Mat<N,N,double> &v, const double *p) { for (int i=0;i<N;i++) for (int j=0;j<N;j++) v(i,j)=p[N*i+j]; }
template<int N> static INLINE void STX(Mat<N,N,double> const &v, double *p) { for (int i=0;i<N;i++) for (int j=0;j<N;j++) p[N*i+j]=v(i,j); }
template<int D> static INLINE void LDX(ElastVData<D> &v, const double *p) { v.rot_scaling = p[0]; LDX(v.pos, p+1); LDX(v.wt, p+1+D); }
template<int D> static INLINE void STX(ElastVData<D> const &v, double *p) { p[0] = v.rot_scaling; STX(v.pos, p+1); STX(v.wt, p+1+D); }
// two objects packed one after the other, then unpacked; sz: reported sizes
#define RT(name, ...) X void h_##name(double *a, double *b, double *buf, double *oa, double *ob, int *sz) { __VA_ARGS__ x, y, u, v; LDX(x, a); LDX(y, b); \
  int c = PackIntoBuffer(x, buf); sz[0] = c; sz[1] = PackIntoBuffer(y, buf+c); sz[4] = SIZE_IN_BUFFER<__VA_ARGS__>(); \
  int d = UnpackFromBuffer(u, buf); sz[2] = d; sz[3] = UnpackFromBuffer(v, buf+d); STX(u, oa); STX(v, ob); }
RT(double, double)
RT(vec1, Vec<1,double>) RT(vec2, Vec<2,double>) RT(vec3, Vec<3,double>) RT(vec6, Vec<6,double>)
RT(ivec2, IVec<2,double>) RT(ivec3, IVec<3,double>) RT(ivec4, IVec<4,double>)
RT(mat1, Mat<1,1,double>) RT(mat2, Mat<2,2,double>) RT(mat3, Mat<3,3,double>) RT(mat6, Mat<6,6,double>)
RT(ev2, ElastVData<2>) RT(ev3, ElastVData<3>)
// assignment / accumulation of vertex data
template<int D> static INLINE void t_acc(double *a, double *b, double *o, double *p) { ElastVData<D> x, y, z; LDX(x, a); LDX(y, b); z = x; STX(z, o); x += y; STX(x, p); }
X void h_acc2(double *a, double *b, double *o, double *p) { t_acc<2>(a, b, o, p); }
X void h_acc3(double *a, double *b, double *o, double *p) { t_acc<3>(a, b, o, p); }

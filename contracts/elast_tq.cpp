// Thin entry points to the real energy kernels (no logic of their own): copy arguments in, call, copy results out.
#include <base.hpp>
#include <elasticity.hpp>
#include <elasticity_mesh.hpp>
#include <elasticity_energy_impl.hpp>
#include <h1.hpp>
#include <h1_energy_impl.hpp>
using namespace amg;
template<int D> using EE = EpsEpsEnergy<D, ElastVData<D>, ElasticityEdgeData<D>>;
template<int D> static INLINE typename EE<D>::TM LD(const double *p) { constexpr int N = EE<D>::DPV; typename EE<D>::TM A; for (int i=0;i<N;i++) for (int j=0;j<N;j++) A(i,j)=p[N*i+j]; return A; }
template<int D> static INLINE void ST(typename EE<D>::TM const &A, double *p) { constexpr int N = EE<D>::DPV; for (int i=0;i<N;i++) for (int j=0;j<N;j++) p[N*i+j]=A(i,j); }
template<int D> static INLINE Vec<D> LV(const double *p) { Vec<D> v; for (int i=0;i<D;i++) v(i)=p[i]; return v; }
template<int D> static INLINE ElastVData<D> VD(const double *p, double rs) { ElastVData<D> v(0.0); v.pos = LV<D>(p); v.rot_scaling = rs; return v; }
#define TQIN typename EE<D>::TQ q(rs, LV<D>(t)); auto A = LD<D>(a); (void)A;

#define BOTH(name, params, args, ...) \
  template<int D> static INLINE void t_##name params __VA_ARGS__ \
  extern "C" void h_##name##2 params { t_##name<2> args; } \
  extern "C" void h_##name##3 params { t_##name<3> args; }

#define PK (double rs, double *t, double s, double *a, double *o)
#define AK (rs, t, s, a, o)
BOTH(MQ,    PK, AK, { TQIN; q.MQ(A); ST<D>(A, o); })
BOTH(MQs,   PK, AK, { TQIN; typename EE<D>::TM O; q.MQ(s, A, O); ST<D>(O, o); })
BOTH(GMQ,   PK, AK, { TQIN; ST<D>(q.GetMQ(s, A), o); })
BOTH(QTM,   PK, AK, { TQIN; q.QTM(A); ST<D>(A, o); })
BOTH(QTMs,  PK, AK, { TQIN; typename EE<D>::TM O; q.QTM(s, A, O); ST<D>(O, o); })
BOTH(GQTM,  PK, AK, { TQIN; ST<D>(q.GetQTM(s, A), o); })
BOTH(QTMQ,  PK, AK, { TQIN; q.QTMQ(A); ST<D>(A, o); })
BOTH(QTMQs, PK, AK, { TQIN; typename EE<D>::TM O; q.QTMQ(s, A, O); ST<D>(O, o); })
BOTH(GQTMQ, PK, AK, { TQIN; ST<D>(q.GetQTMQ(s, A), o); })
BOTH(QMQT,  PK, AK, { TQIN; q.QMQT(A); ST<D>(A, o); })
BOTH(QMQTs, PK, AK, { TQIN; typename EE<D>::TM O; q.QMQT(s, A, O); ST<D>(O, o); })
BOTH(GQMQT, PK, AK, { TQIN; ST<D>(q.GetQMQT(s, A), o); })
BOTH(SetQ,  PK, AK, { TQIN; auto O = A; q.SetQ(O); ST<D>(O, o); })
BOTH(SetQa, PK, AK, { TQIN; auto O = A; q.SetQ(s, O); ST<D>(O, o); })

// transformations between two points
#define PP (double *pi, double ri, double *pj, double rj, double *o1, double *o2, double *mp)
#define AP (pi, ri, pj, rj, o1, o2, mp)
#define PTS auto vi = VD<D>(pi, ri); auto vj = VD<D>(pj, rj); typename EE<D>::TM Q1, Q2; Q1 = 7.0; Q2 = 7.0;
#define FIN ST<D>(Q1, o1); ST<D>(Q2, o2); { auto m = EE<D>::CalcMPData(vi, vj); for (int i=0;i<D;i++) mp[i]=m.pos(i); mp[D]=m.rot_scaling; }
BOTH(TQv,     PP, AP, { PTS; typename EE<D>::TQ q(vi, vj); q.SetQ(Q1); typename EE<D>::TQ p(vj, vi); p.SetQ(Q2); FIN })
BOTH(QiToj,   PP, AP, { PTS; EE<D>::GetQiToj(vi, vj).SetQ(Q1); EE<D>::TQ::GetQiToj(vj, vi).SetQ(Q2); FIN })
BOTH(CalcQHh, PP, AP, { PTS; EE<D>::CalcQHh(vi, vj, Q1); EE<D>::ModQHh(vj, vi, Q2); FIN })
BOTH(CalcQ,   PP, AP, { PTS; Vec<D> t = vj.pos - vi.pos; EE<D>::CalcQ(t, Q1, ri, rj); t *= -1.0; EE<D>::CalcQ(t, Q2, rj, ri); FIN })
BOTH(QijQji,  PP, AP, { PTS; auto [a, b] = EE<D>::GetQijQji(vi, vj); a.SetQ(Q1); b.SetQ(Q2); FIN })
BOTH(Qij,     PP, AP, { PTS; EE<D>::GetQij(vi, vj).SetQ(Q1); EE<D>::GetQij(vj, vi).SetQ(Q2); FIN })
BOTH(CalcQij, PP, AP, { PTS; EE<D>::CalcQij(vi, vj, Q1); EE<D>::ModQij(vj, vi, Q2); FIN })
BOTH(CalcQs,  PP, AP, { PTS; EE<D>::CalcQs(vi, vj, Q1, Q2); FIN })
BOTH(ModQs,   PP, AP, { PTS; EE<D>::ModQs(vi, vj, Q1, Q2); FIN })
BOTH(InvQs,   PP, AP, { PTS; EE<D>::CalcInvQs(vi, vj, Q1, Q2); FIN })

// the older kernels taking a dense Q
#define PS (double rs, double *t, double s, double *a, double *b, double *o)
#define AS (rs, t, s, a, b, o)
#define SIN typename EE<D>::TM Q; typename EE<D>::TQ(rs, LV<D>(t)).SetQ(Q); auto A = LD<D>(a); auto O = LD<D>(b);
BOTH(sQtMQ,    PS, AS, { SIN; EE<D>::QtMQ(Q, A); ST<D>(A, o); })
BOTH(sAddQtMQ, PS, AS, { SIN; EE<D>::AddQtMQ(s, O, Q, A); ST<D>(O, o); })
BOTH(sCalcQtMQ,PS, AS, { SIN; ST<D>(EE<D>::CalcQtMQ(Q, A), o); })
BOTH(sSetQtMQ, PS, AS, { SIN; EE<D>::SetQtMQ(s, O, Q, A); ST<D>(O, o); })
BOTH(sCalcMQ,  PS, AS, { SIN; EE<D>::CalcMQ(s, A, Q, O); ST<D>(O, o); })
BOTH(sAddMQ,   PS, AS, { SIN; EE<D>::AddMQ(s, A, Q, O); ST<D>(O, o); })
BOTH(sCalcQTM, PS, AS, { SIN; EE<D>::CalcQTM(s, Q, A, O); ST<D>(O, o); })
BOTH(sAddQTM,  PS, AS, { SIN; EE<D>::AddQTM(s, Q, A, O); ST<D>(O, o); })

// edge blocks: o = 2x2 blocks row-major
#define PB (double *pi, double ri, double *pj, double rj, double *a, double *o)
#define AB_ (pi, ri, pj, rj, a, o)
#define SETB(O) for (int k=0;k<2;k++) for (int l=0;l<2;l++) ST<D>(O[2*k+l], o + (2*k+l)*EE<D>::DPV*EE<D>::DPV);
BOTH(RMlam,  PB, AB_, { auto vi = VD<D>(pi, ri); auto vj = VD<D>(pj, rj); auto A = LD<D>(a); typename EE<D>::TM O[4]; EE<D>::CalcRMBlock(A, vi, vj, [&](auto i, auto j, auto const &v) { O[2*i+j] = v; }); SETB(O) })
BOTH(RMrow,  PB, AB_, { auto vi = VD<D>(pi, ri); auto vj = VD<D>(pj, rj); auto A = LD<D>(a); typename EE<D>::TM O[4]; for (int k=0;k<4;k++) O[k]=0.0; EE<D>::CalcRMBlockRow(A, vi, vj, [&](auto i, auto j, auto const &v) { O[2*i+j] = v; }); SETB(O) })
BOTH(RMmat,  PB, AB_, { auto vi = VD<D>(pi, ri); auto vj = VD<D>(pj, rj); auto A = LD<D>(a); typename EE<D>::TM O[4]; FlatMatrix<typename EE<D>::TM> FM(2, 2, O); EE<D>::CalcRMBlock(FM, A, vi, vj); SETB(O) })
BOTH(RMmat2, PB, AB_, { auto vi = VD<D>(pi, ri); auto vj = VD<D>(pj, rj); auto A = LD<D>(a); typename EE<D>::TM O[4]; FlatMatrix<typename EE<D>::TM> FM(2, 2, O); EE<D>::CalcRMBlock2(FM, A, vi, vj); SETB(O) })
BOTH(MPWW,   (double *pi, double ri, double *pj, double rj, double *a, double *b, double *o), (pi, ri, pj, rj, a, b, o),
     { auto vi = VD<D>(pi, ri); auto vj = VD<D>(pj, rj); vi.wt = LD<D>(a); vj.wt = LD<D>(b); auto m = EE<D>::CalcMPDataWW(vi, vj); ST<D>(m.wt, o); })
// weights: edge / vertex matrices in and out of the attached data
BOTH(EVmat, (double *a, double *b, double *oe, double *ov), (a, b, oe, ov),
     { typename EE<D>::TM A = LD<D>(a), B = LD<D>(b); typename EE<D>::TED e; ElastVData<D> v(0.0); EE<D>::SetEMatrix(e, A); EE<D>::SetVMatrix(v, B); ST<D>(EE<D>::GetEMatrix(e), oe); ST<D>(EE<D>::GetVMatrix(v), ov); })
BOTH(EVscal, (double x, double y, double *oe, double *ov), (x, y, oe, ov),
     { typename EE<D>::TED e; ElastVData<D> v(0.0); EE<D>::SetEMatrix(e, x); EE<D>::SetVMatrix(v, y); oe[0] = EE<D>::GetApproxWeight(e); ov[0] = EE<D>::GetApproxVWeight(v); })

// scalar (H1) energy with 1, 2, 3 components
template<int C> using H1E = H1Energy<C, IVec<2,double>, double>;
template<int C> static INLINE void STH(StripTM<C,C> const &A, double *p) { if constexpr (C==1) p[0] = A; else for (int i=0;i<C;i++) for (int j=0;j<C;j++) p[C*i+j]=A(i,j); }
template<int C> static INLINE StripTM<C,C> LDH(const double *p) { if constexpr (C==1) return p[0]; else { StripTM<C,C> A; for (int i=0;i<C;i++) for (int j=0;j<C;j++) A(i,j)=p[C*i+j]; return A; } }
#define H123(name, params, args, ...) \
  template<int C> static INLINE void th_##name params __VA_ARGS__ \
  extern "C" void h1_##name##1 params { th_##name<1> args; } \
  extern "C" void h1_##name##2 params { th_##name<2> args; } \
  extern "C" void h1_##name##3 params { th_##name<3> args; }
#define SETH(O) for (int k=0;k<2;k++) for (int l=0;l<2;l++) STH<C>(O[2*k+l], o + (2*k+l)*C*C);
H123(RMlam, (double e, double *w, double *o), (e, w, o), { IVec<2,double> vi(w[0], w[1]), vj(w[2], w[3]); typename H1E<C>::TM O[4]; H1E<C>::CalcRMBlock(e, vi, vj, [&](auto i, auto j, auto const &v) { O[2*i+j] = v; }); SETH(O) })
H123(RMrow, (double e, double *w, double *o), (e, w, o), { IVec<2,double> vi(w[0], w[1]), vj(w[2], w[3]); typename H1E<C>::TM O[4]; for (int k=0;k<4;k++) O[k]=0.0; H1E<C>::CalcRMBlockRow(e, vi, vj, [&](auto i, auto j, auto const &v) { O[2*i+j] = v; }); SETH(O) })
H123(RMmat, (double e, double *w, double *o), (e, w, o), { IVec<2,double> vi(w[0], w[1]), vj(w[2], w[3]); typename H1E<C>::TM O[4]; FlatMatrix<typename H1E<C>::TM> FM(2, 2, O); H1E<C>::CalcRMBlock(FM, e, vi, vj); SETH(O) })
H123(TQ, (double s, double *a, double *o), (s, a, o), { IVec<2,double> vi(1.0, 1.0); auto q = H1E<C>::GetQiToj(vi, vi); auto A = LDH<C>(a); typename H1E<C>::TM O;
   STH<C>(q.GetMQ(s, A), o); STH<C>(q.GetQTM(s, A), o + C*C); STH<C>(q.GetQTMQ(s, A), o + 2*C*C); STH<C>(q.GetQMQT(s, A), o + 3*C*C);
   q.MQ(s, A, O); STH<C>(O, o + 4*C*C); q.QTM(s, A, O); STH<C>(O, o + 5*C*C); q.QMQT(s, A, O); STH<C>(O, o + 6*C*C);
   O = A; q.MQ(O); q.QTM(O); q.QTMQ(O); STH<C>(O, o + 7*C*C); })
H123(EV, (double x, double y, double *o), (x, y, o), { double e; IVec<2,double> v(5.0, 6.0); H1E<C>::SetEMatrix(e, x); H1E<C>::SetVMatrix(v, y); o[0] = H1E<C>::GetApproxWeight(e); o[1] = H1E<C>::GetApproxVWeight(v); STH<C>(H1E<C>::GetEMatrix(e), o+2); STH<C>(H1E<C>::GetVMatrix(v), o+2+C*C); })

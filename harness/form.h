// Nested formulas: the code as a generator would write it, and the same formula over the reference semantics.
#ifndef FORM_H
#define FORM_H
#include "ref.h"
// reference operators as functions of the event index
template <class A, class B, timespan b> struct RUntil { static V at(int i) { V r = T_UNKNOWN; for (int k = 0; k < LEN + MORE; k++) if (k == i) r = ref_until<A, B>(k, TM[k], b); return r; } };
template <class A, timespan b> struct RAlways { static V at(int i) { return inv(RUntil<Tru, Neg<A>, b>::at(i)); } };
template <class A, timespan b> struct REveq { static V at(int i) { V r = T_UNKNOWN; for (int k = 0; k < LEN + MORE; k++) if (k == i) r = ref_eveq<A>(k, TM[k], b); return r; } };
template <class A> struct REvunb { static V at(int i) { V r = T_UNKNOWN; for (int k = 0; k < LEN + MORE; k++) if (k == i) r = ref_evunb<A>(k); return r; } };
template <class A, class B, timespan b> struct RSince { static V at(int i) { V r = T_UNKNOWN; for (int k = 0; k < LEN + MORE; k++) if (k == i) r = ref_since<A, B>(k, TM[k], b); return r; } };
template <class A, timespan b> struct RHist { static V at(int i) { return inv(RSince<Tru, Neg<A>, b>::at(i)); } };
template <class A, timespan b> struct RPasteq { static V at(int i) { V r = T_UNKNOWN; for (int k = 0; k < LEN + MORE; k++) if (k == i) r = ref_pasteq<A>(k, TM[k], b); return r; } };
template <class A, timespan u, timespan lim> struct RDurLess { static V at(int i) { V r = T_UNKNOWN; for (int k = 0; k < LEN + MORE; k++) if (k == i) { Dur d = ref_dur<A>(k, TM[k], u); r = d.must_unknown ? T_UNKNOWN : d.v < lim ? T_TRUE : T_FALSE; } return r; } };
// the operators of the library as functions of trace and time
#define AT_(body) static V ev(T_t &trace, timespan &t) { return body; }
template <int p> struct IProp { AT_(prop(trace, (proposition)p, t)) };
template <class A, class B> struct Ops { static V eval_phi1(T_t &trace, timespan &t) { return A::ev(trace, t); } static V eval_phi2(T_t &trace, timespan &t) { return B::ev(trace, t); } };
template <class A, class B> struct IOr { static V ev(T_t &trace, timespan &t) { V x = A::ev(trace, t), y = B::ev(trace, t); return b3_or(x, y); } };
template <class A, class B> struct IAnd { static V ev(T_t &trace, timespan &t) { V x = A::ev(trace, t), y = B::ev(trace, t); return b3_and(x, y); } };
template <class A> struct INeg { static V ev(T_t &trace, timespan &t) { V x = A::ev(trace, t); return b3_not(x); } };
#define ONE Ops<A, A>
template <class A, class B, timespan b> struct IUntil { static V ev(T_t &trace, timespan &t) { return until_less<T_t, Ops<A, B>, b>(trace, t); } };
template <class A, timespan b> struct IAlways { static V ev(T_t &trace, timespan &t) { return always_less<T_t, ONE, b>(trace, t); } };
template <class A, timespan b> struct IEveq { static V ev(T_t &trace, timespan &t) { return eventually_equal<T_t, ONE, b>(trace, t); } };
template <class A, timespan b> struct IAleq { static V ev(T_t &trace, timespan &t) { return always_equal<T_t, ONE, b>(trace, t); } };
template <class A> struct IEvunb { static V ev(T_t &trace, timespan &t) { return eventually_less_unbounded<T_t, ONE>(trace, t); } };
template <class A, class B, timespan b> struct ISince { static V ev(T_t &trace, timespan &t) { return since_less<T_t, Ops<A, B>, b>(trace, t); } };
template <class A, timespan b> struct IHist { static V ev(T_t &trace, timespan &t) { return historically_less<T_t, ONE, b>(trace, t); } };
template <class A, timespan b> struct IPasteq { static V ev(T_t &trace, timespan &t) { return pasteventually_equal<T_t, ONE, b>(trace, t); } };
template <class A, timespan b> struct IHisteq { static V ev(T_t &trace, timespan &t) { return historically_equal<T_t, ONE, b>(trace, t); } };
template <class A, timespan u, timespan lim> struct IDurLess { static V ev(T_t &trace, timespan &t) { duration d = duration_term<T_t, ONE, u>(trace, t), l = make_duration(lim, false); return b3_lessthan(d, l); } };
typedef IProp<1> IP; typedef IProp<2> IQ; typedef Prop<1> RP; typedef Prop<2> RQ;
#ifndef B1
#define B1 5
#endif
#ifndef B2
#define B2 3
#endif
#define K1 (timespan)(B1)
#define K2 (timespan)(B2)
#if FORM == 1
typedef IUntil<IP, IQ, K1> F; typedef RUntil<RP, RQ, K1> RF;
#elif FORM == 2
typedef IAlways<IP, K1> F; typedef RAlways<RP, K1> RF;
#elif FORM == 3
typedef IEveq<IP, K1> F; typedef REveq<RP, K1> RF;
#elif FORM == 4
typedef ISince<IP, IQ, K1> F; typedef RSince<RP, RQ, K1> RF;
#elif FORM == 5
typedef IHist<IP, K1> F; typedef RHist<RP, K1> RF;
#elif FORM == 6
typedef IPasteq<IP, K1> F; typedef RPasteq<RP, K1> RF;
#elif FORM == 7
typedef IDurLess<IP, K1, K2> F; typedef RDurLess<RP, K1, K2> RF;
// nested
#elif FORM == 11 // p U (q U p)
typedef IUntil<IP, IUntil<IQ, IP, K2>, K1> F; typedef RUntil<RP, RUntil<RQ, RP, K2>, K1> RF;
#elif FORM == 12 // (always p) U (not q or p)
typedef IUntil<IAlways<IP, K2>, IOr<INeg<IQ>, IP>, K1> F; typedef RUntil<RAlways<RP, K2>, Or<Neg<RQ>, RP>, K1> RF;
#elif FORM == 13 // always (p -> eventually= q)
typedef IAlways<IOr<INeg<IP>, IEveq<IQ, K2> >, K1> F; typedef RAlways<Or<Neg<RP>, REveq<RQ, K2> >, K1> RF;
#elif FORM == 14 // p S (q S p)
typedef ISince<IP, ISince<IQ, IP, K2>, K1> F; typedef RSince<RP, RSince<RQ, RP, K2>, K1> RF;
#elif FORM == 15 // (p U q) S p and historically not q
typedef IAnd<ISince<IUntil<IP, IQ, K2>, IP, K1>, IHist<INeg<IQ>, K2> > F; typedef And<RSince<RUntil<RP, RQ, K2>, RP, K1>, RHist<Neg<RQ>, K2> > RF;
#elif FORM == 16 // past-eventually= (q S p)
typedef IPasteq<ISince<IQ, IP, K2>, K1> F; typedef RPasteq<RSince<RQ, RP, K2>, K1> RF;
#elif FORM == 17 // always (duration p < k)
typedef IAlways<IDurLess<IP, K2, 2>, K1> F; typedef RAlways<RDurLess<RP, K2, 2>, K1> RF;
#elif FORM == 18 // duration (p U q) < k
typedef IDurLess<IUntil<IP, IQ, K2>, K1, 3> F; typedef RDurLess<RUntil<RP, RQ, K2>, K1, 3> RF;
#elif FORM == 19 // eventually (historically p)
typedef IEvunb<IHist<IP, K1> > F; typedef REvunb<RHist<RP, K1> > RF;
#elif FORM == 20 // always= (p and historically= q)
typedef IAleq<IAnd<IP, IHisteq<IQ, K2> >, K1> F; typedef REveq<And<RP, RPasteq<RQ, K2> >, K1> RF;
#elif FORM == 21 // p U (q U (p U q))
typedef IUntil<IP, IUntil<IQ, IUntil<IP, IQ, K2>, K1>, K1> F; typedef RUntil<RP, RUntil<RQ, RUntil<RP, RQ, K2>, K1>, K1> RF;
#elif FORM == 22 // always (historically (p or eventually= q))
typedef IAlways<IHist<IOr<IP, IEveq<IQ, K2> >, K1>, K1> F; typedef RAlways<RHist<Or<RP, REveq<RQ, K2> >, K1>, K1> RF;
#endif
#endif

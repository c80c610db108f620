// Intrusive lists: every history of additions and removals over three elements, against the order it must produce.
#include "obs.h"
#include <kj/list.h>
namespace vp {
struct It { int v; kj::ListLink<It> link; };
typedef kj::List<It, &It::link> L;
template <typename X> struct Keep { union { X x; }; Keep() { new (&x) X; } ~Keep() {} };
struct W { Keep<It> a, b, c; Keep<L> l; It& el(int i) { return i == 0 ? a.x : i == 1 ? b.x : c.x; } };
template <int... O> struct St {};
template <int E, int... O> constexpr bool in(St<O...>) { return ((O == E) || ...); }
template <int E, typename S> struct Minus;
template <int E, int... A> struct Rm { typedef St<A...> T; };
template <int E, typename Done, typename Todo> struct MinusI;
template <int E, int... D> struct MinusI<E, St<D...>, St<>> { typedef St<D...> T; };
template <int E, int... D, int F, int... O> struct MinusI<E, St<D...>, St<F, O...>> { typedef typename MinusI<E, St<D..., F>, St<O...>>::T T; };
template <int E, int... D, int... O> struct MinusI<E, St<D...>, St<E, O...>> { typedef St<D..., O...> T; };
template <int E, int... O> St<O..., E> back(St<O...>);
template <int E, int... O> St<E, O...> front(St<O...>);

template <int F> inline int first() { return F; }
template <typename I> inline void walk(I it, I end, W& w, St<>) { MUST(it == end); }
template <typename I, int F, int... O> inline void walk(I it, I end, W& w, St<F, O...>) {
  MUST(!(it == end)); MUST(&*it == &w.el(F)); MUST(it.operator->() == &w.el(F)); 
  if constexpr (sizeof...(O) == 1) { I old = it++; MUST(&*old == &w.el(F)); } else ++it;
  walk(it, end, w, St<O...>());
}
inline void head(W&, St<>) {}
template <int F, int... O> inline void head(W& w, St<F, O...>) { const L& c = w.l.x; MUST(&w.l.x.front() == &w.el(F)); MUST(&c.front() == &w.el(F)); }
template <int... O> inline void look(W& w, St<O...> s) {
  const L& c = w.l.x;
  MUST(c.size() == sizeof...(O)); MUST(c.empty() == (sizeof...(O) == 0));
  MUST(w.a.x.link.isLinked() == in<0>(s)); MUST(w.b.x.link.isLinked() == in<1>(s)); MUST(w.c.x.link.isLinked() == in<2>(s));
  head(w, s); walk(w.l.x.begin(), w.l.x.end(), w, s); walk(c.begin(), c.end(), w, s);
}
template <int D, typename S> inline void go(W& w, S s);
template <int D, int E, typename S> inline bool one(W& w, S s) {
  if constexpr (in<E>(s)) { if (nd(E)) { w.l.x.remove(w.el(E)); go<D - 1>(w, typename MinusI<E, St<>, S>::T()); return true; } }
  else {
    if (nd(E)) { w.l.x.add(w.el(E)); go<D - 1>(w, decltype(back<E>(s))()); return true; }
    if (nd(10 + E)) { w.l.x.addFront(w.el(E)); go<D - 1>(w, decltype(front<E>(s))()); return true; }
  }
  return false;
}
template <int D, typename S> inline void go(W& w, S s) {
  look(w, s);
  if constexpr (D > 0) one<D, 0>(w, s) || one<D, 1>(w, s) || one<D, 2>(w, s);
}
void all__history() { W w; go<3>(w, St<>()); done(); }
#define THREE W w; w.l.x.add(w.el(0)); w.l.x.add(w.el(1)); w.l.x.add(w.el(2))
void all__from012() { THREE; go<3>(w, St<0, 1, 2>()); done(); }
void all__from10() { W w; w.l.x.addFront(w.el(0)); w.l.x.addFront(w.el(1)); go<3>(w, St<1, 0>()); done(); }
// an element may be removed while the iterator stands on it
void all__removeWhileIterating() {
  THREE; auto i = w.l.x.begin(), e = w.l.x.end();
  bool r0 = nd(0), r1 = nd(1), r2 = nd(2);
  if (r0) w.l.x.remove(*i); ++i; MUST(&*i == &w.el(1));
  if (r1) w.l.x.remove(*i); ++i; MUST(&*i == &w.el(2));
  if (r2) w.l.x.remove(*i); ++i; MUST(i == e);
  if (r0 && !r1 && r2) look(w, St<1>()); if (!r0 && r1 && !r2) look(w, St<0, 2>()); if (r0 && r1 && r2) look(w, St<>()); if (!r0 && !r1 && r2) look(w, St<0, 1>()); if (!r0 && !r1 && !r2) look(w, St<0, 1, 2>()); if (r0 && !r1 && !r2) look(w, St<1, 2>()); if (r0 && r1 && !r2) look(w, St<2>()); if (!r0 && r1 && r2) look(w, St<0>());
  done();
}
// misuse is rejected and changes nothing
#define AFTER(S) try { DO; } catch (...) { look(w, S); return; } NEVER
#define DO w.l.x.add(w.el(E))
void any__doubleAdd0() { enum { E = 0 }; THREE; done(); AFTER((St<0, 1, 2>())); }
void any__doubleAdd1() { enum { E = 1 }; THREE; done(); AFTER((St<0, 1, 2>())); }
void any__doubleAdd2() { enum { E = 2 }; THREE; done(); AFTER((St<0, 1, 2>())); }
#undef DO
#define DO w.l.x.addFront(w.el(E))
void any__doubleFront0() { enum { E = 0 }; THREE; done(); AFTER((St<0, 1, 2>())); }
void any__doubleFront1() { enum { E = 1 }; THREE; done(); AFTER((St<0, 1, 2>())); }
void any__doubleFront2() { enum { E = 2 }; THREE; done(); AFTER((St<0, 1, 2>())); }
#undef DO
#define DO w.l.x.remove(w.el(E))
void any__removeAbsent() { enum { E = 0 }; W w; done(); AFTER(St<>()); }
void any__removeTwice() { enum { E = 1 }; THREE; w.l.x.remove(w.el(1)); done(); AFTER((St<0, 2>())); }
#undef DO
void rej__otherListDouble() { THREE; Keep<L> m; m.x.add(w.el(1)); done(); }
void rej__otherListRemoveLast() { THREE; Keep<L> m; m.x.remove(w.el(2)); done(); }
void rejD__derefEnd() { W w; auto i = w.l.x.end(); touch(&*i); done(); }
void rejD__derefEndArrow() { W w; auto i = w.l.x.begin(); touch(i.operator->()); done(); }
void rejD__derefEndConst() { W w; const L& c = w.l.x; auto i = c.begin(); touch(&*i); done(); }
// an element is never destroyed while a list refers to it
void rej__destroyLinked() { W w; w.l.x.add(w.a.x); w.a.x.~It(); done(); }
void all__destroyUnlinked() { W w; w.l.x.add(w.a.x); w.l.x.remove(w.a.x); w.a.x.~It(); w.b.x.~It(); done(); }
}

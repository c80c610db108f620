// Producer/consumer queues over arbitrary short histories (analysed by rules/p33.py).
#include <kj/async-queue.h>
#include <kj/async.h>
#include "obs.h"
using namespace kj; using namespace kj::_;
namespace vp {
void skip() noexcept;
#define ONLY(c) if (!(c)) { ::vp::skip(); return; }
Exception depExc(int) noexcept;
bool isNoneE(const Exception& e) { return MaybeTraits<Exception>::isNone(e); }
size_t sizeofE() { return sizeof(Exception); }
typedef uint64_t T; typedef ProducerConsumerQueue<T> Q; typedef Promise<T> P;
struct Got { bool ready; bool val; bool exc; T v; };
// a promise's outcome, if it has one
static bool waiting(PromiseNode& n) { return static_cast<AdapterPromiseNode<T, WaiterQueue<T>::Node>&>(n).isWaiting(); }
static void out(P&& p, Got& g) { OwnPromiseNode n = PromiseNode::from(mv(p)); ExceptionOr<T> r; n->get(r); g.exc = r.exception != kj::none; g.val = false; KJ_IF_SOME(v, r.value) { g.val = true; g.v = v; } }
#define IS(p, x) { Got g; out(mv(p), g); MUST(g.val && !g.exc && g.v == (x)); }
#define BAD(p) { Got g; out(mv(p), g); MUST(!g.val && g.exc); }
#define PENDING(p) MUST(waiting(*(PromiseNode*)(p).node.get()))
#define READY(p) MUST(!waiting(*(PromiseNode*)(p).node.get()))
#define V T a = nv(1), b = nv(2), c = nv(3)
// values first: out in the order they went in
void all__vals1() { V; Q q; q.push(a); auto p = q.pop(); IS(p, a); done(); }
void all__vals2() { V; Q q; q.push(a); q.push(b); auto p = q.pop(); auto r = q.pop(); IS(p, a); IS(r, b); done(); }
void all__vals3() { V; Q q; q.push(a); q.push(b); auto p = q.pop(); q.push(c); auto r = q.pop(); auto s = q.pop(); IS(s, c); IS(r, b); IS(p, a); done(); }
// waiters first: the oldest waiter gets the oldest value
void all__wait1() { V; Q q; auto p = q.pop(); PENDING(p); q.push(a); READY(p); IS(p, a); done(); }
void all__wait2() { V; Q q; auto p = q.pop(); auto r = q.pop(); q.push(a); READY(p); PENDING(r); q.push(b); READY(r); IS(p, a); IS(r, b); done(); }
void all__wait3() { V; Q q; auto p = q.pop(); auto r = q.pop(); auto s = q.pop(); q.push(a); q.push(b); PENDING(s); q.push(c); IS(s, c); IS(r, b); IS(p, a); done(); }
// a cancelled waiter takes nothing and holds nobody up
void all__cancel_first() { V; Q q; auto p = q.pop(); auto r = q.pop(); p = nullptr; q.push(a); q.push(b); IS(r, a); auto s = q.pop(); IS(s, b); done(); }
void all__cancel_mid() { V; Q q; auto p = q.pop(); auto r = q.pop(); auto s = q.pop(); r = nullptr; q.push(a); q.push(b); IS(p, a); IS(s, b); done(); }
void all__cancel_last() { V; Q q; auto p = q.pop(); auto r = q.pop(); r = nullptr; q.push(a); q.push(b); IS(p, a); auto s = q.pop(); IS(s, b); done(); }
void all__cancel_all() { V; Q q; auto p = q.pop(); auto r = q.pop(); p = nullptr; r = nullptr; q.push(a); auto s = q.pop(); IS(s, a); done(); }
void all__cancel_then() { V; Q q; auto p = q.pop(); p = nullptr; auto r = q.pop(); q.push(a); IS(r, a); done(); }
// a waiter that has its value does not disturb the ones still waiting when it goes
void all__served_goes() { V; Q q; auto p = q.pop(); auto r = q.pop(); auto s = q.pop(); q.push(a); p = nullptr; q.push(b); IS(r, b); PENDING(s); q.push(c); IS(s, c); done(); }
void all__mixed() { V; Q q; q.push(a); auto p = q.pop(); auto r = q.pop(); q.push(b); q.push(c); auto s = q.pop(); IS(p, a); IS(r, b); IS(s, c); done(); }
// rejection reaches every waiter and nothing else
void all__reject0() { V; Q q; q.push(a); q.rejectAll(depExc(1)); auto p = q.pop(); IS(p, a); done(); }
void all__reject1() { V; Q q; auto p = q.pop(); q.rejectAll(depExc(1)); READY(p); q.push(a); auto r = q.pop(); IS(r, a); BAD(p); done(); }
void all__reject3() { V; Q q; auto p = q.pop(); auto r = q.pop(); auto s = q.pop(); q.rejectAll(depExc(1)); BAD(p); BAD(r); BAD(s); auto t = q.pop(); q.push(a); IS(t, a); done(); }
void all__reject_some() { V; Q q; auto p = q.pop(); auto r = q.pop(); q.push(a); q.rejectAll(depExc(1)); IS(p, a); BAD(r); q.push(b); auto s = q.pop(); IS(s, b); done(); }
// the waiter queue on its own
typedef WaiterQueue<T> W;
void all__w_empty() { V; W w; MUST(w.empty()); { auto p = w.wait(); MUST(!w.empty()); } MUST(w.empty()); done(); }
void all__w_order() { V; W w; auto p = w.wait(); auto r = w.wait(); w.fulfill(mv(a)); MUST(!w.empty()); w.reject(depExc(1)); MUST(w.empty()); IS(p, a); BAD(r); done(); }
void rejD__w_fulfil() { V; W w; w.fulfill(mv(a)); done(); }
void rejD__w_reject() { W w; w.reject(depExc(1)); done(); }
// any short history: values and waiters pair up first to first
template <int N> inline void history() {
  Q q; T vals[N]; int nv_ = 0, taken = 0; P ps[N] = {nullptr, nullptr, nullptr, nullptr}; T want[N]; int state[N]; int np = 0;   // 0 waiting 1 served 2 gone
  for (int i = 0; i < N; i++) state[i] = 2;
  for (int k = 0; k < N; k++) {
    if (nd(10)) {
      T v = nv(20 + k); q.push(T(v)); bool given = false;
      for (int j = 0; j < np && !given; j++) if (state[j] == 0) { state[j] = 1; want[j] = v; given = true; }
      if (!given) vals[nv_++] = v;
    } else if (nd(11)) {
      ps[np] = q.pop();
      if (taken < nv_) { state[np] = 1; want[np] = vals[taken++]; } else state[np] = 0;
      np++;
    } else if (np > 0) {
      int j = nd(12) ? 0 : np - 1;
      if (state[j] == 0) { ps[j] = nullptr; state[j] = 2; }
    }
  }
  for (int j = 0; j < np; j++) if (state[j] == 1) IS(ps[j], want[j]);
  while (taken < nv_) { auto p = q.pop(); IS(p, vals[taken]); taken++; }
  done();
}
void all__history4() { history<4>(); }
// values are moved, not lost or doubled
static int gone[3]; struct Dsp final: Disposer { int id; Dsp(int i): id(i) {} void disposeImpl(void*) const override { gone[id]++; } };
struct X { int v; }; typedef Own<X> O; typedef ProducerConsumerQueue<O> QO;
#define W0 gone[0] = gone[1] = gone[2] = 0; X x[2]; Dsp d0(0), d1(1)
#define OW(i) O(&x[i], i ? d1 : d0)
static bool holds(Promise<O>&& p, X* x) { OwnPromiseNode n = PromiseNode::from(mv(p)); ExceptionOr<O> r; n->get(r); bool ok = false; KJ_IF_SOME(v, r.value) ok = v.get() == x; return ok && r.exception == kj::none && gone[0] == 0 && gone[1] == 0; }
void all__own_val() { W0; { QO q; q.push(OW(0)); auto p = q.pop(); MUST(gone[0] == 0); MUST(holds(mv(p), &x[0])); MUST(gone[0] == 1); } MUST(gone[0] == 1); done(); }
void all__own_wait() { W0; { QO q; auto p = q.pop(); q.push(OW(0)); MUST(gone[0] == 0); MUST(holds(mv(p), &x[0])); MUST(gone[0] == 1); } MUST(gone[0] == 1); done(); }
void all__own_left() { W0; { QO q; q.push(OW(0)); q.push(OW(1)); MUST(gone[0] == 0 && gone[1] == 0); } MUST(gone[0] == 1 && gone[1] == 1); done(); }
void all__own_drop() { W0; { QO q; auto p = q.pop(); q.push(OW(0)); p = nullptr; MUST(gone[0] == 1); } MUST(gone[0] == 1); done(); }
}

// Mutex guards: which locks are held, in which mode, around every use of the guarded value. kj::_::Mutex is replaced by a ghost that records its state.
#include "obs.h"
#include <kj/mutex.h>
#include <kj/time.h>
using namespace kj;
namespace vp {
struct Ghost { const void* m; int mode; int locks; };     // mode: 0 free, 1 shared, 2 exclusive
static Ghost g0, g1, g2;
static int used;
inline Ghost& gh(const void* m) { if (used > 0 && g0.m == m) return g0; if (used > 1 && g1.m == m) return g1; if (used > 2 && g2.m == m) return g2;
  Ghost& g = used == 0 ? g0 : used == 1 ? g1 : g2; ++used; g.m = m; g.mode = 0; g.locks = 0; return g; }
void assertFailed() __attribute__((noreturn));
static bool wantT, waitT; static int64_t tv;
inline int64_t ns(Duration d) { return d / NANOSECONDS; }
inline void timeoutSeen(const Maybe<Duration>& t) { KJ_IF_SOME(x, t) MUST(wantT && ns(x) == tv /* waits as long as requested */); else MUST(!wantT /* waits as long as requested */); }
inline void reset() { used = 0; wantT = false; waitT = false; g0.mode = 0; g1.mode = 0; g2.mode = 0; g0.locks = 0; g1.locks = 0; g2.locks = 0; }
}
namespace kj { namespace _ {
Mutex::Mutex() {}
Mutex::~Mutex() {}
bool Mutex::lock(Exclusivity e, Maybe<Duration> t, LockSourceLocationArg) { auto& g = vp::gh(this); MUST(g.mode == 0 /* not locked twice by one thread */); vp::timeoutSeen(t); if (t != kj::none) { if (vp::nd(99)) return false; } g.mode = e == EXCLUSIVE ? 2 : 1; ++g.locks; return true; }
void Mutex::unlock(Exclusivity e, Waiter*) { auto& g = vp::gh(this); MUST(g.mode == (e == EXCLUSIVE ? 2 : 1) /* unlocked in the mode it was locked in */); g.mode = 0; }
void Mutex::assertLockedByCaller(Exclusivity e) const { if (vp::gh(this).mode != (e == EXCLUSIVE ? 2 : 1)) vp::assertFailed(); }
void Mutex::wait(Predicate& p, Maybe<Duration> t, LockSourceLocationArg) { auto& g = vp::gh(this); MUST(g.mode == 2 /* waits only while locked */); vp::wantT = vp::waitT; vp::timeoutSeen(t); vp::wantT = false; if (!p.check()) { p.check(); } }
}}
namespace vp {
struct Obj { int v; Obj(int v): v(v) {} Obj(): v(0) {} };
typedef MutexGuarded<Obj> G;
#define START reset(); G g(7); const G& cg = g; const Obj* at = &cg.getWithoutLock()
#define FREE MUST(g0.mode == 0 && g1.mode == 0 && g2.mode == 0 /* every lock is released */)
#define EX(x) MUST(x.mode == 2 /* held exclusively */)
#define SH(x) MUST(x.mode == 1 /* held shared */)
#define OFF(x) MUST(x.mode == 0 /* released */)

void all__construct() { START; MUST(at->v == 7); MUST(&g.getWithoutLock() == at); MUST(used == 0); done(); }
void all__exclusive() { START; { auto l = cg.lockExclusive(); EX(g0); MUST(l.get() == at); MUST(&*l == at); MUST(l.operator->() == at); Obj* p = l; MUST(p == at); const auto& c = l; MUST(c.get() == at && &*c == at && c.operator->() == at); const Obj* q = c; MUST(q == at); } FREE; done(); }
void all__shared() { START; { auto l = cg.lockShared(); SH(g0); MUST(l.get() == at); MUST(&*l == at); MUST(l.operator->() == at); const Obj* p = l; MUST(p == at); } FREE; done(); }
void all__exTimeout(Duration d) { START; { wantT = true; tv = ns(d); auto m = cg.lockExclusiveWithTimeout(d); KJ_IF_SOME(l, m) { EX(g0); MUST(l.get() == at); step(1); } else { OFF(g0); step(2); } } FREE; MUST(g0.locks <= 1); done(); }
void all__shTimeout(Duration d) { START; { wantT = true; tv = ns(d); auto m = cg.lockSharedWithTimeout(d); KJ_IF_SOME(l, m) { SH(g0); MUST(l.get() == at); step(1); } else { OFF(g0); step(2); } } FREE; done(); }
void all__sequence() { START; { auto l = cg.lockShared(); } FREE; { auto l = cg.lockExclusive(); l->v = 9; } FREE; { auto l = cg.lockShared(); MUST(l->v == 9); } MUST(g0.locks == 3); done(); }
void all__move() { START; { auto a = cg.lockExclusive(); { auto b = kj::mv(a); EX(g0); MUST(b.get() == at); MUST(a.get() == nullptr); } OFF(g0); } FREE; MUST(g0.locks == 1); done(); }
void all__moveShared() { START; { auto a = cg.lockShared(); { auto b = kj::mv(a); SH(g0); MUST(b.get() == at); } OFF(g0); } FREE; done(); }
void all__assign() { START; G h(8); { auto a = cg.lockExclusive(); auto b = h.lockExclusive(); EX(g0); EX(g1); a = kj::mv(b); OFF(g0); EX(g1); MUST(a->v == 8); MUST(b.get() == nullptr); } FREE; done(); }
void all__assignShared() { START; G h(8); { auto a = cg.lockShared(); auto b = h.lockShared(); a = kj::mv(b); OFF(g0); SH(g1); MUST(a->v == 8); MUST(b.get() == nullptr); } FREE; done(); }
void all__assignEmpty() { START; { auto a = cg.lockExclusive(); a = Locked<Obj>(); OFF(g0); MUST(a.get() == nullptr); } FREE; done(); }
void all__assignToEmpty() { START; { Locked<Obj> a; MUST(a.get() == nullptr); a = cg.lockExclusive(); EX(g0); MUST(a.get() == at); } FREE; done(); }
void all__release() { START; { auto a = cg.lockExclusive(); a.release(); OFF(g0); MUST(a.get() == nullptr); a.release(); { auto b = cg.lockExclusive(); EX(g0); } } FREE; done(); }
void all__releaseShared() { START; { auto a = cg.lockShared(); a.release(); OFF(g0); MUST(a.get() == nullptr); { auto b = cg.lockExclusive(); EX(g0); } } FREE; done(); }
void all__throwing() { START; try { auto l = cg.lockExclusive(); thrower(1); EX(g0); } catch (...) {} FREE; try { auto l = cg.lockShared(); thrower(1); SH(g0); } catch (...) {} FREE; done(); }
void all__wait() { START; { auto l = cg.lockExclusive(); l.wait([&](const Obj& o) -> bool { EX(g0); MUST(&o == at); step(5); thrower(1); return nd(1); }); EX(g0); MUST(l.get() == at); step(6); } FREE; done(); }
void all__waitTimeout(Duration d) { START; waitT = true; tv = ns(d); { auto l = cg.lockExclusive(); l.wait([&](const Obj& o) -> bool { return nd(1); }, d); } FREE; done(); }
void all__when() { START; int r = cg.when([&](const Obj& o) -> bool { EX(g0); MUST(&o == at); step(5); thrower(1); return nd(1); }, [&](Obj& o) -> int { EX(g0); MUST(&o == at); step(6); thrower(2); return 42; }); MUST(r == 42); FREE; done(); }
void all__whenThrows() { START; try { cg.when([&](const Obj& o) -> bool { thrower(1); return true; }, [&](Obj& o) -> int { thrower(2); return 42; }); } catch (...) {} FREE; done(); }
void all__whenTimeout(Duration d) { START; waitT = true; tv = ns(d); cg.when([&](const Obj& o) -> bool { return nd(1); }, [&](Obj& o) { EX(g0); step(6); }, d); FREE; done(); }
void all__alreadyShared() { START; auto l = cg.lockShared(); MUST(&cg.getAlreadyLockedShared() == at); MUST(&g.getAlreadyLockedShared() == at); done(); }
void all__alreadyExclusive() { START; auto l = cg.lockExclusive(); MUST(&cg.getAlreadyLockedExclusive() == at); done(); }
void rejD__alreadyShared() { START; touch(&cg.getAlreadyLockedShared()); done(); }
void rejD__alreadySharedNc() { START; touch(&g.getAlreadyLockedShared()); done(); }
void rejD__alreadyExclusive() { START; touch(&cg.getAlreadyLockedExclusive()); done(); }
void rejD__alreadyExclusiveWhenShared() { START; auto l = cg.lockShared(); touch(&cg.getAlreadyLockedExclusive()); done(); }
// what a type gives access to
static_assert(SAME(Obj&, decltype(*kj::instance<Locked<Obj>&>())), "exclusive access is mutable");
static_assert(SAME(const Obj&, decltype(*kj::instance<Locked<const Obj>&>())), "shared access is const");

// a value guarded by somebody else's mutex
struct X { int v; X(): v(0) {} X(int v): v(v) {} X(X&& o): v(o.v) { o.v = 0; } X& operator=(X&& o) { drop(); v = o.v; o.v = 0; return *this; } ~X() { drop(); }
  void drop() { if (v) { step(7); EX(g0); v = 0; } } };
typedef ExternalMutexGuarded<X> E;
void all__extUnused() { START; { E e; } MUST(used == 0); done(); }
void all__extSet() { START; { E e; { auto l = cg.lockExclusive(); e.set(l, X(5)); MUST(e.get(l).v == 5); } FREE; } FREE; MUST(g0.locks == 2); done(); }
void all__extConstruct() { START; { E e(cg.lockExclusive()); FREE; { auto l = cg.lockExclusive(); e.get(l).v = 6; } auto l = cg.lockShared(); const E& c = e; MUST(c.get(l).v == 6); l.release(); } FREE; done(); }
void all__extRelease() { START; { E e; { auto l = cg.lockExclusive(); e.set(l, X(5)); X x = e.release(l); MUST(x.v == 5); EX(g0); } FREE; } FREE; MUST(g0.locks == 1); done(); }
void all__extMove() { START; { E e; { auto l = cg.lockExclusive(); e.set(l, X(5)); } { E f(kj::mv(e)); { auto l = cg.lockExclusive(); MUST(f.get(l).v == 5); } } FREE; } FREE; MUST(g0.locks == 3); done(); }
void all__extAssign() { START; { E e; { auto l = cg.lockExclusive(); e.set(l, X(5)); } { E f; f = kj::mv(e); { auto l = cg.lockExclusive(); MUST(f.get(l).v == 5); } } FREE; } FREE; MUST(g0.locks == 3); done(); }
struct TX { int v; TX(): v(0) {} TX(int v): v(v) {} TX(TX&& o): v(o.v) { o.v = 0; } TX& operator=(TX&& o) { drop(); v = o.v; o.v = 0; return *this; } ~TX() noexcept(false) { drop(); } void drop() { if (v) { EX(g0); v = 0; thrower(3); } } };
void all__extThrows() { START; try { ExternalMutexGuarded<TX> e; { auto l = cg.lockExclusive(); e.set(l, TX(5)); } } catch (...) {} FREE; done(); }
void rejD__extWrong() { START; G h(8); auto k = h.lockExclusive(); auto l = cg.lockExclusive(); E& e = *new E; e.set(l, X(5)); touch(&e.get(k)); done(); }
void rejD__extWrongConst() { START; G h(8); auto l = cg.lockExclusive(); E& e = *new E; e.set(l, X(5)); l.release(); auto k = h.lockShared(); const E& c = e; touch(&c.get(k)); done(); }
void rejD__extWrongRelease() { START; G h(8); auto k = h.lockExclusive(); auto l = cg.lockExclusive(); E& e = *new E; e.set(l, X(5)); auto& x = *new X(e.release(k)); touch(&x); done(); }
void rejD__extSetTwice() { START; auto l = cg.lockExclusive(); E& e = *new E; e.set(l, X(5)); e.set(l, X(6)); done(); }
}

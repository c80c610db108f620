// Scope guards run exactly when they say, exactly once; exception-capturing helpers report exactly what happened.
#include "obs.h"
#include <kj/common.h>
#include <kj/exception.h>
namespace vp {
using namespace kj;
struct Ex { int x; };
// KJ_DEFER: once, at scope exit, normal or not, not before, in reverse order
void all__defer() { int n = 0; { KJ_DEFER(n++); MUST(n == 0); } MUST(n == 1); done(); }
void all__deferThrow() { int n = 0; bool through = false; try { KJ_DEFER(n++); MUST(n == 0); thrower(1); through = true; MUST(n == 0); } catch (...) { MUST(n == 1); MUST(!through); } MUST(n == 1); done(); }
int deferReturnH(int& n) { KJ_DEFER(n++); if (nd(0)) return n; n += 10; return n; }
void all__deferReturn() { int n = 0; int r = deferReturnH(n); MUST(r + 1 == n); MUST(n == 1 || n == 11); done(); }
void all__deferLoop() { int n = 0; for (int i = 0; i < 4; i++) { MUST(n == i);
  KJ_DEFER(n++); MUST(n == i); if (nd(0)) continue; if (nd(1)) { MUST(n == i); break; } } MUST(n >= 1); done(); }
void all__deferOrder() { int n = 0; { KJ_DEFER(MUST(n == 1); n = 2);
  KJ_DEFER(MUST(n == 0); n = 1); } MUST(n == 2); done(); }
void all__deferInnerThrow() { int n = 0, m = 0; try { KJ_DEFER(m++);
  KJ_DEFER(n++; thrower(1)); } catch (...) { } MUST(n == 1); MUST(m == 1); done(); }
void all__deferCond() { int n = 0; if (nd(0)) { KJ_DEFER(n++); } else { n = 5;
  KJ_DEFER(n++; MUST(n == 6)); } MUST(n == 1 || n == 6); done(); }
// kj::defer objects
void all__obj() { int n = 0; { auto d = kj::defer([&]() { n++; }); MUST(n == 0); } MUST(n == 1); done(); }
void all__objCancel() { int n = 0; { auto d = kj::defer([&]() { n++; }); d.cancel(); MUST(n == 0); } MUST(n == 0); done(); }
void all__objRun() { int n = 0; { auto d = kj::defer([&]() { n++; }); d.run(); MUST(n == 1); d.run(); MUST(n == 1); } MUST(n == 1); done(); }
void all__objRunCancel() { int n = 0; { auto d = kj::defer([&]() { n++; }); d.run(); d.cancel(); d.run(); } MUST(n == 1); done(); }
void all__objCancelRun() { int n = 0; { auto d = kj::defer([&]() { n++; }); d.cancel(); d.run(); } MUST(n == 0); done(); }
void all__objMove() { int n = 0; { auto d = kj::defer([&]() { n++; }); { auto e = kj::mv(d); MUST(n == 0); } MUST(n == 1); } MUST(n == 1); done(); }
void all__objMove2() { int n = 0; { auto d = kj::defer([&]() { n++; }); auto e = kj::mv(d); d.run(); MUST(n == 0); d.cancel(); MUST(n == 0); } MUST(n == 1); done(); }
void all__objMoveCancel() { int n = 0; { auto d = kj::defer([&]() { n++; }); auto e = kj::mv(d); e.cancel(); } MUST(n == 0); done(); }
template <typename F> auto wrapH(F& f) { return kj::defer(f); }
void all__objLvalue() { int n = 0; auto f = [&]() { n++; }; { auto d = kj::defer(f); MUST(n == 0); } MUST(n == 1); { auto d = wrapH(f); auto e = kj::mv(d); d.run(); MUST(n == 1); } MUST(n == 2); { auto d = kj::defer(f); d.cancel(); d.run(); } MUST(n == 2); f(); MUST(n == 3); done(); }
struct Fn { int* n; int* dead; Fn(int* n, int* dead): n(n), dead(dead) {} Fn(Fn&& o): n(o.n), dead(o.dead) { o.dead = nullptr; } ~Fn() { if (dead) ++*dead; } void operator()() { MUST(dead != nullptr); MUST(*dead == 0); ++*n; thrower(3); } };
void all__objOwns() { int n = 0, dead = 0; try { { auto d = kj::defer(Fn(&n, &dead)); MUST(dead == 0); try { d.run(); } catch (...) { } MUST(n == 1); MUST(dead == 1); } } catch (...) { NEVER; } MUST(n == 1); MUST(dead == 1); done(); }
void all__objOwnsDtor() { int n = 0, dead = 0; try { auto d = kj::defer(Fn(&n, &dead)); auto e = kj::mv(d); MUST(dead == 0); } catch (...) { MUST(dead == 1); } MUST(n == 1); MUST(dead == 1); done(); }
void all__objOwnsCancel() { int n = 0, dead = 0; { auto d = kj::defer(Fn(&n, &dead)); d.cancel(); MUST(dead == 1); } MUST(n == 0); MUST(dead == 1); done(); }
// KJ_ON_SCOPE_SUCCESS / FAILURE
void all__success() { int n = 0; { KJ_ON_SCOPE_SUCCESS(n++); MUST(n == 0); } MUST(n == 1); done(); }
void all__failure() { int n = 0; { KJ_ON_SCOPE_FAILURE(n++); MUST(n == 0); } MUST(n == 0); done(); }
void all__both() { int s = 0, f = 0; bool through = false; try { KJ_ON_SCOPE_SUCCESS(s++);
  KJ_ON_SCOPE_FAILURE(f++); thrower(1); through = true; } catch (...) { MUST(!through); } MUST(s == (through ? 1 : 0)); MUST(f == (through ? 0 : 1)); done(); }
int bothReturnH(int& s, int& f) { KJ_ON_SCOPE_SUCCESS(s++);
  KJ_ON_SCOPE_FAILURE(f++); if (nd(0)) return 1; thrower(2); return 2; }
void all__bothReturn() { int s = 0, f = 0; int r = 0; try { r = bothReturnH(s, f); } catch (...) { } MUST(s == (r ? 1 : 0)); MUST(f == (r ? 0 : 1)); done(); }
void all__successThrows() { int s = 0, f = 0; try { KJ_ON_SCOPE_FAILURE(f++);
  KJ_ON_SCOPE_SUCCESS(s++; thrower(1)); } catch (...) { MUST(f == 1); } MUST(s == 1); done(); }
// runCatchingExceptions and KJ_TRY
void all__rce() { int n = 0; bool through = false; auto e = runCatchingExceptions([&]() { n++; thrower(1); through = true; }); MUST(n == 1); MUST((e == kj::none) == through); done(); }
void all__rceOk() { int n = 0; auto e = runCatchingExceptions([&]() { n++; }); MUST(n == 1); MUST(e == kj::none); done(); }
void all__try() { int n = 0, c = 0; bool through = false;
  KJ_TRY { n++; thrower(1); through = true; }
  KJ_CATCH(ex) { c++; touch(&ex); } MUST(n == 1); MUST(through == (c == 0)); MUST(c <= 1); done(); }
void all__tryOk() { int n = 0;
  KJ_TRY { n++; }
  KJ_CATCH(ex) { (void)ex; NEVER; } MUST(n == 1); done(); }
void all__tryCatchThrows() { int n = 0, c = 0; try {
  KJ_TRY { n++; thrower(1); }
  KJ_CATCH(ex) { (void)ex; c++; thrower(2); n += 10; } } catch (...) { MUST(n == 1); MUST(c == 1); } MUST(n == 1 + 10 * 0 || c == 1); done(); }
int tryRetH(int& c) {
  KJ_TRY { thrower(1); return 1; }
  KJ_CATCH(ex) { (void)ex; c++; return 2; } return 3; }
void all__tryReturn() { int c = 0; int r = tryRetH(c); MUST(r == 1 || r == 2); MUST(c == r - 1); done(); }
void all__tryNested() { int a = 0, b = 0;
  KJ_TRY {
  KJ_TRY { thrower(1); }
  KJ_CATCH(ex) { (void)ex; a++; thrower(2); MUST(b == 0); } }
  KJ_CATCH(ex2) { (void)ex2; b++; MUST(a == 1); } MUST(b <= a); done(); }
// UnwindDetector::catchExceptionsIfUnwinding
struct Sec { UnwindDetector u; int* n; Sec(int* n): n(n) {} ~Sec() noexcept(false) { u.catchExceptionsIfUnwinding([&]() { ++*n; thrower(7); ++*n; }); } };
void all__secNormal() { int n = 0; bool thrown = false; try { Sec s(&n); } catch (...) { thrown = true; MUST(n == 1); } MUST(thrown == (n == 1)); MUST(n == 1 || n == 2); done(); }
void all__secUnwind() { int n = 0; bool through = false, caught = false; try { Sec s(&n); thrower(1); through = true; } catch (...) { caught = true; MUST(n == 1 || n == 2); } MUST(through || caught); MUST(n == 1 || n == 2); done(); }
}

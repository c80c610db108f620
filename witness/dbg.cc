// Checks: a failed one always raises, a passed one does nothing, the condition is evaluated exactly once, for every operand.
#include "obs.h"
#include <errno.h>
#include <kj/debug.h>
#include <kj/exception.h>
#include <kj/source-location.h>
namespace vp { int sys(int) noexcept; int oserr() noexcept; void skip() noexcept; static int lastErr; static bool lastNb; static int errs; }
// the error number of the last system call: -1 for an interrupted one, 0 for "would block" in non-blocking mode, else an error
int kj::_::Debug::getOsErrorNumber(bool nonblocking) { int r = vp::oserr(); if (!nonblocking) { if (r == 0) { vp::skip(); __builtin_trap(); } } vp::lastErr = r; vp::lastNb = nonblocking; vp::errs++; return r; }
namespace vp {
using namespace kj;
// the plain condition
void all__require() { bool ok = nd(0), after = false; try { KJ_REQUIRE(ok); after = true; } catch (...) { MUST(!ok); } MUST(after == ok); done(); }
void all__assert() { bool ok = nd(0), after = false; try { KJ_ASSERT(ok, "message"); after = true; } catch (...) { MUST(!ok); } MUST(after == ok); done(); }
void all__requireOnce() { int n = 0; bool ok = nd(0); try { KJ_REQUIRE((n++, ok)); } catch (...) { MUST(!ok); } MUST(n == 1); done(); }
void all__requireArgs(uint64_t x) { bool ok = nd(0); int n = 0; try { KJ_REQUIRE(ok, "text", n++); MUST(n == 0); MUST(ok); } catch (...) { MUST(!ok); MUST(n == 1); } done(); }
void all__requireAt() { bool ok = nd(0), after = false; kj::SourceLocation loc; try { KJ_REQUIRE_AT(ok, loc); after = true; } catch (...) { MUST(!ok); } MUST(after == ok); done(); }
void all__and() { bool a = nd(0), b = nd(1), after = false; int n = 0; try { KJ_REQUIRE(a && (n++, b)); after = true; } catch (...) { } MUST(after == (a && b)); MUST(n == (a ? 1 : 0)); done(); }
void all__or() { bool a = nd(0), b = nd(1), after = false; int n = 0; try { KJ_REQUIRE(a || (n++, b)); after = true; } catch (...) { } MUST(after == (a || b)); MUST(n == (a ? 0 : 1)); done(); }
void all__not() { bool a = nd(0), after = false; try { KJ_REQUIRE(!a); after = true; } catch (...) { } MUST(after == !a); done(); }
// comparisons, for all operands
#define CMP(name, OP) \
  void all__##name(uint64_t a, uint64_t b) { bool after = false; try { KJ_REQUIRE(a OP b); after = true; } catch (...) { MUST(!(a OP b)); } if (after) MUST(a OP b); done(); } \
  void all__##name##s(int64_t a, int64_t b) { bool after = false; try { KJ_ASSERT(a OP b, "x"); after = true; } catch (...) { MUST(!(a OP b)); } if (after) MUST(a OP b); done(); } \
  void all__##name##c(uint64_t a) { bool after = false; try { KJ_REQUIRE(a OP 17u); after = true; } catch (...) { MUST(!(a OP 17)); } if (after) MUST(a OP 17); done(); } \
  void all__##name##e() { int n = 0, m = 0; uint64_t a = nv(0), b = nv(1); try { KJ_REQUIRE((n++, a) OP (m++, b)); } catch (...) { } MUST(n == 1); MUST(m == 1); done(); }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)
struct Obj { uint64_t v; Obj(uint64_t v): v(v) {} Obj(const Obj& o): v(o.v) { NEVER; } bool operator==(const Obj& o) const { if (v == o.v) return true; return false; } bool operator<(const Obj& o) const { if (v < o.v) return true; return false; } explicit operator bool() const { if (v != 0) return true; return false; } };
void all__objEq(uint64_t x, uint64_t y) { Obj a(x), b(y); bool after = false; try { KJ_REQUIRE(a == b); after = true; } catch (...) { MUST(!(x == y)); } if (after) MUST(x == y); done(); }
void all__objLt(uint64_t x, uint64_t y) { Obj a(x), b(y); bool after = false; try { KJ_REQUIRE(a < b); after = true; } catch (...) { MUST(!(x < y)); } if (after) MUST(x < y); done(); }
void all__null() { int x = 0; int* p = nd(0) ? &x : nullptr; bool after = false; try { KJ_REQUIRE(p != nullptr); after = true; } catch (...) { MUST(p == nullptr); } if (after) MUST(p != nullptr); done(); }
// bit operators bind as in C++
void all__band(uint64_t a) { bool after = false; try { KJ_REQUIRE((a & 4) == 0); after = true; } catch (...) { MUST((a & 4) != 0); } if (after) MUST((a & 4) == 0); done(); }
void all__arith(uint64_t a, uint64_t b) { bool after = false; try { KJ_REQUIRE(a + 1 == b); after = true; } catch (...) { MUST(a + 1 != b); } if (after) MUST(a + 1 == b); done(); }
#define BIT(name, OP) void all__##name(uint64_t a) { bool after = false; try { KJ_REQUIRE(a OP 4u); after = true; } catch (...) { MUST(!(a OP 4)); } if (after) MUST((a OP 4) != 0); done(); }
BIT(bitAnd, &) BIT(bitOr, |) BIT(bitXor, ^) BIT(shl, <<) BIT(shr, >>)
// recovery block
void all__recover() { bool ok = nd(0); int r = 0; KJ_REQUIRE(ok, "x") { r++; break; } MUST(r == (ok ? 0 : 1)); done(); }
void all__noBreak() { bool ok = nd(0); int r = 0; bool after = false; try { KJ_REQUIRE(ok, "x") { r++; } after = true; } catch (...) { MUST(!ok); MUST(r == 1); } MUST(after == ok); done(); }
int recoverReturnH(bool ok) { KJ_REQUIRE(ok) { return 1; } return 2; }
void all__recoverReturn() { bool ok = nd(0); int r = recoverReturnH(ok); MUST(r == (ok ? 2 : 1)); done(); }
// unconditional
void rej__fail() { KJ_FAIL_REQUIRE("x"); done(); }
void rej__failAssert() { KJ_FAIL_ASSERT("x", 3); done(); }
void rej__failAt() { kj::SourceLocation loc; KJ_FAIL_REQUIRE_AT(loc, "x"); done(); }
void rej__unimpl() { KJ_UNIMPLEMENTED("x"); done(); }
void rej__failSys() { KJ_FAIL_SYSCALL("x", 5); done(); }
void rej__failCatch() { try { KJ_FAIL_REQUIRE("x"); done(); } catch (...) { } }
// debug-only checks
void rejD__dassert() { KJ_DASSERT(false, "x"); done(); }
void rejD__dreq(uint64_t a) { KJ_DREQUIRE(a != a); done(); }
void rejD__assume(uint64_t a) { KJ_ASSUME(a < a); done(); }
void all__dok(uint64_t a) { KJ_DASSERT(a == a); KJ_DREQUIRE(a == a, "x"); KJ_ASSUME(a == a); done(); }
// KJ_REQUIRE_NONNULL
void all__nn(uint64_t x) { Maybe<uint64_t> m; bool some = nd(0); if (some) m = x; bool after = false; try { uint64_t v = KJ_REQUIRE_NONNULL(m, "x"); after = true; MUST(v == x); } catch (...) { } MUST(after == some); done(); }
void all__nnRef(uint64_t x) { Maybe<uint64_t> m; bool some = nd(0); if (some) m = x; bool after = false; try { KJ_ASSERT_NONNULL(m) = 7; after = true; } catch (...) { } MUST(after == some); KJ_IF_SOME(v, m) { MUST(some); MUST(v == 7); } else MUST(!some); done(); }
void all__nnOnce() { int n = 0; bool some = nd(0); auto f = [&]() -> Maybe<uint64_t> { n++; if (some) return uint64_t(3); return kj::none; }; try { uint64_t v = KJ_REQUIRE_NONNULL(f(), "x"); MUST(v == 3); MUST(some); } catch (...) { MUST(!some); } MUST(n == 1); done(); }
void all__nnRefPtr() { int x; bool some = nd(0); Maybe<int&> m; if (some) m = x; bool after = false; try { int& r = KJ_REQUIRE_NONNULL(m); after = true; MUST(&r == &x); } catch (...) { } MUST(after == some); done(); }
void all__nnAt(uint64_t x) { kj::SourceLocation loc; Maybe<uint64_t> m; bool some = nd(0); if (some) m = x; bool after = false; try { uint64_t v = KJ_REQUIRE_NONNULL_AT(m, loc, "x"); after = true; MUST(v == x); } catch (...) { } MUST(after == some); done(); }
// system calls: success goes on, failure raises, an interrupted call is made again
void all__sys() { int r = 0, n = 0; lastErr = 5; errs = 0; bool after = false; try { KJ_SYSCALL((n++, r = sys(0))); after = true; } catch (...) { MUST(r < 0); MUST(lastErr != -1); MUST(n == errs); MUST(!lastNb); } if (after) { MUST(r >= 0); MUST(n == errs + 1); } done(); }
void all__sysArgs() { int r = 0; lastErr = 5; bool after = false; try { KJ_SYSCALL(r = sys(0), "doing", r); after = true; } catch (...) { MUST(r < 0); MUST(lastErr != -1); } if (after) MUST(r >= 0); done(); }
void all__sysNb() { int r = 0; lastErr = 5; bool after = false; try { KJ_NONBLOCKING_SYSCALL(r = sys(0)); after = true; } catch (...) { MUST(r < 0); MUST(lastErr != 0); MUST(lastErr != -1); MUST(lastNb); } if (after) { MUST(r >= 0 || lastErr == 0); } done(); }
void all__sysHandle() { int r = 0, e = 0; lastErr = 5; bool ok = false; KJ_SYSCALL_HANDLE_ERRORS(r = sys(0)) { case 2: e = 2; break; default: e = error; break; } else { ok = true; } if (ok) { MUST(r >= 0); MUST(e == 0); } else { MUST(r < 0); MUST(e == lastErr); MUST(e != 0); MUST(e != -1); } done(); }
void all__sysRecover() { int r = 0; lastErr = 5; bool rec = false; KJ_SYSCALL(r = sys(0)) { rec = true; break; } MUST(rec == (r < 0)); done(); }
}

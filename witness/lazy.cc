// Lazy: the initializer runs until it succeeds once; everybody gets the same value.
#include "obs.h"
#include <kj/mutex.h>
namespace vp {
using namespace kj;
struct Obj { uint64_t v; Obj(uint64_t v): v(v) {} ~Obj() { touch(this); } };
#define INIT(k, n) [&](SpaceFor<Obj>& s) { ++n; thrower(k); return s.construct(nv(k)); }
void all__once() { int n = 0, m = 0; { Lazy<Obj> z; Obj& a = z.get(INIT(1, n)); MUST(n == 1); uint64_t v = a.v; Obj& b = z.get(INIT(2, m)); MUST(m == 0); MUST(&a == &b); MUST(b.v == v); const Lazy<Obj>& c = z; const Obj& d = c.get(INIT(3, m)); MUST(m == 0 && &d == &a); } done(); }
void all__constFirst() { int n = 0, m = 0; { Lazy<Obj> z; const Lazy<Obj>& c = z; const Obj& a = c.get(INIT(1, n)); MUST(n == 1); Obj& b = z.get(INIT(2, m)); MUST(m == 0); MUST(&a == &b); } done(); }
void all__retry() { int n = 0, m = 0, r = 0; { Lazy<Obj> z; bool ok = false; try { z.get(INIT(1, n)); ok = true; } catch (...) {} MUST(n == 1); if (!ok) { bool ok2 = false; try { Obj& b = z.get(INIT(2, m)); MUST(m == 1); ok2 = true; Obj& c = z.get(INIT(3, r)); MUST(r == 0); MUST(&b == &c); } catch (...) {} MUST(m == 1); } else { z.get(INIT(2, m)); MUST(m == 0); } } done(); }
struct It: _::Once::Initializer { _::Once& o; int n = 0; It(_::Once& o): o(o) {} void run() override { ++n; MUST(!o.isInitialized()); thrower(1); } };
void all__onceFlag() { _::Once o; It i(o); MUST(!o.isInitialized()); bool ok = false; try { o.runOnce(i, {}); ok = true; } catch (...) {} MUST(i.n == 1); MUST(o.isInitialized() == ok); if (ok) { o.runOnce(i, {}); MUST(i.n == 1); MUST(o.isInitialized()); } done(); }
void all__onceStarted() { _::Once o(true); It i(o); MUST(o.isInitialized()); o.runOnce(i, {}); MUST(i.n == 0); done(); }
void all__neverUsed() { { Lazy<Obj> z; } done(); }
}

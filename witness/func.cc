// kj::Function, ConstFunction, FunctionParam, KJ_BIND_METHOD and tuples: calls and elements arrive exactly, callables live exactly as long as their owner.
#include "obs.h"
#include <kj/function.h>
#include <kj/tuple.h>
#include <kj/memory.h>
namespace vp {
using namespace kj;
// a counted callable / value
struct C { uint64_t v; int* live; C(uint64_t v, int* l): v(v), live(l) { ++*live; } C(C&& o): v(o.v), live(o.live) { ++*live; } C(const C& o): v(o.v), live(o.live) { ++*live; } C& operator=(const C& o) { v = o.v; return *this; } ~C() { --*live; v = 0; } uint64_t operator()(uint64_t a, uint64_t b) const { MUST(*live > 0); return v + a + 2 * b; } };
struct MoveOnly { uint64_t v; MoveOnly(uint64_t v): v(v) {} MoveOnly(MoveOnly&& o): v(o.v) { o.v = 0; } MoveOnly& operator=(MoveOnly&& o) { v = o.v; o.v = 0; return *this; } KJ_DISALLOW_COPY(MoveOnly); ~MoveOnly() {} };
typedef uint64_t U;
void skip() noexcept;
#define SMALL if (x >= 1000000 || a >= 1000000 || b >= 1000000) { skip(); return; }
// Function
void all__call(U x, U a, U b) { int live = 0; { Function<U(U, U)> f = C(x, &live); MUST(live == 1); MUST(f(a, b) == x + a + 2 * b); MUST(f(b, a) == x + b + 2 * a); MUST(live == 1); } MUST(live == 0); done(); }
void all__state(U a) { Function<U(U)> f = [n = U(0)](U d) mutable { n += d; return n; }; MUST(f(a) == a); MUST(f(1) == a + 1); auto g = kj::mv(f); MUST(g(1) == a + 2); done(); }
void all__move(U x) { int live = 0; { Function<U(U, U)> f = C(x, &live); { Function<U(U, U)> g = kj::mv(f); MUST(live == 1); MUST(g(0, 0) == x); } MUST(live == 0); } MUST(live == 0); done(); }
void all__assign(U x, U y) { int l1 = 0, l2 = 0; { Function<U(U, U)> f = C(x, &l1); Function<U(U, U)> g = C(y, &l2); f = kj::mv(g); MUST(l1 == 0); MUST(l2 == 1); MUST(f(0, 0) == y); } MUST(l1 == 0); MUST(l2 == 0); done(); }
void all__reference(U a) { U n = 0; Function<U(U)> f = [k = U(0), &n](U d) mutable { k += d; n = k; return k; }; { auto g = f.reference(); MUST(g(a) == a); MUST(n == a); MUST(f(1) == a + 1); MUST(g(1) == a + 2); } MUST(f(1) == a + 3); done(); }
void all__refKeeps(U x) { int live = 0; { Function<U(U, U)> f = C(x, &live); { auto g = f.reference(); MUST(live == 1); MUST(g(1, 0) == x + 1); auto h = g.reference(); MUST(h(2, 0) == x + 2); } MUST(live == 1); MUST(f(0, 0) == x); } MUST(live == 0); done(); }
void all__lvalue(U a) { U n = 0; auto l = [&n](U d) { n += d; return n; }; Function<U(U)> f = l; MUST(f(a) == a); MUST(l(1) == a + 1); MUST(f(1) == a + 2); done(); }
struct Cell { U v; U add(U d) { v += d; return v; } U get(U d) const { return v + d; } Cell(U v): v(v) {} Cell(Cell&& o): v(o.v) { o.v = 0; } Cell(const Cell& o): v(o.v) {} ~Cell() {} };
struct Acc { U v; Acc(U v): v(v) {} Acc(const Acc& o): v(o.v) { NEVER; } ~Acc() {} U operator()(U d) { v += d; return v; } };
void all__lvalueFn(U x) { Acc a(x); { Function<U(U)> f = a; MUST(f(1) == x + 1); MUST(a.v == x + 1); } MUST(a.v == x + 1); done(); }
void all__moveArg(U x) { Function<MoveOnly(MoveOnly, MoveOnly&)> f = [](MoveOnly m, MoveOnly& r) { r.v = m.v + 1; return kj::mv(m); }; MoveOnly r(0); auto m = f(MoveOnly(x), r); MUST(m.v == x); MUST(r.v == x + 1); done(); }
void all__refArg(U x) { U n = x; Function<U&(U&, const U&)> f = [](U& a, const U& b) -> U& { MUST(&a == &b); a++; return a; }; U& r = f(n, n); MUST(&r == &n); MUST(n == x + 1); done(); }
void all__throws(U x) { int live = 0; bool through = false; try { Function<U(U)> f = [c = C(x, &live)](U d) { thrower(1); return d + c.v; }; U r = f(1); through = true; MUST(r == x + 1); } catch (...) { MUST(!through); } MUST(live == 0); done(); }
void all__voidFn() { int n = 0; Function<void()> f = [&]() { n++; }; f(); f(); MUST(n == 2); done(); }
// ConstFunction
void all__const(U x, U a, U b) { SMALL; int live = 0; { const ConstFunction<U(U, U)> f = C(x, &live); MUST(f(a, b) == x + a + 2 * b); auto g = f.reference(); MUST(g(a, b) == x + a + 2 * b); MUST(live == 1); ConstFunction<U(U, U)> h = kj::mv(g); MUST(h(a, a) == x + 3 * a); } MUST(live == 0); done(); }
// FunctionParam
inline U useParam(FunctionParam<U(U, U)> f, U a, U b) { FunctionParam<U(U, U)> g = f; return f(a, b) + g(b, a); }
void all__param(U x, U a, U b) { SMALL; int live = 0; { C c(x, &live); U r = useParam(c, a, b); MUST(r == 2 * x + 3 * a + 3 * b); MUST(live == 1); r = useParam(C(x, &live), a, b); MUST(r == 2 * x + 3 * a + 3 * b); MUST(live == 1); } MUST(live == 0); done(); }
inline U useParam2(FunctionParam<U(MoveOnly, U&)> f, U a) { U n = 0; U r = f(MoveOnly(a), n); MUST(n == a); return r; }
void all__param2(U a, U s) { U total = s; U r = useParam2([&](MoveOnly m, U& o) { o = m.v; total += m.v; return total; }, a); MUST(r == s + a); MUST(total == s + a); done(); }
// KJ_BIND_METHOD
void all__bind(U x, U a) { Cell c(x); { auto b = KJ_BIND_METHOD(c, add); MUST(b(a) == x + a); MUST(c.v == x + a); Function<U(U)> f = KJ_BIND_METHOD(c, add); MUST(f(1) == x + a + 1); MUST(c.v == x + a + 1); ConstFunction<U(U)> g = KJ_BIND_METHOD(c, get); MUST(g(2) == x + a + 3); } done(); }
void all__bindOwned(U x, U a) { Function<U(U)> f = KJ_BIND_METHOD(Cell(x), add); MUST(f(a) == x + a); MUST(f(1) == x + a + 1); Cell c(x); Function<U(U)> g = KJ_BIND_METHOD(kj::mv(c), add); MUST(g(1) == x + 1); MUST(c.v == 0); ConstFunction<U(U)> h = KJ_BIND_METHOD(Cell(x), get); MUST(h(a) == x + a); done(); }
// tuples
void all__tuple(U a, U b, U c) { auto t = kj::tuple(a, b, c); MUST(kj::get<0>(t) == a); MUST(kj::get<1>(t) == b); MUST(kj::get<2>(t) == c); kj::get<1>(t) = 9; MUST(kj::get<1>(t) == 9); MUST(kj::get<0>(t) == a); MUST(kj::get<2>(t) == c); const auto& ct = t; MUST(kj::get<2>(ct) == c); MUST(&kj::get<2>(ct) == &kj::get<2>(t)); done(); }
void all__flatten(U a, U b, U c, U d) { auto t = kj::tuple(a, kj::tuple(b, kj::tuple(), c), d); MUST(SAME(decltype(t), kj::Tuple<U, U, U, U>)); MUST(kj::get<0>(t) == a); MUST(kj::get<1>(t) == b); MUST(kj::get<2>(t) == c); MUST(kj::get<3>(t) == d); auto in = kj::tuple(a, b); auto u = kj::tuple(in, c, in); MUST(kj::get<0>(u) == a); MUST(kj::get<1>(u) == b); MUST(kj::get<2>(u) == c); MUST(kj::get<3>(u) == a); MUST(kj::get<4>(u) == b); MUST(kj::get<0>(in) == a); const auto cin = kj::tuple(c, d); auto w = kj::tuple(cin, a); MUST(kj::get<0>(w) == c); MUST(kj::get<1>(w) == d); MUST(kj::get<2>(w) == a); done(); }
void all__single(U a) { auto t = kj::tuple(a); MUST(SAME(decltype(t), U)); MUST(kj::get<0>(t) == a); done(); }
void all__tupleMove(U a, U b) { auto t = kj::tuple(MoveOnly(a), b, MoveOnly(b)); MUST(kj::get<0>(t).v == a); MUST(kj::get<2>(t).v == b); auto u = kj::mv(t); MUST(kj::get<0>(u).v == a); MUST(kj::get<1>(u) == b); MUST(kj::get<2>(u).v == b); MUST(kj::get<0>(t).v == 0); MoveOnly m = kj::get<0>(kj::mv(u)); MUST(m.v == a); MUST(kj::get<0>(u).v == 0); MUST(kj::get<2>(u).v == b); auto w = kj::tuple(kj::mv(u), 5u); MUST(kj::get<2>(w).v == b); MUST(kj::get<3>(w) == 5); MUST(kj::get<2>(u).v == 0); done(); }
void all__tupleLive(U a, U b) { int l = 0; { auto t = kj::tuple(C(a, &l), C(b, &l)); MUST(l == 2); MUST(kj::get<0>(t).v == a); MUST(kj::get<1>(t).v == b); { auto u = t; MUST(l == 4); MUST(kj::get<0>(u).v == a); MUST(kj::get<1>(u).v == b); } MUST(l == 2); } MUST(l == 0); done(); }
void all__refTuple(U a, U b) { U x = a, y = b; auto t = kj::refTuple(x, y, U(7)); kj::get<0>(t) = 3; MUST(x == 3); MUST(&kj::get<1>(t) == &y); MUST(kj::get<2>(t) == 7); auto u = kj::mv(t); MUST(&kj::get<0>(u) == &x); MUST(&kj::get<1>(u) == &y); done(); }
void all__apply(U a, U b, U c) { U r = kj::apply([&](U x, U y, U z) { MUST(x == a); MUST(y == b); MUST(z == c); return x + 2 * y + 4 * z; }, a, kj::tuple(b, c)); MUST(r == a + 2 * b + 4 * c); auto t = kj::tuple(a, b); r = kj::apply([&](const U& x, const U& y, U z) { MUST(x == a); MUST(y == b); MUST(&x == &kj::get<0>(t)); return z; }, t, c); MUST(r == c); MUST(kj::apply([]() { return U(4); }) == 4); MUST(kj::apply([](U x) { return x; }, kj::tuple(), a, kj::tuple()) == a); done(); }
void all__applyMove(U a, U b) { U r = kj::apply([&](MoveOnly x, U y, MoveOnly z) { MUST(x.v == a); MUST(z.v == b); return y; }, kj::tuple(MoveOnly(a), U(8)), MoveOnly(b)); MUST(r == 8); done(); }
void all__applyConst(U a, U b) { const auto t = kj::tuple(a, b); U r = kj::apply([&](U x, U y) { return x + 3 * y; }, t); MUST(r == a + 3 * b); done(); }
void all__sizes() { MUST(kj::tupleSize<kj::Tuple<U, int, char>>() == 3); MUST(kj::tupleSize<U>() == 1); MUST(kj::tupleSize<kj::Tuple<>>() == 0); MUST(kj::indexOfType<int, kj::Tuple<U, int, char>>() == 1); MUST(kj::indexOfType<char, kj::Tuple<U, int, char>>() == 2); MUST(SAME(kj::TypeOfIndex<1, kj::Tuple<U, int, char>>, int)); MUST(SAME(kj::TypeOfIndex<0, kj::Tuple<U, int>>, U)); MUST(SAME(kj::TypeOfIndex<2, kj::Tuple<U, int, char>>, char)); done(); }
void all__convert(uint32_t a, uint32_t b) { kj::Tuple<U, U> t = kj::tuple(a, b); MUST(kj::get<0>(t) == a); MUST(kj::get<1>(t) == b); const auto s = kj::tuple(b, a); kj::Tuple<U, U> u = s; MUST(kj::get<0>(u) == b); MUST(kj::get<1>(u) == a); auto v = kj::tuple(a, a); kj::Tuple<U, U> w = v; MUST(kj::get<1>(w) == a); done(); }
void all__convertMove(U a, uint32_t b) { int l = 0; { auto t = kj::tuple(C(a, &l), b); MUST(l == 1); kj::Tuple<C, U> u = kj::mv(t); MUST(kj::get<0>(u).v == a); MUST(kj::get<1>(u) == b); MUST(l == 2); } MUST(l == 0); auto m = kj::tuple(MoveOnly(a), b, MoveOnly(7)); kj::Tuple<MoveOnly, U, MoveOnly> n = kj::mv(m); MUST(kj::get<0>(n).v == a); MUST(kj::get<1>(n) == b); MUST(kj::get<2>(n).v == 7); MUST(kj::get<2>(m).v == 0); done(); }
struct V { U v; V(U v): v(v) {} V(const V& o): v(o.v) {} V(V&& o): v(o.v) { o.v = 1u << 31; } V& operator=(V&& o) { v = o.v; o.v = 1u << 31; return *this; } V& operator=(const V& o) { v = o.v; return *this; } ~V() {} };
void all__copyKeeps(uint32_t a, uint32_t b) { if (a >= 1000 || b >= 1000) { skip(); return; } auto t = kj::tuple(V(a), b, V(b)); auto u = t; MUST(kj::get<0>(t).v == a); MUST(kj::get<2>(t).v == b); MUST(kj::get<0>(u).v == a); MUST(kj::get<1>(u) == b); MUST(kj::get<2>(u).v == b); const auto& c = t; auto w = c; MUST(kj::get<0>(t).v == a); MUST(kj::get<2>(w).v == b); kj::Tuple<V, U, V> x = t; MUST(kj::get<0>(t).v == a); MUST(kj::get<2>(x).v == b); kj::Tuple<V, U, V> y = c; MUST(kj::get<0>(t).v == a); MUST(kj::get<0>(y).v == a); auto f = kj::tuple(t, c); MUST(kj::get<0>(t).v == a); MUST(kj::get<2>(t).v == b); MUST(kj::get<0>(f).v == a); MUST(kj::get<2>(f).v == b); MUST(kj::get<3>(f).v == a); MUST(kj::get<5>(f).v == b); V g = kj::get<0>(t); MUST(kj::get<0>(t).v == a); MUST(g.v == a); done(); }
void all__applyKeeps(uint32_t a, uint32_t b) { if (a >= 1000 || b >= 1000) { skip(); return; } auto t = kj::tuple(V(a), V(b)); const auto& c = t; V m(a); U r = kj::apply([&](V x, V y, V z) { return x.v + 2 * y.v + 4 * z.v; }, t, m); MUST(r == a + 2 * b + 4 * a); MUST(kj::get<0>(t).v == a); MUST(kj::get<1>(t).v == b); MUST(m.v == a); r = kj::apply([&](V x, V y) { return x.v + 2 * y.v; }, c); MUST(r == a + 2 * b); MUST(kj::get<1>(t).v == b); r = kj::apply([&](V x, V y) { return x.v + 2 * y.v; }, kj::mv(t)); MUST(r == a + 2 * b); done(); }
void all__callKeeps(uint32_t a) { if (a >= 1000) { skip(); return; } V m(a); Function<U(V)> f = [](V x) { return x.v; }; MUST(f(m) == a); MUST(m.v == a); MUST(f(kj::mv(m)) == a); Function<U(const V&)> g = [](const V& x) { return x.v; }; V n(a); MUST(g(n) == a); MUST(n.v == a); Function<U(V&)> h = [](V& x) { U r = x.v; V t = x; return r + t.v; }; MUST(h(n) == 2 * a); MUST(n.v == a); done(); }
inline U twice(FunctionParam<U(V)> f, V& m) { U r = f(m); FunctionParam<U(V)> g = f; return r + f(m) + g(m); }
void all__paramKeeps(uint32_t a) { if (a >= 1000) { skip(); return; } V m(a); int calls = 0; U r = twice([&](V x) { calls++; return x.v; }, m); MUST(calls == 3); MUST(r == 3 * a); MUST(m.v == a); done(); }
void all__lvalueKept(uint32_t a) { if (a >= 1000) { skip(); return; } V m(a); auto l = [m]() { return m.v; }; { Function<U()> f = l; MUST(f() == a); MUST(l() == a); auto k = kj::mv(f); MUST(k() == a); } MUST(l() == a); { ConstFunction<U()> f = l; MUST(f() == a); } MUST(l() == a); done(); }
}

// Checked arithmetic on bounded numbers and quantities (analysed by rules/p35.py).
#include <kj/units.h>
#include <kj/time.h>
#include "obs.h"
using namespace kj;
namespace vp {
struct Foo; struct Bar;
typedef Bounded<1000, uint64_t> B; typedef Quantity<B, Foo> Q; typedef Quantity<uint64_t, Foo> F;
static int calls;
struct Fail { void operator()() const { calls++; } };
#define V calls = 0; uint64_t v = nv(1), w = nv(2); B b(v, unsafe); Q q(b, unsafe)
#define CALLED(c) MUST(calls == ((c) ? 1 : 0))
static uint64_t u(uint64_t x) { return x; }
template <typename X> static uint64_t u(X x) { return x.unwrap(); }
#define NUM(q) u((q) / unit<Decay<decltype(q)>>())
void all__assert_member() { V; auto r = b.assertMax<100>(Fail()); CALLED(v > 100); MUST(r.unwrap() == v); done(); }
void all__assert_free() { V; auto r = assertMax<100>(b, Fail()); CALLED(v > 100); MUST(r.unwrap() == v); done(); }
void all__assert_const() { V; auto r = assertMax(bounded<100>(), b, Fail()); CALLED(v > 100); MUST(r.unwrap() == v); done(); }
void all__assert_quantity() { V; auto r = assertMax<100>(q, Fail()); CALLED(v > 100); MUST(NUM(r) == v); done(); }
void all__assert_quantity_const() { V; auto r = assertMax(bounded<100>() * unit<Quantity<BoundedConst<1>, Foo>>(), q, Fail()); CALLED(v > 100); MUST(NUM(r) == v); done(); }
void all__assert_bits() { V; auto r = assertMaxBits<5>(b, Fail()); CALLED(v > 31); MUST(r.unwrap() == v); done(); }
void all__assert_bits_quantity() { V; auto r = assertMaxBits<5>(q, Fail()); CALLED(v > 31); MUST(NUM(r) == v); done(); }
void all__sub_member() { V; Bounded<500, uint64_t> c(w, unsafe); auto r = b.subtractChecked(c, Fail()); CALLED(v < w); if (v >= w) MUST(r.unwrap() == v - w); done(); }
void all__sub_member_const() { V; auto r = b.subtractChecked(bounded<40>(), Fail()); CALLED(v < 40); if (v >= 40) MUST(r.unwrap() == v - 40); done(); }
void all__sub_free() { V; Bounded<500, uint64_t> c(w, unsafe); auto r = subtractChecked(b, c, Fail()); CALLED(v < w); if (v >= w) MUST(r.unwrap() == v - w); done(); }
void all__sub_quantity() { V; Quantity<Bounded<500, uint64_t>, Foo> c(Bounded<500, uint64_t>(w, unsafe), unsafe); auto r = subtractChecked(q, c, Fail()); CALLED(v < w); if (v >= w) MUST(NUM(r) == v - w); done(); }
void all__try_member() { V; Bounded<500, uint64_t> c(w, unsafe); KJ_IF_SOME(r, b.trySubtract(c)) { MUST(v >= w && r.unwrap() == v - w); } else MUST(v < w); done(); }
void all__try_member_const() { V; KJ_IF_SOME(r, b.trySubtract(bounded<40>())) { MUST(v >= 40 && r.unwrap() == v - 40); } else MUST(v < 40); done(); }
void all__try_free() { V; Bounded<500, uint64_t> c(w, unsafe); KJ_IF_SOME(r, trySubtract(b, c)) { MUST(v >= w && r.unwrap() == v - w); } else MUST(v < w); done(); }
void all__try_quantity() { V; Quantity<Bounded<500, uint64_t>, Foo> c(Bounded<500, uint64_t>(w, unsafe), unsafe); KJ_IF_SOME(r, trySubtract(q, c)) { MUST(v >= w && NUM(r) == v - w); } else MUST(v < w); done(); }
void all__assign() { V; Bounded<2000, uint64_t> c(5, unsafe); c = b; MUST(c.unwrap() == v); c = bounded<1999>(); MUST(c.unwrap() == 1999); c = (uint8_t)7; MUST(c.unwrap() == 7); B e(3, unsafe); e = b; MUST(e.unwrap() == v); done(); }
void all__unbound() { V; uint64_t x = unbound(b); MUST(x == v); done(); }
#define FF uint64_t v = nv(1), w = nv(2); F a(v, unsafe), b(w, unsafe)
void all__plus_eq() { FF; F& r = (a += b); MUST(&r == &a && NUM(a) == v + w && NUM(b) == w); done(); }
void all__minus_eq() { FF; F& r = (a -= b); MUST(&r == &a && NUM(a) == v - w); done(); }
void all__times_eq() { FF; F& r = (a *= w); MUST(&r == &a && NUM(a) == v * w); done(); }
void all__div_eq() { FF; if (w == 0) { done(); return; } F& r = (a /= w); MUST(&r == &a && NUM(a) == v / w); done(); }
void all__q_assign() { uint32_t v = (uint32_t)nv(1); Quantity<uint32_t, Foo> s(v, unsafe); F a(9, unsafe); a = s; MUST(NUM(a) == v); done(); }
void all__q_ops() { FF; MUST(NUM(a + b) == v + w && NUM(a - b) == v - w && NUM(a * w) == v * w && NUM(w * a) == v * w); if (w != 0) MUST(NUM(a / w) == v / w && a / b == v / w && NUM(a % b) == v % w); MUST((a == b) == (v == w) && (a < b) == (v < w) && (a > b) == (v > w) && (a <= b) == (v <= w) && (a >= b) == (v >= w)); done(); }
void all__ratio_ratio() { uint64_t v = nv(1), w = nv(2); if (w == 0) { done(); return; } UnitRatio<uint64_t, Foo, Bar> a(v, unsafe), b(w, unsafe); MUST(a / b == v / w); done(); }
typedef Absolute<F, Bar> A;
void all__abs_plus() { FF; A p = origin<A>() + a; A& r = (p += b); MUST(&r == &p && NUM(p - origin<A>()) == v + w); done(); }
void all__abs_minus() { FF; A p = origin<A>() + a; A& r = (p -= b); MUST(&r == &p && NUM(p - origin<A>()) == v - w); done(); }
void all__abs_ops() { FF; A p = origin<A>() + a, q = b + origin<A>(); MUST(NUM(p - q) == v - w && NUM((p - b) - origin<A>()) == v - w && NUM((p + b) - origin<A>()) == v + w); MUST((p == q) == (v == w) && (p < q) == (v < w) && (p > q) == (v > w) && (p <= q) == (v <= w) && (p >= q) == (v >= w)); done(); }
}

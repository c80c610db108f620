// Units and bounds, settled by the compiler (rules/p35.py); every assertion that fails is a violation.
#include <kj/units.h>
#include <kj/time.h>
using namespace kj;
namespace vp {
template <typename X> struct B_; template <uint64_t m, typename T> struct B_<Bounded<m, T>> { static constexpr uint64_t max = m; }; template <uint v> struct B_<BoundedConst<v>> { static constexpr uint64_t max = v; };
typedef uint64_t U;
template <U m> using BU = Bounded<m, U>;
template <typename R> constexpr bool is(R r, U want) { return r.unwrap() == want && want <= B_<R>::max; }
// every value of a bounded operand: the result is exact and within the bound its type states
#define OPS(name, op, lo, ok) \
template <U m, uint c> constexpr bool name##_vc() { for (U v = 0; v <= m; v++) { U w = c; if (ok(v, w) && !is(BU<m>(v, unsafe) op bounded<c>(), v op w)) return false; } return true; } \
template <U m, uint c> constexpr bool name##_cv() { for (U v = lo; v <= m; v++) { U w = c; if (ok(w, v) && !is(bounded<c>() op BU<m>(v, unsafe), w op v)) return false; } return true; }
#define OPSB(name, op, lo) \
template <U m, U c> constexpr bool name##_vv() { for (U v = 0; v <= m; v++) for (U w = lo; w <= c; w++) if (!is(BU<m>(v, unsafe) op BU<c>(w, unsafe), v op w)) return false; return true; }
constexpr bool any_(U, U) { return true; }
OPS(add, +, 0, any_) OPS(mul, *, 0, any_) OPS(div, /, 1, any_) OPS(mod, %, 1, any_) OPS(shl, <<, 0, any_) OPS(shr, >>, 0, any_) OPS(and_, &, 0, any_) OPS(or_, |, 0, any_)
OPSB(add, +, 0) OPSB(mul, *, 0) OPSB(div, /, 1) OPSB(mod, %, 1)
#define PAIR(f, m) (f<m, 1>() && f<m, 2>() && f<m, 3>() && f<m, 4>() && f<m, 5>() && f<m, 6>() && f<m, 7>() && f<m, 8>() && f<m, 12>() && f<m, 16>())
#define ALL(f) (PAIR(f, 1) && PAIR(f, 2) && PAIR(f, 3) && PAIR(f, 4) && PAIR(f, 5) && PAIR(f, 7) && PAIR(f, 8) && PAIR(f, 10) && PAIR(f, 16) && PAIR(f, 17))
static_assert(ALL(add_vc), "bounded + constant");
static_assert(ALL(add_cv), "constant + bounded");
static_assert(ALL(mul_vc), "bounded * constant");
static_assert(ALL(mul_cv), "constant * bounded");
static_assert(ALL(div_vc), "bounded / constant");
static_assert(ALL(div_cv), "constant / bounded");
static_assert(ALL(mod_vc), "bounded % constant");
static_assert(ALL(mod_cv), "constant % bounded");
static_assert(ALL(shl_vc), "bounded << constant");
static_assert(ALL(shl_cv), "constant << bounded");
static_assert(ALL(shr_vc), "bounded >> constant");
static_assert(ALL(shr_cv), "constant >> bounded");
static_assert(ALL(and__vc), "bounded & constant");
static_assert(ALL(and__cv), "constant & bounded");
static_assert(ALL(or__vc), "bounded | constant");
static_assert(ALL(or__cv), "constant | bounded");
static_assert(ALL(add_vv), "bounded + bounded");
static_assert(ALL(mul_vv), "bounded * bounded");
static_assert(ALL(div_vv), "bounded / bounded");
static_assert(ALL(mod_vv), "bounded % bounded");
template <U m, uint c> constexpr bool sub_cv() { for (U v = 0; v <= m; v++) if (!is(bounded<c>() - BU<m>(v, unsafe), c - v)) return false; return true; }
static_assert(sub_cv<0, 0>() && sub_cv<3, 3>() && sub_cv<3, 10>() && sub_cv<10, 10>() && sub_cv<1, 16>(), "constant - bounded");
// comparisons, minimum, maximum
template <U m, U c> constexpr bool cmp_vv() { for (U v = 0; v <= m; v++) for (U w = 0; w <= c; w++) { BU<m> a(v, unsafe); Bounded<c, uint> b((uint)w, unsafe);
  if ((a == b) != (v == w) || (a < b) != (v < w) || (a > b) != (v > w) || (a <= b) != (v <= w) || (a >= b) != (v >= w)) return false;
  if (!is(kj::min(a, b), v < w ? v : w) || !is(kj::max(a, b), v > w ? v : w)) return false; } return true; }
template <U m, uint c> constexpr bool cmp_vc() { for (U v = 0; v <= m; v++) { BU<m> a(v, unsafe); auto b = bounded<c>(); U w = c;
  if ((a == b) != (v == w) || (a < b) != (v < w) || (a > b) != (v > w) || (a <= b) != (v <= w) || (a >= b) != (v >= w)) return false;
  if ((b == a) != (v == w) || (b < a) != (w < v) || (b > a) != (w > v) || (b <= a) != (w <= v) || (b >= a) != (w >= v)) return false;
  if (!is(kj::min(a, b), v < w ? v : w) || !is(kj::max(a, b), v > w ? v : w) || !is(kj::min(b, a), v < w ? v : w) || !is(kj::max(b, a), v > w ? v : w)) return false; } return true; }
static_assert(ALL(cmp_vv), "comparing and choosing between bounded numbers");
static_assert(ALL(cmp_vc), "comparing and choosing between bounded numbers and constants");
template <U a, uint b> constexpr bool consts() { constexpr uint x = (uint)a; auto p = bounded<x>(); auto q = bounded<b>();
  return is(p + q, x + b) && is(p * q, x * b) && is(p / q, x / b) && is(p % q, x % b) && is(p >> q, x >> b) && is(p & q, x & b) && is(p | q, x | b) && (p == q) == (x == b) && (p < q) == (x < b) && (p > q) == (x > b) && (p <= q) == (x <= b) && (p >= q) == (x >= b) && is(kj::min(p, q), x < b ? x : b) && is(kj::max(p, q), x > b ? x : b); }
static_assert(ALL(consts), "constants");
static_assert(is(bounded<9>() - bounded<4>(), 5) && is(bounded<4>() - bounded<4>(), 0) && is(bounded<3>() << bounded<4>(), 48), "constants: minus and shift");
// conversions keep the value
static_assert(is(bounded<200>(), 200) && Bounded<1000, uint>(bounded<200>()).unwrap() == 200 && Bounded<1000, U>(Bounded<999, uint>(7, unsafe)).unwrap() == 7 && Bounded<255, uint>((uint8_t)200).unwrap() == 200, "widening keeps the value");
static_assert(is(bounded((uint16_t)1234), 1234) && B_<decltype(bounded((uint16_t)1))>::max == 65535 && is(bounded(true), 1) && is(bounded(false), 0), "bounded(n) is bounded by its type");
static_assert(is(assumeBits<5>(31u), 31) && B_<decltype(assumeBits<5>(31u))>::max == 31 && is(assumeBits<5>(Bounded<1000, uint>(9, unsafe)), 9) && is(assumeMax<77>(70u), 70) && B_<decltype(assumeMax<77>(70u))>::max == 77 && is(assumeMax<77>(Bounded<1000, uint>(70, unsafe)), 70), "assuming a bound keeps the value");
static_assert(is(upgradeBound<U>(Bounded<100, uint8_t>(99, unsafe)), 99) && B_<decltype(upgradeBound<U>(Bounded<100, uint8_t>()))>::max == 100, "upgradeBound");
// bits
static_assert(bitCount<0>() == 0 && bitCount<1>() == 1 && bitCount<2>() == 2 && bitCount<3>() == 2 && bitCount<4>() == 3 && bitCount<255>() == 8 && bitCount<256>() == 9 && bitCount<0xffffffffu>() == 32 && bitCount<0x100000000ull>() == 33 && bitCount<~0ull>() == 64, "bitCount");
template <uint bits> constexpr uint wide() { return sizeof(AtLeastUInt<bits>) * 8; }
static_assert(wide<0>() == 8 && wide<1>() == 8 && wide<7>() == 8 && wide<8>() == 8 && wide<9>() == 16 && wide<16>() == 16 && wide<17>() == 32 && wide<32>() == 32 && wide<33>() == 64 && wide<64>() == 64, "AtLeastUInt is the smallest type that has the bits");
// units
struct Foo; struct Bar; struct Baz; typedef Quantity<uint, Foo> F; typedef Quantity<uint, Bar> R; typedef Quantity<uint, Baz> Z; typedef UnitRatio<uint, Foo, Bar> FB; typedef UnitRatio<uint, Bar, Baz> BZ;
constexpr F f(uint n) { return n * unit<F>(); } constexpr R r(uint n) { return n * unit<R>(); } constexpr Z z(uint n) { return n * unit<Z>(); }
template <typename X, typename Y> constexpr bool same = false; template <typename X> constexpr bool same<X, X> = true;
constexpr uint n(F q) { return q / unit<F>(); } constexpr uint n(R q) { return q / unit<R>(); } constexpr uint n(Z q) { return q / unit<Z>(); }
constexpr FB fb(uint k) { return f(k) / r(1); } constexpr BZ bz(uint k) { return r(k) / z(1); }
constexpr uint N[] = {1, 2, 3, 5, 7, 8, 17, 100, 1023};
constexpr bool linear() { for (uint a : N) for (uint b : N) {
  if (n(f(a)) != a || n(f(a) + f(b)) != a + b || n(f(a + b) - f(b)) != a || n(f(a) * b) != a * b || n(b * f(a)) != a * b || n(f(a) / b) != a / b || f(a) / f(b) != a / b || n(f(a) % f(b)) != a % b) return false;
  if ((f(a) == f(b)) != (a == b) || (f(a) < f(b)) != (a < b) || (f(a) > f(b)) != (a > b) || (f(a) <= f(b)) != (a <= b) || (f(a) >= f(b)) != (a >= b)) return false; } return true; }
static_assert(linear(), "quantities add, subtract, scale, divide and compare as their numbers do");
constexpr bool ratios() { for (uint a : N) for (uint b : N) {
  if (n(r(a) * fb(b)) != a * b || n(fb(b) * r(a)) != a * b || n(f(a) / fb(b)) != a / b || n(f(a) % fb(b)) != a % b || n(r(1) * (f(a) / r(b))) != a / b) return false;
  if (n(r(1) * (fb(a) + fb(b))) != a + b || n(r(1) * (fb(a + b) - fb(b))) != a || n(r(1) * (a * fb(b))) != a * b || (fb(a) == fb(b)) != (a == b)) return false;
  if (n(z(1) * (fb(a) * bz(b))) != a * b || n(z(1) * (bz(b) * fb(a))) != a * b) return false;
  UnitRatio<uint, Foo, Baz> fz = f(a * b) / z(1); if (n(r(1) * (fz / bz(b))) != a || n(z(1) * (fz / fb(b))) != a) return false; } return true; }
static_assert(ratios(), "ratios convert between the units they relate");
static_assert(same<decltype(r(1) * fb(2)), F> && same<decltype(f(1) / fb(2)), R> && same<decltype(f(1) % fb(2)), F> && same<decltype(f(1) / r(1)), FB> && same<decltype(fb(1) * bz(1)), UnitRatio<uint, Foo, Baz>> && same<decltype(f(1) / f(1)), uint>, "results have the unit they should");
static_assert(n(Quantity<uint, Foo>(Quantity<uint8_t, Foo>((uint8_t)200, unsafe))) == 200 && Quantity<uint, Foo>(maxValue) == F(~0u, unsafe) && Quantity<int, Foo>(minValue) == Quantity<int, Foo>(-2147483647 - 1, unsafe), "quantity conversions");
// absolutes
typedef Absolute<Quantity<int64_t, Foo>, Bar> A; typedef Quantity<int64_t, Foo> D; constexpr D d(int64_t k) { return k * unit<D>(); }
constexpr bool absolutes() { for (int64_t a : {-5, 0, 3, 1000}) for (int64_t b : {-7, 0, 3, 999}) { A p = origin<A>() + d(a), q = origin<A>() + d(b);
  if (!(p - origin<A>() == d(a)) || !(p - q == d(a - b)) || !(p - d(b) == origin<A>() + d(a - b)) || !(d(b) + p == p + d(b)) || !(p + d(b) - p == d(b))) return false;
  if ((p == q) != (a == b) || (p < q) != (a < b) || (p > q) != (a > b) || (p <= q) != (a <= b) || (p >= q) != (a >= b)) return false; } return true; }
static_assert(absolutes(), "points in an absolute scale");
typedef Id<uint32_t, Foo> I;
static_assert(I().value == 0 && I(4) == I(4) && I(3) != I(4) && I(3) < I(4) && !(I(4) < I(4)) && I(4) <= I(4) && I(4) > I(3) && I(4) >= I(4) && !(I(3) >= I(4)), "ids");
// time
static_assert(NANOSECONDS == Duration(1, unsafe) && MICROSECONDS == Duration(1000, unsafe) && MILLISECONDS == Duration(1000000, unsafe) && SECONDS == Duration(1000000000, unsafe) && MINUTES == Duration(60000000000, unsafe) && HOURS == Duration(3600000000000, unsafe) && DAYS == Duration(86400000000000, unsafe), "lengths of time");
static_assert(UNIX_EPOCH == origin<Date>() && UNIX_EPOCH + 3 * DAYS - UNIX_EPOCH == 72 * HOURS && 5 * SECONDS / MILLISECONDS == 5000 && 90 * SECONDS % MINUTES == 30 * SECONDS && 7 * SECONDS / 2 == 3500 * MILLISECONDS, "time arithmetic");
}

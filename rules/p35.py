"""P35: arithmetic on units, times and bounded numbers is exact, and a bound in a type is never exceeded."""
import obs, ct
SPEC = {
 'explanation': 'The compiler evaluates every operator on bounded numbers for every value under many bounds and compares the result and the bound in its type with plain arithmetic; conversions that could exceed a bound, or mix units, are snippets that must not compile; '
   'the operators that are no constant expressions are run over their lowered source with arbitrary values.',
 'assumptions': ['bounds up to 17, and the limits of the machine types, stand for all bounds', 'signed numbers are not given to Bounded'],
}
PRE = '''#include <kj/units.h>
#include <kj/time.h>
using namespace kj; struct Foo; struct Bar; struct Baz; typedef Quantity<unsigned, Foo> F; typedef Quantity<unsigned, Bar> R; typedef Quantity<unsigned, Baz> Z; typedef UnitRatio<unsigned, Foo, Bar> FB;
template <uint64_t m, typename T = unsigned> Bounded<m, T> B() { return Bounded<m, T>((T)0, unsafe); }
template <typename T> T mk();
static F f; static R r; static Z z;'''
CASES = [
 ('narrow', 'Bounded<999, unsigned> x = B<1000>();', 'Bounded<1000, unsigned> x = B<999>();'),
 ('narrow-type', 'Bounded<999, uint16_t> x = B<1000, uint64_t>();', 'Bounded<1000, uint16_t> x = B<1000, uint64_t>();'),
 ('assign', 'auto x = B<999>(); x = B<1000>();', 'auto x = B<1000>(); x = B<999>();'),
 ('constant', 'Bounded<5, unsigned> x = bounded<6>();', 'Bounded<5, unsigned> x = bounded<5>();'),
 ('assign-constant', 'auto x = B<5>(); x = bounded<6>();', 'auto x = B<5>(); x = bounded<5>();'),
 ('integer', 'Bounded<254, unsigned> x = (uint8_t)1;', 'Bounded<255, unsigned> x = (uint8_t)1;'),
 ('assign-integer', 'auto x = B<254>(); x = (uint8_t)1;', 'auto x = B<255>(); x = (uint8_t)1;'),
 ('type-too-small', 'B<256, uint8_t>();', 'B<255, uint8_t>();'),
 ('sum', 'B<0xffffffff>() + B<1>();', 'B<0xfffffffe>() + B<1>();'),
 ('sum64', 'B<~0ull, uint64_t>() + B<1, uint64_t>();', 'B<~0ull - 1, uint64_t>() + B<1, uint64_t>();'),
 ('product', 'B<0x10000>() * B<0x10000>();', 'B<0xffff>() * B<0x10000>();'),
 ('product64', 'B<0x100000000ull, uint64_t>() * B<0x100000000ull, uint64_t>();', 'B<0xffffffffull, uint64_t>() * B<0x100000000ull, uint64_t>();'),
 ('product64-wrap', 'B<0x180000000ull, uint64_t>() * B<0x180000000ull, uint64_t>();', 'B<0x180000000ull, uint64_t>() * B<0x80000000ull, uint64_t>();'),
 ('constants-product-wrap', 'bounded<0x18000>() * bounded<0x18000>();', 'bounded<0x18000>() * bounded<0x8000>();'),
 ('sum-constant', 'B<0xffffffff>() + bounded<1>();', 'B<0xfffffffe>() + bounded<1>();'),
 ('constant-sum', 'bounded<1>() + B<0xffffffff>();', 'bounded<1>() + B<0xfffffffe>();'),
 ('product-constant', 'B<0x10000>() * bounded<0x10000>();', 'B<0xffff>() * bounded<0x10000>();'),
 ('constant-product', 'bounded<0x10000>() * B<0x10000>();', 'bounded<0x10000>() * B<0xffff>();'),
 ('constants-sum', 'bounded<0xffffffff>() + bounded<1>();', 'bounded<0xfffffffe>() + bounded<1>();'),
 ('constants-difference', 'bounded<3>() - bounded<4>();', 'bounded<4>() - bounded<4>();'),
 ('constants-product', 'bounded<0x10000>() * bounded<0x10000>();', 'bounded<0xffff>() * bounded<0x10000>();'),
 ('constants-shift', 'bounded<3>() << bounded<31>();', 'bounded<1>() << bounded<31>();'),
 ('shift', 'B<3, uint64_t>() << bounded<63>();', 'B<1, uint64_t>() << bounded<63>();'),
 ('shift32', 'B<0x10000>() << bounded<16>();', 'B<0xffff>() << bounded<16>();'),
 ('underflow', 'bounded<4>() - B<5>();', 'bounded<5>() - B<5>();'),
 ('subtract-constant', 'subtractChecked(B<5>(), bounded<6>(), [] {});', 'subtractChecked(B<5>(), bounded<5>(), [] {});'),
 ('truncate', 'uint8_t x = unbound(B<256>());', 'uint8_t x = unbound(B<255>());'),
 ('assert-narrow', 'Bounded<9, unsigned> x = assertMax<10>(B<100>(), [] {});', 'Bounded<10, unsigned> x = assertMax<10>(B<100>(), [] {});'),
 ('min', 'Bounded<9, unsigned> x = kj::min(B<10>(), B<11>());', 'Bounded<10, unsigned> x = kj::min(B<10>(), B<11>());'),
 ('max', 'Bounded<10, unsigned> x = kj::max(B<10>(), B<11>());', 'Bounded<11, unsigned> x = kj::max(B<10>(), B<11>());'),
 ('upgrade', 'upgradeBound<uint8_t>(B<256>());', 'upgradeBound<uint16_t>(B<256>());'),
 ('quantity-narrow', 'Quantity<Bounded<9, unsigned>, Foo> x = Quantity<Bounded<10, unsigned>, Foo>(B<10>(), unsafe);', 'Quantity<Bounded<10, unsigned>, Foo> x = Quantity<Bounded<9, unsigned>, Foo>(B<9>(), unsafe);'),
 ('add-units', 'f + r;', 'f + f;'), ('subtract-units', 'f - r;', 'f - f;'), ('assign-units', 'f = r;', 'f = F();'), ('compare-units', '(void)(f < r);', '(void)(f < f);'), ('equal-units', '(void)(f == r);', '(void)(f == f);'),
 ('add-number', 'f + 1u;', 'f + unit<F>();'), ('from-number', 'F x = 5u;', 'F x = 5u * unit<F>();'), ('to-number', 'unsigned x = f;', 'unsigned x = f / unit<F>();'), ('product-units', 'f * f;', 'f * 2u;'),
 ('ratio-direction', 'F x = f * (f / r);', 'F x = r * (f / r);'), ('ratio-divide', 'r / (f / r);', 'f / (f / r);'), ('ratio-other', 'z * (f / r);', 'r * (f / r);'), ('ratio-result', 'Z x = r * (f / r);', 'F x = r * (f / r);'),
 ('absolute-sum', 'mk<TimePoint>() + mk<TimePoint>();', 'mk<TimePoint>() + mk<Duration>();'), ('absolute-scale', 'mk<TimePoint>() * 2;', 'mk<Duration>() * 2;'), ('absolute-mix', 'mk<TimePoint>() - mk<Date>();', 'mk<TimePoint>() - mk<TimePoint>();'),
 ('absolute-assign', 'Date d = mk<TimePoint>();', 'Date d = mk<Date>();'), ('absolute-compare', '(void)(mk<Date>() < mk<TimePoint>());', '(void)(mk<Date>() < mk<Date>());'), ('absolute-number', 'TimePoint t = mk<Duration>();', 'TimePoint t = origin<TimePoint>() + mk<Duration>();'),
 ('id-mix', '(void)(Id<unsigned, Foo>(1) == Id<unsigned, Bar>(1));', '(void)(Id<unsigned, Foo>(1) == Id<unsigned, Foo>(1));'), ('id-number', 'Id<unsigned, Foo> i = 1;', 'Id<unsigned, Foo> i(1);'),
]
def check(ck):
    ck.units = ['witness/units_ct.cc', 'witness/bounded.cc', 'kj/units.h', 'kj/time.h']
    ct.asserts(ck, 'units_ct.cc', 'units:exact', 'kj/units.h')
    ct.rejects(ck, 'units:typed', 'kj/units.h', PRE, CASES)
    obs.Suite(ck, 'bounded.cc', 'units:checked', home=r'kj/(units|time)\.h')
    ck.need('units:exact', 15); ck.need('units:typed', 30); ck.need('units:checked', 10)

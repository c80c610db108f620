// Values that compare equal have equal hash codes, whatever types they are held in.
#include "obs.h"
#include <kj/hash.h>
#include <kj/memory.h>
#include <kj/map.h>
#include <kj/vector.h>
namespace vp {
using namespace kj;
void skip() noexcept;
#define ONLY(c) if (!(c)) { skip(); return; }
typedef uint64_t U;
#define EQ(a, b) MUST(kj::hashCode(a) == kj::hashCode(b) /* equal values, equal hash codes */)
// integers: the same number in every type that can hold it
void all__signed8(int8_t a) { EQ(a, (short)a); EQ(a, (int)a); EQ(a, (long)a); EQ(a, (long long)a); done(); }
void all__signed16(int16_t a) { EQ(a, (int)a); EQ(a, (long)a); EQ(a, (long long)a); done(); }
void all__signed32(int32_t a) { EQ(a, (long)a); EQ(a, (long long)a); done(); }
void all__signed64(int64_t a) { EQ((long)a, (long long)a); done(); }
void all__unsigned8(uint8_t a) { EQ(a, (short)a); EQ(a, (unsigned short)a); EQ(a, (int)a); EQ(a, (uint)a); EQ(a, (long)a); EQ(a, (unsigned long)a); EQ(a, (long long)a); EQ(a, (unsigned long long)a); EQ((char)(a & 127), (int)(a & 127)); EQ((signed char)(a & 127), (int)(a & 127)); done(); }
void all__unsigned16(uint16_t a) { EQ(a, (int)a); EQ(a, (uint)a); EQ(a, (long)a); EQ(a, (unsigned long)a); done(); }
void all__unsigned32(uint32_t a) { EQ(a, (long)a); EQ(a, (unsigned long)a); EQ(a, (long long)a); EQ(a, (unsigned long long)a); done(); }
void all__unsigned64(uint64_t a) { EQ((unsigned long)a, (unsigned long long)a); done(); }
void all__sameInt(uint32_t a) { ONLY(a < 0x80000000u); EQ(a, (int)a); EQ((long)a, (unsigned long)a); done(); }
void all__sameLong(uint64_t a) { ONLY(a < 0x8000000000000000u); EQ((long)a, (unsigned long)a); EQ((long long)a, (unsigned long long)a); done(); }
void all__neg() { EQ(-1, -1l); EQ(-1, -1ll); EQ(-1, (short)-1); EQ(-1, (signed char)-1); EQ(int32_t(0x80000000), int64_t(int32_t(0x80000000))); EQ(-1, 0xffffffffffffffffull); EQ(-7, 0xfffffffffffffff9ul); done(); }
enum class E8: uint8_t { A = 3 }; enum E32 { P, Q = 70000 }; enum class EN: int64_t { N = -2 };
void all__enum() { EQ(E8::A, 3); EQ(E8::A, (uint8_t)3); EQ(Q, 70000); EQ(EN::N, -2); EQ(EN::N, -2ll); done(); }
// pointers: by address, whoever holds them
struct Ob { int x; uint hashCode() const { return 77; } };
void all__ptr(int* p) { EQ(p, (const int*)p); EQ(p, (void*)p); EQ(p, (const void*)p); Own<int> o(p, NullDisposer::instance); EQ(o, p); const Own<int>& c = o; EQ(c, p); o = nullptr; EQ(o, nullptr); done(); }
void all__null() { EQ(nullptr, (int*)nullptr); EQ(nullptr, (const void*)nullptr); done(); }
void all__member() { Ob o{1}; const Ob& c = o; MUST(kj::hashCode(o) == 77u * 1 || true); EQ(o, c); EQ(o, Ob{5}); done(); }
// text and bytes: by content
inline bool same(ArrayPtr<const char> a, ArrayPtr<const char> b) { return kj::hashCode(a) == kj::hashCode(b); }
template <size_t N> inline void text() {
  char b1[N + 3], b2[N + 1]; for (size_t i = 0; i < N; i++) { char c = (char)(nv(i) & 127); b1[i + 1] = c; b2[i] = c; } b1[N + 1] = 0; b2[N] = 0;
  StringPtr s(b1 + 1, N); ArrayPtr<const char> p(b2, N); ArrayPtr<char> q(b2, N); 
  String h(b2, N, NullArrayDisposer::instance); const String& ch = h; ConstString k(b2, N, NullArrayDisposer::instance); Array<char> a(b2, N, NullArrayDisposer::instance); Array<const char> ca(b2, N, NullArrayDisposer::instance);
  EQ(s, p); EQ(s, q); EQ(s, h); EQ(s, ch); EQ(s, k); EQ(s, a); EQ(s, ca); EQ(s, p.asBytes()); EQ(s, q.asBytes()); EQ(s, s.asArray()); EQ(s, h.asPtr()); EQ(s, StringPtr(b2, N)); const Array<char>& cc = a; EQ(s, cc);
  done();
}
void all__text0() { text<0>(); }
void all__text1() { text<1>(); }
void all__text2() { text<2>(); }
void all__text3() { text<3>(); }
void all__text5() { text<5>(); }
template <size_t N> inline void bytes() {
  byte b1[N + 1], b2[N + 1]; for (size_t i = 0; i < N; i++) { byte c = (byte)nv(i); b1[i] = c; b2[i] = c; }
  ArrayPtr<byte> p(b1, N); ArrayPtr<const byte> q(b2, N); Array<byte> a(b2, N, NullArrayDisposer::instance); Array<const byte> ca(b2, N, NullArrayDisposer::instance); const Array<byte>& r = a;
  EQ(p, q); EQ(p, a); EQ(p, ca); EQ(p, r); EQ(p, p.asConst()); done();
}
void all__bytes0() { bytes<0>(); }
void all__bytes3() { bytes<3>(); }
void all__bytes4() { bytes<4>(); }
// arrays: by content of their elements, also of different element types
template <size_t N> inline void arrays() {
  int x[N + 1]; long y[N + 1]; uint16_t z[N + 1]; for (size_t i = 0; i < N; i++) { uint16_t v = (uint16_t)(nv(i) & 0x7fff); x[i] = v; y[i] = v; z[i] = v; }
  ArrayPtr<int> p(x, N); ArrayPtr<const long> q(y, N); ArrayPtr<uint16_t> w(z, N); Array<int> a(x, N, NullArrayDisposer::instance); const Array<int>& c = a; Array<const int> d(x, N, NullArrayDisposer::instance); Array<int> oth(x, N, NullArrayDisposer::instance);
  EQ(p, q); EQ(p, w); EQ(p, a); EQ(p, c); EQ(p, d); EQ(a, oth); EQ(p, p.asConst()); done();
}
void all__arrays0() { arrays<0>(); }
void all__arrays1() { arrays<1>(); }
void all__arrays2() { arrays<2>(); }
// several values together: a function of their hash codes only
void all__several(uint32_t a, uint16_t b) { MUST(kj::hashCode(a, b) == kj::hashCode((U)a, (int)b)); MUST(kj::hashCode(a, b, 5) == kj::hashCode((U)a, (int)b, 5ull)); char t[2] = {'x', 0}; StringPtr s(t, 1); MUST(kj::hashCode(a, s) == kj::hashCode(a, s.asBytes())); done(); }
void all__repeat(uint64_t a, int* p) { EQ(a, a); EQ(p, p); U b = a; EQ(a, b); const U c = a; EQ(a, c); U& r = b; EQ(r, c); done(); }
}

// Which characters a group accepts, settled by the compiler (rules/p34.py); every assertion that fails is a violation.
#include <kj/parse/char.h>
using namespace kj::parse;
namespace vp {
constexpr bool in(int c, int a, int b) { return c >= a && c <= b; }
constexpr bool among(int c, const char* s) { for (; *s; ++s) if ((unsigned char)*s == c) return true; return false; }
template <typename F> constexpr bool exactly_(CharGroup_ g, F&& f) { for (int c = 0; c < 256; c++) if (g.contains((unsigned char)c) != f(c)) return false; return true; }
// ends of a range, chosen around every boundary of the representation
constexpr int EDGE[] = {0, 1, 31, 32, 48, 61, 62, 63, 64, 65, 97, 122, 125, 126, 127, 128, 129, 160, 189, 190, 191, 192, 193, 224, 252, 253, 254, 255};
constexpr bool ranges(int lo, int hi) {
  for (int i = lo; i < hi; i++) for (int b : EDGE) { int a = EDGE[i]; if (!exactly_(CharGroup_().orRange((unsigned char)a, (unsigned char)b), [a, b](int c) { return in(c, a, b); })) return false; }
  return true;
}
constexpr bool chars() { for (int x = 0; x < 256; x++) if (!exactly_(CharGroup_().orChar((unsigned char)x), [x](int c) { return c == x; })) return false; return true; }
constexpr bool keeps(CharGroup_ g) {
  for (int x : EDGE) if (!exactly_(g.orChar((unsigned char)x), [x, g](int c) { return c == x || g.contains((unsigned char)c); })) return false;
  for (int x : EDGE) for (int y : {20, 70, 140, 200}) if (!exactly_(g.orRange((unsigned char)x, (unsigned char)y), [x, y, g](int c) { return in(c, x, y) || g.contains((unsigned char)c); })) return false;
  return true;
}
constexpr bool groups() {
  for (int x : EDGE) for (int y : {5, 70, 140, 250}) { auto a = CharGroup_().orRange((unsigned char)x, 255), b = CharGroup_().orRange(0, (unsigned char)y);
    if (!exactly_(a.orGroup(b), [x, y](int c) { return c >= x || c <= y; })) return false;
    if (!exactly_(a.invert(), [x](int c) { return c < x; })) return false; }
  return true;
}
static_assert(exactly_(CharGroup_(), [](int) { return false; }), "an empty group accepts nothing");
static_assert(ranges(0, 9), "a range accepts exactly the characters between its ends (low)");
static_assert(ranges(9, 18), "a range accepts exactly the characters between its ends (middle)");
static_assert(ranges(18, 28), "a range accepts exactly the characters between its ends (high)");
static_assert(chars(), "orChar adds exactly that character");
static_assert(keeps(CharGroup_().orRange(3, 9).orRange(60, 70).orRange(120, 135).orRange(185, 210)), "adding to a group keeps what it had");
static_assert(groups(), "orGroup is union and invert is complement");
static_assert(exactly_(charRange('b', 'y'), [](int c) { return in(c, 'b', 'y'); }), "charRange");
static_assert(exactly_(charRange('\xc0', '\xdf'), [](int c) { return in(c, 0xc0, 0xdf); }), "charRange above 127");
static_assert(exactly_(anyOfChars("a?Z\x7f\x80\xbf\xc0\xff"), [](int c) { return among(c, "a?Z\x7f\x80\xbf\xc0\xff"); }), "anyOfChars accepts each of its characters and no other");
static_assert(exactly_(anyOfChars(""), [](int) { return false; }), "anyOfChars of nothing");
static_assert(exactly_(charRange('0', '4').orAny("aZ").orChar('_'), [](int c) { return in(c, '0', '4') || among(c, "aZ_"); }), "orAny adds to the group");
static_assert(exactly_(alpha, [](int c) { return in(c, 'a', 'z') || in(c, 'A', 'Z'); }), "alpha");
static_assert(exactly_(digit, [](int c) { return in(c, '0', '9'); }), "digit");
static_assert(exactly_(alphaNumeric, [](int c) { return in(c, 'a', 'z') || in(c, 'A', 'Z') || in(c, '0', '9'); }), "alphaNumeric");
static_assert(exactly_(nameStart, [](int c) { return in(c, 'a', 'z') || in(c, 'A', 'Z') || c == '_'; }), "nameStart");
static_assert(exactly_(nameChar, [](int c) { return in(c, 'a', 'z') || in(c, 'A', 'Z') || in(c, '0', '9') || c == '_'; }), "nameChar");
static_assert(exactly_(hexDigit, [](int c) { return in(c, 'a', 'f') || in(c, 'A', 'F') || in(c, '0', '9'); }), "hexDigit");
static_assert(exactly_(octDigit, [](int c) { return in(c, '0', '7'); }), "octDigit");
static_assert(exactly_(whitespaceChar, [](int c) { return among(c, " \f\n\r\t\v"); }), "whitespaceChar");
static_assert(exactly_(controlChar, [](int c) { return c < 32 && !among(c, "\f\n\r\t\v"); }), "controlChar");
}

// Building text: str, strArray, delimited, strPreallocated, strTree yield exactly the concatenation of their pieces.
#include "obs.h"
#include <kj/string.h>
#include <kj/string-tree.h>
#include <kj/vector.h>
extern "C" size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n] != 0) n++; return n; }      // only of literals
namespace vp {
using namespace kj;
void skip() noexcept;
#define ONLY(c) if (!(c)) { skip(); return; }
struct Want { char c[48]; size_t n = 0; void ch(char x) { c[n++] = x; } void ptr(const char* p, size_t m) { for (size_t i = 0; i < m; i++) ch(p[i]); } };
inline void same(const String& s, const Want& w) { MUST(s.size() == w.n /* the length is the sum of the pieces */); for (size_t i = 0; i < w.n; i++) MUST(s[i] == w.c[i] /* every character is in place */); MUST(s.cStr()[w.n] == 0 /* and terminated */); }
inline void same(StringPtr s, const Want& w) { MUST(s.size() == w.n /* the length is the sum of the pieces */); for (size_t i = 0; i < w.n; i++) MUST(s[i] == w.c[i] /* every character is in place */); MUST(s.cStr()[w.n] == 0 /* and terminated */); }
inline size_t len(int k) { if (nd(k)) return 0; if (nd(k + 1)) return 1; return 2; }
// a piece of text of 0 to 2 arbitrary characters
struct Tx { char b[3]; size_t n; Tx(int k, char x, char y): n(len(k)) { b[0] = x; b[1] = y; b[n] = 0; } StringPtr p() const { return StringPtr(b, n); } };
struct Num { char a, b; size_t n; CappedArray<char, 5> toString() const { CappedArray<char, 5> r(n); if (n > 0) r.begin()[0] = a; if (n > 1) r.begin()[1] = b; return r; } };
#define XY char a, char b, char c, char d
#define W(t) w.ptr(t.b, t.n)
void all__str0() { String s = str(); MUST(s.size() == 0); MUST(s.cStr()[0] == 0); done(); }
void all__str1(XY) { Tx t(0, a, b); Want w; W(t); String s = str(t.p()); same(s, w); done(); }
void all__str2(XY) { Tx t(0, a, b), u(2, c, d); Want w; W(t); W(u); same(str(t.p(), u.p()), w); done(); }
void all__str3(XY) { Tx t(0, a, b), u(2, c, d), v(4, d, a); Want w; W(t); w.ch('x'); W(u); w.ptr("lit", 3); W(v); same(str(t.p(), 'x', u.p(), "lit", v.p()), w); done(); }
void all__strKinds(XY) { Tx t(0, a, b); Want w; w.ch(a); W(t); W(t); w.ptr("k", 1); W(t); W(t); String s = heapString(t.p()); const String cs = heapString(t.p()); ArrayPtr<const char> arr = t.p().asArray(); same(str(a, s, cs, "k"_kj, arr, t.p()), w); MUST(s.size() == t.n); done(); }
void all__strNum(XY) { Num n { a, b, len(0) }; Want w; w.ch(c); if (n.n > 0) w.ch(a); if (n.n > 1) w.ch(b); w.ch(d); same(str(c, n, d), w); done(); }
void all__strMoved(XY) { Tx t(0, a, b); Want w; W(t); String s = heapString(t.p()); const char* q = s.begin(); String r = str(kj::mv(s)); same(r, w); MUST(r.begin() == q); done(); }
void all__strRange(XY) { Want w; for (int i = 0; i < 3; i++) w.ch('b' + i); for (int i = 0; i < 3; i++) w.ch(a); same(str(range('b', 'e'), repeat(a, 3)), w); done(); }
void all__heapString(XY) { Tx t(0, a, b); Want w; W(t); same(heapString(t.p()), w); same(heapString(t.b, t.n), w); same(t.p().clone(), w); String s = heapString(t.p()); same(s.clone(), w); same(heapString(s), w); done(); }
// strArray, delimited
struct Arr3 { Tx t, u, v; StringPtr p[3]; Arr3(XY): t(0, a, b), u(2, c, d), v(4, b, c) { p[0] = t.p(); p[1] = u.p(); p[2] = v.p(); } };
void all__strArray0(XY) { ArrayPtr<StringPtr> e(nullptr); MUST(strArray(e, ", ").size() == 0); done(); }
void all__strArray1(XY) { Tx t(0, a, b); StringPtr p[1] = { t.p() }; Want w; W(t); same(strArray(p, "xy"), w); done(); }
void all__strArray3(XY) { Arr3 r(a, b, c, d); Want w; w.ptr(r.t.b, r.t.n); w.ptr(", ", 2); w.ptr(r.u.b, r.u.n); w.ptr(", ", 2); w.ptr(r.v.b, r.v.n); same(strArray(arrayPtr(r.p, 3), ", "), w); done(); }
void all__strArrayE(XY) { Arr3 r(a, b, c, d); Want w; w.ptr(r.t.b, r.t.n); w.ptr(r.u.b, r.u.n); w.ptr(r.v.b, r.v.n); same(strArray(r.p, ""), w); done(); }
void all__strArrayMany(XY) { StringPtr p[11]; char x[2] = { a, 0 }; Want w; for (int i = 0; i < 11; i++) { p[i] = StringPtr(x, 1); if (i) w.ch('+'); w.ch(a); } same(strArray(p, "+"), w); done(); }
void all__delimited0(XY) { ArrayPtr<StringPtr> e(nullptr); Want w; w.ch(a); w.ch(b); same(str(a, delimited(e, ", "), b), w); done(); }
void all__delimited1(XY) { Tx t(0, a, b); StringPtr p[1] = { t.p() }; Want w; w.ch(c); W(t); w.ch(d); same(str(c, delimited(arrayPtr(p, 1), ", "), d), w); done(); }
void all__delimited3(XY) { Arr3 r(a, b, c, d); Want w; w.ch(c); w.ptr(r.t.b, r.t.n); w.ptr(" | ", 3); w.ptr(r.u.b, r.u.n); w.ptr(" | ", 3); w.ptr(r.v.b, r.v.n); w.ch(d); same(str(c, delimited(arrayPtr(r.p, 3), " | "), d), w); done(); }
void all__delimitedVar(XY) { Arr3 r(a, b, c, d); Want w; w.ptr(r.t.b, r.t.n); w.ch('-'); w.ptr(r.u.b, r.u.n); w.ch('-'); w.ptr(r.v.b, r.v.n); auto x = delimited(arrayPtr(r.p, 3), "-"); MUST(x.size() == w.n); same(str(kj::mv(x)), w); done(); }
void all__arrayStr(XY) { Arr3 r(a, b, c, d); Want w; w.ptr(r.t.b, r.t.n); w.ptr(", ", 2); w.ptr(r.u.b, r.u.n); w.ptr(", ", 2); w.ptr(r.v.b, r.v.n); same(str(arrayPtr(r.p, 3)), w); done(); }
// strPreallocated: as much as fits, always terminated, nothing outside the buffer
inline void fits(StringPtr s, const Want& w, char* buf, size_t n) { MUST(s.begin() == buf); size_t k = w.n < n - 1 ? w.n : n - 1; MUST(s.size() == k /* as much as fits */); for (size_t i = 0; i < k; i++) MUST(buf[i] == w.c[i]); MUST(buf[k] == 0); for (size_t i = n; i < 12; i++) MUST(buf[i] == 77 /* nothing past the buffer */); }
inline size_t room(int k) { if (nd(k)) return 1; if (nd(k + 1)) return 2; if (nd(k + 2)) return 3; if (nd(k + 3)) return 4; if (nd(k + 4)) return 5; return 8; }
#define BUF char buf[12]; for (int i = 0; i < 12; i++) buf[i] = 77; size_t n = room(6)
void all__pre1(XY) { Tx t(0, a, b); BUF; Want w; W(t); fits(strPreallocated(arrayPtr(buf, n), t.p()), w, buf, n); done(); }
void all__pre3(XY) { Tx t(0, a, b), u(2, c, d); BUF; Want w; W(t); w.ch('x'); W(u); fits(strPreallocated(arrayPtr(buf, n), t.p(), 'x', u.p()), w, buf, n); done(); }
void all__preNum(XY) { Num m { a, b, len(0) }; BUF; Want w; w.ch(c); if (m.n > 0) w.ch(a); if (m.n > 1) w.ch(b); w.ch(d); fits(strPreallocated(arrayPtr(buf, n), c, m, d), w, buf, n); done(); }
void all__preDelim(XY) { Tx t(0, a, b), u(2, c, d); StringPtr p[2] = { t.p(), u.p() }; BUF; Want w; W(t); w.ptr(", ", 2); W(u); w.ch('z'); fits(strPreallocated(arrayPtr(buf, n), delimited(arrayPtr(p, 2), ", "), 'z'), w, buf, n); done(); }
void all__preTree(XY) { Tx t(0, a, b), u(2, c, d); StringTree r = strTree(t.p(), heapString(u.p())); BUF; Want w; w.ch('<'); W(t); W(u); w.ch('>'); fits(strPreallocated(arrayPtr(buf, n), '<', r, '>'), w, buf, n); done(); }
// StringTree
void all__tree0() { StringTree t; MUST(t.size() == 0); MUST(t.flatten().size() == 0); StringTree u = strTree(); MUST(u.size() == 0); MUST(u.flatten().size() == 0); done(); }
void all__tree1(XY) { Tx t(0, a, b); Want w; W(t); StringTree r = strTree(t.p()); MUST(r.size() == w.n); same(r.flatten(), w); StringTree q(heapString(t.p())); MUST(q.size() == w.n); same(q.flatten(), w); done(); }
void all__tree3(XY) { Tx t(0, a, b), u(2, c, d); Want w; W(t); w.ch('x'); W(u); w.ptr("lit", 3); StringTree r = strTree(t.p(), 'x', u.p(), "lit"); MUST(r.size() == w.n); same(r.flatten(), w); same(str(r), w); done(); }
void all__treeNest(XY) { Tx t(0, a, b), u(2, c, d); Want w; w.ch('<'); W(t); w.ch(','); W(u); w.ch('>'); W(u); StringTree in = strTree(t.p(), ',', heapString(u.p())); StringTree r = strTree('<', kj::mv(in), '>', heapString(u.p())); MUST(r.size() == w.n); same(r.flatten(), w); same(str(r), w); done(); }
void all__treeNest2(XY) { Tx t(0, a, b), u(2, c, d); Want w; W(t); W(u); W(t); w.ch('y'); StringTree r = strTree(strTree(heapString(t.p())), strTree(u.p(), strTree(heapString(t.p()))), 'y'); MUST(r.size() == w.n); same(r.flatten(), w); done(); }
void all__treeStrMix(XY) { Tx t(0, a, b), u(2, c, d); Want w; w.ch('['); W(t); W(u); w.ch(']'); W(u); StringTree r = strTree(t.p(), heapString(u.p())); same(str('[', r, ']', u.p()), w); StringTree q = strTree('[', kj::mv(r), ']', u.p()); same(q.flatten(), w); done(); }
void all__treeMove(XY) { Tx t(0, a, b); Want w; W(t); w.ch('!'); StringTree r = strTree(heapString(t.p()), '!'); StringTree q = kj::mv(r); MUST(q.size() == w.n); same(q.flatten(), w); StringTree z; z = kj::mv(q); MUST(z.size() == w.n); same(z.flatten(), w); done(); }
void all__treeVisit(XY) { Tx t(0, a, b), u(2, c, d); Want w, g; W(t); W(u); w.ch('x'); StringTree r = strTree(t.p(), heapString(u.p()), 'x'); r.visit([&](ArrayPtr<const char> p) { MUST(p.size() > 0); g.ptr(p.begin(), p.size()); }); MUST(g.n == w.n); for (size_t i = 0; i < w.n; i++) MUST(g.c[i] == w.c[i]); done(); }
void all__treeJoin(XY) { Tx t(0, a, b), u(2, c, d), v(4, d, b); auto p = heapArrayBuilder<StringTree>(3); p.add(strTree(t.p())); p.add(strTree(heapString(u.p()))); p.add(strTree(v.p())); Want w; W(t); w.ptr(", ", 2); W(u); w.ptr(", ", 2); W(v); StringTree r(p.finish(), ", "); MUST(r.size() == w.n); same(r.flatten(), w); done(); }
void all__treeJoinE(XY) { Tx t(0, a, b), u(2, c, d); auto p = heapArrayBuilder<StringTree>(2); p.add(strTree(t.p())); p.add(strTree(heapString(u.p()))); Want w; W(t); W(u); StringTree r(p.finish(), ""); MUST(r.size() == w.n); same(r.flatten(), w); done(); }
void all__treeJoin1(XY) { Tx t(0, a, b); auto p = heapArrayBuilder<StringTree>(1); p.add(strTree(t.p())); Want w; W(t); StringTree r(p.finish(), ", "); MUST(r.size() == w.n); same(r.flatten(), w); done(); }
void all__treeJoin0() { StringTree r(heapArray<StringTree>(0), ", "); MUST(r.size() == 0); MUST(r.flatten().size() == 0); done(); }
void all__treeFlattenTo(XY) { Tx t(0, a, b), u(2, c, d); Want w; W(t); W(u); StringTree r = strTree(t.p(), heapString(u.p())); char buf[12]; for (int i = 0; i < 12; i++) buf[i] = 77; char* e = r.flattenTo(buf); MUST(e == buf + w.n); for (size_t i = 0; i < w.n; i++) MUST(buf[i] == w.c[i]); for (size_t i = w.n; i < 12; i++) MUST(buf[i] == 77); size_t n = room(6); char lim[12]; for (int i = 0; i < 12; i++) lim[i] = 77; char* f = r.flattenTo(lim, lim + n); size_t k = n < w.n ? n : w.n; MUST(f == lim + k); for (size_t i = 0; i < k; i++) MUST(lim[i] == w.c[i]); for (size_t i = k; i < 12; i++) MUST(lim[i] == 77); done(); }
}

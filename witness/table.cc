// kj::Table keeps its rows and indexes in step: the indexes are ghosts that record what they were told.
#include "obs.h"
#include <kj/table.h>
namespace vp {
using namespace kj;
struct Row { uint64_t a, b; };
struct Ghost { bool has[5]; uint64_t at[5]; };
static Ghost g[3];
static int throwIn, dupIn, dupAt, wantFind;      // which index reports a duplicate of position dupAt / throws, -1 for none
inline void reset() { for (int k = 0; k < 2; k++) { } 
#define CL(k) g[k].has[0] = g[k].has[1] = g[k].has[2] = g[k].has[3] = g[k].has[4] = false
  CL(0); CL(1); CL(2); throwIn = -1; dupIn = -1; dupAt = 0; wantFind = -1; }
template <int K> struct Idx {
  uint64_t keyForRow(const Row& r) const { return K == 1 ? r.b : r.a; }
  void reserve(size_t n) { step(40 + K); }
  void clear() { CL(K); }
  template <typename T> static bool in(ArrayPtr<T> t, size_t pos) { return pos < 5; }
  Maybe<size_t> insert(ArrayPtr<Row> t, size_t pos, uint64_t key) {
    step(20 + K); MUST(pos < 5); MUST(!g[K].has[pos] /* a position is entered once */);
    if (dupIn == K) return size_t(dupAt);
    if (throwIn == K) { if (nd(7)) throw 1; }
    g[K].has[pos] = true; g[K].at[pos] = key; return kj::none;
  }
  void erase(ArrayPtr<Row> t, size_t pos, uint64_t key) { MUST(pos < 5); MUST(g[K].has[pos] /* only entered positions are erased */); MUST(g[K].at[pos] == key /* with the key they were entered with */); g[K].has[pos] = false; }
  void move(ArrayPtr<Row> t, size_t from, size_t to, uint64_t key) { MUST(from < 5 && to < 5); MUST(g[K].has[from] && !g[K].has[to] /* a row moves from its position to a free one */); MUST(g[K].at[from] == key); MUST(t[from].a == key || t[from].b == key || t.size() <= from); g[K].has[from] = false; g[K].has[to] = true; g[K].at[to] = key; }
  Maybe<size_t> find(ArrayPtr<const Row> t, uint64_t key) const { if (wantFind < 0) return kj::none; return size_t(wantFind); }
  size_t* seek(ArrayPtr<const Row> t, size_t* p) const { return p; }
  size_t* begin() const { return ord; } size_t* end() const { return ord + 3; }
  static size_t ord[3];
};
template <int K> size_t Idx<K>::ord[3];
typedef Idx<0> I0; typedef Idx<1> I1; typedef Idx<2> I2;
typedef Table<Row, I0, I1, I2> Tb;
#define IDX1(k, i, col) MUST(i < n ? (g[k].has[i] && g[k].at[i] == t.begin()[i].col) : !g[k].has[i] /* every index holds exactly the rows of the table */)
template <typename T> inline void look(T& t, size_t n) {
  MUST(t.size() == n); MUST(t.end() == t.begin() + n);
  IDX1(0, 0, a); IDX1(0, 1, a); IDX1(0, 2, a); IDX1(0, 3, a); IDX1(2, 0, a); IDX1(2, 1, a); IDX1(2, 2, a); IDX1(2, 3, a); IDX1(1, 0, b); IDX1(1, 1, b); IDX1(1, 2, b); IDX1(1, 3, b);
}
#define ROW(t, i, r) MUST((t).begin()[i].a == (r).a && (t).begin()[i].b == (r).b /* the rows are the expected ones */)
#define ARGS(p) uint64_t p##a, uint64_t p##b
#define R(p) Row p = { p##a, p##b }
#define FILL R(x); R(y); R(z); reset(); Tb t; t.insert(Row(x)); t.insert(Row(y)); t.insert(Row(z)); const Tb& c = t; (void)c
#define A3 ARGS(x), ARGS(y), ARGS(z)
void all__insert(A3) { R(x); R(y); R(z); reset(); { Tb t; look(t, 0); Row& p = t.insert(Row(x)); MUST(&p == t.begin()); look(t, 1); ROW(t, 0, x); Row& q = t.insert(y); MUST(&q == t.begin() + 1); look(t, 2); ROW(t, 0, x); ROW(t, 1, y); t.insert(Row(z)); look(t, 3); ROW(t, 2, z); ROW(t, 0, x); const Tb& c = t; look(c, 3); } done(); }
#define FAILED(tn) look(t, 3); ROW(t, 0, x); ROW(t, 1, y); ROW(t, 2, z)
void any__insertDup0(A3, ARGS(w)) { FILL; R(w); dupIn = 0; done(); try { t.insert(Row(w)); } catch (...) { FAILED(); return; } NEVER; }
void any__insertDup1(A3, ARGS(w)) { FILL; R(w); dupIn = 1; done(); try { t.insert(Row(w)); } catch (...) { FAILED(); return; } NEVER; }
void any__insertDup2(A3, ARGS(w)) { FILL; R(w); dupIn = 2; done(); try { t.insert(Row(w)); } catch (...) { FAILED(); return; } NEVER; }
void any__insertThrow0(A3, ARGS(w)) { FILL; R(w); throwIn = 0; done(); try { t.insert(Row(w)); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); }
void any__insertThrow1(A3, ARGS(w)) { FILL; R(w); throwIn = 1; done(); try { t.insert(Row(w)); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); }
void any__insertThrow2(A3, ARGS(w)) { FILL; R(w); throwIn = 2; done(); try { t.insert(Row(w)); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); }
void all__upsertNew(A3, ARGS(w)) { FILL; R(w); Row& p = t.upsert(Row(w), [](Row&, Row&&) { NEVER; }); MUST(&p == t.begin() + 3); look(t, 4); ROW(t, 3, w); done(); }
void all__upsertDup0_0(A3, ARGS(w)) { FILL; R(w); dupIn = 0; dupAt = 0; int n = 0; Row& p = t.upsert(Row(w), [&](Row& o, Row&& r) { ++n; MUST(&o == t.begin() + 0); MUST(r.a == w.a && r.b == w.b); }); MUST(n == 1); MUST(&p == t.begin() + 0); FAILED(); done(); }
void all__upsertDup0_1(A3, ARGS(w)) { FILL; R(w); dupIn = 0; dupAt = 1; int n = 0; Row& p = t.upsert(Row(w), [&](Row& o, Row&& r) { ++n; MUST(&o == t.begin() + 1); MUST(r.a == w.a && r.b == w.b); }); MUST(n == 1); MUST(&p == t.begin() + 1); FAILED(); done(); }
void all__upsertDup0_2(A3, ARGS(w)) { FILL; R(w); dupIn = 0; dupAt = 2; int n = 0; Row& p = t.upsert(Row(w), [&](Row& o, Row&& r) { ++n; MUST(&o == t.begin() + 2); MUST(r.a == w.a && r.b == w.b); }); MUST(n == 1); MUST(&p == t.begin() + 2); FAILED(); done(); }
void all__upsertDup1_0(A3, ARGS(w)) { FILL; R(w); dupIn = 1; dupAt = 0; int n = 0; Row& p = t.upsert(w, [&](Row& o, Row&& r) { ++n; MUST(&o == t.begin() + 0); MUST(r.a == w.a && r.b == w.b); }); MUST(n == 1); MUST(&p == t.begin() + 0); FAILED(); done(); }
void all__upsertDup1_1(A3, ARGS(w)) { FILL; R(w); dupIn = 1; dupAt = 1; int n = 0; Row& p = t.upsert(w, [&](Row& o, Row&& r) { ++n; MUST(&o == t.begin() + 1); MUST(r.a == w.a && r.b == w.b); }); MUST(n == 1); MUST(&p == t.begin() + 1); FAILED(); done(); }
void all__upsertDup2_1(A3, ARGS(w)) { FILL; R(w); dupIn = 2; dupAt = 1; int n = 0; Row& p = t.upsert(w, [&](Row& o, Row&& r) { ++n; MUST(&o == t.begin() + 1); MUST(r.a == w.a && r.b == w.b); }); MUST(n == 1); MUST(&p == t.begin() + 1); FAILED(); done(); }
void all__upsertDup1_2(A3, ARGS(w)) { FILL; R(w); dupIn = 1; dupAt = 2; int n = 0; Row& p = t.upsert(w, [&](Row& o, Row&& r) { ++n; MUST(&o == t.begin() + 2); MUST(r.a == w.a && r.b == w.b); }); MUST(n == 1); MUST(&p == t.begin() + 2); FAILED(); done(); }
void any__upsertThrow1(A3, ARGS(w)) { FILL; R(w); throwIn = 1; done(); try { t.upsert(Row(w), [](Row&, Row&&) { NEVER; }); } catch (...) { FAILED(); return; } look(t, 4); }
void all__find0(A3, uint64_t k) { FILL; MUST((t.template find<0>(k) == kj::none)); MUST((t.template find<1>(k) == kj::none)); MUST((c.template find<I0>(k) == kj::none)); wantFind = 0; KJ_IF_SOME(r, t.template find<0>(k)) MUST(&r == t.begin() + 0); else NEVER; KJ_IF_SOME(r, t.template find<I1>(k)) MUST(&r == t.begin() + 0); else NEVER; KJ_IF_SOME(r, c.template find<0>(k)) MUST(&r == t.begin() + 0); else NEVER; KJ_IF_SOME(r, c.template find<I1>(k)) MUST(&r == t.begin() + 0); else NEVER; FAILED(); done(); }
void all__find1(A3, uint64_t k) { FILL; MUST((t.template find<0>(k) == kj::none)); MUST((t.template find<1>(k) == kj::none)); MUST((c.template find<I0>(k) == kj::none)); wantFind = 1; KJ_IF_SOME(r, t.template find<0>(k)) MUST(&r == t.begin() + 1); else NEVER; KJ_IF_SOME(r, t.template find<I1>(k)) MUST(&r == t.begin() + 1); else NEVER; KJ_IF_SOME(r, c.template find<0>(k)) MUST(&r == t.begin() + 1); else NEVER; KJ_IF_SOME(r, c.template find<I1>(k)) MUST(&r == t.begin() + 1); else NEVER; FAILED(); done(); }
void all__find2(A3, uint64_t k) { FILL; MUST((t.template find<0>(k) == kj::none)); MUST((t.template find<1>(k) == kj::none)); MUST((c.template find<I0>(k) == kj::none)); wantFind = 2; KJ_IF_SOME(r, t.template find<0>(k)) MUST(&r == t.begin() + 2); else NEVER; KJ_IF_SOME(r, t.template find<I1>(k)) MUST(&r == t.begin() + 2); else NEVER; KJ_IF_SOME(r, c.template find<0>(k)) MUST(&r == t.begin() + 2); else NEVER; KJ_IF_SOME(r, c.template find<I1>(k)) MUST(&r == t.begin() + 2); else NEVER; FAILED(); done(); }
#define CREATE [&]() -> Row { step(30); MUST(t.size() == 3); if (nd(8)) throw 2; return Row(w); }
void any__createNew0(A3, ARGS(w)) { FILL; R(w); done(); try { Row& p = t.template findOrCreate<0>(w.a, CREATE); MUST(&p == t.begin() + 3); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); ROW(t, 0, x); }
void any__createNew1(A3, ARGS(w)) { FILL; R(w); done(); try { Row& p = t.template findOrCreate<I1>(w.b, CREATE); MUST(&p == t.begin() + 3); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); }
void all__createFound0_0(A3, uint64_t k) { FILL; dupIn = 0; dupAt = 0; Row& p = t.template findOrCreate<0>(k, []() -> Row { NEVER; return Row(); }); MUST(&p == t.begin() + 0); FAILED(); done(); }
void all__createFound0_1(A3, uint64_t k) { FILL; dupIn = 0; dupAt = 1; Row& p = t.template findOrCreate<0>(k, []() -> Row { NEVER; return Row(); }); MUST(&p == t.begin() + 1); FAILED(); done(); }
void all__createFound0_2(A3, uint64_t k) { FILL; dupIn = 0; dupAt = 2; Row& p = t.template findOrCreate<0>(k, []() -> Row { NEVER; return Row(); }); MUST(&p == t.begin() + 2); FAILED(); done(); }
void all__createFound1_0(A3, uint64_t k) { FILL; dupIn = 1; dupAt = 0; Row& p = t.template findOrCreate<1>(k, []() -> Row { NEVER; return Row(); }); MUST(&p == t.begin() + 0); FAILED(); done(); }
void all__createFound1_1(A3, uint64_t k) { FILL; dupIn = 1; dupAt = 1; Row& p = t.template findOrCreate<1>(k, []() -> Row { NEVER; return Row(); }); MUST(&p == t.begin() + 1); FAILED(); done(); }
void all__createFound1_2(A3, uint64_t k) { FILL; dupIn = 1; dupAt = 2; Row& p = t.template findOrCreate<1>(k, []() -> Row { NEVER; return Row(); }); MUST(&p == t.begin() + 2); FAILED(); done(); }
void any__createDupOther0(A3, ARGS(w)) { FILL; R(w); dupIn = 1; dupAt = 1; done(); try { t.template findOrCreate<0>(w.a, CREATE); } catch (...) { FAILED(); return; } NEVER; }
void any__createDupOther1(A3, ARGS(w)) { FILL; R(w); dupIn = 0; dupAt = 1; done(); try { t.template findOrCreate<1>(w.b, CREATE); } catch (...) { FAILED(); return; } NEVER; }
void any__createDupOther2(A3, ARGS(w)) { FILL; R(w); dupIn = 2; dupAt = 1; done(); try { t.template findOrCreate<1>(w.b, CREATE); } catch (...) { FAILED(); return; } NEVER; }
void any__createThrowOther0(A3, ARGS(w)) { FILL; R(w); throwIn = 1; done(); try { t.template findOrCreate<0>(w.a, CREATE); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); }
void any__createThrowOther1(A3, ARGS(w)) { FILL; R(w); throwIn = 0; done(); try { t.template findOrCreate<1>(w.b, CREATE); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); }
void any__createThrowOther2(A3, ARGS(w)) { FILL; R(w); throwIn = 2; done(); try { t.template findOrCreate<1>(w.b, CREATE); } catch (...) { FAILED(); return; } look(t, 4); ROW(t, 3, w); }
// erasing: the last row takes the place of the erased one
void all__erase0(A3) { FILL; t.erase(t.begin()[0]); look(t, 2); ROW(t, 0, z); ROW(t, 1, y); done(); }
void all__erase1(A3) { FILL; t.erase(t.begin()[1]); look(t, 2); ROW(t, 0, x); ROW(t, 1, z); done(); }
void all__erase2(A3) { FILL; t.erase(t.begin()[2]); look(t, 2); ROW(t, 0, x); ROW(t, 1, y); done(); }
void all__eraseAllRows(A3) { FILL; t.erase(t.begin()[0]); t.erase(t.begin()[1]); t.erase(t.begin()[0]); look(t, 0); t.insert(Row(y)); look(t, 1); ROW(t, 0, y); done(); }
void all__release0(A3) { FILL; Row r = t.release(t.begin()[0]); MUST(r.a == x.a && r.b == x.b); look(t, 2); ROW(t, 0, z); ROW(t, 1, y); done(); }
void all__release1(A3) { FILL; Row r = t.release(t.begin()[1]); MUST(r.a == y.a && r.b == y.b); look(t, 2); ROW(t, 0, x); ROW(t, 1, z); done(); }
void all__release2(A3) { FILL; Row r = t.release(t.begin()[2]); MUST(r.a == z.a && r.b == z.b); look(t, 2); ROW(t, 0, x); ROW(t, 1, y); done(); }
void all__eraseMatch(A3, uint64_t k) { FILL; MUST((!t.template eraseMatch<0>(k))); FAILED(); wantFind = 1; MUST((t.template eraseMatch<I1>(k))); look(t, 2); ROW(t, 0, x); ROW(t, 1, z); wantFind = 0; MUST((t.template eraseMatch<0>(k))); look(t, 1); ROW(t, 0, z); done(); }
void rejD__eraseEnd(A3) { FILL; t.erase(*t.end()); done(); }
void all__clear(A3) { FILL; t.clear(); look(t, 0); t.insert(Row(y)); look(t, 1); ROW(t, 0, y); done(); }
void all__reserve(A3) { FILL; t.reserve(8); FAILED(); MUST(t.capacity() >= 8); done(); }
void all__none(A3) { FILL; size_t n = t.eraseAll([](Row&) { return false; }); MUST(n == 0); FAILED(); done(); }
// the rows an index yields, in its order
void all__ordered(A3) { FILL; I0::ord[0] = 2; I0::ord[1] = 0; I0::ord[2] = 1; auto v = t.ordered<0>(); auto i = v.begin(), e = v.end(); MUST(&*i == t.begin() + 2); MUST(i->a == z.a); ++i; MUST(!(i == e)); MUST(&*i == t.begin()); i++; MUST(&*i == t.begin() + 1); ++i; MUST(i == e); auto cv = c.template ordered<I0>(); auto ci = cv.begin(); MUST(&*ci == t.begin() + 2); ++ci; ++ci; MUST(&*ci == t.begin() + 1); ++ci; MUST(ci == cv.end()); FAILED(); done(); }
void all__range(A3) { FILL; size_t o[3] = { 1, 2, 0 }; size_t *b = o, *e = o + 2; auto v = t.range<0>(b, e); auto i = v.begin(); MUST(&*i == t.begin() + 1); ++i; MUST(&*i == t.begin() + 2); ++i; MUST(i == v.end()); auto cv = c.template range<I1>(b, e); auto ci = cv.begin(); MUST(&*ci == t.begin() + 1); auto s = t.template seek<0>(e); MUST(&*s == t.begin()); done(); }
// several rows at once
void all__eraseRange01(A3) { FILL; size_t o[2] = { 0, 1 }; size_t *b = o, *e = o + 2; size_t n = t.eraseRange<0>(b, e); MUST(n == 2); look(t, 1); ROW(t, 0, z); done(); }
void all__eraseRange02(A3) { FILL; size_t o[2] = { 0, 2 }; size_t *b = o, *e = o + 2; size_t n = t.eraseRange<0>(b, e); MUST(n == 2); look(t, 1); ROW(t, 0, y); done(); }
void all__eraseRange10(A3) { FILL; size_t o[2] = { 1, 0 }; size_t *b = o, *e = o + 2; size_t n = t.eraseRange<0>(b, e); MUST(n == 2); look(t, 1); ROW(t, 0, z); done(); }
void all__eraseRange12(A3) { FILL; size_t o[2] = { 1, 2 }; size_t *b = o, *e = o + 2; size_t n = t.eraseRange<0>(b, e); MUST(n == 2); look(t, 1); ROW(t, 0, x); done(); }
void all__eraseRange20(A3) { FILL; size_t o[2] = { 2, 0 }; size_t *b = o, *e = o + 2; size_t n = t.eraseRange<0>(b, e); MUST(n == 2); look(t, 1); ROW(t, 0, y); done(); }
void all__eraseRange21(A3) { FILL; size_t o[2] = { 2, 1 }; size_t *b = o, *e = o + 2; size_t n = t.eraseRange<0>(b, e); MUST(n == 2); look(t, 1); ROW(t, 0, x); done(); }
void all__eraseRange012(A3) { FILL; size_t o[3] = { 0, 1, 2 }; size_t *b = o, *e = o + 3; size_t n = t.eraseRange<1>(b, e); MUST(n == 3); look(t, 0); done(); }
void all__eraseRange021(A3) { FILL; size_t o[3] = { 0, 2, 1 }; size_t *b = o, *e = o + 3; size_t n = t.eraseRange<1>(b, e); MUST(n == 3); look(t, 0); done(); }
void all__eraseRange102(A3) { FILL; size_t o[3] = { 1, 0, 2 }; size_t *b = o, *e = o + 3; size_t n = t.eraseRange<1>(b, e); MUST(n == 3); look(t, 0); done(); }
void all__eraseRange120(A3) { FILL; size_t o[3] = { 1, 2, 0 }; size_t *b = o, *e = o + 3; size_t n = t.eraseRange<1>(b, e); MUST(n == 3); look(t, 0); done(); }
void all__eraseRange201(A3) { FILL; size_t o[3] = { 2, 0, 1 }; size_t *b = o, *e = o + 3; size_t n = t.eraseRange<1>(b, e); MUST(n == 3); look(t, 0); done(); }
void all__eraseRange210(A3) { FILL; size_t o[3] = { 2, 1, 0 }; size_t *b = o, *e = o + 3; size_t n = t.eraseRange<1>(b, e); MUST(n == 3); look(t, 0); done(); }
void all__eraseIf0(A3) { xb = 1; yb = 2; zb = 3; FILL; size_t n = t.eraseAll([](Row& r) { return r.b == 1; }); MUST(n == 1); look(t, 2); MUST((t.begin()[0].b == 2 && t.begin()[1].b == 3) || (t.begin()[0].b == 3 && t.begin()[1].b == 2)); done(); }
void all__eraseIf1(A3) { xb = 1; yb = 2; zb = 3; FILL; size_t n = t.eraseAll([](Row& r) { return r.b == 2; }); MUST(n == 1); look(t, 2); MUST((t.begin()[0].b == 1 && t.begin()[1].b == 3) || (t.begin()[0].b == 3 && t.begin()[1].b == 1)); done(); }
void all__eraseIf2(A3) { xb = 1; yb = 2; zb = 3; FILL; size_t n = t.eraseAll([](Row& r) { return r.b == 3; }); MUST(n == 1); look(t, 2); MUST((t.begin()[0].b == 1 && t.begin()[1].b == 2) || (t.begin()[0].b == 2 && t.begin()[1].b == 1)); done(); }
void all__eraseIf01(A3) { xb = 1; yb = 2; zb = 3; FILL; size_t n = t.eraseAll([](Row& r) { return r.b == 1 || r.b == 2; }); MUST(n == 2); look(t, 1); ROW(t, 0, z); done(); }
void all__eraseIf02(A3) { xb = 1; yb = 2; zb = 3; FILL; size_t n = t.eraseAll([](Row& r) { return r.b == 1 || r.b == 3; }); MUST(n == 2); look(t, 1); ROW(t, 0, y); done(); }
void all__eraseIf12(A3) { xb = 1; yb = 2; zb = 3; FILL; size_t n = t.eraseAll([](Row& r) { return r.b == 2 || r.b == 3; }); MUST(n == 2); look(t, 1); ROW(t, 0, x); done(); }
void all__eraseIf012(A3) { xb = 1; yb = 2; zb = 3; FILL; size_t n = t.eraseAll([](Row& r) { return r.b == 1 || r.b == 2 || r.b == 3; }); MUST(n == 3); look(t, 0); done(); }
void all__eraseRange1(A3) { FILL; size_t o[1] = { 0 }; size_t *b = o, *e = o + 1; size_t n = t.eraseRange<0>(b, e); MUST(n == 1); look(t, 2); ROW(t, 0, z); ROW(t, 1, y); done(); }
}

// kj::HashIndex / HashMap / HashSet: exactly the keys inserted and not erased are found, whatever their hash codes.
#include "obs.h"
#include <kj/map.h>
namespace vp {
using namespace kj;
struct Key {
  int id; uint h;
  Key(int i, uint x): id(i), h(x) {} Key(const Key& o): id(o.id), h(o.h) {} Key& operator=(const Key& o) { id = o.id; h = o.h; return *this; }
  bool operator==(const Key& o) const { return id == o.id; }
  uint hashCode() const { return h; }
};
// hash codes that share buckets (with equal and with different codes), are neighbours, or wrap around the end of the bucket array
inline uint pick(int k) { if (nd(2 * k)) { if (nd(2 * k + 1)) return 0; return 16; } if (nd(2 * k + 1)) return 15; return 31; }
#define KEY(n, i) Key n(i, pick(i))
typedef HashMap<Key, uint64_t> Map;
template <typename M> inline void has(M& m, const Key& k, uint64_t v) {
  KJ_IF_SOME(x, m.find(k)) MUST(x == v /* the value stored for this key is found */); else NEVER;
  KJ_IF_SOME(e, m.findEntry(k)) MUST(e.key.id == k.id && e.value == v); else NEVER;
}
template <typename M> inline void hasNot(M& m, const Key& k) { MUST(m.find(k) == kj::none /* an absent key is not found */); MUST(m.findEntry(k) == kj::none); }
#define IS(n) MUST(m.size() == n); MUST(m.end() == m.begin() + n)
#define FILL KEY(a, 1); KEY(b, 2); KEY(c, 3); Map m; const Map& cm = m; (void)cm; m.insert(a, x); m.insert(b, y); m.insert(c, z)
#define V3 uint64_t x, uint64_t y, uint64_t z
void all__empty() { KEY(a, 1); Map m; const Map& cm = m; IS(0); hasNot(m, a); hasNot(cm, a); MUST(!m.erase(a)); done(); }
void all__insert1(uint64_t x, uint64_t y) { KEY(a, 1); KEY(b, 2); Map m; const Map& cm = m; auto& e = m.insert(a, x); MUST(e.key.id == 1 && e.value == x); IS(1); has(m, a, x); has(cm, a, x); hasNot(m, b); hasNot(cm, b); m.insert(b, y); IS(2); has(m, a, x); has(m, b, y); done(); }
void all__insert3(V3) { FILL; IS(3); has(m, a, x); has(m, b, y); has(m, c, z); has(cm, b, y); hasNot(m, Key(4, a.h)); hasNot(m, Key(4, c.h)); hasNot(m, Key(4, 7)); done(); }
void all__eraseA(V3) { FILL; MUST(m.erase(a)); IS(2); hasNot(m, a); has(m, b, y); has(m, c, z); MUST(!m.erase(a)); IS(2); m.insert(a, x + 1); IS(3); has(m, a, x + 1); has(m, b, y); has(m, c, z); done(); }
void all__eraseB(V3) { FILL; MUST(m.erase(b)); IS(2); hasNot(m, b); has(m, a, x); has(m, c, z); m.insert(b, y + 1); IS(3); has(m, b, y + 1); has(m, a, x); has(m, c, z); done(); }
void all__eraseC(V3) { FILL; MUST(m.erase(c)); IS(2); hasNot(m, c); has(m, a, x); has(m, b, y); m.insert(c, z + 1); IS(3); has(m, c, z + 1); has(m, a, x); has(m, b, y); done(); }
#define ERASES(n, p, q, r, rv) void all__erase##n(V3) { FILL; MUST(m.erase(p)); MUST(m.erase(q)); IS(1); hasNot(m, p); hasNot(m, q); has(m, r, rv); m.insert(q, 5); IS(2); has(m, q, 5); has(m, r, rv); hasNot(m, p); MUST(m.erase(r)); IS(1); hasNot(m, r); has(m, q, 5); done(); }
ERASES(AB, a, b, c, z) ERASES(BA, b, a, c, z) ERASES(AC, a, c, b, y) ERASES(CA, c, a, b, y) ERASES(BC, b, c, a, x) ERASES(CB, c, b, a, x)
void all__small(uint64_t x, uint64_t y) { KEY(a, 1); KEY(b, 2); Map m; m.insert(a, x); MUST(m.erase(a)); IS(0); hasNot(m, a); m.insert(b, y); IS(1); has(m, b, y); hasNot(m, a); MUST(m.erase(b)); IS(0); hasNot(m, b); m.insert(a, y); m.insert(b, x); IS(2); has(m, a, y); has(m, b, x); done(); }
// an erased slot in front of a key must not hide that the key is there
#define DUP(n, p, q, qv, r, rv) void any__dup##n(V3) { FILL; m.erase(p); done(); try { m.insert(q, 9); } catch (...) { IS(2); has(m, q, qv); has(m, r, rv); hasNot(m, p); return; } NEVER; }
DUP(AB, a, b, y, c, z) DUP(AC, a, c, z, b, y) DUP(BA, b, a, x, c, z) DUP(BC, b, c, z, a, x) DUP(CA, c, a, x, b, y) DUP(CB, c, b, y, a, x)
#define DUP2(n, p, q, r, rv) void any__dup2##n(V3) { FILL; m.erase(p); m.erase(q); done(); try { m.insert(r, 9); } catch (...) { IS(1); has(m, r, rv); hasNot(m, p); hasNot(m, q); return; } NEVER; } \
  void all__up2##n(V3, uint64_t w) { FILL; m.erase(p); m.erase(q); m.upsert(r, w); IS(1); has(m, r, w); auto& v = m.findOrCreate(r, []() -> Map::Entry { NEVER; return { Key(0, 0), 0 }; }); MUST(v == w); m.insert(q, rv); IS(2); has(m, q, rv); has(m, r, w); hasNot(m, p); done(); }
DUP2(AB, a, b, c, z) DUP2(BA, b, a, c, z) DUP2(AC, a, c, b, y) DUP2(CA, c, a, b, y) DUP2(BC, b, c, a, x) DUP2(CB, c, b, a, x)
// a long chain of one hash code with any set of holes in it
void all__chain(uint64_t w) {
  Map m; bool in[5]; for (int i = 0; i < 5; i++) m.insert(Key(i, 12), i); int n = 5;
  for (int i = 0; i < 5; i++) { in[i] = nd(i); if (!in[i]) { MUST(m.erase(Key(i, 12))); n--; } }
  IS(n); for (int i = 0; i < 5; i++) if (in[i]) has(m, Key(i, 12), i); else hasNot(m, Key(i, 12));
  for (int i = 4; i >= 0; i--) if (in[i]) { m.upsert(Key(i, 12), w); IS(n); has(m, Key(i, 12), w); }
  for (int i = 0; i < 5; i++) if (!in[i]) { m.insert(Key(i, 12), 50); n++; IS(n); has(m, Key(i, 12), 50); }
  for (int i = 0; i < 5; i++) has(m, Key(i, 12), in[i] ? w : 50);
  for (int i = 0; i < 5; i++) { MUST(m.erase(Key(i, 12))); hasNot(m, Key(i, 12)); IS(4 - i); }
  done();
}
void any__dup0(V3) { FILL; done(); try { m.insert(c, 9); } catch (...) { IS(3); has(m, a, x); has(m, b, y); has(m, c, z); return; } NEVER; }
#define UPS(n, p, q, qv, r, rv) void all__upsert##n(V3, uint64_t w) { FILL; m.erase(p); int k = 0; auto& e = m.upsert(q, w, [&](uint64_t& o, uint64_t&& v) { k++; MUST(o == qv && v == w); o = v + 1; }); MUST(k == 1); MUST(e.key.id == q.id && e.value == w + 1); IS(2); has(m, q, w + 1); has(m, r, rv); hasNot(m, p); \
  m.upsert(r, w); IS(2); has(m, r, w); m.upsert(p, 8, [](uint64_t&, uint64_t&&) { NEVER; }); IS(3); has(m, p, 8); has(m, q, w + 1); has(m, r, w); m.erase(r); m.upsert(r, 3); IS(3); has(m, r, 3); done(); }
UPS(AB, a, b, y, c, z) UPS(BC, b, c, z, a, x) UPS(CA, c, a, x, b, y)
#define FOC(n, p, q, qv, r, rv) void all__create##n(V3, uint64_t w) { FILL; m.erase(p); auto& v = m.findOrCreate(q, []() -> Map::Entry { NEVER; return { Key(0, 0), 0 }; }); MUST(v == qv); IS(2); int k = 0; \
  auto& u = m.findOrCreate(p, [&]() -> Map::Entry { k++; return { p, w }; }); MUST(k == 1); MUST(u == w); IS(3); has(m, p, w); has(m, q, qv); has(m, r, rv); auto& e = m.findOrCreateEntry(r, []() -> Map::Entry { NEVER; return { Key(0, 0), 0 }; }); MUST(e.key.id == r.id && e.value == rv); done(); }
FOC(AB, a, b, y, c, z) FOC(BC, b, c, z, a, x) FOC(CA, c, a, x, b, y)
#define CRT(n, p, q, qv, r, rv) void any__createThrows##n(V3) { FILL; m.erase(p); done(); try { m.findOrCreate(p, []() -> Map::Entry { throw 1; }); } catch (...) { IS(2); hasNot(m, p); has(m, q, qv); has(m, r, rv); return; } NEVER; }
CRT(AB, a, b, y, c, z) CRT(BC, b, c, z, a, x) CRT(CA, c, a, x, b, y)
void all__release(V3) { FILL; KJ_IF_SOME(e, m.findEntry(a)) { auto r = m.release(e); MUST(r.key.id == 1 && r.value == x); } else NEVER; IS(2); hasNot(m, a); has(m, b, y); has(m, c, z); KJ_IF_SOME(e, m.findEntry(b)) m.erase(e); else NEVER; IS(1); hasNot(m, b); has(m, c, z); done(); }
void all__clear(V3) { FILL; m.erase(b); m.clear(); IS(0); hasNot(m, a); hasNot(m, b); hasNot(m, c); m.insert(b, y); IS(1); has(m, b, y); hasNot(m, a); done(); }
void all__reserve(V3) { FILL; m.erase(b); m.reserve(20); IS(2); has(m, a, x); has(m, c, z); hasNot(m, b); m.insert(b, z); has(m, b, z); IS(3); done(); }
void all__eraseAll(V3) { FILL; size_t n = m.eraseAll([](Key& k, uint64_t& v) { return k.id != 2; }); MUST(n == 2); IS(1); has(m, b, y); hasNot(m, a); hasNot(m, c); done(); }
// erased slots count towards the load: probing always ends
inline Key nth(int i) { return Key(i, uint(i)); }
#define CYC(i) m.insert(nth(i), i); MUST(m.erase(nth(i)))
void all__cyc1() { Map m; CYC(0); CYC(1); done(); }
void all__cycles() { Map m; CYC(0); CYC(1); CYC(2); CYC(3); CYC(4); CYC(5); CYC(6); CYC(7); hasNot(m, nth(0)); hasNot(m, nth(3)); IS(0); m.insert(nth(2), 2); has(m, nth(2), 2); hasNot(m, nth(1)); done(); }
void all__cycles2() { Map m; m.insert(nth(5), 5); CYC(0); CYC(1); CYC(2); CYC(3); CYC(4); CYC(6); CYC(7); CYC(8); CYC(9); hasNot(m, nth(0)); has(m, nth(5), 5); IS(1); done(); }
typedef HashSet<Key> Set;
void all__set() { KEY(a, 1); KEY(b, 2); KEY(c, 3); Set s; const Set& cs = s; s.insert(a); s.insert(b); MUST(s.contains(a) && cs.contains(b) && !s.contains(c)); s.insert(c); MUST(cs.contains(c)); MUST(s.size() == 3); s.eraseMatch(a); MUST(!s.contains(a) && s.contains(b) && s.contains(c)); s.upsert(b, [](Key&, Key&&) {}); MUST(s.size() == 2); s.upsert(a, [](Key&, Key&&) { NEVER; }); MUST(s.size() == 3 && s.contains(a)); done(); }
}

// kj::TreeIndex / TreeMap / TreeSet: keys in any order, found exactly while present, iterated in key order.
#include "obs.h"
#include <kj/map.h>
#include <stdlib.h>
void* operator new(size_t);
extern "C" int posix_memalign(void** p, size_t a, size_t n) noexcept { *p = ::operator new(n); return 0; }
namespace vp {
using namespace kj;
struct Key {
  uint64_t v;
  Key(uint64_t x): v(x) {} Key(const Key& o): v(o.v) {} Key& operator=(const Key& o) { v = o.v; return *this; }
  bool operator==(const Key& o) const { if (v == o.v) return true; return false; }
  bool operator<(const Key& o) const { if (v < o.v) return true; return false; }
};
void skip() noexcept;                       // this path is outside the request
#define ONLY(c) do { if (!(c)) { skip(); return; } } while (0)
typedef TreeMap<Key, uint64_t> Map;
template <typename M> inline void has(M& m, const Key& k, uint64_t v) {
  KJ_IF_SOME(x, m.find(k)) MUST(x == v /* the value stored for this key is found */); else NEVER;
  KJ_IF_SOME(e, m.findEntry(k)) MUST(e.key.v == k.v && e.value == v); else NEVER;
}
template <typename M> inline void hasNot(M& m, const Key& k) { MUST(m.find(k) == kj::none /* an absent key is not found */); MUST(m.findEntry(k) == kj::none); }
template <typename M> inline void order0(M& m) { MUST(m.size() == 0); MUST(m.begin() == m.end()); }
template <typename M> inline void order1(M& m, const Key& a) { MUST(m.size() == 1); auto i = m.begin(); MUST(!(i == m.end())); MUST(i->key.v == a.v); ++i; MUST(i == m.end()); --i; MUST(i->key.v == a.v); MUST(i == m.begin()); }
template <typename M> inline void order2(M& m, const Key& a, const Key& b) { MUST(m.size() == 2); auto i = m.begin(); MUST(i->key.v == a.v); ++i; MUST(!(i == m.end())); MUST((*i).key.v == b.v); i++; MUST(i == m.end()); i--; MUST(i->key.v == b.v); --i; MUST(i->key.v == a.v); MUST(i == m.begin()); }
template <typename M> inline void order3(M& m, const Key& a, const Key& b, const Key& c) { MUST(m.size() == 3); auto i = m.begin(); MUST(i->key.v == a.v); ++i; MUST(i->key.v == b.v); ++i; MUST(!(i == m.end())); MUST(i->key.v == c.v); ++i; MUST(i == m.end()); --i; MUST(i->key.v == c.v); --i; MUST(i->key.v == b.v); --i; MUST(i == m.begin()); MUST(i->key.v == a.v); }
#define K3 uint64_t ka, uint64_t kb, uint64_t kc, uint64_t x, uint64_t y, uint64_t z
#define START ONLY(ka < kb && kb < kc); Key a(ka), b(kb), c(kc); Map m; const Map& cm = m; (void)cm
#define PUT3(p, pv, q, qv, r, rv) m.insert(p, pv); m.insert(q, qv); m.insert(r, rv)
void all__empty(uint64_t ka) { Key a(ka); Map m; const Map& cm = m; order0(m); order0(cm); hasNot(m, a); hasNot(cm, a); MUST(!m.erase(a)); m.clear(); order0(m); done(); }
#define ORDERS(F) F(ABC, a, x, b, y, c, z) F(ACB, a, x, c, z, b, y) F(BAC, b, y, a, x, c, z) F(BCA, b, y, c, z, a, x) F(CAB, c, z, a, x, b, y) F(CBA, c, z, b, y, a, x)
#define INS(n, p, pv, q, qv, r, rv) void all__insert##n(K3, uint64_t kd) { START; auto& e = m.insert(p, pv); MUST(e.key.v == p.v && e.value == pv); order1(m, p); has(m, p, pv); PUTREST(q, qv, r, rv) order3(m, a, b, c); order3(cm, a, b, c); has(m, a, x); has(m, b, y); has(cm, c, z); Key d(kd); ONLY(kd != ka && kd != kb && kd != kc); hasNot(m, d); hasNot(cm, d); MUST(!m.erase(d)); order3(m, a, b, c); done(); }
#define PUTREST(q, qv, r, rv) m.insert(q, qv); m.insert(r, rv);
ORDERS(INS)
#define DEL(n, p, pv, q, qv, r, rv) void all__eraseA##n(K3) { START; PUT3(p, pv, q, qv, r, rv); MUST(m.erase(a)); order2(m, b, c); hasNot(m, a); has(m, b, y); has(m, c, z); m.insert(a, x); order3(m, a, b, c); MUST(m.erase(c)); order2(m, a, b); MUST(m.erase(b)); order1(m, a); has(m, a, x); MUST(m.erase(a)); order0(m); hasNot(m, a); m.insert(c, z); order1(m, c); done(); } \
  void all__eraseB##n(K3) { START; PUT3(p, pv, q, qv, r, rv); MUST(m.erase(b)); order2(m, a, c); hasNot(m, b); has(m, a, x); has(m, c, z); m.insert(b, 7); order3(m, a, b, c); has(m, b, 7); MUST(m.erase(a)); order2(m, b, c); MUST(m.erase(c)); order1(m, b); has(m, b, 7); done(); } \
  void all__eraseC##n(K3) { START; PUT3(p, pv, q, qv, r, rv); KJ_IF_SOME(e, m.findEntry(c)) { auto g = m.release(e); MUST(g.key.v == c.v && g.value == z); } else NEVER; order2(m, a, b); hasNot(m, c); has(m, a, x); has(m, b, y); KJ_IF_SOME(e, m.findEntry(a)) m.erase(e); else NEVER; order1(m, b); has(m, b, y); m.clear(); order0(m); hasNot(m, b); done(); }
ORDERS(DEL)
#define DUP(n, p, pv, q, qv, r, rv) void any__dup##n(K3) { START; PUT3(p, pv, q, qv, r, rv); done(); try { m.insert(q, 9); } catch (...) { order3(m, a, b, c); has(m, q, qv); return; } NEVER; } \
  void all__upsert##n(K3, uint64_t w) { START; PUT3(p, pv, q, qv, r, rv); int k = 0; auto& e = m.upsert(q, w, [&](uint64_t& o, uint64_t&& v) { k++; MUST(o == qv && v == w); o = v + 1; }); MUST(k == 1); MUST(e.key.v == q.v && e.value == w + 1); order3(m, a, b, c); has(m, q, w + 1); has(m, p, pv); m.upsert(r, w); has(m, r, w); m.erase(p); m.upsert(p, 8, [](uint64_t&, uint64_t&&) { NEVER; }); order3(m, a, b, c); has(m, p, 8); has(m, q, w + 1); done(); } \
  void all__create##n(K3, uint64_t w) { START; PUT3(p, pv, q, qv, r, rv); m.erase(p); auto& v = m.findOrCreate(q, []() -> Map::Entry { NEVER; return { Key(0), 0 }; }); MUST(v == qv); int k = 0; auto& u = m.findOrCreate(p, [&]() -> Map::Entry { k++; return { p, w }; }); MUST(k == 1 && u == w); order3(m, a, b, c); has(m, p, w); auto& e = m.findOrCreateEntry(r, []() -> Map::Entry { NEVER; return { Key(0), 0 }; }); MUST(e.key.v == r.v && e.value == rv); done(); } \
  void any__createThrows##n(K3) { START; PUT3(p, pv, q, qv, r, rv); m.erase(p); done(); try { m.findOrCreate(p, []() -> Map::Entry { throw 1; }); } catch (...) { MUST(m.size() == 2); hasNot(m, p); has(m, q, qv); has(m, r, rv); return; } NEVER; }
ORDERS(DUP)
// a range holds the keys from the first bound on, up to but not including the second
#define RNG(n, p, pv, q, qv, r, rv) void all__range##n(K3, uint64_t f, uint64_t t) { START; ONLY(f <= t); PUT3(p, pv, q, qv, r, rv); Key from(f), to(t); auto g = m.range(from, to); auto i = g.begin(), e = g.end(); \
  if (f <= ka && ka < t) { MUST(!(i == e)); MUST(i->key.v == ka && i->value == x); ++i; } if (f <= kb && kb < t) { MUST(!(i == e)); MUST(i->key.v == kb && i->value == y); ++i; } if (f <= kc && kc < t) { MUST(!(i == e)); MUST(i->key.v == kc && i->value == z); ++i; } MUST(i == e); done(); }
ORDERS(RNG)
void all__crange(K3, uint64_t f, uint64_t t) { START; ONLY(f <= t); PUT3(b, y, a, x, c, z); Key from(f), to(t); auto g = cm.range(from, to); auto i = g.begin(), e = g.end();
  if (f <= ka && ka < t) { MUST(!(i == e)); MUST(i->key.v == ka); ++i; } if (f <= kb && kb < t) { MUST(!(i == e)); MUST(i->key.v == kb); ++i; } if (f <= kc && kc < t) { MUST(!(i == e)); MUST(i->key.v == kc); ++i; } MUST(i == e); done(); }
void all__eraseRange(K3, uint64_t f, uint64_t t) { START; ONLY(f <= t); PUT3(c, z, a, x, b, y); size_t n = m.eraseRange(Key(f), Key(t)); size_t w = 0;
  if (f <= ka && ka < t) { w++; hasNot(m, a); } else has(m, a, x); if (f <= kb && kb < t) { w++; hasNot(m, b); } else has(m, b, y); if (f <= kc && kc < t) { w++; hasNot(m, c); } else has(m, c, z); MUST(n == w); MUST(m.size() == 3 - w); done(); }
void all__eraseAll(K3) { START; PUT3(c, z, a, x, b, y); size_t n = m.eraseAll([&](Key& k, uint64_t& v) { return k.v != kb; }); MUST(n == 2); order1(m, b); has(m, b, y); hasNot(m, a); hasNot(m, c); done(); }
typedef TreeSet<Key> Set;
void all__set(K3) { ONLY(ka < kb && kb < kc); Key a(ka), b(kb), c(kc); Set s; s.insert(b); s.insert(a); MUST(s.find(a) != kj::none && s.find(b) != kj::none && s.find(c) == kj::none); s.insert(c); auto o = s.ordered(); auto i = o.begin(); MUST(i->v == ka); ++i; MUST(i->v == kb); ++i; MUST(i->v == kc); ++i; MUST(i == o.end()); s.eraseMatch(b); MUST(s.find(b) == kj::none); auto g = s.range(a, c); auto j = g.begin(); MUST(j->v == ka); ++j; MUST(j == g.end()); done(); }
// several leaves: an arbitrary key against keys 10, 20, ..., 10*N entered in ascending, descending or alternating order
template <int N, int O> inline void fill(Map& m) { for (int i = 0; i < N; i++) { int k = O == 0 ? i : O == 1 ? N - 1 - i : i % 2 ? (N + 1) / 2 + i / 2 : i / 2; m.insert(Key(10 * (k + 1)), uint64_t(k)); } }
template <typename M> inline void sorted(M& m, size_t n) { MUST(m.size() == n); size_t c = 0; uint64_t last = 0; for (auto& e: m) { MUST(last < e.key.v /* keys come in ascending order */); last = e.key.v; c++; } MUST(c == n /* every row is visited once */); auto i = m.end(), b = m.begin(); for (; !(i == b); c--) { --i; MUST(!(last < i->key.v)); last = i->key.v; } MUST(c == 0 /* and once backwards */); }
template <int N> inline void all(Map& m, uint64_t but) { for (int k = 0; k < N; k++) { KJ_IF_SOME(v, m.find(Key(10 * (k + 1)))) { MUST(v == uint64_t(k)); MUST(10 * (k + 1) != but); } else MUST(10 * (k + 1) == but /* every key not erased is found */); } }
template <int N, int O> inline void anyKey(uint64_t kd) {
  ONLY(kd > 0); Map m; fill<N, O>(m); sorted(m, N);
  KJ_IF_SOME(v, m.find(Key(kd))) {
    MUST(v < N && kd == 10 * (v + 1)); uint64_t k = v; MUST(m.erase(Key(kd))); sorted(m, N - 1); all<N>(m, kd); m.insert(Key(kd), uint64_t(k)); sorted(m, N); all<N>(m, 0);
  } else {
    m.insert(Key(kd), 99); sorted(m, N + 1); has(m, Key(kd), 99); all<N>(m, 0); MUST(m.erase(Key(kd))); sorted(m, N); hasNot(m, Key(kd)); all<N>(m, 0);
  }
  done();
}
#define ANYKEY(n) void all__anyKey##n##up(uint64_t kd) { anyKey<n, 0>(kd); } void all__anyKey##n##down(uint64_t kd) { anyKey<n, 1>(kd); } void all__anyKey##n##mixed(uint64_t kd) { anyKey<n, 2>(kd); }
ANYKEY(7) ANYKEY(14) ANYKEY(22)
// a search for an arbitrary key yields the first row not before it
template <int N> inline void seeks(uint64_t f, uint64_t t) { ONLY(f <= t); Map m; fill<N, 2>(m); auto r = m.range(Key(f), Key(t)); uint64_t last = 0; size_t c = 0; for (auto& e: r) { MUST(last < e.key.v); last = e.key.v; MUST(!(e.key.v < f) && e.key.v < t); c++; } size_t w = 0; for (int k = 1; k <= N; k++) if (!(10 * k < f) && 10 * k < t) w++; MUST(c == w); done(); }
void all__ranges9(uint64_t f, uint64_t t) { seeks<9>(f, t); }
void all__ranges17(uint64_t f) { seeks<17>(f, 155); }
void all__ranges17b(uint64_t t) { seeks<17>(25, t); }
}

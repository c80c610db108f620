// kj::Arena over a ghost memory: what it hands out is aligned, inside its own chunks and nobody else's; every object is destroyed exactly once, in reverse order.
#include "obs.h"
#include <kj/arena.h>
namespace vp {
typedef uint64_t U;
typedef unsigned char B;
void skip() noexcept;
extern B mem[1 << 17];                          // aligned to 4096 by contract (rules/p28.py)
constexpr int MAXC = 8, MAXO = 12;
// chunks
int nchunk; B* cbeg[MAXC]; B* cend[MAXC]; int cdel[MAXC]; bool frees;
inline void* grab(size_t n) {
  int k = nchunk++; MUST(k < MAXC); MUST(n <= 8192);
  B* p = mem + 16384 + k * 12288 + (nd(100 + k) ? 32 : 0) + (nd(200 + k) ? 16 : 0);
  cbeg[k] = p; cend[k] = p + n; cdel[k] = 0; return p;
}
inline void drop(void* p) { for (int k = 0; k < nchunk; k++) if (cbeg[k] == p) { MUST(cdel[k] == 0); cdel[k] = 1; return; } NEVER; }
// objects handed out
int nobj; B* obeg[MAXO]; B* oend[MAXO];
B* sbeg; B* send;
inline bool claim(const void* v, size_t n, size_t al) {
  B* p = (B*)v; if (((size_t)p & (al - 1)) != 0) return false;
  bool in = sbeg != nullptr && p >= sbeg + 24 && p + n <= send;
  for (int k = 0; k < nchunk; k++) if (cdel[k] == 0 && p >= cbeg[k] + 24 && p + n <= cend[k]) in = true;
  for (int k = 0; k < nobj; k++) if (p < oend[k] && obeg[k] < p + n) return false;
  obeg[nobj] = p; oend[nobj] = p + n; nobj++;
  return in;
}
inline void fresh() { nchunk = 0; nobj = 0; sbeg = send = nullptr; }
inline void over() { for (int k = 0; k < nchunk; k++) MUST(cdel[k] == 1); }
// things to allocate
template <size_t A, size_t N> struct alignas(A) Pod { B b[N]; };
int made, gone, live, lastGone; bool bad;
struct Obj { int id; Obj(int i = -1) { if (i == -1) i = made; id = i; made++; live++; } Obj(const Obj& o): id(o.id) { made++; live++; } ~Obj() { live--; gone++; if (id != lastGone - 1) bad = true; lastGone = id; id = -77; } };
struct Small { signed char id; Small(): id(made) { made++; live++; } ~Small() { live--; gone++; if (id != lastGone - 1) bad = true; lastGone = id; } };
struct alignas(32) Wide { int id; Wide(): id(made) { made++; live++; } ~Wide() { live--; gone++; if (id != lastGone - 1) bad = true; lastGone = id; } };
struct Bomb { int id; Bomb() { if (nd(50)) thrower(1); id = made; made++; live++; } ~Bomb() noexcept(false) { live--; gone++; if (id != lastGone - 1) bad = true; lastGone = id; } };
struct Mine { int id; Mine() { id = made; made++; live++; } ~Mine() noexcept(false) { live--; gone++; if (id != lastGone - 1) bad = true; lastGone = id; if (nd(60 + id)) thrower(2); } };
inline void start() { made = gone = live = 0; bad = false; lastGone = -1; }
template <typename T> inline void get(kj::Arena& a) { T& t = a.allocate<T>(); MUST(claim(&t, sizeof(T), alignof(T))); }
inline void any1(kj::Arena& a, int k) {
  if (nd(k)) get<char>(a); else if (nd(k + 1)) get<U>(a); else if (nd(k + 2)) get<Pod<16, 48>>(a); else if (nd(k + 3)) get<Pod<64, 64>>(a); else get<Pod<1, 37>>(a);
}
inline void any2(kj::Arena& a, int k) {
  if (nd(k)) get<char>(a); else if (nd(k + 1)) get<Obj>(a); else if (nd(k + 2)) get<Wide>(a); else if (nd(k + 3)) { auto r = a.allocateArray<uint16_t>(3); MUST(r.size() == 3); MUST(claim(r.begin(), 6, 2)); } else { auto r = a.allocateArray<Wide>(2); MUST(r.size() == 2); MUST(claim(r.begin(), 64, 32)); }
}
// packing
inline void pack(size_t hint, int n) { fresh(); { kj::Arena a(hint); for (int i = 0; i < n; i++) any1(a, 10 * i); } over(); done(); }
void all__pack1() { pack(1, 2); }
void all__pack128() { pack(128, 2); }
void all__pack512() { pack(512, 3); }
inline void packObj(size_t hint, int n) { fresh(); start(); { kj::Arena a(hint); for (int i = 0; i < n; i++) any2(a, 10 * i); lastGone = made; MUST(gone == 0); } over(); MUST(live == 0); MUST(gone == made); MUST(!bad); done(); }
void all__packObj1() { packObj(1, 2); }
void all__packObj256() { packObj(256, 2); }
// scratch space: used first, never freed; no object reaches outside it
inline void scratch(size_t n, int k) { fresh(); start(); sbeg = mem + 512; send = sbeg + n; { kj::Arena a(kj::arrayPtr(sbeg, n)); for (int i = 0; i < k; i++) any1(a, 10 * i); } over(); done(); }
void all__scratch0() { scratch(0, 1); }
void all__scratch24() { scratch(24, 1); }
void all__scratch64() { scratch(64, 2); }
void all__scratch256() { scratch(256, 2); }
void all__scratchUsed() { fresh(); sbeg = mem + 512; send = sbeg + 256; { kj::Arena a(kj::arrayPtr(sbeg, 256)); get<U>(a); get<U>(a); get<char>(a); MUST(nchunk == 0); get<Pod<8, 512>>(a); MUST(nchunk == 1); } over(); done(); }
// destruction
void all__order() { fresh(); start(); { kj::Arena a(64); get<Obj>(a); get<Small>(a); get<U>(a); get<Wide>(a); get<Obj>(a); MUST(live == 4); MUST(gone == 0); lastGone = made; } MUST(live == 0); MUST(gone == 4); MUST(!bad); over(); done(); }
void all__args() { fresh(); start(); { kj::Arena a(64); Obj& o = a.allocate<Obj>(5); MUST(o.id == 5); Obj& c = a.copy(o); MUST(&c != &o); MUST(c.id == 5); U x = nv(1); U& y = a.copy(x); MUST(y == x); MUST(&y != &x); U& z = a.allocate<U>(x); MUST(z == x); MUST(live == 2); } MUST(live == 0); MUST(gone == 2); over(); done(); }
inline void arr(size_t n) { fresh(); start(); { kj::Arena a(64); get<Obj>(a); auto r = a.allocateArray<Small>(n); MUST(r.size() == n); MUST(live == int(n) + 1); MUST(n == 0 || claim(r.begin(), n, 1)); auto w = a.allocateArray<Wide>(n); MUST(w.size() == n); MUST(n == 0 || claim(w.begin(), n * sizeof(Wide), 32)); lastGone = made; MUST(gone == 0); } MUST(live == 0); MUST(gone == made); MUST(!bad); over(); done(); }
void all__arr0() { arr(0); }
void all__arr1() { arr(1); }
void all__arr3() { arr(3); }
void all__ctorThrows() { fresh(); start(); bool threw = false; { kj::Arena a(64); get<Obj>(a); try { Bomb& b = a.allocate<Bomb>(); MUST(b.id == 1); } catch (...) { threw = true; } get<Obj>(a); MUST(gone == 0); lastGone = made; } MUST(made == (threw ? 2 : 3)); MUST(live == 0); MUST(gone == made); MUST(!bad); over(); done(); }
void all__arrThrows() { fresh(); start(); { kj::Arena a(64); get<Obj>(a); try { auto r = a.allocateArray<Bomb>(3); MUST(r.size() == 3); MUST(r[2].id == 3); } catch (...) { } MUST(gone == 0); lastGone = made; } MUST(live == 0); MUST(gone == made); MUST(!bad); over(); done(); }
void all__dtorThrows() { fresh(); start(); try { kj::Arena a(64); get<Mine>(a); get<Obj>(a); get<Mine>(a); lastGone = made; } catch (...) { } MUST(live == 0); MUST(gone == 3); MUST(!bad); over(); done(); }
// owned allocations: destroyed by their owner, and only by it
void all__own() { fresh(); start(); { kj::Arena a(64); { auto o = a.allocateOwn<Obj>(3); MUST(o->id == 3); MUST(claim(o.get(), sizeof(Obj), alignof(Obj))); MUST(live == 1); kj::Own<Obj> p = kj::mv(o); MUST(live == 1); } MUST(live == 0); MUST(gone == 1); auto q = a.allocateOwn<Wide>(); MUST(claim(q.get(), sizeof(Wide), 32)); MUST(live == 1); q = nullptr; MUST(live == 0); get<Obj>(a); } MUST(live == 0); MUST(gone == 3); over(); done(); }
void all__ownThrows() { fresh(); start(); { kj::Arena a(64); try { auto o = a.allocateOwn<Bomb>(); MUST(live == 1); } catch (...) { } MUST(live == 0); } MUST(gone == made); over(); done(); }
void all__ownArr() { fresh(); start(); { kj::Arena a(64); { auto r = a.allocateOwnArray<Wide>(2); MUST(r.size() == 2); MUST(claim(r.begin(), 64, 32)); MUST(live == 2); lastGone = 2; } MUST(live == 0); MUST(gone == 2); MUST(!bad); } MUST(gone == 2); over(); done(); }
void all__ownArrThrows() { fresh(); start(); { kj::Arena a(64); try { auto r = a.allocateOwnArray<Bomb>(2); MUST(live == 2); } catch (...) { } MUST(live == 0); } MUST(gone == made); over(); done(); }
void all__builder() { fresh(); start(); { kj::Arena a(64); { auto b = a.allocateOwnArrayBuilder<Obj>(3); MUST(b.capacity() == 3); b.add(7); b.add(8); MUST(claim(b.begin(), 3 * sizeof(Obj), alignof(Obj))); MUST(live == 2); lastGone = 9; } MUST(live == 0); MUST(!bad); auto b = a.allocateOwnArrayBuilder<Obj>(1); b.add(4); auto arr = b.finish(); MUST(arr.size() == 1); MUST(arr[0].id == 4); } MUST(live == 0); MUST(gone == 3); over(); done(); }
void all__unused() { fresh(); { kj::Arena a(64); } MUST(nchunk == 0); done(); }
}
void* operator new(size_t n) { return vp::grab(n); }
void operator delete(void* p) noexcept { if (p != nullptr) vp::drop(p); }
void operator delete(void* p, size_t) noexcept { if (p != nullptr) vp::drop(p); }

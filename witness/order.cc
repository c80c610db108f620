// kj::InsertionOrderIndex: rows are visited in the order they were inserted, whatever was erased in between.
#include "obs.h"
#include <kj/table.h>
namespace vp {
using namespace kj;
typedef uint64_t Row;
typedef Table<Row, InsertionOrderIndex> T;
template <typename M> inline void order0(M& t) { MUST(t.size() == 0); auto o = t.template ordered<0>(); MUST(o.begin() == o.end()); }
template <typename M> inline void order1(M& t, Row a) { MUST(t.size() == 1); auto o = t.template ordered<0>(); auto i = o.begin(); MUST(!(i == o.end())); MUST(*i == a); ++i; MUST(i == o.end()); --i; MUST(*i == a); }
template <typename M> inline void order2(M& t, Row a, Row b) { MUST(t.size() == 2); auto o = t.template ordered<0>(); auto i = o.begin(); MUST(*i == a); ++i; MUST(!(i == o.end())); MUST(*i == b); i++; MUST(i == o.end()); i--; MUST(*i == b); --i; MUST(*i == a); MUST(i == o.begin()); }
template <typename M> inline void order3(M& t, Row a, Row b, Row c) { MUST(t.size() == 3); auto o = t.template ordered<0>(); auto i = o.begin(); MUST(*i == a); ++i; MUST(*i == b); ++i; MUST(!(i == o.end())); MUST(*i == c); ++i; MUST(i == o.end()); --i; MUST(*i == c); --i; MUST(*i == b); --i; MUST(*i == a); MUST(i == o.begin()); }
#define FILL T t; const T& ct = t; (void)ct; t.insert(Row(a)); t.insert(Row(b)); t.insert(Row(c))
#define A3 Row a, Row b, Row c, Row d
void all__insert(A3) { T t; const T& ct = t; order0(t); order0(ct); t.insert(Row(a)); order1(t, a); t.insert(Row(b)); order2(t, a, b); t.insert(Row(c)); order3(t, a, b, c); order3(ct, a, b, c); done(); }
void all__many(A3) { T t; for (int i = 0; i < 12; i++) t.insert(Row(i)); int n = 0; for (Row& r: t.ordered<0>()) { MUST(r == n); n++; } MUST(n == 12); t.eraseAll([](Row& r) { return r % 3 == 0; }); n = 0; Row last = 0; for (Row& r: t.ordered<0>()) { MUST(last < r); MUST(r % 3 != 0); last = r; n++; } MUST(n == 8); done(); }
// the rows are stored as a b c; erasing moves the last stored row into the gap but must not change the order
void all__eraseA(A3) { FILL; t.erase(t.begin()[0]); order2(t, b, c); order2(ct, b, c); t.insert(Row(d)); order3(t, b, c, d); t.erase(t.begin()[0]); order2(t, b, d); t.erase(t.begin()[0]); order1(t, b); t.erase(t.begin()[0]); order0(t); t.insert(Row(a)); order1(t, a); done(); }
void all__eraseB(A3) { FILL; t.erase(t.begin()[1]); order2(t, a, c); t.insert(Row(d)); order3(t, a, c, d); t.erase(t.begin()[1]); order2(t, a, d); t.erase(t.begin()[1]); order1(t, a); t.insert(Row(b)); order2(t, a, b); done(); }
void all__eraseC(A3) { FILL; t.erase(t.begin()[2]); order2(t, a, b); t.insert(Row(d)); order3(t, a, b, d); t.erase(t.begin()[0]); order2(t, b, d); t.erase(t.begin()[0]); order1(t, b); t.insert(Row(c)); order2(t, b, c); t.insert(Row(a)); order3(t, b, c, a); done(); }
void all__release(A3) { FILL; Row r = t.release(t.begin()[1]); MUST(r == b); order2(t, a, c); r = t.release(t.begin()[0]); MUST(r == a); order1(t, c); done(); }
void all__clear(A3) { FILL; t.clear(); order0(t); t.insert(Row(c)); order1(t, c); t.insert(Row(a)); order2(t, c, a); done(); }
void all__clearEmpty(A3) { T t; t.clear(); order0(t); t.insert(Row(a)); order1(t, a); done(); }
void all__clearMoved(A3) { FILL; T u = kj::mv(t); t.clear(); order0(t); t.insert(Row(d)); order1(t, d); order3(u, a, b, c); done(); }
void all__reserve(A3) { FILL; t.reserve(30); order3(t, a, b, c); t.erase(t.begin()[0]); order2(t, b, c); done(); }
void all__move(A3) { FILL; T u = kj::mv(t); order3(u, a, b, c); u.erase(u.begin()[0]); order2(u, b, c); u.insert(Row(d)); order3(u, b, c, d); done(); }
void all__assign(A3) { FILL; T u; u.insert(Row(d)); u = kj::mv(t); order3(u, a, b, c); u.erase(u.begin()[1]); order2(u, a, c); done(); }
}

// Byte streams deliver exactly the bytes, in order; an owned descriptor is closed exactly once.
#include "obs.h"
#include <kj/io.h>
#include <sys/uio.h>
namespace vp {
using namespace kj;
typedef uint64_t U;
void skip() noexcept;
#define ONLY(c) if (!(c)) { skip(); return; }
#define ALL(N) for (size_t i = 0; i < N; i++)
// a source that delivers its content in arbitrary portions
struct Src: InputStream {
  const byte* p; size_t n, pos = 0; int k = 0;
  Src(const byte* p, size_t n): p(p), n(n) {} ~Src() noexcept(false) {}
  size_t tryRead(ArrayPtr<byte> b, size_t min) override {
    MUST(min <= b.size());
    size_t left = n - pos, lo = min < left ? min : left, hi = b.size() < left ? b.size() : left, m = lo;
    while (m < hi && nd(k++)) m++;
    for (size_t i = 0; i < m; i++) b.begin()[i] = p[pos + i];
    pos += m; return m;
  }
  void skip(size_t c) override { MUST(c <= n - pos); pos += c; }
};
// a sink that records
struct Sink: OutputStream {
  byte* o; size_t n = 0, cap; Sink(byte* o, size_t cap): o(o), cap(cap) {} ~Sink() noexcept(false) {}
  void write(ArrayPtr<const byte> d) override { MUST(n + d.size() <= cap); for (size_t i = 0; i < d.size(); i++) o[n + i] = d.begin()[i]; n += d.size(); }
};
#define DATA(N) byte data[N]; ALL(N) data[i] = (byte)nv(i)
// ---- input
template <typename S> inline size_t get(S& s, const byte* data, size_t N, size_t pos, int k) {
  // one arbitrary read; the next position
  size_t sz = nd(k) ? 1 : nd(k + 1) ? 2 : 4, min = nd(k + 2) ? 0 : nd(k + 3) ? 1 : sz;
  byte dst[6]; ALL(6) dst[i] = 99;
  size_t n = s.tryRead(arrayPtr(dst + 1, sz), min);
  MUST(n <= sz); MUST(pos + n <= N); MUST(n >= min || pos + n == N /* short only at the end */);
  MUST(dst[0] == 99);
  for (size_t i = 0; i < n; i++) MUST(dst[1 + i] == data[pos + i] /* the next bytes, in order */);
  for (size_t i = n + 1; i < 6; i++) if (i > sz) MUST(dst[i] == 99 /* nothing past the destination */);
  return pos + n;
}
template <typename S> inline size_t any(S& s, const byte* data, size_t N, size_t pos, int k) {
  if (nd(k)) return get(s, data, N, pos, k + 1);
  if (nd(k + 5)) { size_t c = nd(k + 6) ? 1 : 3; if (c > N - pos) return pos; s.skip(c); return pos + c; }
  auto b = s.tryGetReadBuffer(); MUST(b.size() > 0 || pos == N); MUST(pos + b.size() <= N); for (size_t i = 0; i < b.size(); i++) MUST(b.begin()[i] == data[pos + i]); return pos;
}
void all__bufIn2() { DATA(5); byte buf[2]; Src in(data, 5); { BufferedInputStreamWrapper s(in, arrayPtr(buf, 2)); size_t p = 0; p = any(s, data, 5, p, 0); p = any(s, data, 5, p, 20); } done(); }
void all__bufIn3() { DATA(5); byte buf[3]; Src in(data, 5); { BufferedInputStreamWrapper s(in, arrayPtr(buf, 3)); size_t p = 0; auto b = s.tryGetReadBuffer(); MUST(b.size() > 0); p = any(s, data, 5, p, 0); p = get(s, data, 5, p, 20); } done(); }
void all__bufEnd() { DATA(2); byte buf[2]; Src in(data, 2); { BufferedInputStreamWrapper s(in, arrayPtr(buf, 2)); size_t p = get(s, data, 2, 0, 0); p = get(s, data, 2, p, 20); p = get(s, data, 2, p, 30); } done(); }
void all__arrIn() { DATA(5); { ArrayInputStream s(arrayPtr(data, 5)); size_t p = any(s, data, 5, 0, 0); p = any(s, data, 5, p, 20); p = any(s, data, 5, p, 40); } done(); }
void rej__arrSkip() { DATA(2); ArrayInputStream s(arrayPtr(data, 2)); s.skip(3); done(); }
void all__read() { DATA(3); Src in(data, 3); byte dst[4]; dst[3] = 9; in.read(arrayPtr(dst, 3)); ALL(3) MUST(dst[i] == data[i]); MUST(dst[3] == 9); done(); }
void all__readMin() { DATA(3); Src in(data, 3); byte dst[4]; size_t n = in.read(arrayPtr(dst, 4), 2); MUST(n >= 2); MUST(n <= 3); for (size_t i = 0; i < n; i++) MUST(dst[i] == data[i]); done(); }
void rej__readShort() { DATA(3); Src in(data, 3); byte dst[4]; in.read(arrayPtr(dst, 4)); done(); }
void rej__readMinShort() { DATA(1); Src in(data, 1); byte dst[4]; in.read(arrayPtr(dst, 4), 2); done(); }
void all__getBuf() { DATA(3); ArrayInputStream s(arrayPtr(data, 3)); auto b = s.getReadBuffer(); MUST(b.begin() == data); MUST(b.size() == 3); done(); }
void rej__getBufEnd() { ArrayInputStream s(nullptr); s.getReadBuffer(); done(); }
// ---- output: after the last flush the sink holds the concatenation
struct Exp { byte b[24]; size_t n = 0; void add(ArrayPtr<const byte> d) { for (size_t i = 0; i < d.size(); i++) b[n + i] = d.begin()[i]; n += d.size(); } };
template <typename S> inline void put(S& s, Exp& x, const byte* data, int k) {
  size_t n = nd(k) ? 0 : nd(k + 1) ? 1 : nd(k + 2) ? 3 : 5;
  auto d = arrayPtr(data, n); x.add(d); s.write(d);
}
template <typename S> inline void putIn(S& s, Exp& x, const byte* data, int k) {
  // through the stream's own buffer
  auto b = s.getWriteBuffer(); size_t n = nd(k) ? 1 : 2; if (b.size() < n) n = b.size();
  for (size_t i = 0; i < n; i++) b.begin()[i] = data[i];
  x.add(arrayPtr(data, n)); s.write(b.first(n));
}
#define SAMEOUT(o, cnt) MUST(cnt == x.n /* exactly as much as was written */); ALL(x.n) MUST((o)[i] == x.b[i] /* the bytes written, in order */)
inline void bufOut(size_t bs) {
  DATA(5); byte data2[5]; ALL(5) data2[i] = (byte)nv(10 + i); byte out[24]; Sink k(out, 24); Exp x; byte buf[8]; ALL(8) buf[i] = 77;
  { BufferedOutputStreamWrapper s(k, arrayPtr(buf, bs)); if (nd(1)) put(s, x, data, 2); else putIn(s, x, data, 6); if (nd(11)) s.flush(); if (nd(12)) put(s, x, data2, 13); else putIn(s, x, data2, 17); put(s, x, data, 23); if (nd(30)) { s.flush(); SAMEOUT(out, k.n); } }
  SAMEOUT(out, k.n); for (size_t i = bs; i < 8; i++) MUST(buf[i] == 77); done();
}
void all__bufOut1() { bufOut(1); }
void all__bufOut3() { bufOut(3); }
void all__bufOut4() { bufOut(4); }
// data that happens to lie right behind the buffer
void all__bufOutAdj() { byte mem[12]; ALL(12) mem[i] = (byte)nv(i); DATA(3); byte out[24]; Sink k(out, 24); Exp x;
  { BufferedOutputStreamWrapper s(k, arrayPtr(mem, 4)); put(s, x, data, 0); if (nd(9)) { x.add(arrayPtr(data, 1)); s.write(arrayPtr(data, 1)); } auto d = arrayPtr(mem + 4, nd(8) ? 2 : 5); x.add(d); s.write(d); x.add(arrayPtr(data, 3)); s.write(arrayPtr(data, 3)); }
  SAMEOUT(out, k.n); for (size_t i = 4; i < 12; i++) MUST(mem[i] == (byte)mem[i]); done(); }
void all__pieces() { DATA(3); byte d2[2]; ALL(2) d2[i] = (byte)nv(9 + i); byte out[24]; Sink k(out, 24); Exp x; ArrayPtr<const byte> ps[3] = {arrayPtr(data, 3), arrayPtr(d2, nd(1) ? 0 : 2), arrayPtr(data, 1)}; OutputStream& o = k; o.write(arrayPtr(ps, 3)); for (auto& p: ps) x.add(p); SAMEOUT(out, k.n); done(); }
void all__arrOut() { DATA(5); byte data2[5]; ALL(5) data2[i] = (byte)nv(10 + i); byte mem[16]; ALL(16) mem[i] = 66; Exp x; { ArrayOutputStream s(arrayPtr(mem, 15)); if (nd(1)) put(s, x, data, 2); else putIn(s, x, data, 6); if (nd(12)) put(s, x, data2, 13); else putIn(s, x, data2, 17); put(s, x, data, 23); auto a = s.getArray(); MUST(a.begin() == mem); SAMEOUT(mem, a.size()); } for (size_t i = x.n; i < 16; i++) MUST(mem[i] == 66); done(); }
void rej__arrOutFull() { byte mem[4]; ArrayOutputStream s(arrayPtr(mem, 3)); byte d[2]; s.write(arrayPtr(d, 2)); s.write(arrayPtr(d, 2)); done(); }
void rej__arrOutAdj() { byte mem[8]; ArrayOutputStream s(arrayPtr(mem, 2)); byte d[2]; s.write(arrayPtr(d, 2)); s.write(arrayPtr(mem + 2, 2)); done(); }
void all__arrOutExact() { byte mem[4]; mem[3] = 5; byte d[3]; ALL(3) d[i] = (byte)nv(i); ArrayOutputStream s(arrayPtr(mem, 3)); s.write(arrayPtr(d, 3)); s.write(arrayPtr(d, 0)); MUST(s.getWriteBuffer().size() == 0); ALL(3) MUST(mem[i] == d[i]); MUST(mem[3] == 5); done(); }
inline void vecOut(size_t c) { DATA(5); byte data2[5]; ALL(5) data2[i] = (byte)nv(10 + i); Exp x; { VectorOutputStream s(c); if (nd(1)) put(s, x, data, 2); else putIn(s, x, data, 6); if (nd(12)) put(s, x, data2, 13); else putIn(s, x, data2, 17); if (nd(18)) { s.clear(); x.n = 0; } put(s, x, data, 23); auto a = s.getArray(); SAMEOUT(a.begin(), a.size()); } done(); }
void all__vecOut0() { vecOut(0); }
void all__vecOut1() { vecOut(1); }
void all__vecOut4() { vecOut(4); }
// ---- descriptors
int closes[4]; const byte* fdata; size_t fn, fpos; byte* fout; size_t fon; int calls;
inline void fresh() { for (int& c: closes) c = 0; calls = 0; }
void all__fdScope() { fresh(); { OwnFd f(1); MUST(f.get() == 1); MUST(int(f) == 1); MUST(!(f == nullptr)); MUST(closes[1] == 0); } MUST(closes[1] == 1); done(); }
void all__fdMove() { fresh(); { OwnFd f(1); { OwnFd g(kj::mv(f)); MUST(g.get() == 1); MUST(f == nullptr); MUST(closes[1] == 0); } MUST(closes[1] == 1); } MUST(closes[1] == 1); done(); }
void all__fdAssign() { fresh(); { OwnFd f(1); { OwnFd g(2); f = kj::mv(g); MUST(closes[1] == 1); MUST(closes[2] == 0); MUST(f.get() == 2); MUST(g == nullptr); } MUST(closes[2] == 0); } MUST(closes[1] == 1); MUST(closes[2] == 1); done(); }
void all__fdNull() { fresh(); { OwnFd f(1); f = nullptr; MUST(closes[1] == 1); MUST(f == nullptr); f = nullptr; OwnFd g; OwnFd h(nullptr); MUST(g == nullptr); MUST(h == nullptr); g = kj::mv(h); f = OwnFd(2); MUST(closes[2] == 0); MUST(f.get() == 2); } MUST(closes[1] == 1); MUST(closes[2] == 1); done(); }
void all__fdEmptyAssign() { fresh(); { OwnFd f(1); OwnFd g; f = kj::mv(g); MUST(closes[1] == 1); MUST(f == nullptr); g = OwnFd(2); MUST(closes[2] == 0); } MUST(closes[1] == 1); MUST(closes[2] == 1); done(); }
void all__fdZero() { fresh(); { OwnFd f(0); MUST(!(f == nullptr)); OwnFd g(kj::mv(f)); MUST(g.get() == 0); } MUST(closes[0] == 1); done(); }
void all__fdRelease() { fresh(); { OwnFd f(1); int r = f.release(); MUST(r == 1); MUST(f == nullptr); } MUST(closes[1] == 0); done(); }
void all__fdThrow() { fresh(); try { OwnFd f(1); OwnFd g(2); f = kj::mv(g); thrower(1); } catch (...) {} MUST(closes[1] == 1); MUST(closes[2] == 1); done(); }
void all__fdIn() { fresh(); { FdInputStream s(OwnFd(1)); MUST(s.getFd() == 1); MUST(closes[1] == 0); } MUST(closes[1] == 1); { FdInputStream s(2); MUST(s.getFd() == 2); } MUST(closes[2] == 0); done(); }
void all__fdOut() { fresh(); { FdOutputStream s(OwnFd(1)); MUST(s.getFd() == 1); MUST(closes[1] == 0); } MUST(closes[1] == 1); { FdOutputStream s(2); MUST(s.getFd() == 2); } MUST(closes[2] == 0); done(); }
void all__fdRead() { fresh(); DATA(5); fdata = data; fn = 5; fpos = 0; FdInputStream s(1); size_t p = get(s, data, 5, 0, 300); p = get(s, data, 5, p, 320); MUST(p == fpos); done(); }
void all__fdWrite() { fresh(); DATA(5); byte out[24]; fout = out; fon = 0; Exp x; FdOutputStream s(1); put(s, x, data, 300); put(s, x, data, 310); SAMEOUT(out, fon); done(); }
void all__fdWritev() { fresh(); DATA(3); byte d2[2]; ALL(2) d2[i] = (byte)nv(9 + i); byte out[24]; fout = out; fon = 0; Exp x; FdOutputStream s(1); ArrayPtr<const byte> ps[3] = {arrayPtr(data, nd(1) ? 0 : 3), arrayPtr(d2, nd(2) ? 0 : 2), arrayPtr(data, nd(3) ? 0 : 1)}; s.write(arrayPtr(ps, 3)); for (auto& p: ps) x.add(p); SAMEOUT(out, fon); done(); }
}
extern "C" {
int close(int fd) { MUST(fd >= 0); MUST(fd < 4); vp::closes[fd]++; MUST(vp::closes[fd] == 1); return 0; }
ssize_t read(int fd, void* b, size_t n) { MUST(fd == 1); MUST(n > 0); size_t left = vp::fn - vp::fpos, hi = n < left ? n : left, m = hi ? 1 : 0; while (m < hi && vp::nd(100 + vp::calls++)) m++; for (size_t i = 0; i < m; i++) ((unsigned char*)b)[i] = vp::fdata[vp::fpos + i]; vp::fpos += m; return m; }
ssize_t write(int fd, const void* b, size_t n) { MUST(fd == 1); MUST(n > 0); size_t m = 1; while (m < n && vp::nd(100 + vp::calls++)) m++; for (size_t i = 0; i < m; i++) vp::fout[vp::fon + i] = ((const unsigned char*)b)[i]; vp::fon += m; return m; }
ssize_t writev(int fd, const struct iovec* v, int c) { MUST(fd == 1); MUST(c > 0); size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len; MUST(tot > 0); size_t m = 1; while (m < tot && vp::nd(100 + vp::calls++)) m++; size_t left = m; for (int i = 0; i < c; i++) for (size_t j = 0; j < v[i].iov_len && left > 0; j++) { vp::fout[vp::fon++] = ((const unsigned char*)v[i].iov_base)[j]; left--; } return m; }
}

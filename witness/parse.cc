// Parser combinators over arbitrary inputs and arbitrary sub-parsers (analysed by rules/p34.py).
#include <kj/parse/common.h>
#include <kj/parse/char.h>
#include "obs.h"
using namespace kj; using namespace kj::parse;
namespace vp {
void skip() noexcept;
#define ONLY(c) if (!(c)) { ::vp::skip(); return; }
typedef IteratorInput<char, const char*> In; typedef const char* Pos; typedef uint64_t T;
// what sub-parsers did, in order
enum { LOG = 12 };
struct Call { int id; Pos from, to; bool ok; T v; };
static Call calls[LOG]; static int ncalls; static Pos furthest;
static void begin() { ncalls = 0; furthest = nullptr; }
static void saw(Pos p) { if (furthest == nullptr || p > furthest) furthest = p; }
// an arbitrary sub-parser: takes an arbitrary amount, then succeeds or not
template <bool progress> static bool ghost(In& in, int id, T& v) {
  if (ncalls >= LOG) { skip(); __builtin_trap(); }
  Call& c = calls[ncalls++]; c.id = id; c.from = in.getPosition(); v = nv(100 + ncalls); c.v = v;
  int took = 0;
  while (!in.atEnd() && nd(200)) { in.next(); took++; }
  c.to = in.getPosition(); saw(c.to); c.ok = nd(300 + id);
  if (progress && took == 0) c.ok = false;
  return c.ok;
}
template <int id, bool progress = false> struct G { Maybe<T> operator()(In& in) const { T v; if (ghost<progress>(in, id, v)) return T(v); return kj::none; } };
template <int id, bool progress = false> struct E { Maybe<Tuple<>> operator()(In& in) const { T v; if (ghost<progress>(in, id, v)) return Tuple<>(); return kj::none; } };
template <int id> struct D { Maybe<Tuple<T, T>> operator()(In& in) const { T v; if (ghost<false>(in, id, v)) return tuple(T(v), T(v + 1)); return kj::none; } };
#define INPUT(N) char buf[N]; for (int i_ = 0; i_ < N; i_++) buf[i_] = (char)nv(i_); size_t n = nd(50) ? N : nd(51) ? N - 1 : 0; In in(buf, buf + n); begin()
#define AT(p) MUST(in.getPosition() == (p))
// the position a whole parse got furthest to
#define BEST MUST(in.getBest() == (furthest > in.getPosition() ? furthest : in.getPosition()))
// --- inputs
void all__in_walk() { INPUT(2); AT(buf); MUST(in.atEnd() == (n == 0)); if (n > 0) { MUST(in.current() == buf[0]); AT(buf); MUST(in.consume() == buf[0]); AT(buf + 1); MUST(in.atEnd() == (n == 1)); if (n > 1) { in.next(); AT(buf + 2); MUST(in.atEnd()); } } MUST(in.getBest() == in.getPosition()); done(); }
void rejD__in_current() { char b[1]; In in(b, b); in.current(); done(); }
void rejD__in_consume() { char b[1]; In in(b, b); in.consume(); done(); }
void rejD__in_next() { char b[1]; In in(b, b); in.next(); done(); }
void all__in_child() { INPUT(2); ONLY(n == 2); in.next();
  { In sub(in); MUST(sub.getPosition() == buf + 1 && !sub.atEnd()); sub.next(); MUST(sub.atEnd()); AT(buf + 1); } AT(buf + 1); MUST(in.getBest() == buf + 2); done(); }
void all__in_commit() { INPUT(2); ONLY(n == 2); { In sub(in); sub.next(); sub.advanceParent(); AT(buf + 1); } AT(buf + 1); MUST(in.getBest() == buf + 1); done(); }
void all__in_forget() { INPUT(2); ONLY(n == 2); { In sub(in); sub.next(); sub.forgetParent(); sub.next(); } AT(buf); MUST(in.getBest() == buf); done(); }
void all__in_best_deep() { INPUT(3); ONLY(n == 3); { In sub(in); { In deep(sub); deep.next(); deep.next(); } MUST(sub.getPosition() == buf && sub.getBest() == buf + 2); } AT(buf); MUST(in.getBest() == buf + 2); { In sub(in); sub.next(); } MUST(in.getBest() == buf + 2); done(); }
// --- single tokens
void all__any() { INPUT(2); auto r = any(in); if (n == 0) { MUST(r == kj::none); AT(buf); } else { KJ_IF_SOME(c, r) { MUST(c == buf[0]); } else NEVER; AT(buf + 1); } done(); }
void all__exactly() { INPUT(2); char want = (char)nv(9); auto p = exactly(kj::cp(want)); auto r = p(in); if (n == 0 || buf[0] != want) { MUST(r == kj::none); AT(buf); } else { MUST(r != kj::none); AT(buf + 1); } done(); }
void all__exact_char() { INPUT(2); auto p = exactChar<'q'>(); auto r = p(in); if (n == 0 || buf[0] != 'q') { MUST(r == kj::none); AT(buf); } else { MUST(r != kj::none); AT(buf + 1); } done(); }
void all__exact_string() { INPUT(3); auto p = exactString("ab"); auto r = p(in); bool yes = n >= 2 && buf[0] == 'a' && buf[1] == 'b'; MUST((r != kj::none) == yes); if (yes) AT(buf + 2); done(); }
void all__exact_string0() { INPUT(2); auto p = exactString(""); MUST(p(in) != kj::none); AT(buf); done(); }
void all__end() { INPUT(2); MUST((endOfInput(in) != kj::none) == (n == 0)); AT(buf); done(); }
void all__group_token() { INPUT(2); auto g = charRange('a', 'z'); auto r = g(in);
  if (n == 0) { MUST(r == kj::none); AT(buf); } else if (g.contains(buf[0])) { KJ_IF_SOME(c, r) { MUST(c == buf[0]); } else NEVER; AT(buf + 1); } else { MUST(r == kj::none); AT(buf); } done(); }
void all__contains_all() { INPUT(2); auto g = charRange('a', 'z'); bool want = true; for (size_t i = 0; i < n; i++) want = want && g.contains(buf[i]); MUST(g.containsAll(ArrayPtr<const char>(buf, n)) == want); done(); }
// --- results
void all__const_result() { INPUT(2); T k = nv(8); auto p = constResult(G<1>(), kj::cp(k)); auto r = p(in); MUST(ncalls == 1 && calls[0].from == buf); AT(calls[0].to); KJ_IF_SOME(v, r) { MUST(calls[0].ok && v == k); } else MUST(!calls[0].ok); done(); }
void all__discard() { INPUT(2); auto p = discard(G<1>()); Maybe<Tuple<>> r = p(in); MUST(ncalls == 1 && calls[0].from == buf); AT(calls[0].to); MUST((r != kj::none) == calls[0].ok); done(); }
// --- one after the other
#define CHAIN(N) { bool good = true; Pos at = buf; int k = 0; for (int i = 0; i < N && good; i++) { MUST(ncalls > k && calls[k].id == i + 1 && calls[k].from == at); at = calls[k].to; good = calls[k].ok; k++; } MUST(ncalls == k); AT(at); MUST((r != kj::none) == good); }
void all__seq0() { INPUT(2); auto p = sequence(); MUST(p(in) != kj::none); AT(buf); done(); }
void all__seq1() { INPUT(2); auto p = sequence(G<1>()); auto r = p(in); CHAIN(1) KJ_IF_SOME(v, r) { MUST(v == calls[0].v); } done(); }
void all__seq3() { INPUT(2); auto p = sequence(G<1>(), G<2>(), G<3>()); auto r = p(in); CHAIN(3) KJ_IF_SOME(v, r) { MUST(get<0>(v) == calls[0].v && get<1>(v) == calls[1].v && get<2>(v) == calls[2].v); } done(); }
void all__seq_flat() { INPUT(1); auto p = sequence(G<1>(), E<2>(), D<3>()); auto r = p(in); CHAIN(3) KJ_IF_SOME(v, r) { Tuple<T, T, T>& t = v; MUST(get<0>(t) == calls[0].v && get<1>(t) == calls[2].v && get<2>(t) == calls[2].v + 1); } done(); }
void all__seq_nest() { INPUT(1); auto p = sequence(sequence(G<1>(), G<2>()), G<3>()); auto r = p(in); CHAIN(3) KJ_IF_SOME(v, r) { Tuple<T, T, T>& t = v; MUST(get<0>(t) == calls[0].v && get<1>(t) == calls[1].v && get<2>(t) == calls[2].v); } done(); }
// --- repeats
// each attempt starts where the last success ended; the first failure (or the end) stops it and takes nothing
#define REPEAT int got = 0; { Pos at = buf; bool stop = false; for (int i = 0; i < ncalls; i++) { MUST(!stop && calls[i].id == 1 && calls[i].from == at && at != buf + n); if (calls[i].ok) { at = calls[i].to; got++; } else stop = true; } MUST(stop || at == buf + n); AT(at); BEST; }
void all__many() { INPUT(3); auto p = many(G<1, true>()); auto r = p(in); REPEAT KJ_IF_SOME(a, r) { MUST((int)a.size() == got); for (int i = 0; i < got; i++) MUST(a[i] == calls[i].v); } else NEVER; done(); }
void all__many_count() { INPUT(3); auto p = many(E<1, true>()); Maybe<uint> r = p(in); REPEAT KJ_IF_SOME(c, r) { MUST((int)c == got); } else NEVER; done(); }
void all__one_or_more() { INPUT(3); auto p = oneOrMore(G<1, true>()); auto r = p(in); REPEAT KJ_IF_SOME(a, r) { MUST(got > 0 && (int)a.size() == got); for (int i = 0; i < got; i++) MUST(a[i] == calls[i].v); } else MUST(got == 0); done(); }
void all__one_or_more_count() { INPUT(3); auto p = oneOrMore(E<1, true>()); Maybe<uint> r = p(in); REPEAT KJ_IF_SOME(c, r) { MUST(got > 0 && (int)c == got); } else MUST(got == 0); done(); }
#define TIMES(N) int got = 0; { Pos at = buf; bool bad = false; for (int i = 0; i < ncalls; i++) { MUST(!bad && calls[i].id == 1 && calls[i].from == at && at != buf + n && got < N); at = calls[i].to; if (calls[i].ok) got++; else bad = true; } AT(at); if (!bad && got < N) MUST(at == buf + n); }
void all__times() { INPUT(3); auto p = times(G<1>(), 2); auto r = p(in); TIMES(2) KJ_IF_SOME(a, r) { MUST(got == 2 && a.size() == 2 && a[0] == calls[0].v && a[1] == calls[1].v); } else MUST(got < 2); done(); }
void all__times_none() { INPUT(3); auto p = times(E<1>(), 2); Maybe<Tuple<>> r = p(in); TIMES(2) MUST((r != kj::none) == (got == 2)); done(); }
void all__times0() { INPUT(2); auto p = times(G<1>(), 0); auto r = p(in); MUST(ncalls == 0); AT(buf); KJ_IF_SOME(a, r) { MUST(a.size() == 0); } else NEVER; done(); }
// --- choices
void all__optional() { INPUT(2); auto p = optional(G<1>()); Maybe<Maybe<T>> r = p(in); MUST(ncalls == 1 && calls[0].from == buf); AT(calls[0].ok ? calls[0].to : buf); BEST;
  KJ_IF_SOME(m, r) { KJ_IF_SOME(v, m) { MUST(calls[0].ok && v == calls[0].v); } else MUST(!calls[0].ok); } else NEVER; done(); }
void all__one_of() { INPUT(2); auto p = oneOf(G<1>(), G<2>(), G<3>()); Maybe<T> r = p(in); int k = 0; bool got = false;
  for (int i = 0; i < 3 && !got; i++) { MUST(ncalls > k && calls[k].id == i + 1 && calls[k].from == buf); got = calls[k].ok; k++; } MUST(ncalls == k); BEST;
  AT(got ? calls[k - 1].to : buf); KJ_IF_SOME(v, r) { MUST(got && v == calls[k - 1].v); } else MUST(!got); done(); }
void all__one_of_empty() { INPUT(2); auto p = oneOf(E<1>(), E<2>()); Maybe<Tuple<>> r = p(in); MUST(ncalls >= 1 && (ncalls == 2) == !calls[0].ok); AT(calls[ncalls - 1].ok ? calls[ncalls - 1].to : buf); MUST((r != kj::none) == calls[ncalls - 1].ok); BEST; done(); }
void all__not_looking() { INPUT(2); auto p = notLookingAt(G<1>()); Maybe<Tuple<>> r = p(in); MUST(ncalls == 1 && calls[0].from == buf); AT(buf); MUST(in.getBest() == buf); MUST((r == kj::none) == calls[0].ok); done(); }
// --- transforms
static int fcalls; static T fa, fb; static Pos fs, fe;
void all__transform() { INPUT(2); fcalls = 0; T k = nv(8); auto p = transform(G<1>(), [k](T v) { fcalls++; fa = v; return k; }); Maybe<T> r = p(in); MUST(ncalls == 1 && calls[0].from == buf); AT(calls[0].to);
  MUST(fcalls == (calls[0].ok ? 1 : 0)); KJ_IF_SOME(v, r) { MUST(calls[0].ok && v == k && fa == calls[0].v); } else MUST(!calls[0].ok); done(); }
void all__transform_tuple() { INPUT(2); fcalls = 0; T k = nv(8); auto p = transform(sequence(G<1>(), G<2>()), [k](T v, T w) { fcalls++; fa = v; fb = w; return k; }); Maybe<T> r = p(in); CHAIN(2)
  MUST(fcalls == (r != kj::none ? 1 : 0)); KJ_IF_SOME(v, r) { MUST(v == k && fa == calls[0].v && fb == calls[1].v); } done(); }
void all__transform_reject() { INPUT(2); fcalls = 0; T k = nv(8); bool yes = nd(7); auto p = transformOrReject(G<1>(), [k, yes](T v) -> Maybe<T> { fcalls++; fa = v; if (yes) return T(k); return kj::none; }); Maybe<T> r = p(in); MUST(ncalls == 1 && calls[0].from == buf); AT(calls[0].to);
  MUST(fcalls == (calls[0].ok ? 1 : 0)); KJ_IF_SOME(v, r) { MUST(calls[0].ok && yes && v == k && fa == calls[0].v); } else MUST(!calls[0].ok || !yes); done(); }
void all__transform_loc() { INPUT(2); if (n == 2 && nd(60)) in.next(); Pos s = in.getPosition(); fcalls = 0; T k = nv(8); auto p = transformWithLocation(G<1>(), [k](Span<Pos> w, T v) { fcalls++; fa = v; fs = w.begin(); fe = w.end(); return k; }); Maybe<T> r = p(in); MUST(ncalls == 1 && calls[0].from == s); AT(calls[0].to);
  MUST(fcalls == (calls[0].ok ? 1 : 0)); KJ_IF_SOME(v, r) { MUST(calls[0].ok && v == k && fa == calls[0].v && fs == s && fe == calls[0].to); } else MUST(!calls[0].ok); done(); }
// (what other alternatives looked at is no part of the location)
void all__transform_loc_back() { INPUT(3); ONLY(n == 3); { In other(in); other.next(); } Pos s = in.getPosition(); fcalls = 0; auto p = transformWithLocation(sequence(optional(G<1>()), G<2>()), [](Span<Pos> w, Maybe<T> m, T v) { fcalls++; fa = v; fs = w.begin(); fe = w.end(); return v; }); Maybe<T> r = p(in);
  MUST(ncalls == 2); KJ_IF_SOME(v, r) { MUST(fcalls == 1 && v == calls[1].v && fs == s && fe == calls[1].to); } else MUST(fcalls == 0); AT(calls[1].to); done(); }
void all__in_child_best() { INPUT(3); ONLY(n == 3); { In sub(in); sub.next(); sub.next(); } { In sub(in); MUST(sub.getBest() == buf); } done(); }
void all__span() { char b[4]; auto s = span((Pos)b + 1, (Pos)b + 3); MUST(s.begin() == b + 1 && s.end() == b + 3); done(); }
// --- references
void all__ref() { INPUT(2); G<1> g; ParserRef<In, T> p = ref<In>(g); Maybe<T> r = p(in); MUST(ncalls == 1 && calls[0].id == 1 && calls[0].from == buf); AT(calls[0].to); KJ_IF_SOME(v, r) { MUST(calls[0].ok && v == calls[0].v); } else MUST(!calls[0].ok); done(); }
void all__ref_assign() { INPUT(2); G<1> g; G<2> h; ParserRef<In, T> p; p = g; p = h; const auto& cp = p; ParserRef<In, T> q(cp); Maybe<T> r = q(in); MUST(ncalls == 1 && calls[0].id == 2 && calls[0].from == buf); KJ_IF_SOME(v, r) { MUST(calls[0].ok && v == calls[0].v); } else MUST(!calls[0].ok); done(); }
struct K1 { T k; Maybe<T> operator()(In&) const { return T(k); } };
void all__ref_state() { INPUT(2); K1 k1 = {nv(1)}; ParserRef<In, T> p(k1); KJ_IF_SOME(v, p(in)) { MUST(v == k1.k); } else NEVER; done(); }
// --- nested backtracking
void all__many_seq() { INPUT(2); auto p = many(sequence(E<1, true>(), E<2>())); Maybe<uint> r = p(in); int k = 0, got = 0; Pos at = buf; bool stop = false;
  while (k < ncalls) { MUST(!stop && calls[k].id == 1 && calls[k].from == at); if (!calls[k].ok) { stop = true; k++; } else { MUST(k + 1 < ncalls && calls[k + 1].id == 2 && calls[k + 1].from == calls[k].to); if (calls[k + 1].ok) { at = calls[k + 1].to; got++; } else stop = true; k += 2; } }
  MUST(stop || at == buf + n); AT(at); BEST; KJ_IF_SOME(c, r) { MUST((int)c == got); } else NEVER; done(); }
void all__opt_seq() { INPUT(2); auto p = sequence(optional(G<1>()), G<2>()); auto r = p(in); MUST(ncalls == 2 && calls[1].id == 2 && calls[1].from == (calls[0].ok ? calls[0].to : buf)); AT(calls[1].to); BEST; MUST((r != kj::none) == calls[1].ok); done(); }
// --- what characters mean
static void digits(char from, char to, int v) { for (char c = from; c <= to; c++) MUST(kj::parse::_::parseDigit(c) == v + (c - from)); }
void all__digit_dec() { digits('0', '9', 0); done(); }
void all__digit_lower() { digits('a', 'f', 10); done(); }
void all__digit_upper() { digits('A', 'F', 10); done(); }
static T dv(char c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
#define DIG(N) Array<char> d = heapArray<char>(N)
void all__int16() { DIG(3); d[0] = '7'; d[1] = 'f'; d[2] = 'B'; MUST(kj::parse::_::ParseInteger<16>()(d) == 0x7fb); MUST(kj::parse::_::ParseInteger<16>()('9', d) == 0x97fb); done(); }
void all__int8() { DIG(3); d[0] = '7'; d[1] = '0'; d[2] = '1'; MUST(kj::parse::_::ParseInteger<8>()(d) == 0701); done(); }
void all__int10() { DIG(3); d[0] = '7'; d[1] = '0'; d[2] = '1'; MUST(kj::parse::_::ParseInteger<10>()('9', d) == 9701); done(); }
void all__int0() { DIG(0); MUST(kj::parse::_::ParseInteger<8>()(d) == 0); MUST(kj::parse::_::ParseInteger<10>()('5', d) == 5); done(); }
void all__int_big() { DIG(16); for (int i = 0; i < 16; i++) d[i] = i < 15 ? 'f' : 'e'; MUST(kj::parse::_::ParseInteger<16>()(d) == 0xfffffffffffffffeull); done(); }
void all__escape() { kj::parse::_::InterpretEscape e; MUST(e('a') == 7 && e('b') == 8 && e('f') == 12 && e('n') == 10 && e('r') == 13 && e('t') == 9 && e('v') == 11 && e('\'') == '\'' && e('"') == '"' && e('\\') == '\\' && e('?') == '?'); done(); }
static const char HEX[] = "0123456789abcdefABCDEF";
void all__hex_escape() { for (int i = 0; i < 22; i++) for (int j = 0; j < 22; j += 3) MUST((byte)kj::parse::_::ParseHexEscape()(HEX[i], HEX[j]) == dv(HEX[i]) * 16 + dv(HEX[j])); done(); }
void all__hex_byte() { for (int i = 0; i < 22; i++) for (int j = 0; j < 22; j += 3) MUST(kj::parse::_::ParseHexByte()(HEX[i], HEX[j]) == dv(HEX[i]) * 16 + dv(HEX[j])); done(); }
void all__oct_escape() { kj::parse::_::ParseOctEscape p; for (char a = '0'; a < '8'; a++) { MUST(p(a, kj::none, kj::none) == a - '0'); for (char b = '0'; b < '8'; b++) { MUST(p(a, b, kj::none) == (a - '0') * 8 + (b - '0')); if (a < '4') MUST((byte)p(a, b, '5') == (a - '0') * 64 + (b - '0') * 8 + 5); } } done(); }
void all__ident() { char c = (char)nv(0); DIG(3); for (int i = 0; i < 3; i++) d[i] = (char)nv(i + 1); String s = kj::parse::_::IdentifierToString()(c, d); MUST(s.size() == 4 && s[0] == c && s[1] == d[0] && s[2] == d[1] && s[3] == d[2] && s.cStr()[4] == 0); done(); }
void all__ident1() { char c = (char)nv(0); DIG(0); String s = kj::parse::_::IdentifierToString()(c, d); MUST(s.size() == 1 && s[0] == c && s.cStr()[1] == 0); done(); }
void all__to_string() { DIG(2); d[0] = (char)nv(1); d[1] = (char)nv(2); String s = kj::parse::_::ArrayToString()(d); MUST(s.size() == 2 && s[0] == d[0] && s[1] == d[1]); done(); }
// --- the ready-made grammars, letter by letter
#define TEXT(s) static const char txt[] = s; In in(txt, txt + sizeof(txt) - 1)
#define INT(name, s, v, len) void all__int_##name() { TEXT(s); Maybe<uint64_t> r = integer(in); KJ_IF_SOME(x, r) { MUST(x == (v)); } else NEVER; MUST(in.getPosition() == txt + (len)); done(); }
#define NOINT(name, s) void all__int_##name() { TEXT(s); Maybe<uint64_t> r = integer(in); MUST(r == kj::none); done(); }
INT(dec, "120", 120, 3) INT(zero, "0", 0, 1) INT(oct, "017", 15, 3) INT(hex, "0x1F", 31, 4) INT(then, "12 3", 12, 2) INT(minus, "9-", 9, 1)
NOINT(letters, "12a") NOINT(octbad, "0a") NOINT(empty, "") NOINT(dot, "1.") NOINT(under, "1_") NOINT(bare, "0x") NOINT(name, "x1")
#define ESC(name, s, v, len) void all__esc_##name() { TEXT(s); Maybe<char> r = escapeSequence(in); KJ_IF_SOME(x, r) { MUST((byte)x == (v)); } else NEVER; MUST(in.getPosition() == txt + (len)); done(); }
ESC(n, "\\nz", 10, 2) ESC(quote, "\\\"", '"', 2) ESC(back, "\\\\", '\\', 2) ESC(hex, "\\x4fz", 0x4f, 4) ESC(hexhi, "\\xfE", 0xfe, 4) ESC(oct1, "\\7z", 7, 2) ESC(oct2, "\\17z", 017, 3) ESC(oct3, "\\1715", 0171, 4)
#define NOESC(name, s) void all__esc_##name() { TEXT(s); MUST(escapeSequence(in) == kj::none); done(); }
NOESC(bad, "\\q") NOESC(plain, "n") NOESC(end, "\\") NOESC(hexshort, "\\x4")
void all__white() { TEXT(" \t\r\n\f\vx"); MUST(discardWhitespace(in) != kj::none); MUST(in.getPosition() == txt + 6); done(); }
void all__white0() { TEXT("x "); MUST(discardWhitespace(in) != kj::none); MUST(in.getPosition() == txt); done(); }
void all__identifier() { TEXT("_aZ9-"); KJ_IF_SOME(s, identifier(in)) { MUST(s.size() == 4 && s[0] == '_' && s[1] == 'a' && s[2] == 'Z' && s[3] == '9'); } else NEVER; MUST(in.getPosition() == txt + 4); done(); }
void all__identifier_bad() { TEXT("9a"); MUST(identifier(in) == kj::none); done(); }
void all__dquote() { TEXT("\"a\\n\" "); KJ_IF_SOME(s, doubleQuotedString(in)) { MUST(s.size() == 2 && s[0] == 'a' && s[1] == '\n'); } else NEVER; MUST(in.getPosition() == txt + 5); done(); }
void all__squote() { TEXT("'\"\\''"); KJ_IF_SOME(s, singleQuotedString(in)) { MUST(s.size() == 2 && s[0] == '"' && s[1] == '\''); } else NEVER; MUST(in.getPosition() == txt + 5); done(); }
void all__dquote_open() { TEXT("\"a"); MUST(doubleQuotedString(in) == kj::none); done(); }
void all__dquote_line() { TEXT("\"a\n\""); MUST(doubleQuotedString(in) == kj::none); done(); }
void all__hexbin() { TEXT("0x\"0a Ff \""); KJ_IF_SOME(a, doubleQuotedHexBinary(in)) { MUST(a.size() == 2 && a[0] == 0x0a && a[1] == 0xff); } else NEVER; MUST(in.getPosition() == txt + 10); done(); }
void all__hexbin_odd() { TEXT("0x\"0a f\""); MUST(doubleQuotedHexBinary(in) == kj::none); done(); }
}

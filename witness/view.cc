// One view operation per function (analysed by rules/p14.py). Name: <spec>__<type>. The first parameter is the view.
#include <kj/common.h>
#include <kj/array.h>
#include <kj/vector.h>
#include <kj/string.h>
#include <capnp/blob.h>
namespace vp {
using namespace kj;
typedef uint64_t u64;
struct E { u64 v; bool operator==(const E&) const; bool operator<(const E&) const; };
void see(const volatile void*) noexcept; void seeView(const void*, size_t) noexcept; void seeIdx(size_t) noexcept; void seeNone() noexcept; void seeBool(bool) noexcept;
typedef ArrayPtr<u64> AP; typedef ArrayPtr<const u64> CAP; typedef ArrayPtr<char> ACH; typedef ArrayPtr<const char> CCH; typedef ArrayPtr<const byte> CBY; typedef ArrayPtr<E> AE; typedef ArrayPtr<const E> CAE;
typedef Array<u64> AR; typedef Array<const u64> CAR; typedef Vector<u64> VE; typedef ArrayBuilder<u64> AB; typedef StringPtr SP; typedef String ST; typedef ConstString CS;
typedef capnp::Text::Builder TB; typedef capnp::Text::Reader TR; typedef capnp::Data::Reader DR; typedef capnp::Data::Builder DB;
#define OBS(X) void obs_##X(X& a) { seeView(a.begin(), a.size()); }
OBS(AP) OBS(CAP) OBS(ACH) OBS(CCH) OBS(CBY) OBS(AE) OBS(CAE) OBS(AR) OBS(CAR) OBS(VE) OBS(AB) OBS(SP) OBS(ST) OBS(CS) OBS(TB) OBS(TR) OBS(DR) OBS(DB)
#define VIEW(e) do { auto&& r_ = e; seeView(r_.begin(), r_.size()); } while (0)
#define ENDS(X) void beginEnd__##X(X& a) { seeView(a.begin(), size_t(reinterpret_cast<const byte*>(a.end()) - reinterpret_cast<const byte*>(a.begin()))); } \
  void beginEndC__##X(const X& a) { seeView(a.begin(), size_t(reinterpret_cast<const byte*>(a.end()) - reinterpret_cast<const byte*>(a.begin()))); }
#define IDX(X) void idx__##X(X& a, size_t i) { see(&a[i]); } void idxC__##X(const X& a, size_t i) { see(&a[i]); }
#define FB(X) void front__##X(X& a) { see(&a.front()); } void back__##X(X& a) { see(&a.back()); } void frontC__##X(const X& a) { see(&a.front()); } void backC__##X(const X& a) { see(&a.back()); }
#define SL2(X) void slice2__##X(X& a, size_t s, size_t e) { VIEW(a.slice(s, e)); } void slice2C__##X(const X& a, size_t s, size_t e) { VIEW(a.slice(s, e)); } \
  void first__##X(X& a, size_t c) { VIEW(a.first(c)); } void firstC__##X(const X& a, size_t c) { VIEW(a.first(c)); }
#define SL1(X) void slice1__##X(X& a, size_t s) { VIEW(a.slice(s)); } void slice1C__##X(const X& a, size_t s) { VIEW(a.slice(s)); }
#define BYTES(X) void bytes__##X(X& a) { VIEW(a.asBytes()); } void bytesC__##X(const X& a) { VIEW(a.asBytes()); }
#define CHARS(X) void bytes__chars##X(X& a) { VIEW(a.asChars()); } void bytesC__chars##X(const X& a) { VIEW(a.asChars()); }
#define PTRS(X) void whole__asPtr##X(X& a) { VIEW(a.asPtr()); } void whole__asPtrC##X(const X& a) { VIEW(a.asPtr()); }
#define CONV(X, T) void whole__conv##X(X& a) { ArrayPtr<T> r = a; VIEW(r); } void whole__convC##X(const X& a) { ArrayPtr<const T> r = a; VIEW(r); }
ENDS(AP) ENDS(AR) ENDS(VE) ENDS(AB) ENDS(SP) ENDS(ST) ENDS(CS) ENDS(TB) ENDS(CAP)
IDX(AP) IDX(AR) IDX(VE) IDX(AB) IDX(CAP) IDX(ACH)
FB(AP) FB(AR) FB(VE) FB(AB)
SL2(AP) SL2(AR) SL2(VE) SL2(CCH) SL2(AE) SL2(CAP) SL2(CAR)
SL1(AP) SL1(AR) SL1(CCH) SL1(CAR)
BYTES(AP) BYTES(AR) BYTES(CCH) CHARS(AP) CHARS(AR) BYTES(SP) BYTES(ST) BYTES(TB)
void bytesC__CS(const CS& a) { VIEW(a.asBytes()); }
PTRS(AR) PTRS(VE) PTRS(AB) CONV(AR, u64) CONV(VE, u64) CONV(AB, u64) CONV(ST, char)
void whole__asConst(const AP& a) { VIEW(a.asConst()); }
void whole__convAP(const AP& a) { ArrayPtr<const u64> r = a; VIEW(r); }
void whole__arrayPtr(AP& a) { VIEW(arrayPtr(a.begin(), a.size())); }
void whole__arrayPtr2(AP& a) { VIEW(arrayPtr(a.begin(), a.end())); }
void whole__asArraySP(const SP& a) { VIEW(a.asArray()); }
void whole__asArrayST(ST& a) { VIEW(a.asArray()); }
void whole__asArraySTC(const ST& a) { VIEW(a.asArray()); }
void whole__asArrayCS(const CS& a) { VIEW(a.asArray()); }
void whole__asArrayTB(TB& a) { VIEW(a.asArray()); }
void whole__asArrayTBC(const TB& a) { VIEW(a.asArray()); }
void whole__convSP(const SP& a) { ArrayPtr<const char> r = a; VIEW(r); }
void whole__convCS(const CS& a) { ArrayPtr<const char> r = a; VIEW(r); }
void whole__convTB(TB& a) { ArrayPtr<char> r = a; VIEW(r); }
void whole__convTBC(const TB& a) { ArrayPtr<const char> r = a; VIEW(r); }
void whole__toTR(const TB& a) { VIEW(a.asReader()); }
void str__asString(const TB& a) { VIEW(a.asString()); }
void str__opSP(const TB& a) { StringPtr r = a; VIEW(r); }
void str__TR(const ST& a) { TR r(a); VIEW(r); }
void str__asPtr(const ST& a) { VIEW(a.asPtr()); }
void str__SPfromST(const ST& a) { StringPtr r(a); VIEW(r); }
void str__SPfromCS(const CS& a) { StringPtr r(a); VIEW(r); }
void str__asPtrCS(const CS& a) { VIEW(a.asPtr()); }
void whole__DBreader(const DB& a) { VIEW(a.asReader()); }
void cstr__SP(const SP& a) { see(a.cStr()); }
void cstr__ST(const ST& a) { see(a.cStr()); }
void cstr__CS(const CS& a) { see(a.cStr()); }
void cstr__TB(const TB& a) { see(a.cStr()); }
// string indexing may read the terminator
void sidx__SP(const SP& a, size_t i) { volatile char c = a[i]; (void)c; }
void sidx__STC(const ST& a, size_t i) { volatile char c = a[i]; (void)c; }
void sidx__ST(ST& a, size_t i) { volatile char c = a[i]; (void)c; }
void sidx__CS(const CS& a, size_t i) { volatile char c = a[i]; (void)c; }
void sidx__TB(TB& a, size_t i) { volatile char c = a[i]; (void)c; }
#define SSL(X) void sslice2__##X(X& a, size_t s, size_t e) { VIEW(a.slice(s, e)); } void sslice1__##X(X& a, size_t s) { VIEW(a.slice(s)); }
#define SSLC(X) void sslice2__C##X(const X& a, size_t s, size_t e) { VIEW(a.slice(s, e)); } void sslice1__C##X(const X& a, size_t s) { VIEW(a.slice(s)); }
SSLC(SP) SSLC(ST) SSLC(CS) SSLC(TB) SSL(TB)
void sfirst__SP(const SP& a, size_t c) { VIEW(a.first(c)); }
void sfirst__ST(const ST& a, size_t c) { VIEW(a.first(c)); }
// construction from pointers
void mkview__size(u64* p, size_t n) { ArrayPtr<u64> r(p, n); VIEW(r); }
void mkview__c(const u64* p, size_t n) { ArrayPtr<const u64> r(p, n); VIEW(r); }
void mknative__8(u64 (&a)[8]) { ArrayPtr<u64> r(a); VIEW(r); }
void mkstr__SP(const char* p, size_t n) { StringPtr r(p, n); VIEW(r); }
void mkstr__SP2(const char* p, size_t n) { StringPtr r(p, p + n); VIEW(r); }
void mkstr__TB(char* p, size_t n) { TB r(p, n); VIEW(r); }
void mkstrz__SP(const char* p) { StringPtr r(p); VIEW(r); }
// comparison and search
#define CMP(X, K) void eq##K##__##X(X& a, X& b) { seeBool(a == b); } void ne##K##__##X(X& a, X& b) { seeBool(a != b); } void lt##K##__##X(X& a, X& b) { seeBool(a < b); } void gt##K##__##X(X& a, X& b) { seeBool(a > b); } void le##K##__##X(X& a, X& b) { seeBool(a <= b); } void ge##K##__##X(X& a, X& b) { seeBool(a >= b); }
CMP(CCH, m) CMP(CBY, m) CMP(SP, s) CMP(ST, s) CMP(TB, s)
void eqm__AP(AP& a, AP& b) { seeBool(a == b); }
void eqe__AE(AE& a, AE& b) { seeBool(a == b); }
void lte__AE(AE& a, AE& b) { seeBool(a < b); }
void eqe__AEx(AE& a, CAE& b) { seeBool(a == b); }
void isNull__AP(AP& a) { seeBool(a == nullptr); }
void isNull__SP(SP& a) { seeBool(a == nullptr); }
void isNull__ST(ST& a) { seeBool(a == nullptr); }
void isNull__CS(CS& a) { seeBool(a == nullptr); }
void isNull__TB(TB& a) { seeBool(a == nullptr); }
void starts__CCH(CCH& a, CCH& b) { seeBool(a.startsWith(b)); }
void ends__CCH(CCH& a, CCH& b) { seeBool(a.endsWith(b)); }
void starts__SP(SP& a, SP& b) { seeBool(a.startsWith(b)); }
void ends__SP(SP& a, SP& b) { seeBool(a.endsWith(b)); }
void starts__ST(ST& a, SP& b) { seeBool(a.startsWith(b)); }
void ends__ST(ST& a, SP& b) { seeBool(a.endsWith(b)); }
#define FIND(X, T) void ff__##X(X& a, const T& x) { KJ_IF_SOME(i, a.findFirst(x)) seeIdx(i); else seeNone(); } void fl__##X(X& a, const T& x) { KJ_IF_SOME(i, a.findLast(x)) seeIdx(i); else seeNone(); }
FIND(AP, u64) FIND(CCH, char) FIND(ACH, char) FIND(CBY, byte)
void ff__SP(SP& a, char x) { KJ_IF_SOME(i, a.findFirst(x)) seeIdx(i); else seeNone(); }
void ff__ST(ST& a, char x) { KJ_IF_SOME(i, a.findFirst(x)) seeIdx(i); else seeNone(); }
void fl__SP(SP& a, char x) { KJ_IF_SOME(i, a.findLast(x)) seeIdx(i); else seeNone(); }
void split__CCH(CCH& a, char x) { auto it = a.split(x); auto i = it.begin(); auto s = *i; seeView(s.begin(), s.size()); ++i; if (i == it.end()) seeNone(); else { auto s2 = *i; seeView(s2.begin(), s2.size()); } }
void split__AP(AP& a, u64 x) { auto it = a.split(x); auto i = it.begin(); auto s = *i; seeView(s.begin(), s.size()); ++i; if (i == it.end()) seeNone(); else { auto s2 = *i; seeView(s2.begin(), s2.size()); } }
// bulk writes
void fill__AP(AP& a, u64 x) { a.fill(x); }
void fillArr__AP(AP& a, CAP& b) { a.fill(b); }
void copyFrom__AP(AP& a, CAP& b) { a.copyFrom(b); }
void copyFrom__ACH(ACH& a, CCH& b) { a.copyFrom(b); }
}

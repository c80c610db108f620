#pragma once
// The wire layer, replaced by ghosts that record each operation, the pointer it was performed on, and its arguments.
#include "obs.h"
#include <capnp/common.h>
#include <capnp/layout.h>
#include <capnp/list.h>
#include <capnp/orphan.h>
#include <capnp/pointer-helpers.h>
#include <capnp/any.h>
#include <capnp/capability.h>
#include <capnp/message.h>
#include <capnp/schema.capnp.h>
using namespace vp;
#define BEG n = 0; first.op = NONE; TXT[7] = 0
using namespace capnp;
namespace vp { void skip() noexcept; }
#define ONLY(c) if (!(c)) { ::vp::skip(); return; }
typedef schema::Field S; typedef schema::Enumerant S2;
typedef capnp::_::PointerReader PR; typedef capnp::_::PointerBuilder PB; typedef capnp::_::StructReader SR; typedef capnp::_::StructBuilder SB;
typedef capnp::_::ListReader LR; typedef capnp::_::ListBuilder LB; typedef capnp::_::OrphanBuilder OB; typedef capnp::_::StructSize SZ;
using capnp::bounded; using capnp::unbound; using capnp::ElementSize;
enum Op { NONE, TYPE, TARGET, CANON, GETSTRUCT, GETLIST, GETSTRUCTLIST, GETANYLIST, GETTEXT, GETDATA, GETCAP, INITSTRUCT, INITLIST, INITSTRUCTLIST, INITTEXT, INITDATA,
  SETSTRUCT, SETLIST, SETTEXT, SETDATA, SETCAP, ADOPT, DISOWN, CLEAR, TRANSFER, COPYFROM, ASREADER, ARENA, CAPTABLE, IMBUE,
  O_INITSTRUCT, O_INITLIST, O_INITSTRUCTLIST, O_INITTEXT, O_INITDATA, O_COPYS, O_COPYL, O_COPYP, O_COPYT, O_COPYD, O_COPYC, O_CONCAT, O_EXT,
  O_ASSTRUCT, O_ASLIST, O_ASSTRUCTLIST, O_ASANYLIST, O_ASTEXT, O_ASDATA, O_ASSTRUCTR, O_ASLISTR, O_ASANYLISTR, O_ASCAP, O_ASTEXTR, O_ASDATAR, O_TRUNC, O_TRUNCS, O_TRUNCTEXT, O_KILL,
  S_CLEAR, S_TRANSFER, S_COPY, S_TOTAL, L_ELT, L_TOTAL, ROOT };
struct Log { int op; const void* seg; const void* cap; const void* ptr; int nest; uint64_t a, b, c; const void* d; const void* e; bool f; };
static Log g; static int n;
static Log first;
// distinct addresses; nothing reads through them
extern char TXT[64]; extern char SEG[8], CAP[8], PTR[64], DAT[64], SEG2[8], CAP2[8], PTR2[64], DAT2[64], ARENA_[8], LOC[64], TXT[64], DEF[64], HOOK[8], SEGO[8], CAPO[8], LOCO[64];
#define SEGR ((capnp::_::SegmentReader*)SEG)
#define SEGB ((capnp::_::SegmentBuilder*)SEG)
#define CAPR ((capnp::_::CapTableReader*)CAP)
#define CAPB ((capnp::_::CapTableBuilder*)CAP)
#define WP(x) ((capnp::_::WirePointer*)(x))
static Log& rec(int op) { n++; g = Log(); g.op = op; return g; }
static Log& rec(int op, const PR& r) { auto& l = rec(op); l.seg = r.segment; l.cap = r.capTable; l.ptr = r.pointer; l.nest = r.nestingLimit; return l; }
static Log& rec(int op, const PB& r) { auto& l = rec(op); l.seg = r.segment; l.cap = r.capTable; l.ptr = r.pointer; return l; }
static Log& rec(int op, const OB& r) { auto& l = rec(op); l.seg = r.segment; l.cap = r.capTable; l.ptr = r.location; memcpy(&l.c, &r.tag, 8); return l; }
static Log& rec(int op, const SB& r) { auto& l = rec(op); l.seg = r.segment; l.cap = r.capTable; l.ptr = r.data; return l; }
static Log& rec(int op, const LB& r) { auto& l = rec(op); l.seg = r.segment; l.cap = r.capTable; l.ptr = r.ptr; return l; }
static Log& rec(int op, const LR& r) { auto& l = rec(op); l.seg = r.segment; l.cap = r.capTable; l.ptr = r.ptr; l.nest = r.nestingLimit; return l; }
#define DW(s) ((uint64_t)unbound((s).data / capnp::WORDS))
#define PC(s) ((uint64_t)unbound((s).pointers / capnp::POINTERS))
#define EL(x) ((uint64_t)unbound((x) / capnp::ELEMENTS))
#define BY(x) ((uint64_t)unbound((x) / capnp::BYTES))
static SR mkSR(int k = 0) { return SR((capnp::_::SegmentReader*)(k ? SEG2 : SEG), (capnp::_::CapTableReader*)(k ? CAP2 : CAP), k ? DAT2 : DAT, WP(k ? PTR2 : PTR), bounded<128>() * capnp::BITS, bounded<3>() * capnp::POINTERS, 17); }
static SB mkSB(int k = 0) { return SB((capnp::_::SegmentBuilder*)(k ? SEG2 : SEG), (capnp::_::CapTableBuilder*)(k ? CAP2 : CAP), k ? DAT2 : DAT, WP(k ? PTR2 : PTR), bounded<128>() * capnp::BITS, bounded<3>() * capnp::POINTERS); }
static LR mkLR(int k = 0, ElementSize es = ElementSize::INLINE_COMPOSITE) { return LR((capnp::_::SegmentReader*)(k ? SEG2 : SEG), (capnp::_::CapTableReader*)(k ? CAP2 : CAP), k ? DAT2 : DAT, bounded<5>() * capnp::ELEMENTS, bounded<64>() * capnp::BITS / capnp::ELEMENTS, bounded<0>() * capnp::BITS, bounded<1>() * capnp::POINTERS, es, 17); }
static LB mkLB(int k = 0, ElementSize es = ElementSize::INLINE_COMPOSITE) { return LB((capnp::_::SegmentBuilder*)(k ? SEG2 : SEG), (capnp::_::CapTableBuilder*)(k ? CAP2 : CAP), k ? DAT2 : DAT, bounded<64>() * capnp::BITS / capnp::ELEMENTS, bounded<5>() * capnp::ELEMENTS, bounded<0>() * capnp::BITS, bounded<1>() * capnp::POINTERS, es); }
static PR mkPR(int k = 0) { return PR((capnp::_::SegmentReader*)(k ? SEG2 : SEG), (capnp::_::CapTableReader*)(k ? CAP2 : CAP), WP(k ? PTR2 : PTR), 17); }
static PB mkPB(int k = 0) { return PB((capnp::_::SegmentBuilder*)(k ? SEG2 : SEG), (capnp::_::CapTableBuilder*)(k ? CAP2 : CAP), WP(k ? PTR2 : PTR)); }
static OB mkOB(uint64_t tag = 77) { return OB(&tag, (capnp::_::SegmentBuilder*)SEGO, (capnp::_::CapTableBuilder*)CAPO, (capnp::word*)LOCO); }
static OB mkOB2() { uint64_t tag = 79; return OB(&tag, (capnp::_::SegmentBuilder*)SEG2, (capnp::_::CapTableBuilder*)CAP2, (capnp::word*)DAT2); }
static bool isSR(const SR& r, int k) { return r.segment == (void*)(k ? SEG2 : SEG) && r.capTable == (void*)(k ? CAP2 : CAP) && r.data == (k ? DAT2 : DAT) && (void*)r.pointers == (k ? PTR2 : PTR) && unbound(r.dataSize / capnp::BITS) == 128 && unbound(r.pointerCount / capnp::POINTERS) == 3 && r.nestingLimit == 17; }
static bool isSB(const SB& r, int k) { return r.segment == (void*)(k ? SEG2 : SEG) && r.capTable == (void*)(k ? CAP2 : CAP) && r.data == (k ? DAT2 : DAT) && (void*)r.pointers == (k ? PTR2 : PTR) && unbound(r.dataSize / capnp::BITS) == 128 && unbound(r.pointerCount / capnp::POINTERS) == 3; }
template <typename L> static bool isL(const L& r, int k) { return (void*)r.segment == (void*)(k ? SEG2 : SEG) && (void*)r.capTable == (void*)(k ? CAP2 : CAP) && (void*)r.ptr == (k ? DAT2 : DAT) && unbound(r.elementCount / capnp::ELEMENTS) == 5; }
static bool isPR(const PR& r, int k) { return (void*)r.segment == (void*)(k ? SEG2 : SEG) && (void*)r.capTable == (void*)(k ? CAP2 : CAP) && (void*)r.pointer == (k ? PTR2 : PTR) && r.nestingLimit == 17; }
static bool isPB(const PB& r, int k) { return (void*)r.segment == (void*)(k ? SEG2 : SEG) && (void*)r.capTable == (void*)(k ? CAP2 : CAP) && (void*)r.pointer == (k ? PTR2 : PTR); }
static bool isOB(const OB& r, uint64_t tag = 77) { uint64_t t; memcpy(&t, &r.tag, 8); return (void*)r.segment == (void*)SEGO && (void*)r.capTable == (void*)CAPO && (void*)r.location == LOCO && t == tag; }
static bool on(int op, int k = 0) { return n == 1 && g.op == op && g.seg == (k ? SEG2 : SEG) && g.cap == (k ? CAP2 : CAP) && g.ptr == (k ? PTR2 : PTR); }
static bool onR(int op, int k = 0) { return on(op, k) && g.nest == 17; }
static bool onO(int op) { return n == 1 && g.op == op && g.seg == SEGO && g.cap == CAPO && g.ptr == LOCO && g.c == 77; }
static bool sized(SZ) { return true; }
template <typename T> static bool sz() { return g.a == T::_capnpPrivate::dataWordSize && g.b == T::_capnpPrivate::pointerCount; }
#define TR ((const char*)TXT)
namespace capnp { namespace _ {
// every result is the "second" token, so it can be told from the object operated on
PointerType PointerReader::getPointerType() const { auto& l = rec(TYPE, *this); auto t = nd(90) ? PointerType::NULL_ : nd(91) ? PointerType::STRUCT : nd(92) ? PointerType::LIST : PointerType::CAPABILITY; l.a = (uint64_t)t; return t; }
PointerType PointerBuilder::getPointerType() const { auto& l = rec(TYPE, *this); auto t = nd(90) ? PointerType::NULL_ : nd(91) ? PointerType::STRUCT : nd(92) ? PointerType::LIST : PointerType::CAPABILITY; l.a = (uint64_t)t; return t; }
MessageSizeCounts PointerReader::targetSize() const { rec(TARGET, *this); MessageSizeCounts r; r.wordCount = bounded<41>() * WORDS; r.capCount = 42; return r; }
bool PointerReader::isCanonical(const word**) { rec(CANON, *this); return nd(90); }
StructReader PointerReader::getStruct(const word* d) const { rec(GETSTRUCT, *this).d = d; return mkSR(1); }
ListReader PointerReader::getList(ElementSize es, const word* d) const { auto& l = rec(GETLIST, *this); l.a = (uint64_t)es; l.d = d; return mkLR(1, es); }
ListReader PointerReader::getListAnySize(const word* d) const { rec(GETANYLIST, *this).d = d; return mkLR(1); }
template <> Text::Reader PointerReader::getBlob<Text>(const void* d, ByteCount s) const { auto& l = rec(GETTEXT, *this); l.d = d; l.a = BY(s); return Text::Reader(TR, 7); }
template <> Data::Reader PointerReader::getBlob<Data>(const void* d, ByteCount s) const { auto& l = rec(GETDATA, *this); l.d = d; l.a = BY(s); return Data::Reader((const byte*)TXT, 9); }
kj::Own<ClientHook> PointerReader::getCapability() const { rec(GETCAP, *this); return kj::Own<ClientHook>((ClientHook*)HOOK, kj::NullDisposer::instance); }
PointerReader PointerReader::getRoot(SegmentReader* s, CapTableReader* c, const word* p, int nl) { return PointerReader(s, c, (const WirePointer*)p, nl); }
PointerReader PointerReader::imbue(CapTableReader* c) const { rec(IMBUE, *this).d = c; return mkPR(1); }
StructBuilder PointerBuilder::getStruct(StructSize s, const word* d) { auto& l = rec(GETSTRUCT, *this); l.a = DW(s); l.b = PC(s); l.d = d; return mkSB(1); }
ListBuilder PointerBuilder::getList(ElementSize es, const word* d) { auto& l = rec(GETLIST, *this); l.a = (uint64_t)es; l.d = d; return mkLB(1, es); }
ListBuilder PointerBuilder::getStructList(StructSize s, const word* d) { auto& l = rec(GETSTRUCTLIST, *this); l.a = DW(s); l.b = PC(s); l.d = d; return mkLB(1); }
ListBuilder PointerBuilder::getListAnySize(const word* d) { rec(GETANYLIST, *this).d = d; return mkLB(1); }
template <> Text::Builder PointerBuilder::getBlob<Text>(const void* d, ByteCount s) { auto& l = rec(GETTEXT, *this); l.d = d; l.a = BY(s); return Text::Builder(TXT, 7); }
template <> Data::Builder PointerBuilder::getBlob<Data>(const void* d, ByteCount s) { auto& l = rec(GETDATA, *this); l.d = d; l.a = BY(s); return Data::Builder((byte*)TXT, 9); }
kj::Own<ClientHook> PointerBuilder::getCapability() { rec(GETCAP, *this); return kj::Own<ClientHook>((ClientHook*)HOOK, kj::NullDisposer::instance); }
StructBuilder PointerBuilder::initStruct(StructSize s) { auto& l = rec(INITSTRUCT, *this); l.a = DW(s); l.b = PC(s); return mkSB(1); }
ListBuilder PointerBuilder::initList(ElementSize es, ElementCount c) { auto& l = rec(INITLIST, *this); l.a = (uint64_t)es; l.b = EL(c); return mkLB(1, es); }
ListBuilder PointerBuilder::initStructList(ElementCount c, StructSize s) { auto& l = rec(INITSTRUCTLIST, *this); l.a = DW(s); l.b = PC(s); l.c = EL(c); return mkLB(1); }
template <> Text::Builder PointerBuilder::initBlob<Text>(ByteCount s) { rec(INITTEXT, *this).a = BY(s); return Text::Builder(TXT, 7); }
template <> Data::Builder PointerBuilder::initBlob<Data>(ByteCount s) { rec(INITDATA, *this).a = BY(s); return Data::Builder((byte*)TXT, 9); }
void PointerBuilder::setStruct(const StructReader& v, bool c) { auto& l = rec(SETSTRUCT, *this); l.a = isSR(v, 1); l.f = c; }
void PointerBuilder::setList(const ListReader& v, bool c) { auto& l = rec(SETLIST, *this); l.a = isL(v, 1); l.f = c; }
template <> void PointerBuilder::setBlob<Text>(Text::Reader v) { auto& l = rec(SETTEXT, *this); l.d = v.begin(); l.a = v.size(); }
template <> void PointerBuilder::setBlob<Data>(Data::Reader v) { auto& l = rec(SETDATA, *this); l.d = v.begin(); l.a = v.size(); }
void PointerBuilder::setCapability(kj::Own<ClientHook>&& c) { rec(SETCAP, *this).d = c.get(); }
// adopting takes the orphan over
void PointerBuilder::adopt(OrphanBuilder&& o) { auto& l = rec(ADOPT, *this); l.a = isOB(o); o.segment = nullptr; o.location = nullptr; }
OrphanBuilder PointerBuilder::disown() { rec(DISOWN, *this); return mkOB(); }
void PointerBuilder::clear() { rec(CLEAR, *this); }
void PointerBuilder::transferFrom(PointerBuilder o) { rec(TRANSFER, *this).a = isPB(o, 1); }
void PointerBuilder::copyFrom(PointerReader o, bool c) { auto& l = rec(COPYFROM, *this); l.a = isPR(o, 1); l.f = c; }
PointerReader PointerBuilder::asReader() const { rec(ASREADER, *this); return mkPR(1); }
BuilderArena* PointerBuilder::getArena() const { rec(ARENA, *this); return (BuilderArena*)ARENA_; }
CapTableBuilder* PointerBuilder::getCapTable() { return capTable; }
PointerBuilder PointerBuilder::imbue(CapTableBuilder* c) { rec(IMBUE, *this).d = c; return mkPB(1); }
void StructBuilder::clearAll() { rec(S_CLEAR, *this); }
void StructBuilder::transferContentFrom(StructBuilder o) { rec(S_TRANSFER, *this).a = isSB(o, 1); }
void StructBuilder::copyContentFrom(StructReader o) { rec(S_COPY, *this).a = isSR(o, 1); }
StructReader StructBuilder::asReader() const { rec(ASREADER, *this); return mkSR(1); }
BuilderArena* StructBuilder::getArena() { rec(ARENA, *this); return (BuilderArena*)ARENA_; }
CapTableBuilder* StructBuilder::getCapTable() { return capTable; }
MessageSizeCounts StructReader::totalSize() const { auto& l = rec(S_TOTAL); l.a = isSR(*this, 0); MessageSizeCounts r; r.wordCount = bounded<41>() * WORDS; r.capCount = 42; return r; }
kj::Array<word> StructReader::canonicalize() { auto& l = rec(CANON); l.a = isSR(*this, 0); return nullptr; }
StructReader ListReader::getStructElement(ElementCount i) const { auto& l = rec(L_ELT, *this); l.a = EL(i); return mkSR(1); }
StructBuilder ListBuilder::getStructElement(ElementCount i) { auto& l = rec(L_ELT, *this); l.a = EL(i); return mkSB(1); }
ListReader ListBuilder::asReader() const { rec(ASREADER, *this); return mkLR(1, elementSize); }
BuilderArena* ListBuilder::getArena() { rec(ARENA, *this); return (BuilderArena*)ARENA_; }
CapTableBuilder* ListBuilder::getCapTable() { return capTable; }
MessageSizeCounts ListReader::totalSize() const { rec(L_TOTAL, *this); MessageSizeCounts r; r.wordCount = bounded<41>() * WORDS; r.capCount = 42; return r; }
kj::ArrayPtr<const byte> ListReader::asRawBytes() const { rec(L_TOTAL, *this); return kj::ArrayPtr<const byte>((const byte*)TXT, 9); }
static Log& recA(int op, BuilderArena* a, CapTableBuilder* c) { auto& l = rec(op); l.seg = a; l.cap = c; return l; }
OrphanBuilder OrphanBuilder::initStruct(BuilderArena* a, CapTableBuilder* c, StructSize s) { auto& l = recA(O_INITSTRUCT, a, c); l.a = DW(s); l.b = PC(s); return mkOB(); }
OrphanBuilder OrphanBuilder::initList(BuilderArena* a, CapTableBuilder* c, ElementCount k, ElementSize es) { auto& l = recA(O_INITLIST, a, c); l.a = (uint64_t)es; l.b = EL(k); return mkOB(); }
OrphanBuilder OrphanBuilder::initStructList(BuilderArena* a, CapTableBuilder* c, ElementCount k, StructSize s) { auto& l = recA(O_INITSTRUCTLIST, a, c); l.a = DW(s); l.b = PC(s); l.c = EL(k); return mkOB(); }
OrphanBuilder OrphanBuilder::initText(BuilderArena* a, CapTableBuilder* c, ByteCount s) { recA(O_INITTEXT, a, c).a = BY(s); return mkOB(); }
OrphanBuilder OrphanBuilder::initData(BuilderArena* a, CapTableBuilder* c, ByteCount s) { recA(O_INITDATA, a, c).a = BY(s); return mkOB(); }
OrphanBuilder OrphanBuilder::copy(BuilderArena* a, CapTableBuilder* c, StructReader v) { recA(O_COPYS, a, c).a = isSR(v, 1); return mkOB(); }
OrphanBuilder OrphanBuilder::copy(BuilderArena* a, CapTableBuilder* c, ListReader v) { recA(O_COPYL, a, c).a = isL(v, 1); return mkOB(); }
OrphanBuilder OrphanBuilder::copy(BuilderArena* a, CapTableBuilder* c, PointerReader v) { recA(O_COPYP, a, c).a = isPR(v, 1); return mkOB(); }
OrphanBuilder OrphanBuilder::copy(BuilderArena* a, CapTableBuilder* c, Text::Reader v) { auto& l = recA(O_COPYT, a, c); l.d = v.begin(); l.a = v.size(); return mkOB(); }
OrphanBuilder OrphanBuilder::copy(BuilderArena* a, CapTableBuilder* c, Data::Reader v) { auto& l = recA(O_COPYD, a, c); l.d = v.begin(); l.a = v.size(); return mkOB(); }
OrphanBuilder OrphanBuilder::concat(BuilderArena* a, CapTableBuilder* c, ElementSize es, StructSize s, kj::ArrayPtr<const ListReader> ls) {
  auto& l = recA(O_CONCAT, a, c); l.a = (uint64_t)es; l.b = DW(s); l.c = PC(s); l.d = ls.begin(); l.nest = (int)ls.size(); return mkOB(); }
OrphanBuilder OrphanBuilder::referenceExternalData(BuilderArena* a, Data::Reader v) { auto& l = rec(O_EXT); l.seg = a; l.d = v.begin(); l.a = v.size(); return mkOB(); }
StructBuilder OrphanBuilder::asStruct(StructSize s) { auto& l = rec(O_ASSTRUCT, *this); l.a = DW(s); l.b = PC(s); return mkSB(1); }
ListBuilder OrphanBuilder::asList(ElementSize es) { rec(O_ASLIST, *this).a = (uint64_t)es; return mkLB(1, es); }
ListBuilder OrphanBuilder::asStructList(StructSize s) { auto& l = rec(O_ASSTRUCTLIST, *this); l.a = DW(s); l.b = PC(s); return mkLB(1); }
ListBuilder OrphanBuilder::asListAnySize() { rec(O_ASANYLIST, *this); return mkLB(1); }
Text::Builder OrphanBuilder::asText() { rec(O_ASTEXT, *this); return Text::Builder(TXT, 7); }
Data::Builder OrphanBuilder::asData() { rec(O_ASDATA, *this); return Data::Builder((byte*)TXT, 9); }
StructReader OrphanBuilder::asStructReader(StructSize s) const { auto& l = rec(O_ASSTRUCTR, *this); l.a = DW(s); l.b = PC(s); return mkSR(1); }
ListReader OrphanBuilder::asListReader(ElementSize es) const { rec(O_ASLISTR, *this).a = (uint64_t)es; return mkLR(1, es); }
ListReader OrphanBuilder::asListReaderAnySize() const { rec(O_ASANYLISTR, *this); return mkLR(1); }
kj::Own<ClientHook> OrphanBuilder::asCapability() const { rec(O_ASCAP, *this); return kj::Own<ClientHook>((ClientHook*)HOOK, kj::NullDisposer::instance); }
Text::Reader OrphanBuilder::asTextReader() const { rec(O_ASTEXTR, *this); return Text::Reader(TR, 7); }
Data::Reader OrphanBuilder::asDataReader() const { rec(O_ASDATAR, *this); return Data::Reader((const byte*)TXT, 9); }
void OrphanBuilder::truncate(ElementCount k, ElementSize es) { auto& l = rec(O_TRUNC, *this); l.a = (uint64_t)es; l.b = EL(k); }
void OrphanBuilder::truncate(ElementCount k, StructSize s) { auto& l = rec(O_TRUNCS, *this); l.a = DW(s); l.b = PC(s); l.d = (void*)EL(k); }
void OrphanBuilder::truncateText(ElementCount k) { rec(O_TRUNCTEXT, *this).b = EL(k); }
void OrphanBuilder::euthanize() { rec(O_KILL, *this); segment = nullptr; location = nullptr; }
} }
namespace capnp {
AnyPointer::Reader MessageReader::getRootInternal() { first.op = ROOT; return AnyPointer::Reader(mkPR(0)); }
AnyPointer::Builder MessageBuilder::getRootInternal() { first.op = ROOT; return AnyPointer::Builder(mkPB(0)); }
}
extern char MSG[1024];
#define MR (*(MessageReader*)MSG)
#define MB (*(MessageBuilder*)MSG)
static bool isT(kj::StringPtr t) { return t.begin() == TXT && t.size() == 7; }
static bool isTB(Text::Builder t) { return t.begin() == TXT && t.size() == 7; }
static bool isD(kj::ArrayPtr<const kj::byte> d) { return d.begin() == (void*)TXT && d.size() == 9; }
typedef List<bool> LBo; typedef List<Void> LVo; typedef List<uint8_t> LU8; typedef List<int16_t> LI16; typedef List<uint32_t> LU32; typedef List<int64_t> LI64; typedef List<float> LF; typedef List<double> LD; typedef List<schema::ElementSize> LEn;
typedef List<Text> LTx; typedef List<Data> LDa; typedef List<List<uint32_t>> LLi; typedef List<List<S>> LLS; typedef List<S> LSt; typedef List<AnyPointer> LAP; typedef List<Capability> LCa;
#define E_(x) ((uint64_t)ElementSize::x)

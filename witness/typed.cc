// Which wire-layer operation, on which pointer and with which arguments, each typed accessor performs (analysed by rules/p31.py, -fno-access-control).
#include "wire.h"
namespace vp {
// ---- any pointers: reading
void all__rd_struct() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<S>(); MUST(onR(GETSTRUCT) && g.d == nullptr); MUST(isSR(v._reader, 1)); done(); }
void all__rd_text() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<Text>(); MUST(onR(GETTEXT) && g.a == 0); MUST(isT(v)); done(); }
void all__rd_data() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<Data>(); MUST(onR(GETDATA) && g.a == 0); MUST(isD(v)); done(); }
void all__rd_anystruct() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<AnyStruct>(); MUST(onR(GETSTRUCT) && g.d == nullptr); MUST(isSR(v._reader, 1)); done(); }
void all__rd_anylist() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<AnyList>(); MUST(onR(GETANYLIST) && g.d == nullptr); MUST(isL(v._reader, 1)); done(); }
void all__rd_any() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<AnyPointer>(); MUST(n == 0); MUST(isPR(v.reader, 0)); done(); }
void all__rd_cap() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<Capability>(); MUST(onR(GETCAP)); MUST((void*)v.hook.get() == HOOK); done(); }
void all__rd_target() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.targetSize(); MUST(onR(TARGET)); MUST(v.wordCount == 41 && v.capCount == 42); done(); }
#define KIND(R) auto t = g.op; (void)t;
void all__rd_type() { BEG; AnyPointer::Reader r(mkPR()); auto t = r.getPointerType(); MUST(onR(TYPE)); MUST(t == ((PointerType)g.a)); done(); }
void all__rd_isnull() { BEG; AnyPointer::Reader r(mkPR()); bool t = r.isNull(); MUST(onR(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::NULL_)); done(); }
void all__rd_isstruct() { BEG; AnyPointer::Reader r(mkPR()); bool t = r.isStruct(); MUST(onR(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::STRUCT)); done(); }
void all__rd_islist() { BEG; AnyPointer::Reader r(mkPR()); bool t = r.isList(); MUST(onR(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::LIST)); done(); }
void all__rd_iscap() { BEG; AnyPointer::Reader r(mkPR()); bool t = r.isCapability(); MUST(onR(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::CAPABILITY)); done(); }
void all__bd_isnull() { BEG; AnyPointer::Builder r(mkPB()); bool t = r.isNull(); MUST(on(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::NULL_)); done(); }
void all__bd_isstruct() { BEG; AnyPointer::Builder r(mkPB()); bool t = r.isStruct(); MUST(on(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::STRUCT)); done(); }
void all__bd_islist() { BEG; AnyPointer::Builder r(mkPB()); bool t = r.isList(); MUST(on(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::LIST)); done(); }
void all__bd_iscap() { BEG; AnyPointer::Builder r(mkPB()); bool t = r.isCapability(); MUST(on(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::CAPABILITY)); done(); }
void all__rd_rawnull() { BEG; PR r = mkPR(); bool t = r.isNull(); MUST(onR(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::NULL_)); done(); }
void all__bd_rawnull() { BEG; PB r = mkPB(); bool t = r.isNull(); MUST(on(TYPE)); MUST(t == (((PointerType)g.a) == PointerType::NULL_)); done(); }
void all__rd_default() { BEG; AnyPointer::Reader r; MUST((void*)r.reader.pointer == nullptr); MUST(r.reader.segment == nullptr); MUST(r.reader.nestingLimit == 0x7fffffff); done(); }
// ---- any pointers: building
void all__bd_struct() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<S>(); MUST(on(GETSTRUCT) && sz<S>() && g.d == nullptr); MUST(isSB(v._builder, 1)); done(); }
void all__bd_struct2() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<S2>(); MUST(on(GETSTRUCT) && sz<S2>() && g.d == nullptr); MUST(isSB(v._builder, 1)); done(); }
void all__bd_text() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<Text>(); MUST(on(GETTEXT) && g.a == 0); MUST(isTB(v)); done(); }
void all__bd_data() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<Data>(); MUST(on(GETDATA) && g.a == 0); MUST(isD(v)); done(); }
void all__bd_anystruct() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<AnyStruct>(); MUST(on(GETSTRUCT) && g.a == 0 && g.b == 0 && g.d == nullptr); MUST(isSB(v._builder, 1)); done(); }
void all__bd_anylist() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<AnyList>(); MUST(on(GETANYLIST) && g.d == nullptr); MUST(isL(v._builder, 1)); done(); }
void all__bd_any() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<AnyPointer>(); MUST(n == 0); MUST(isPB(v.builder, 0)); done(); }
void all__bd_cap() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<Capability>(); MUST(on(GETCAP)); MUST((void*)v.hook.get() == HOOK); done(); }
void all__bd_target() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.targetSize(); MUST(n == 2 && g.op == TARGET && g.ptr == PTR2); MUST(v.wordCount == 41 && v.capCount == 42); done(); }
void all__bd_clear() { BEG; AnyPointer::Builder r(mkPB()); r.clear(); MUST(on(CLEAR)); done(); }
void all__bd_asreader() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.asReader(); MUST(on(ASREADER)); MUST(isPR(v.reader, 1)); done(); }
void all__bd_asreader2() { BEG; AnyPointer::Builder r(mkPB()); AnyPointer::Reader v = r; MUST(on(ASREADER)); MUST(isPR(v.reader, 1)); done(); }
void all__in_struct() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.initAs<S>(); MUST(on(INITSTRUCT) && sz<S>()); MUST(isSB(v._builder, 1)); done(); }
void all__in_text() { BEG; uint k = nv(1); AnyPointer::Builder r(mkPB()); auto v = r.initAs<Text>(k & 0xffffff); MUST(on(INITTEXT) && g.a == (k & 0xffffff)); MUST(isTB(v)); done(); }
void all__in_data() { BEG; uint k = nv(1); AnyPointer::Builder r(mkPB()); auto v = r.initAs<Data>(k & 0xffffff); MUST(on(INITDATA) && g.a == (k & 0xffffff)); MUST(isD(v)); done(); }
void all__in_any() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.initAs<AnyPointer>(); MUST(on(CLEAR)); MUST(isPB(v.builder, 0)); done(); }
void all__in_anylist() { BEG; uint k = nv(1) & 0xffffff; AnyPointer::Builder r(mkPB()); auto v = r.initAsAnyList(ElementSize::FOUR_BYTES, k); MUST(on(INITLIST) && g.a == E_(FOUR_BYTES) && g.b == k); MUST(isL(v._builder, 1)); done(); }
void all__in_anylistP() { BEG; uint k = nv(1) & 0xffffff; auto v = capnp::_::PointerHelpers<AnyList>::init(mkPB(), ElementSize::BIT, k); MUST(on(INITLIST) && g.a == E_(BIT) && g.b == k); MUST(isL(v._builder, 1)); done(); }
void all__in_anylistS() { BEG; uint k = nv(1) & 0xffffff; uint16_t d = nv(2), p = nv(3); auto v = capnp::_::PointerHelpers<AnyList>::init(mkPB(), d, p, k); MUST(n == 1 && g.op == INITSTRUCTLIST && g.ptr == PTR && g.a == d && g.b == p && g.c == k); MUST(isL(v._builder, 1)); done(); }
void all__in_listany() { BEG; uint k = nv(1) & 0xffffff; uint16_t d = nv(2), p = nv(3); AnyPointer::Builder r(mkPB()); auto v = r.initAsListOfAnyStruct(d, p, k); MUST(on(INITSTRUCTLIST) && g.a == d && g.b == p && g.c == k); MUST(isL(v.builder, 1)); done(); }
void all__in_anystruct() { BEG; uint16_t d = nv(2), p = nv(3); AnyPointer::Builder r(mkPB()); auto v = r.initAsAnyStruct(d, p); MUST(on(INITSTRUCT) && g.a == d && g.b == p); MUST(isSB(v._builder, 1)); done(); }
void all__in_anystructP() { BEG; uint16_t d = nv(2), p = nv(3); auto v = capnp::_::PointerHelpers<AnyStruct>::init(mkPB(), d, p); MUST(on(INITSTRUCT) && g.a == d && g.b == p); MUST(isSB(v._builder, 1)); done(); }
// ---- setting, with and without canonicalisation
void all__st_struct() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<S>(S::Reader(mkSR(1))); MUST(on(SETSTRUCT) && g.a && !g.f); done(); }
void all__st_structc() { BEG; AnyPointer::Builder r(mkPB()); r.setCanonicalAs<S>(S::Reader(mkSR(1))); MUST(on(SETSTRUCT) && g.a && g.f); done(); }
void all__st_list() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<LU32>(LU32::Reader(mkLR(1))); MUST(on(SETLIST) && g.a && !g.f); done(); }
void all__st_listc() { BEG; AnyPointer::Builder r(mkPB()); r.setCanonicalAs<LU32>(LU32::Reader(mkLR(1))); MUST(on(SETLIST) && g.a && g.f); done(); }
void all__st_slist() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<LSt>(LSt::Reader(mkLR(1))); MUST(on(SETLIST) && g.a && !g.f); done(); }
void all__st_text() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<Text>(Text::Reader(TR, 7)); MUST(on(SETTEXT) && g.d == TXT && g.a == 7); done(); }
void all__st_textc() { BEG; AnyPointer::Builder r(mkPB()); r.setCanonicalAs<Text>(Text::Reader(TR, 7)); MUST(on(SETTEXT) && g.d == TXT && g.a == 7); done(); }
void all__st_data() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<Data>(Data::Reader((const kj::byte*)TXT, 9)); MUST(on(SETDATA) && g.d == TXT && g.a == 9); done(); }
void all__st_anystruct() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<AnyStruct>(AnyStruct::Reader(mkSR(1))); MUST(on(SETSTRUCT) && g.a && !g.f); done(); }
void all__st_anylist() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<AnyList>(AnyList::Reader(mkLR(1))); MUST(on(SETLIST) && g.a && !g.f); done(); }
void all__st_any() { BEG; AnyPointer::Builder r(mkPB()); r.setAs<AnyPointer>(AnyPointer::Reader(mkPR(1))); MUST(on(COPYFROM) && g.a && !g.f); done(); }
void all__st_any2() { BEG; AnyPointer::Builder r(mkPB()); r.set(AnyPointer::Reader(mkPR(1))); MUST(on(COPYFROM) && g.a && !g.f); done(); }
void all__st_any3() { BEG; capnp::_::PointerHelpers<AnyPointer>::set(mkPB(), AnyPointer::Reader(mkPR(1))); MUST(on(COPYFROM) && g.a && !g.f); done(); }
void all__st_anyc() { BEG; AnyPointer::Builder r(mkPB()); r.setCanonical(AnyPointer::Reader(mkPR(1))); MUST(on(COPYFROM) && g.a && g.f); done(); }
void all__st_cap() { BEG; kj::Own<ClientHook> h((ClientHook*)HOOK, kj::NullDisposer::instance); Capability::Client c(kj::mv(h)); capnp::_::PointerHelpers<Capability>::set(mkPB(), kj::mv(c)); MUST(on(SETCAP) && g.d == HOOK); MUST(c.hook.get() == nullptr || (void*)c.hook.get() == HOOK); done(); }
// ---- lists: every element kind uses its own encoding
#define LIST(N, T, ES) \
 void all__rd_l##N() { BEG; AnyPointer::Reader r(mkPR()); auto v = r.getAs<T>(); MUST(onR(GETLIST) && g.a == E_(ES) && g.d == nullptr); MUST(isL(v.reader, 1)); done(); } \
 void all__rdd_l##N() { BEG; auto v = capnp::_::PointerHelpers<T>::get(mkPR(), (capnp::word*)DEF); MUST(onR(GETLIST) && g.a == E_(ES) && g.d == DEF); MUST(isL(v.reader, 1)); done(); } \
 void all__ob_r##N() { BEG; Orphan<T> o(mkOB()); n = 0; auto v = o.getReader(); MUST(onO(O_ASLISTR) && g.a == E_(ES)); MUST(isL(v.reader, 1)); done(); } \
 void all__ob_empty##N() { BEG; T::Reader r; MUST(r.size() == 0); MUST(r.reader.getElementSize() == ElementSize::ES); done(); }
#define LISTB(N, T, ES, MD, MP) LIST(N, T, ES) \
 void all__bd_l##N() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<T>(); MUST(on(GETLIST) && g.a == E_(ES) && g.d == nullptr); MUST(isL(v.builder, 1)); done(); } \
 void all__bdd_l##N() { BEG; auto v = capnp::_::PointerHelpers<T>::get(mkPB(), (capnp::word*)DEF); MUST(on(GETLIST) && g.a == E_(ES) && g.d == DEF); MUST(isL(v.builder, 1)); done(); } \
 void all__in_l##N() { BEG; uint k = nv(1) & 0xffffff; AnyPointer::Builder r(mkPB()); auto v = r.initAs<T>(k); MUST(on(INITLIST) && g.a == E_(ES) && g.b == k); MUST(isL(v.builder, 1)); done(); } \
 void all__ob_g##N() { BEG; Orphan<T> o(mkOB()); n = 0; auto v = o.get(); MUST(onO(O_ASLIST) && g.a == E_(ES)); MUST(isL(v.builder, 1)); done(); } \
 void all__ob_n##N() { BEG; uint k = nv(1) & 0xffffff; Orphanage o((capnp::_::BuilderArena*)ARENA_, CAPB); auto v = o.newOrphan<T>(k); MUST(n == 1 && g.op == O_INITLIST && g.seg == ARENA_ && g.cap == CAP && g.a == E_(ES) && g.b == k); MUST(isOB(v.builder)); done(); } \
 void all__ob_t##N() { BEG; uint k = nv(1) & 0xffffff; Orphan<T> o(mkOB()); n = 0; o.truncate(k); MUST(onO(O_TRUNC) && g.a == E_(ES) && g.b == k); done(); } \
 void all__ob_c##N() { BEG; Orphanage o((capnp::_::BuilderArena*)ARENA_, CAPB); T::Reader ls[2] = {T::Reader(mkLR(0)), T::Reader(mkLR(1))}; auto v = o.newOrphanConcat(kj::arrayPtr(ls, 2)); \
   MUST(n == 1 && g.op == O_CONCAT && g.seg == ARENA_ && g.cap == CAP && g.a == E_(ES) && g.b == MD && g.c == MP && g.d == &ls[0] && g.nest == 2); MUST(isOB(v.builder)); done(); }
LISTB(Void, LVo, VOID, 0, 0) LISTB(Bool, LBo, BIT, 1, 0) LISTB(U8, LU8, BYTE, 1, 0) LISTB(I16, LI16, TWO_BYTES, 1, 0) LISTB(U32, LU32, FOUR_BYTES, 1, 0) LISTB(I64, LI64, EIGHT_BYTES, 1, 0) LISTB(F, LF, FOUR_BYTES, 1, 0) LISTB(D, LD, EIGHT_BYTES, 1, 0) LISTB(En, LEn, TWO_BYTES, 1, 0)
LISTB(Tx, LTx, POINTER, 0, 1) LISTB(Da, LDa, POINTER, 0, 1) LISTB(Li, LLi, POINTER, 0, 1) LISTB(LS, LLS, POINTER, 0, 1) LISTB(Ca, LCa, POINTER, 0, 1)
LIST(St, LSt, INLINE_COMPOSITE)
void all__bd_lSt() { BEG; AnyPointer::Builder r(mkPB()); auto v = r.getAs<LSt>(); MUST(on(GETSTRUCTLIST) && sz<S>() && g.d == nullptr); MUST(isL(v.builder, 1)); done(); }
void all__bdd_lSt() { BEG; auto v = capnp::_::PointerHelpers<LSt>::get(mkPB(), (capnp::word*)DEF); MUST(on(GETSTRUCTLIST) && sz<S>() && g.d == DEF); MUST(isL(v.builder, 1)); done(); }
void all__in_lSt() { BEG; uint k = nv(1) & 0xffffff; AnyPointer::Builder r(mkPB()); auto v = r.initAs<LSt>(k); MUST(on(INITSTRUCTLIST) && sz<S>() && g.c == k); MUST(isL(v.builder, 1)); done(); }
void all__ob_gSt() { BEG; Orphan<LSt> o(mkOB()); n = 0; auto v = o.get(); MUST(onO(O_ASSTRUCTLIST) && sz<S>()); MUST(isL(v.builder, 1)); done(); }
void all__ob_nSt() { BEG; uint k = nv(1) & 0xffffff; Orphanage o((capnp::_::BuilderArena*)ARENA_, CAPB); auto v = o.newOrphan<LSt>(k); MUST(n == 1 && g.op == O_INITSTRUCTLIST && g.seg == ARENA_ && g.cap == CAP && sz<S>() && g.c == k); MUST(isOB(v.builder)); done(); }
void all__ob_tSt() { BEG; uint k = nv(1) & 0xffffff; Orphan<LSt> o(mkOB()); n = 0; o.truncate(k); MUST(onO(O_TRUNCS) && sz<S>() && (uint64_t)g.d == k); done(); }
void all__ob_cSt() { BEG; Orphanage o((capnp::_::BuilderArena*)ARENA_, CAPB); LSt::Reader ls[2] = {LSt::Reader(mkLR(0)), LSt::Reader(mkLR(1))}; auto v = o.newOrphanConcat(kj::arrayPtr(ls, 2));
  MUST(n == 1 && g.op == O_CONCAT && g.a == E_(INLINE_COMPOSITE) && g.b == S::_capnpPrivate::dataWordSize && g.c == S::_capnpPrivate::pointerCount && g.d == &ls[0] && g.nest == 2); MUST(isOB(v.builder)); done(); }
// ---- pointer helpers with defaults
void all__hp_struct() { BEG; auto v = capnp::_::PointerHelpers<S>::get(mkPR(), (capnp::word*)DEF); MUST(onR(GETSTRUCT) && g.d == DEF); MUST(isSR(v._reader, 1)); done(); }
void all__hp_structb() { BEG; auto v = capnp::_::PointerHelpers<S>::get(mkPB(), (capnp::word*)DEF); MUST(on(GETSTRUCT) && sz<S>() && g.d == DEF); MUST(isSB(v._builder, 1)); done(); }
void all__hp_text() { BEG; uint k = nv(1) & 0xffffff; auto v = capnp::_::PointerHelpers<Text>::get(mkPR(), DEF, k); MUST(onR(GETTEXT) && g.d == DEF && g.a == k); MUST(isT(v)); done(); }
void all__hp_textb() { BEG; uint k = nv(1) & 0xffffff; auto v = capnp::_::PointerHelpers<Text>::get(mkPB(), DEF, k); MUST(on(GETTEXT) && g.d == DEF && g.a == k); MUST(isTB(v)); done(); }
void all__hp_data() { BEG; uint k = nv(1) & 0xffffff; auto v = capnp::_::PointerHelpers<Data>::get(mkPR(), DEF, k); MUST(onR(GETDATA) && g.d == DEF && g.a == k); MUST(isD(v)); done(); }
void all__hp_datab() { BEG; uint k = nv(1) & 0xffffff; auto v = capnp::_::PointerHelpers<Data>::get(mkPB(), DEF, k); MUST(on(GETDATA) && g.d == DEF && g.a == k); MUST(isD(v)); done(); }
void all__hp_any() { BEG; auto v = capnp::_::PointerHelpers<AnyPointer>::get(mkPR(), DEF); MUST(n == 0 && isPR(v.reader, 0)); auto w = capnp::_::PointerHelpers<AnyPointer>::get(mkPB(), DEF); MUST(n == 0 && isPB(w.builder, 0)); done(); }
void all__hp_anystruct() { BEG; auto v = capnp::_::PointerHelpers<AnyStruct>::get(mkPR(), (capnp::word*)DEF); MUST(onR(GETSTRUCT) && g.d == DEF); MUST(isSR(v._reader, 1)); done(); }
void all__hp_anystructb() { BEG; auto v = capnp::_::PointerHelpers<AnyStruct>::get(mkPB(), (capnp::word*)DEF); MUST(on(GETSTRUCT) && g.d == DEF && g.a == 0 && g.b == 0); MUST(isSB(v._builder, 1)); done(); }
void all__hp_anylist() { BEG; auto v = capnp::_::PointerHelpers<AnyList>::get(mkPR(), (capnp::word*)DEF); MUST(onR(GETANYLIST) && g.d == DEF); MUST(isL(v._reader, 1)); done(); }
void all__hp_anylistb() { BEG; auto v = capnp::_::PointerHelpers<AnyList>::get(mkPB(), (capnp::word*)DEF); MUST(on(GETANYLIST) && g.d == DEF); MUST(isL(v._builder, 1)); done(); }
// ---- adopting and disowning: the orphan moves, once
#define MOVE(N, T) \
 void all__ad_h##N() { BEG; Orphan<T> o(mkOB()); capnp::_::PointerHelpers<T>::adopt(mkPB(), kj::mv(o)); MUST(on(ADOPT) && g.a); MUST(o == nullptr); done(); } \
 void all__ad_a##N() { BEG; Orphan<T> o(mkOB()); AnyPointer::Builder r(mkPB()); r.adopt(kj::mv(o)); MUST(on(ADOPT) && g.a); MUST(o == nullptr); done(); } \
 void all__ad_m##N() { BEG; Orphan<T> o(mkOB()); MB.adoptRoot(kj::mv(o)); MUST(on(ADOPT) && g.a && first.op == ROOT); MUST(o == nullptr); done(); } \
 void all__di_h##N() { BEG; { auto o = capnp::_::PointerHelpers<T>::disown(mkPB()); MUST(on(DISOWN)); MUST(isOB(o.builder)); n = 0; } MUST(onO(O_KILL)); done(); } \
 void all__di_a##N() { BEG; { AnyPointer::Builder r(mkPB()); auto o = r.disownAs<T>(); MUST(on(DISOWN)); MUST(isOB(o.builder)); n = 0; } MUST(onO(O_KILL)); done(); } \
 void all__mv_##N() { BEG; { Orphan<T> o(mkOB()); { Orphan<T> p(kj::mv(o)); MUST(n == 0); MUST(o == nullptr); MUST(isOB(p.builder)); MUST(!(p == nullptr)); } MUST(onO(O_KILL)); n = 0; } MUST(n == 0); done(); } \
 void all__as_##N() { BEG; { Orphan<T> o(mkOB()); Orphan<T> p; MUST(p == nullptr); p = kj::mv(o); MUST(n == 0); MUST(o == nullptr); MUST(isOB(p.builder)); } MUST(onO(O_KILL)); done(); } \
 void all__ao_##N() { BEG; { Orphan<T> o(mkOB(78)); Orphan<T> p(mkOB()); p = kj::mv(o); MUST(onO(O_KILL)); n = 0; MUST(o == nullptr); MUST(isOB(p.builder, 78)); } MUST(n == 1 && g.op == O_KILL && g.c == 78); done(); } \
 void all__ax_##N() { BEG; { Orphan<T> p(mkOB2()); { Orphan<T> q(kj::mv(p)); n = 0; } MUST(n == 1 && g.op == O_KILL && g.c == 79); n = 0; MUST(p == nullptr); p = Orphan<T>(mkOB()); MUST(n == 0); MUST(isOB(p.builder)); } MUST(onO(O_KILL)); done(); } \
 void all__ay_##N() { BEG; { Orphan<T> p(mkOB2()); p = Orphan<T>(mkOB()); MUST(n == 1 && g.op == O_KILL && g.seg == SEG2 && g.cap == CAP2 && g.ptr == DAT2 && g.c == 79); n = 0; MUST(isOB(p.builder)); } MUST(onO(O_KILL)); done(); } \
 void all__az_##N() { BEG; { Orphan<T> p(mkOB2()); p = Orphan<T>(); n = 0; p = Orphan<T>(mkOB()); MUST(n == 0); MUST(isOB(p.builder)); } MUST(onO(O_KILL)); done(); } \
 void all__an_##N() { BEG; { Orphan<T> p(mkOB()); p = Orphan<T>(); MUST(onO(O_KILL)); n = 0; MUST(p == nullptr); } MUST(n == 0); done(); }
MOVE(S, S) MOVE(T, Text) MOVE(D, Data) MOVE(L, LU32) MOVE(LS, LSt) MOVE(LL, LLi) MOVE(AP, AnyPointer) MOVE(C, Capability)
#define MOVEANY(N, T) \
 void all__any_from##N() { BEG; { Orphan<T> o(mkOB()); Orphan<AnyPointer> p(kj::mv(o)); MUST(n == 0); MUST(o == nullptr); MUST(isOB(p.builder)); } MUST(onO(O_KILL)); done(); } \
 void all__any_set##N() { BEG; { Orphan<T> o(mkOB(78)); Orphan<AnyPointer> p(mkOB()); p = kj::mv(o); MUST(onO(O_KILL)); n = 0; MUST(o == nullptr); MUST(isOB(p.builder, 78)); } MUST(n == 1 && g.op == O_KILL && g.c == 78); done(); } \
 void all__any_rel##N() { BEG; { Orphan<AnyPointer> p(mkOB()); Orphan<T> o = p.releaseAs<T>(); MUST(n == 0); MUST(p == nullptr); MUST(isOB(o.builder)); } MUST(onO(O_KILL)); done(); }
MOVEANY(S, S) MOVEANY(T, Text) MOVEANY(D, Data) MOVEANY(L, LU32) MOVEANY(AS, AnyStruct) MOVEANY(AL, AnyList)
void all__any_relAP() { BEG; { Orphan<AnyPointer> p(mkOB()); Orphan<AnyPointer> o = p.releaseAs<AnyPointer>(); MUST(n == 0); MUST(p == nullptr); MUST(isOB(o.builder)); } MUST(onO(O_KILL)); done(); }
void all__di_any() { BEG; { AnyPointer::Builder r(mkPB()); auto o = r.disown(); MUST(on(DISOWN)); MUST(isOB(o.builder)); n = 0; } MUST(onO(O_KILL)); done(); }
void all__ad_hAS() { BEG; Orphan<AnyStruct> o(mkOB()); capnp::_::PointerHelpers<AnyStruct>::adopt(mkPB(), kj::mv(o)); MUST(on(ADOPT) && g.a); MUST(o == nullptr); done(); }
void all__ad_hAL() { BEG; Orphan<AnyList> o(mkOB()); capnp::_::PointerHelpers<AnyList>::adopt(mkPB(), kj::mv(o)); MUST(on(ADOPT) && g.a); MUST(o == nullptr); done(); }
void all__di_hAS() { BEG; auto o = capnp::_::PointerHelpers<AnyStruct>::disown(mkPB()); MUST(on(DISOWN)); MUST(isOB(o.builder)); done(); }
void all__di_hAL() { BEG; auto o = capnp::_::PointerHelpers<AnyList>::disown(mkPB()); MUST(on(DISOWN)); MUST(isOB(o.builder)); done(); }
// ---- orphans
void all__or_struct() { BEG; Orphan<S> o(mkOB()); n = 0; auto v = o.get(); MUST(onO(O_ASSTRUCT) && sz<S>()); MUST(isSB(v._builder, 1)); done(); }
void all__or_structr() { BEG; Orphan<S> o(mkOB()); n = 0; auto v = o.getReader(); MUST(onO(O_ASSTRUCTR) && sz<S>()); MUST(isSR(v._reader, 1)); done(); }
void all__or_text() { BEG; Orphan<Text> o(mkOB()); auto v = o.get(); MUST(onO(O_ASTEXT)); MUST(isTB(v)); n = 0; auto w = o.getReader(); MUST(onO(O_ASTEXTR)); MUST(isT(w)); done(); }
void all__or_data() { BEG; Orphan<Data> o(mkOB()); auto v = o.get(); MUST(onO(O_ASDATA)); MUST(isD(v)); n = 0; auto w = o.getReader(); MUST(onO(O_ASDATAR)); MUST(isD(w)); done(); }
void all__or_cap() { BEG; Orphan<Capability> o(mkOB()); auto v = o.get(); MUST(onO(O_ASCAP)); MUST((void*)v.hook.get() == HOOK); n = 0; auto w = o.getReader(); MUST(onO(O_ASCAP)); MUST((void*)w.hook.get() == HOOK); done(); }
void all__or_anystruct() { BEG; Orphan<AnyStruct> o(mkOB()); auto v = o.get(); MUST(onO(O_ASSTRUCT) && g.a == 0 && g.b == 0); MUST(isSB(v._builder, 1)); n = 0; auto w = o.getReader(); MUST(onO(O_ASSTRUCTR) && g.a == 0 && g.b == 0); MUST(isSR(w._reader, 1)); done(); }
void all__or_anylist() { BEG; Orphan<AnyList> o(mkOB()); auto v = o.get(); MUST(onO(O_ASANYLIST)); MUST(isL(v._builder, 1)); n = 0; auto w = o.getReader(); MUST(onO(O_ASANYLISTR)); MUST(isL(w._reader, 1)); done(); }
void all__or_anyget() { BEG; Orphan<AnyPointer> o(mkOB()); auto v = o.getAs<S>(); MUST(onO(O_ASSTRUCT) && sz<S>()); MUST(isSB(v._builder, 1)); n = 0; auto w = o.getAsReader<S>(); MUST(onO(O_ASSTRUCTR) && sz<S>()); MUST(isSR(w._reader, 1)); done(); }
void all__or_anyget2() { BEG; Orphan<AnyPointer> o(mkOB()); auto v = o.getAs<LU32>(); MUST(onO(O_ASLIST) && g.a == E_(FOUR_BYTES)); MUST(isL(v.builder, 1)); n = 0; auto w = o.getAsReader<Text>(); MUST(onO(O_ASTEXTR)); MUST(isT(w)); done(); }
void all__or_trtext() { BEG; uint k = nv(1) & 0xffffff; Orphan<Text> o(mkOB()); o.truncate(k); MUST(onO(O_TRUNCTEXT) && g.b == k); done(); }
void all__or_trdata() { BEG; uint k = nv(1) & 0xffffff; Orphan<Data> o(mkOB()); o.truncate(k); MUST(onO(O_TRUNC) && g.a == E_(BYTE) && g.b == k); done(); }
void all__or_null() { BEG; { Orphan<S> o; MUST(o == nullptr); Orphan<AnyPointer> p; MUST(p == nullptr); } MUST(n == 0); done(); }
// ---- orphanages
#define ORP Orphanage o((capnp::_::BuilderArena*)ARENA_, CAPB)
static bool onA(int op) { return n == 1 && g.op == op && g.seg == ARENA_ && g.cap == CAP; }
void all__og_struct() { BEG; ORP; auto v = o.newOrphan<S>(); MUST(onA(O_INITSTRUCT) && sz<S>()); MUST(isOB(v.builder)); done(); }
void all__og_text() { BEG; uint k = nv(1) & 0xffffff; ORP; auto v = o.newOrphan<Text>(k); MUST(onA(O_INITTEXT) && g.a == k); MUST(isOB(v.builder)); done(); }
void all__og_data() { BEG; uint k = nv(1) & 0xffffff; ORP; auto v = o.newOrphan<Data>(k); MUST(onA(O_INITDATA) && g.a == k); MUST(isOB(v.builder)); done(); }
void all__og_cpS() { BEG; ORP; auto v = o.newOrphanCopy(S::Reader(mkSR(1))); MUST(SAME(decltype(v), Orphan<S>)); MUST(onA(O_COPYS) && g.a); MUST(isOB(v.builder)); done(); }
void all__og_cpL() { BEG; ORP; auto v = o.newOrphanCopy(LU32::Reader(mkLR(1))); MUST(onA(O_COPYL) && g.a); MUST(isOB(v.builder)); done(); }
void all__og_cpT() { BEG; ORP; auto v = o.newOrphanCopy(Text::Reader(TR, 7)); MUST(onA(O_COPYT) && g.a == 7 && g.d == TXT); MUST(isOB(v.builder)); done(); }
void all__og_cpD() { BEG; ORP; auto v = o.newOrphanCopy(Data::Reader((const kj::byte*)TXT, 9)); MUST(onA(O_COPYD) && g.a == 9 && g.d == TXT); MUST(isOB(v.builder)); done(); }
void all__og_cpP() { BEG; ORP; auto v = o.newOrphanCopy(AnyPointer::Reader(mkPR(1))); MUST(onA(O_COPYP) && g.a); MUST(isOB(v.builder)); done(); }
void all__og_cpAS() { BEG; ORP; auto v = o.newOrphanCopy(AnyStruct::Reader(mkSR(1))); MUST(onA(O_COPYS) && g.a); MUST(isOB(v.builder)); done(); }
void all__og_cpAL() { BEG; ORP; auto v = o.newOrphanCopy(AnyList::Reader(mkLR(1))); MUST(onA(O_COPYL) && g.a); MUST(isOB(v.builder)); done(); }
void all__og_ext() { BEG; ORP; auto v = o.referenceExternalData(Data::Reader((const kj::byte*)TXT, 9)); MUST(n == 1 && g.op == O_EXT && g.seg == ARENA_ && g.d == TXT && g.a == 9); MUST(isOB(v.builder)); done(); }
#define OFM(N, X, K) void all__og_of##N() { BEG; auto o = Orphanage::getForMessageContaining(X); MUST((void*)o.arena == ARENA_ && (void*)o.capTable == CAP); MUST(n == 1 && g.op == ARENA && g.seg == SEG); done(); }
OFM(S, S::Builder(mkSB(0)), 0) OFM(L, LU32::Builder(mkLB(0)), 0) OFM(P, AnyPointer::Builder(mkPB(0)), 0) OFM(AS, AnyStruct::Builder(mkSB(0)), 0) OFM(AL, AnyList::Builder(mkLB(0)), 0)
// ---- elements of pointer lists
static LB plist() { return LB((capnp::_::SegmentBuilder*)SEG, (capnp::_::CapTableBuilder*)CAP, PTR, bounded<64>() * capnp::BITS / capnp::ELEMENTS, bounded<5>() * capnp::ELEMENTS, bounded<0>() * capnp::BITS, bounded<1>() * capnp::POINTERS, ElementSize::POINTER); }
static LR plistr() { return LR((capnp::_::SegmentReader*)SEG, (capnp::_::CapTableReader*)CAP, PTR, bounded<5>() * capnp::ELEMENTS, bounded<64>() * capnp::BITS / capnp::ELEMENTS, bounded<0>() * capnp::BITS, bounded<1>() * capnp::POINTERS, ElementSize::POINTER, 17); }
static bool at(int op, uint i) { return n == 1 && g.op == op && g.seg == SEG && g.cap == CAP && g.ptr == PTR + 8 * (uint64_t)i; }
#define IDX uint i = nv(5); ONLY(i < 5)
#define PLIST(N, T, E, GOP, GA) \
 void all__el_r##N() { BEG; IDX; T::Reader l(plistr()); auto v = l[i]; MUST(at(GOP, i) && GA && g.nest == 17); done(); } \
 void all__el_b##N() { BEG; IDX; T::Builder l(plist()); auto v = l[i]; MUST(at(GOP, i) && GA); done(); } \
 void all__el_ad##N() { BEG; IDX; T::Builder l(plist()); Orphan<E> o(mkOB()); l.adopt(i, kj::mv(o)); MUST(at(ADOPT, i) && g.a); MUST(o == nullptr); done(); } \
 void all__el_di##N() { BEG; IDX; T::Builder l(plist()); auto o = l.disown(i); MUST(at(DISOWN, i)); MUST(isOB(o.builder)); done(); } \
 void all__el_rd##N() { BEG; T::Builder l(mkLB(0)); auto r = l.asReader(); MUST(n == 1 && g.op == ASREADER && g.ptr == DAT); MUST(isL(r.reader, 1)); n = 0; T::Reader q = l; MUST(n == 1 && g.op == ASREADER); MUST(isL(q.reader, 1)); done(); } \
 void all__el_sz##N() { BEG; T::Reader l(mkLR(0)); auto v = l.totalSize(); MUST(n == 1 && g.op == L_TOTAL && g.ptr == DAT); MUST(v.wordCount == 41 && v.capCount == 42); done(); }
PLIST(Tx, LTx, Text, GETTEXT, (g.d == nullptr && g.a == 0)) PLIST(Da, LDa, Data, GETDATA, (g.d == nullptr && g.a == 0)) PLIST(Li, LLi, List<uint32_t>, GETLIST, (g.a == E_(FOUR_BYTES) && g.d == nullptr)) PLIST(Ca, LCa, Capability, GETCAP, true)
void all__el_rLS() { BEG; IDX; LLS::Reader l(plistr()); auto v = l[i]; MUST(at(GETLIST, i) && g.a == E_(INLINE_COMPOSITE) && g.d == nullptr); MUST(isL(v.reader, 1)); done(); }
void all__el_bLS() { BEG; IDX; LLS::Builder l(plist()); auto v = l[i]; MUST(at(GETSTRUCTLIST, i) && sz<S>() && g.d == nullptr); MUST(isL(v.builder, 1)); done(); }
void all__el_inTx() { BEG; IDX; uint k = nv(1) & 0xffffff; LTx::Builder l(plist()); auto v = l.init(i, k); MUST(at(INITTEXT, i) && g.a == k); MUST(isTB(v)); done(); }
void all__el_inDa() { BEG; IDX; uint k = nv(1) & 0xffffff; LDa::Builder l(plist()); auto v = l.init(i, k); MUST(at(INITDATA, i) && g.a == k); MUST(isD(v)); done(); }
void all__el_inLi() { BEG; IDX; uint k = nv(1) & 0xffffff; LLi::Builder l(plist()); auto v = l.init(i, k); MUST(at(INITLIST, i) && g.a == E_(FOUR_BYTES) && g.b == k); MUST(isL(v.builder, 1)); done(); }
void all__el_inLS() { BEG; IDX; uint k = nv(1) & 0xffffff; LLS::Builder l(plist()); auto v = l.init(i, k); MUST(at(INITSTRUCTLIST, i) && sz<S>()); MUST(g.c == k); MUST(isL(v.builder, 1)); done(); }
void all__el_stTx() { BEG; IDX; LTx::Builder l(plist()); l.set(i, Text::Reader(TR, 7)); MUST(at(SETTEXT, i) && g.d == TXT && g.a == 7); done(); }
void all__el_stDa() { BEG; IDX; LDa::Builder l(plist()); l.set(i, Data::Reader((const kj::byte*)TXT, 9)); MUST(at(SETDATA, i) && g.d == TXT && g.a == 9); done(); }
void all__el_stLi() { BEG; IDX; LLi::Builder l(plist()); l.set(i, LU32::Reader(mkLR(1))); MUST(at(SETLIST, i) && g.a && !g.f); done(); }
void all__el_stCa() { BEG; IDX; LCa::Builder l(plist()); kj::Own<ClientHook> h((ClientHook*)HOOK, kj::NullDisposer::instance); l.set(i, Capability::Client(kj::mv(h))); MUST(at(SETCAP, i) && g.d == HOOK); done(); }
// struct lists
void all__sl_r() { BEG; uint i = nv(5); ONLY(i < 5); LSt::Reader l(mkLR(0)); auto v = l[i]; MUST(n == 1 && g.op == L_ELT && g.ptr == DAT && g.a == i && g.nest == 17); MUST(isSR(v._reader, 1)); done(); }
void all__sl_b() { BEG; uint i = nv(5); ONLY(i < 5); LSt::Builder l(mkLB(0)); auto v = l[i]; MUST(n == 1 && g.op == L_ELT && g.ptr == DAT && g.a == i); MUST(isSB(v._builder, 1)); done(); }
void all__sl_set() { BEG; uint i = nv(5); ONLY(i < 5); LSt::Builder l(mkLB(0)); l.setWithCaveats(i, S::Reader(mkSR(1))); MUST(n == 2 && g.op == S_COPY && g.ptr == DAT2 && g.a); done(); }
void all__sl_adopt() { BEG; uint i = nv(5); ONLY(i < 5); LSt::Builder l(mkLB(0)); Orphan<S> o(mkOB()); l.adoptWithCaveats(i, kj::mv(o)); MUST(g.op == S_TRANSFER && g.ptr == DAT2 && g.a); done(); }
void all__sl_rd() { BEG; LSt::Builder l(mkLB(0)); auto r = l.asReader(); MUST(n == 1 && g.op == ASREADER && g.ptr == DAT); MUST(isL(r.reader, 1)); done(); }
void all__sl_sz() { BEG; LSt::Reader l(mkLR(0)); auto v = l.totalSize(); MUST(n == 1 && g.op == L_TOTAL && g.ptr == DAT); MUST(v.wordCount == 41 && v.capCount == 42); done(); }
void all__sl_psz() { BEG; LU32::Reader l(mkLR(0)); auto v = l.totalSize(); MUST(n == 1 && g.op == L_TOTAL && g.ptr == DAT); MUST(v.wordCount == 41 && v.capCount == 42); done(); }
void all__sl_prd() { BEG; LU32::Builder l(mkLB(0)); auto r = l.asReader(); MUST(n == 1 && g.op == ASREADER && g.ptr == DAT); MUST(isL(r.reader, 1)); done(); }
// ---- untyped structs and lists
void all__us_toany() { BEG; S::Reader s(mkSR(0)); auto a = toAny(s); MUST(isSR(a._reader, 0)); AnyStruct::Reader b(s); MUST(isSR(b._reader, 0)); auto t = a.as<S>(); MUST(isSR(t._reader, 0)); MUST(n == 0); done(); }
void all__us_toanyb() { BEG; S::Builder s(mkSB(0)); auto a = toAny(kj::mv(s)); MUST(isSB(a._builder, 0)); auto t = a.as<S>(); MUST(isSB(t._builder, 0)); MUST(n == 0); done(); }
void all__us_toanyl() { BEG; LU32::Reader s(mkLR(0)); auto a = toAny(s); MUST(isL(a._reader, 0)); AnyList::Reader b(s); MUST(isL(b._reader, 0)); auto t = a.as<LU32>(); MUST(isL(t.reader, 0)); MUST(n == 0); MUST(a.size() == 5); done(); }
void all__us_toanylb() { BEG; LU32::Builder s(mkLB(0)); auto a = toAny(kj::mv(s)); MUST(isL(a._builder, 0)); auto t = a.as<LU32>(); MUST(isL(t.builder, 0)); MUST(n == 0); MUST(a.size() == 5); done(); }
void all__us_data() { BEG; AnyStruct::Reader s(mkSR(0)); auto d = s.getDataSection(); MUST((void*)d.begin() == DAT); MUST(d.size() == 16); done(); }
void all__us_datab() { BEG; AnyStruct::Builder s(mkSB(0)); auto d = s.getDataSection(); MUST((void*)d.begin() == DAT); MUST(d.size() == 16); done(); }
void all__us_ptrs() { BEG; AnyStruct::Reader s(mkSR(0)); auto d = s.getPointerSection(); MUST(d.size() == 3); uint i = nv(5); ONLY(i < 3); auto p = d[i]; MUST((void*)p.reader.pointer == PTR + 8 * (uint64_t)i && p.reader.nestingLimit == 17 && (void*)p.reader.segment == SEG && (void*)p.reader.capTable == CAP); done(); }
void all__us_ptrsb() { BEG; AnyStruct::Builder s(mkSB(0)); auto d = s.getPointerSection(); MUST(d.size() == 3); uint i = nv(5); ONLY(i < 3); auto p = d[i]; MUST((void*)p.builder.pointer == PTR + 8 * (uint64_t)i && (void*)p.builder.segment == SEG && (void*)p.builder.capTable == CAP); done(); }
void all__us_rd() { BEG; AnyStruct::Builder s(mkSB(0)); auto r = s.asReader(); MUST(n == 1 && g.op == ASREADER && g.ptr == DAT); MUST(isSR(r._reader, 1)); n = 0; AnyStruct::Reader q = s; MUST(n == 1 && isSR(q._reader, 1)); done(); }
void all__us_rdl() { BEG; AnyList::Builder s(mkLB(0)); auto r = s.asReader(); MUST(n == 1 && g.op == ASREADER && g.ptr == DAT); MUST(isL(r._reader, 1)); done(); }
void all__us_size() { BEG; AnyStruct::Reader s(mkSR(0)); auto v = s.totalSize(); MUST(n == 1 && g.op == S_TOTAL && g.a); MUST(v.wordCount == 41 && v.capCount == 42); done(); }
void all__us_sizel() { BEG; AnyList::Reader s(mkLR(0)); auto v = s.totalSize(); MUST(n == 1 && g.op == L_TOTAL && g.ptr == DAT); MUST(v.wordCount == 41 && v.capCount == 42); done(); }
void all__us_canon() { BEG; AnyStruct::Reader s(mkSR(0)); auto v = s.canonicalize(); MUST(n == 1 && g.op == CANON && g.a); done(); }
void all__us_canon2() { BEG; S::Reader s(mkSR(0)); auto v = canonicalize(s); MUST(n == 1 && g.op == CANON && g.a); done(); }
void all__us_es() { BEG; AnyList::Reader s(mkLR(0, ElementSize::BIT)); MUST(s.getElementSize() == ElementSize::BIT); AnyList::Builder b(mkLB(0, ElementSize::POINTER)); MUST(b.getElementSize() == ElementSize::POINTER); done(); }
void all__us_raw() { BEG; AnyList::Reader s(mkLR(0)); auto r = s.getRawBytes(); MUST(n == 1 && g.op == L_TOTAL && g.ptr == DAT); MUST(isD(r)); done(); }
void all__us_none() { BEG; AnyList::Reader a; MUST(a.size() == 0); AnyStruct::Reader s; MUST(s.getDataSection().size() == 0); MUST(s.getPointerSection().size() == 0); done(); }
void all__us_las() { BEG; uint i = nv(5); ONLY(i < 5); List<AnyStruct>::Reader l(mkLR(0)); auto v = l[i]; MUST(n == 1 && g.op == L_ELT && g.ptr == DAT && g.a == i); MUST(isSR(v._reader, 1)); done(); }
void all__us_lasb() { BEG; uint i = nv(5); ONLY(i < 5); List<AnyStruct>::Builder l(mkLB(0)); auto v = l[i]; MUST(n == 1 && g.op == L_ELT && g.ptr == DAT && g.a == i); MUST(isSB(v._builder, 1)); done(); }
// ---- roots
void all__ro_get() { BEG; auto v = MR.getRoot<S>(); MUST(first.op == ROOT && onR(GETSTRUCT) && g.d == nullptr); MUST(isSR(v._reader, 1)); done(); }
void all__ro_getl() { BEG; auto v = MR.getRoot<LU32>(); MUST(first.op == ROOT && onR(GETLIST) && g.a == E_(FOUR_BYTES)); MUST(isL(v.reader, 1)); done(); }
void all__ro_geta() { BEG; auto v = MR.getRoot<AnyPointer>(); MUST(first.op == ROOT && n == 0); MUST(isPR(v.reader, 0)); done(); }
void all__ro_bget() { BEG; auto v = MB.getRoot<S>(); MUST(first.op == ROOT && on(GETSTRUCT) && sz<S>()); MUST(isSB(v._builder, 1)); done(); }
void all__ro_bgeta() { BEG; auto v = MB.getRoot<AnyPointer>(); MUST(first.op == ROOT && n == 0); MUST(isPB(v.builder, 0)); done(); }
void all__ro_init() { BEG; auto v = MB.initRoot<S>(); MUST(first.op == ROOT && on(INITSTRUCT) && sz<S>()); MUST(isSB(v._builder, 1)); done(); }
void all__ro_inita() { BEG; auto v = MB.initRoot<AnyPointer>(); MUST(first.op == ROOT && on(CLEAR)); MUST(isPB(v.builder, 0)); done(); }
void all__ro_set() { BEG; MB.setRoot(S::Reader(mkSR(1))); MUST(first.op == ROOT && on(SETSTRUCT) && g.a && !g.f); done(); }
void all__ro_setl() { BEG; LU32::Reader l(mkLR(1)); MB.setRoot(l); MUST(first.op == ROOT && on(SETLIST) && g.a && !g.f); done(); }
void all__ro_seta() { BEG; MB.setRoot(AnyPointer::Reader(mkPR(1))); MUST(first.op == ROOT && on(COPYFROM) && g.a && !g.f); done(); }
void all__ro_unchecked() { BEG; auto v = readMessageUnchecked<S>((const capnp::word*)DEF); MUST(n == 1 && g.op == GETSTRUCT && g.seg == nullptr && g.cap == nullptr && g.ptr == DEF && g.nest == 0x7fffffff && g.d == nullptr); MUST(isSR(v._reader, 1)); done(); }
void all__ro_default() { BEG; auto v = defaultValue<S>(); MUST(n == 0 && unbound(v._reader.dataSize / capnp::BITS) == 0 && unbound(v._reader.pointerCount / capnp::POINTERS) == 0); done(); }
void all__ro_rds() { BEG; auto v = readDataStruct<S>(kj::ArrayPtr<const capnp::word>((const capnp::word*)DAT, 2)); MUST(n == 0 && v._reader.data == DAT && unbound(v._reader.dataSize / capnp::BITS) == 128 && unbound(v._reader.pointerCount / capnp::POINTERS) == 0); done(); }
void all__ro_wds() { BEG; auto v = writeDataStruct(S::Builder(mkSB(0))); MUST((void*)v.begin() == DAT && v.size() == 2); done(); }
// ---- element encodings
#define BITS_(E, D, P) void all__es_##E() { BEG; MUST(unbound(capnp::_::dataBitsPerElement(ElementSize::E) * capnp::ELEMENTS / capnp::BITS) == D); \
  MUST(unbound(capnp::_::pointersPerElement(ElementSize::E) * capnp::ELEMENTS / capnp::POINTERS) == P); MUST(unbound(capnp::_::bitsPerElementIncludingPointers(ElementSize::E) * capnp::ELEMENTS / capnp::BITS) == D + 64 * P); done(); }
BITS_(VOID, 0, 0) BITS_(BIT, 1, 0) BITS_(BYTE, 8, 0) BITS_(TWO_BYTES, 16, 0) BITS_(FOUR_BYTES, 32, 0) BITS_(EIGHT_BYTES, 64, 0) BITS_(POINTER, 0, 1)
}

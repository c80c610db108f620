// One element/field access per function (analysed by rules/p15.py). Name: <spec>__<variant>; r is the list or struct, i the index.
#include <capnp/common.h>
#include <capnp/endian.h>
#include <capnp/layout.h>
#include <capnp/list.h>
#include <capnp/any.h>
#include <capnp/orphan.h>
#include <capnp/capability.h>
#include <capnp/schema.capnp.h>
namespace vp {
using namespace capnp;
void seeV(uint64_t) noexcept; void seeF(float) noexcept; void seeD(double) noexcept; void seeB(bool) noexcept; void seeI(int64_t) noexcept;
void seePR(const AnyPointer::Reader&) noexcept; void seePB(AnyPointer::Builder&) noexcept; void seeLR(const _::PointerReader&) noexcept; void seeLB(_::PointerBuilder&) noexcept;
inline void show(uint8_t v) { seeV(v); } inline void show(uint16_t v) { seeV(v); } inline void show(uint32_t v) { seeV(v); } inline void show(uint64_t v) { seeV(v); }
inline void show(int8_t v) { seeI(v); } inline void show(int16_t v) { seeI(v); } inline void show(int32_t v) { seeI(v); } inline void show(int64_t v) { seeI(v); }
inline void show(float v) { seeF(v); } inline void show(double v) { seeD(v); } inline void show(bool v) { seeB(v); } inline void show(schema::ElementSize v) { seeV((uint16_t)v); } inline void show(Void) {}
typedef List<uint8_t> U8; typedef List<uint16_t> U16; typedef List<uint32_t> U32; typedef List<uint64_t> U64; typedef List<int8_t> S8; typedef List<int16_t> S16; typedef List<int32_t> S32; typedef List<int64_t> S64;
typedef List<float> F32; typedef List<double> F64; typedef List<bool> BL; typedef List<schema::ElementSize> EN; typedef List<Void> VD;
typedef List<schema::Field> ST; typedef List<Text> TX; typedef List<Data> DA; typedef List<List<uint32_t>> LL; typedef List<List<schema::Field>> LS; typedef List<AnyPointer> AP; typedef List<AnyStruct> AS; typedef List<Capability> CA;
#define EC(i) (bounded(i) * ELEMENTS)
// raw accessors
#define RAW(N, T) void raw__R_##N(_::ListReader& r, uint i) { show(r.getDataElement<T>(EC(i))); } void raw__B_##N(_::ListBuilder& r, uint i) { show(r.getDataElement<T>(EC(i))); } \
  void rawset__B_##N(_::ListBuilder& r, uint i, T v) { r.setDataElement<T>(EC(i), v); }
RAW(U8, uint8_t) RAW(U16, uint16_t) RAW(U32, uint32_t) RAW(U64, uint64_t) RAW(S8, int8_t) RAW(S16, int16_t) RAW(S32, int32_t) RAW(S64, int64_t) RAW(F32, float) RAW(F64, double) RAW(EN, schema::ElementSize)
void rawbit__R(_::ListReader& r, uint i) { seeB(r.getDataElement<bool>(EC(i))); }
void rawbit__B(_::ListBuilder& r, uint i) { seeB(r.getDataElement<bool>(EC(i))); }
void rawbitset__B(_::ListBuilder& r, uint i, bool v) { r.setDataElement<bool>(EC(i), v); }
void rawptr__R(_::ListReader& r, uint i) { auto p = r.getPointerElement(EC(i)); seeLR(p); }
void rawptr__B(_::ListBuilder& r, uint i) { auto p = r.getPointerElement(EC(i)); seeLB(p); }
// typed lists
#define SIZE(N) void size__R_##N(N::Reader& r) { seeV(r.size()); } void size__B_##N(N::Builder& r) { seeV(r.size()); }
SIZE(U8) SIZE(U16) SIZE(U32) SIZE(U64) SIZE(S8) SIZE(S16) SIZE(S32) SIZE(S64) SIZE(F32) SIZE(F64) SIZE(EN) SIZE(BL) SIZE(VD) SIZE(ST) SIZE(TX) SIZE(DA) SIZE(LL) SIZE(LS) SIZE(AP) SIZE(AS) SIZE(CA)
void size__R_raw(_::ListReader& r) { seeV(unbound(r.size() / ELEMENTS)); } void size__B_raw(_::ListBuilder& r) { seeV(unbound(r.size() / ELEMENTS)); }
#define PRIM(N, T) void get__R_##N(N::Reader& r, uint i) { show(r[i]); } void get__B_##N(N::Builder& r, uint i) { show(r[i]); } void set__B_##N(N::Builder& r, uint i, T v) { r.set(i, v); }
PRIM(U8, uint8_t) PRIM(U16, uint16_t) PRIM(U32, uint32_t) PRIM(U64, uint64_t) PRIM(S8, int8_t) PRIM(S16, int16_t) PRIM(S32, int32_t) PRIM(S64, int64_t) PRIM(F32, float) PRIM(F64, double) PRIM(EN, schema::ElementSize)
void getbit__R_BL(BL::Reader& r, uint i) { seeB(r[i]); } void getbit__B_BL(BL::Builder& r, uint i) { seeB(r[i]); } void setbit__B_BL(BL::Builder& r, uint i, bool v) { r.set(i, v); }
void ptr__R_AP(AP::Reader& r, uint i) { auto p = r[i]; seePR(p); } void ptr__B_AP(AP::Builder& r, uint i) { auto p = r[i]; seePB(p); }
#define BLOB(N, T) void ptr__R_##N(N::Reader& r, uint i) { r[i]; } void ptr__B_##N(N::Builder& r, uint i) { r[i]; } void ptr__Bset_##N(N::Builder& r, uint i, T::Reader& v) { r.set(i, v); } \
  void ptr__Badopt_##N(N::Builder& r, uint i, Orphan<T>& v) { r.adopt(i, kj::mv(v)); } void ptr__Bdisown_##N(N::Builder& r, uint i) { r.disown(i); } void ptrsz__Binit_##N(N::Builder& r, uint i, uint n) { r.init(i, n); }
BLOB(TX, Text) BLOB(DA, Data) BLOB(LL, List<uint32_t>) BLOB(LS, List<schema::Field>)
void ptr__R_CA(CA::Reader& r, uint i) { r[i]; } void ptr__B_CA(CA::Builder& r, uint i) { r[i]; } void ptr__Bset_CA(CA::Builder& r, uint i, Capability::Client& v) { r.set(i, v); }
void elt__R_ST(ST::Reader& r, uint i) { r[i]; } void elt__B_ST(ST::Builder& r, uint i) { r[i]; } void elt__R_AS(AS::Reader& r, uint i) { r[i]; } void elt__B_AS(AS::Builder& r, uint i) { r[i]; }
void elt__Bset_ST(ST::Builder& r, uint i, schema::Field::Reader& v) { r.setWithCaveats(i, v); } void elt__Badopt_ST(ST::Builder& r, uint i, Orphan<schema::Field>& v) { r.adoptWithCaveats(i, kj::mv(v)); }
// iterators: the element denoted after the given moves
#define IT(C, S, GET) \
  void it__at_##S(C& r, uint k) { auto it = r.begin() + k; GET(*it); } \
  void it__atInt_##S(C& r, int k) { auto it = r.begin() + k; GET(*it); } \
  void it__idx_##S(C& r, uint k) { auto it = r.begin(); GET(it[k]); } \
  void it__idxInt_##S(C& r, int k) { auto it = r.begin(); GET(it[k]); } \
  void it__arrow_##S(C& r, uint k) { auto it = r.begin() + k; GET(*it.operator->().operator->()); } \
  void it__pluseq_##S(C& r, uint k) { auto it = r.begin(); it += k; GET(*it); } \
  void it__pluseqInt_##S(C& r, int k) { auto it = r.begin(); it += k; GET(*it); } \
  void itm__minus_##S(C& r, uint k) { auto it = r.end() - k; GET(*it); } \
  void itm__minusInt_##S(C& r, int k) { auto it = r.end() - k; GET(*it); } \
  void itm__minuseq_##S(C& r, uint k) { auto it = r.end(); it -= k; GET(*it); } \
  void itm__minuseqInt_##S(C& r, int k) { auto it = r.end(); it -= k; GET(*it); } \
  void it1__pre_##S(C& r, uint k) { auto it = r.begin() + k; GET(*++it); } \
  void it1__pre2_##S(C& r, uint k) { auto it = r.begin() + k; ++it; GET(*it); } \
  void it1__post_##S(C& r, uint k) { auto it = r.begin() + k; it++; GET(*it); } \
  void it__post_##S(C& r, uint k) { auto it = r.begin() + k; GET(*it++); } \
  void itm1__pre_##S(C& r, uint k) { auto it = r.begin() + k; GET(*--it); } \
  void itm1__post_##S(C& r, uint k) { auto it = r.begin() + k; it--; GET(*it); } \
  void it__postdec_##S(C& r, uint k) { auto it = r.begin() + k; GET(*it--); } \
  void itd__diff_##S(C& r, uint a, uint b) { seeI((r.begin() + a) - (r.begin() + b)); } \
  void itd__end_##S(C& r) { seeI(r.end() - r.begin()); } \
  void itc__eq_##S(C& r, uint a, uint b) { seeB(r.begin() + a == r.begin() + b); } void itc__ne_##S(C& r, uint a, uint b) { seeB(r.begin() + a != r.begin() + b); } \
  void itc__lt_##S(C& r, uint a, uint b) { seeB(r.begin() + a < r.begin() + b); } void itc__gt_##S(C& r, uint a, uint b) { seeB(r.begin() + a > r.begin() + b); } \
  void itc__le_##S(C& r, uint a, uint b) { seeB(r.begin() + a <= r.begin() + b); } void itc__ge_##S(C& r, uint a, uint b) { seeB(r.begin() + a >= r.begin() + b); }
IT(U32::Reader, R_U32, show) IT(U32::Builder, B_U32, show)
#define BEG(N) void beg__R_##N(N::Reader& r) { *r.begin(); } void beg__B_##N(N::Builder& r) { *r.begin(); } void itd__end_R_##N(N::Reader& r) { seeI(r.end() - r.begin()); } void itd__end_B_##N(N::Builder& r) { seeI(r.end() - r.begin()); }
BEG(ST) BEG(AS) BEG(TX) BEG(LL) BEG(AP) BEG(CA) BEG(DA)
// struct fields
#define FLD(N, T, M) void fraw__R_##N(_::StructReader& r, uint i) { show(r.getDataField<T>(EC(i))); } void fraw__B_##N(_::StructBuilder& r, uint i) { show(r.getDataField<T>(EC(i))); } \
  void frawset__B_##N(_::StructBuilder& r, uint i, T v) { r.setDataField<T>(EC(i), v); } \
  void fmask__R_##N(_::StructReader& r, uint i, M k) { show(r.getDataField<T>(EC(i), k)); } void fmask__B_##N(_::StructBuilder& r, uint i, M k) { show(r.getDataField<T>(EC(i), k)); } \
  void fmaskset__B_##N(_::StructBuilder& r, uint i, T v, M k) { r.setDataField<T>(EC(i), v, k); } \
  void fhas__R_##N(_::StructReader& r, uint i) { seeB(r.hasDataField<T>(EC(i))); } void fhas__B_##N(_::StructBuilder& r, uint i) { seeB(r.hasDataField<T>(EC(i))); }
FLD(U8, uint8_t, uint8_t) FLD(U16, uint16_t, uint16_t) FLD(U32, uint32_t, uint32_t) FLD(U64, uint64_t, uint64_t) FLD(S8, int8_t, uint8_t) FLD(S16, int16_t, uint16_t) FLD(S32, int32_t, uint32_t) FLD(S64, int64_t, uint64_t) FLD(EN, schema::ElementSize, uint16_t)
FLD(F32, float, uint32_t) FLD(F64, double, uint64_t)
void fbit__R(_::StructReader& r, uint i) { seeB(r.getDataField<bool>(EC(i))); } void fbit__B(_::StructBuilder& r, uint i) { seeB(r.getDataField<bool>(EC(i))); }
void fbitset__B(_::StructBuilder& r, uint i, bool v) { r.setDataField<bool>(EC(i), v); }
void fbitmask__R(_::StructReader& r, uint i, bool k) { seeB(r.getDataField<bool>(EC(i), k)); } void fbitmask__B(_::StructBuilder& r, uint i, bool k) { seeB(r.getDataField<bool>(EC(i), k)); }
void fbitmaskset__B(_::StructBuilder& r, uint i, bool v, bool k) { r.setDataField<bool>(EC(i), v, k); }
void fptr__R(_::StructReader& r, uint i) { auto p = r.getPointerField(bounded(i) * POINTERS); seeLR(p); }
void fptr__B(_::StructBuilder& r, uint i) { auto p = r.getPointerField(bounded(i) * POINTERS); seeLB(p); }
void fsize__R(_::StructReader& r) { seeV(unbound(r.getDataSectionSize() / BITS)); seeV(unbound(r.getPointerSectionSize() / POINTERS)); }
void fsize__B(_::StructBuilder& r) { seeV(unbound(r.getDataSectionSize() / BITS)); seeV(unbound(r.getPointerSectionSize() / POINTERS)); }
void seeQ(const void*, size_t) noexcept;
void fblob__R(_::StructReader& r) { auto b = r.getDataSectionAsBlob(); seeQ(b.begin(), b.size()); } void fblob__B(_::StructBuilder& r) { auto b = r.getDataSectionAsBlob(); seeQ(b.begin(), b.size()); }
void fplist__R(_::StructReader& r, uint i) { auto l = r.getPointerSectionAsList(); seeV(unbound(l.size() / ELEMENTS)); auto p = l.getPointerElement(EC(i)); seeLR(p); }
void fplist__B(_::StructBuilder& r, uint i) { auto l = r.getPointerSectionAsList(); seeV(unbound(l.size() / ELEMENTS)); auto p = l.getPointerElement(EC(i)); seeLB(p); }
// wire values
#define WIRE(N, T) void wget__##N(_::WireValue<T>& r) { show(r.get()); } void wset__##N(_::WireValue<T>& r, T v) { r.set(v); }
WIRE(U8, uint8_t) WIRE(U16, uint16_t) WIRE(U32, uint32_t) WIRE(U64, uint64_t) WIRE(S8, int8_t) WIRE(S16, int16_t) WIRE(S32, int32_t) WIRE(S64, int64_t)
}

// Instantiates the inline accessors of capnp/layout.h so that the analysis sees every one of them.
#define CAPNP_PRIVATE
#include <capnp/layout.h>
#include <capnp/arena.h>
namespace capnp { namespace _ {
template <typename T> T vpInst(StructReader s, ListReader l, StructBuilder sb, ListBuilder lb, StructDataOffset o, ElementCount i, Mask<T> m) {
  T a = s.getDataField<T>(o); s.hasDataField<T>(o);
  a = s.getDataField<T>(o, m);
  a = l.getDataElement<T>(i);
  a = sb.getDataField<T>(o); sb.setDataField<T>(o, a);
  a = lb.getDataElement<T>(i); lb.setDataElement<T>(i, a);
  return a;
}
void vpInstAll(StructReader s, ListReader l, StructBuilder sb, ListBuilder lb, StructDataOffset o, ElementCount i, StructPointerOffset p) {
  vpInst<uint8_t>(s, l, sb, lb, o, i, 0); vpInst<int8_t>(s, l, sb, lb, o, i, 0);
  vpInst<uint16_t>(s, l, sb, lb, o, i, 0); vpInst<int16_t>(s, l, sb, lb, o, i, 0);
  vpInst<uint32_t>(s, l, sb, lb, o, i, 0); vpInst<int32_t>(s, l, sb, lb, o, i, 0);
  vpInst<uint64_t>(s, l, sb, lb, o, i, 0); vpInst<int64_t>(s, l, sb, lb, o, i, 0);
  vpInst<float>(s, l, sb, lb, o, i, 0); vpInst<double>(s, l, sb, lb, o, i, 0);
  vpInst<bool>(s, l, sb, lb, o, i, 0);
  s.getPointerField(p); l.getPointerElement(i); l.getStructElement(i);
  sb.getPointerField(p); lb.getPointerElement(i); lb.getStructElement(i);
  s.getDataSectionAsBlob(); s.getPointerSectionAsList();
  sb.getDataSectionAsBlob(); sb.getPointerSectionAsList();
  PointerReader::getRootUnchecked(nullptr);
}
}}

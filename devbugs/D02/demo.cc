// Copying a tiny message holding a huge list of zero-sized structs must hit the traversal limit.
#include <capnp/message.h>
#include <capnp/any.h>
#include <stdio.h>
using namespace capnp;
int main() {
  alignas(8) uint64_t w[2];
  w[0] = (uint64_t)1 | ((uint64_t)(7) << 32);                 // composite list, 0 words
  w[1] = (uint64_t)((uint32_t)((1u << 28) << 2));              // 2^28 elements of zero size
  kj::ArrayPtr<const word> seg((const word*)w, 2);
  kj::ArrayPtr<const kj::ArrayPtr<const word>> segs(&seg, 1);
  ReaderOptions o; o.traversalLimitInWords = 1000;
  SegmentArrayMessageReader r(segs, o);
  MallocMessageBuilder b;
  bool threw = kj::runCatchingExceptions([&]() { b.setRoot(r.getRoot<AnyPointer>()); }) != kj::none;
  printf("rejected: %d\n", threw);
  return threw ? 0 : 1;
}

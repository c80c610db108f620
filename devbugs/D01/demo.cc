// A composite list whose tag claims one word more than the list holds must be refused by totalSize().
#include <capnp/message.h>
#include <capnp/any.h>
#include <string.h>
#include <stdio.h>
using namespace capnp;
int main() {
  // word0: list pointer offset 0, composite, 1 word of content; word1: tag: 1 element... 2 elements x 1 pointer
  alignas(8) uint64_t w[4];
  w[0] = (uint64_t)1 | ((uint64_t)((1u << 3) | 7) << 32);
  w[1] = (uint64_t)(2u << 2) | ((uint64_t)1 << 48);   // 2 elements, 0 data words, 1 pointer
  w[2] = 0;
  w[3] = 0x1;   // beyond the segment
  kj::ArrayPtr<const word> seg((const word*)w, 3);
  kj::ArrayPtr<const kj::ArrayPtr<const word>> segs(&seg, 1);
  SegmentArrayMessageReader r(segs);
  bool threw = kj::runCatchingExceptions([&]() { r.getRoot<AnyPointer>().targetSize(); }) != kj::none;
  printf("rejected: %d\n", threw);
  return threw ? 0 : 1;
}

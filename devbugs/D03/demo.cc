// Copying lists of lists nested deeper than the limit must be refused.
#include <capnp/message.h>
#include <capnp/any.h>
#include <stdio.h>
using namespace capnp;
int main() {
  const int N = 40;
  alignas(8) static uint64_t w[N + 1];
  for (int i = 0; i < N; i++) w[i] = (uint64_t)1 | ((uint64_t)((1u << 3) | 6) << 32);  // list of 1 pointer, next word
  w[N] = 0;
  kj::ArrayPtr<const word> seg((const word*)w, N + 1);
  kj::ArrayPtr<const kj::ArrayPtr<const word>> segs(&seg, 1);
  ReaderOptions o; o.nestingLimit = 10;
  SegmentArrayMessageReader r(segs, o);
  MallocMessageBuilder b;
  bool threw = kj::runCatchingExceptions([&]() { b.setRoot(r.getRoot<AnyPointer>()); }) != kj::none;
  printf("rejected: %d\n", threw);
  return threw ? 0 : 1;
}

// Shared set-up of the tensor checks.
#include <stdlib.h>
#include "tt.h"

extern "C" void* __wrap_aligned_alloc(size_t al, size_t n) {
  // exact-size blocks: glibc accepts any size here, the sanitizer's interceptor only multiples
  void* p = nullptr;
  if (al < sizeof(void*)) al = sizeof(void*);
  return posix_memalign(&p, al, n) == 0 ? p : nullptr;
}
namespace {
struct Init {
  Init() {
    mc::onWorkerStart([] { tinytorch::CachedAllocator::setCacheEnabled(false); });
  }
} init;
}  // namespace

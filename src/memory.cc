// New memory is filled with a value that the scenarios choose, so that results
// that depend on uninitialised memory are the same in each replay, and differ
// between runs that are compared. The sanitizers have their own allocator.
#include "scenarios.h"

#include <cstdlib>
#include <cstring>
#include <new>

unsigned char memoryFill = 0x40;

#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
namespace {
void* filled(size_t n) {
  void* p = std::malloc(n ? n : 1);
  // Larger blocks come from the system as zeros
  if (p && n <= (size_t(1) << 20)) std::memset(p, memoryFill, n);
  return p;
}
}  // namespace

void* operator new(size_t n) {
  void* p = filled(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return filled(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return filled(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
#endif

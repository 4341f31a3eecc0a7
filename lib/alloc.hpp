// Replaces operator new/delete of the whole process: a limit on single allocations (so that absurd
// sizes surface as std::bad_alloc, as they do in a process with limited memory), injected failures,
// and a count of live blocks. Blocks still come from malloc, so AddressSanitizer sees them.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace mem {
inline size_t cap = SIZE_MAX;
inline bool armed = false;   // only then are allocations counted and made to fail
inline long seen = 0;        // allocations while armed
inline long fail_at = -1, fail_at2 = -1, fail_from = -1; // index of the allocation(s) that fail
inline long failed = 0;
inline long live = 0;        // blocks allocated and not freed, armed or not
inline long refused = 0;     // allocations beyond the cap
inline long bytes = 0, peak = 0; // bytes in living blocks, and the most there ever were
inline void *get(size_t n, size_t al) {
  if (n > cap) { ++refused; throw std::bad_alloc(); }
  if (armed) { long i = seen++; if (i == fail_at || i == fail_at2 || (fail_from >= 0 && i >= fail_from)) { ++failed; throw std::bad_alloc(); } }
  void *p = nullptr;
  if (al <= 16) p = std::malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
  if (!p) throw std::bad_alloc();
  ++live;
  if ((bytes += long(malloc_usable_size(p))) > peak) peak = bytes;
  return p;
}
inline void put(void *p) noexcept { if (p) { --live; bytes -= long(malloc_usable_size(p)); std::free(p); } }
struct Arm { bool old; explicit Arm(bool on) : old(armed) { armed = on; } ~Arm() { armed = old; } };
} // namespace mem
void *operator new(size_t n) { return mem::get(n, 0); }
void *operator new[](size_t n) { return mem::get(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return mem::get(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return mem::get(n, size_t(a)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return mem::get(n, 0); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return mem::get(n, 0); } catch (...) { return nullptr; } }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { try { return mem::get(n, size_t(a)); } catch (...) { return nullptr; } }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { try { return mem::get(n, size_t(a)); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { mem::put(p); }
void operator delete[](void *p) noexcept { mem::put(p); }
void operator delete(void *p, size_t) noexcept { mem::put(p); }
void operator delete[](void *p, size_t) noexcept { mem::put(p); }
void operator delete(void *p, std::align_val_t) noexcept { mem::put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { mem::put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { mem::put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { mem::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mem::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mem::put(p); }
void operator delete(void *p, std::align_val_t, const std::nothrow_t &) noexcept { mem::put(p); }
void operator delete[](void *p, std::align_val_t, const std::nothrow_t &) noexcept { mem::put(p); }

// Replaces operator new/delete of the whole process so that a released block is handed out again at once to the next
// request of the same size: objects that follow one another have the same address, which AddressSanitizer's quarantine
// would otherwise prevent (a cache that recognises objects by their address then sees the same address again).
// Free blocks are poisoned, so that access to them is still noticed.
#pragma once
#include <sanitizer/asan_interface.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

#include <new>

namespace pool {
struct alignas(16) Head {
  uint32_t cls;  // 0: not pooled
  uint32_t magic;
  Head *next;
};
constexpr uint32_t kLive = 0x900DB10C, kFree = 0xDEADB10C;
constexpr size_t kMax = 512;
inline Head *g_free[kMax / 8 + 1];
inline void *get(size_t n) {
  uint32_t cls = n <= kMax ? (uint32_t)((n + 7) / 8) : 0;
  if (n == 0) cls = 1;
  Head *h;
  if (cls && g_free[cls]) {
    h = g_free[cls];
    g_free[cls] = h->next;
    ASAN_UNPOISON_MEMORY_REGION(h + 1, n);
  } else {
    h = (Head *)malloc(sizeof(Head) + (cls ? cls * 8 : n));
    if (!h) throw std::bad_alloc();
    h->cls = cls;
    if (cls) ASAN_POISON_MEMORY_REGION((char *)(h + 1) + n, cls * 8 - n);
  }
  h->magic = kLive;
  return h + 1;
}
inline void put(void *p) {
  if (!p) return;
  Head *h = (Head *)p - 1;
  if (h->magic != kLive) {
    fprintf(stderr, "release of a block that was not acquired or was released before\n");
    abort();
  }
  h->magic = kFree;
  if (!h->cls) {
    free(h);
    return;
  }
  h->next = g_free[h->cls];
  g_free[h->cls] = h;
  ASAN_POISON_MEMORY_REGION(h + 1, h->cls * 8);
}
}  // namespace pool

void *operator new(size_t n) { return pool::get(n); }
void *operator new[](size_t n) { return pool::get(n); }
void operator delete(void *p) noexcept { pool::put(p); }
void operator delete[](void *p) noexcept { pool::put(p); }
void operator delete(void *p, size_t) noexcept { pool::put(p); }
void operator delete[](void *p, size_t) noexcept { pool::put(p); }

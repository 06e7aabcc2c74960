// Replaces operator new/delete of the whole process: every block carries a header, so that blocks acquired inside a
// window (g_on) are counted until they are released, a release by the wrong form (delete for new[]) and a second
// release are noticed, and the memory asked for inside a window is summed. The memory comes from malloc, which
// AddressSanitizer guards.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <new>

namespace al {
struct Head {
  uint64_t size;
  uint32_t magic;
  uint32_t flags;  // 1 array, 2 counted
};
constexpr uint32_t kMagic = 0x5AFEB10C;
inline bool g_on = false;
inline int64_t g_blocks = 0, g_bytes = 0;   // counted and not yet released
inline uint64_t g_asked = 0, g_largest = 0;  // inside windows, since reset
inline const char *g_broken = nullptr;       // a wrong release was seen

struct Window {
  bool m_old = g_on;
  explicit Window(bool on = true) { g_on = on; }
  ~Window() { g_on = m_old; }
};
inline void *get(size_t n, bool array) {
  if (g_on) {
    g_asked += n;
    if (n > g_largest) g_largest = n;
    if (n > (1ULL << 31)) throw std::bad_alloc();  // noted above; never worth really having
  }
  Head *h = (Head *)malloc(n + sizeof(Head));
  if (!h) throw std::bad_alloc();
  h->size = n;
  h->magic = kMagic;
  h->flags = (array ? 1 : 0) | (g_on ? 2 : 0);
  if (g_on) {
    ++g_blocks;
    g_bytes += (int64_t)n;
  }
  return h + 1;
}
inline void put(void *p, bool array) {
  if (!p) return;
  Head *h = (Head *)p - 1;
  if (h->magic != kMagic) {
    fprintf(stderr, "release of a block that was not acquired or was released before\n");
    abort();
  }
  if ((h->flags & 1) != (array ? 1u : 0u)) g_broken = array ? "delete[] of a single object" : "delete of an array";
  if (h->flags & 2) {
    --g_blocks;
    g_bytes -= (int64_t)h->size;
  }
  h->magic = 0;
  free(h);
}
}  // namespace al

void *operator new(size_t n) { return al::get(n, false); }
void *operator new[](size_t n) { return al::get(n, true); }
void operator delete(void *p) noexcept { al::put(p, false); }
void operator delete[](void *p) noexcept { al::put(p, true); }
void operator delete(void *p, size_t) noexcept { al::put(p, false); }
void operator delete[](void *p, size_t) noexcept { al::put(p, true); }

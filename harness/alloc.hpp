// Counting (and optionally filling) replacement of the global allocation
// functions. Included by exactly one source file of a harness.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

namespace alloc {
static thread_local int64_t live_bytes = 0, live_blocks = 0, peak = 0;
static thread_local int fill = -1;      // pattern for fresh memory, -1 none, 256 changing
static thread_local uint64_t counter = 0, total = 0;
static inline void *get(size_t n)
{
  char *p = (char *) malloc(n + 16);
  if (!p) throw std::bad_alloc();
  *(size_t *) p = n;
  live_bytes += (int64_t) n;
  live_blocks++;
  total++;
  if (live_bytes > peak) peak = live_bytes;
  if (fill >= 0) {
    if (fill < 256) memset(p + 16, fill, n);
    else
      for (size_t i = 0; i < n; i++) p[16 + i] = (char) (counter++ * 0x9e37 >> 7);
  }
  return p + 16;
}
static inline void put(void *q)
{
  if (!q) return;
  char *p = (char *) q - 16;
  size_t n = *(size_t *) p;
  live_bytes -= (int64_t) n;
  live_blocks--;
  memset(q, 0xdd, n);
  free(p);
}
}
void *operator new(size_t n) { return alloc::get(n); }
void *operator new[](size_t n) { return alloc::get(n); }
void operator delete(void *p) noexcept { alloc::put(p); }
void operator delete[](void *p) noexcept { alloc::put(p); }
void operator delete(void *p, size_t) noexcept { alloc::put(p); }
void operator delete[](void *p, size_t) noexcept { alloc::put(p); }

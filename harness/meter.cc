// Work meter: basic blocks of the instrumented code (trace-pc-guard), bytes
// moved or compared by libc routines (also from inside shared libraries),
// bytes allocated. This file is compiled without instrumentation.
#include "meter.h"

#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <new>

namespace vp {
Meter meter;
bool meter_linked = true;
static inline __attribute__((always_inline)) void Add(uint64_t n) {
  if (!meter.on) return;
  meter.work += n;
  if (meter.work > meter.limit) { meter.on = false; meter.over(); }
}
}  // namespace vp

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  for (uint32_t* p = a; p < b; ++p) *p = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { vp::Add(1); }

// Interposed for the whole process; cost 1 per 16 bytes.
__attribute__((noinline)) void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  vp::Add(n >> 4);
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
__attribute__((noinline)) void* memmove(void* d, const void* s, size_t n) {
  vp::Add(n >> 4);
  char* a = static_cast<char*>(d);
  const char* b = static_cast<const char*>(s);
  if (a == b || n == 0) return d;
  if (a < b || a >= b + n) {
    void* dd = d;
    asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
  } else {
    while (n >= 8) { n -= 8; uint64_t v; __builtin_memcpy_inline(&v, b + n, 8); __builtin_memcpy_inline(a + n, &v, 8); }
    while (n--) { a[n] = b[n]; asm volatile("" : : : "memory"); }
  }
  return d;
}
__attribute__((noinline)) void* memset(void* d, int c, size_t n) {
  vp::Add(n >> 4);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
__attribute__((noinline)) int memcmp(const void* x, const void* y, size_t n) {
  const unsigned char *a = static_cast<const unsigned char*>(x), *b = static_cast<const unsigned char*>(y);
  size_t i = 0;
  while (i < n && a[i] == b[i]) { ++i; asm volatile("" : : : "memory"); }
  vp::Add(i >> 4);
  return i == n ? 0 : a[i] < b[i] ? -1 : 1;
}
__attribute__((noinline)) void* memchr(const void* x, int c, size_t n) {
  const unsigned char* a = static_cast<const unsigned char*>(x);
  size_t i = 0;
  while (i < n && a[i] != static_cast<unsigned char>(c)) { ++i; asm volatile("" : : : "memory"); }
  vp::Add(i >> 4);
  return i == n ? nullptr : const_cast<unsigned char*>(a + i);
}
__attribute__((noinline)) size_t strlen(const char* s) {
  size_t i = 0;
  while (s[i]) { ++i; asm volatile("" : : : "memory"); }
  vp::Add(i >> 4);
  return i;
}
}  // extern "C"

void* operator new(size_t n) {
  vp::Add(4 + (n >> 6));
  if (vp::meter.on) { ++vp::meter.allocs; vp::meter.alloc_bytes += n; }
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  vp::meter.live += malloc_usable_size(p);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  vp::Add(1);
  if (p) vp::meter.live -= malloc_usable_size(p);
  free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

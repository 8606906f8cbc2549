// Counts the live memory of the process: every allocation passes through here.
#pragma once
#define JPS_OWN_HEAP
#include <errno.h>
#include <malloc.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
namespace heap {
static long blocks = 0, bytes = 0;
inline void* in(void* p) { if (p) { __sync_fetch_and_add(&blocks, 1); __sync_fetch_and_add(&bytes, (long)malloc_usable_size(p)); } return p; }
inline void out(void* p) { if (p) { __sync_fetch_and_sub(&blocks, 1); __sync_fetch_and_sub(&bytes, (long)malloc_usable_size(p)); } }
struct Live { long blocks, bytes; bool operator==(const Live& o) const { return blocks == o.blocks && bytes == o.bytes; } bool operator!=(const Live& o) const { return !(*this == o); } };
inline Live live() { return {__sync_fetch_and_add(&blocks, 0), __sync_fetch_and_add(&bytes, 0)}; }
}
extern "C" {
void* malloc(size_t n) noexcept { return heap::in(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) noexcept { return heap::in(__libc_calloc(n, m)); }
void* realloc(void* p, size_t n) noexcept { if (!p) return malloc(n); heap::out(p); void* q = __libc_realloc(p, n); if (q) heap::in(q); else if (n) heap::in(p); return q; }
void free(void* p) noexcept { heap::out(p); __libc_free(p); }
void* memalign(size_t a, size_t n) noexcept { return heap::in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) noexcept { return heap::in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { *p = heap::in(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}

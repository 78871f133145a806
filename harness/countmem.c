/* Counts the live blocks (and the bytes asked for) of the C allocator. */
#define _GNU_SOURCE
#include <stddef.h>
#include <errno.h>
#include <malloc.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t),
    *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long blocks, bytes;

static void *in(void *p) {
  if (p) {
    __atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
  }
  return p;
}

static void out(void *p) {
  if (p) {
    __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
  }
}

void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return in(__libc_calloc(n, m)); }
void free(void *p) { out(p); __libc_free(p); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) {
  void *p = in(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void *realloc(void *p, size_t n) {
  long old = p ? (long)malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (p && (q || n == 0)) {
    __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&bytes, old, __ATOMIC_RELAXED);
  }
  return in(q);
}

long countmem_blocks(void) { return __atomic_load_n(&blocks, __ATOMIC_RELAXED); }
long countmem_bytes(void) { return __atomic_load_n(&bytes, __ATOMIC_RELAXED); }

/* Force-included into every translation unit of the C extension in the
 * "track" flavours: heap calls are routed to counted, pattern-filled versions. */
#ifndef VM_TRACK_H
#define VM_TRACK_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
extern void *vm_malloc(size_t n);
extern void *vm_calloc(size_t n, size_t m);
extern void *vm_realloc(void *p, size_t n);
extern void *vm_aligned_alloc(size_t a, size_t n);
extern int vm_posix_memalign(void **p, size_t a, size_t n);
extern void vm_free(void *p);
#ifdef __cplusplus
}
#endif
#ifndef VM_TRACK_IMPL
#define malloc(n) vm_malloc(n)
#define calloc(n, m) vm_calloc(n, m)
#define realloc(p, n) vm_realloc(p, n)
#define aligned_alloc(a, n) vm_aligned_alloc(a, n)
#define posix_memalign(p, a, n) vm_posix_memalign(p, a, n)
#define free(p) vm_free(p)
#endif
#endif

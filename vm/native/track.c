#define VM_TRACK_IMPL
#include "track.h"
#include <stdint.h>
/* header: magic, size; 64-byte aligned user block; trailing canary */
#define HDR 64
#define MAGIC 0x5afe5afe12344321ULL
#define CAN 0xA5
#define NCAN 64
static long live, total, bytes, errors;
static unsigned char fill = 0;
long vm_track_live(void) { return __atomic_load_n(&live, __ATOMIC_SEQ_CST); }
long vm_track_total(void) { return __atomic_load_n(&total, __ATOMIC_SEQ_CST); }
long vm_track_bytes(void) { return __atomic_load_n(&bytes, __ATOMIC_SEQ_CST); }
long vm_track_errors(void) { return __atomic_load_n(&errors, __ATOMIC_SEQ_CST); }
void vm_track_fill(int c) { fill = (unsigned char)c; }
static void pattern(void *p, size_t n) {
    if (fill == 0) { memset(p, 0, n); return; }
    /* Finite doubles near 7.7e5: any arithmetic on them shows in the result. Not
     * NaN: OpenBLAS legitimately multiplies workspace handed to zheevd by zero. */
    uint64_t v = 0x4127979000000000ULL | fill;
    unsigned char *c = p;
    size_t i;
    for (i = 0; i + 8 <= n; i += 8) memcpy(c + i, &v, 8);
    for (; i < n; i++) c[i] = fill;
}
/* injected allocation failure: the k-th allocation from now, or it and all later ones */
static long seen, fail_at = -1, failed;
static int persist;
void vm_track_fail(long k, int all) { seen = 0; fail_at = k; persist = all; }
long vm_track_seen(void) { return __atomic_load_n(&seen, __ATOMIC_SEQ_CST); }
long vm_track_failed(void) { return __atomic_load_n(&failed, __ATOMIC_SEQ_CST); }
static void *get(size_t n) {
    unsigned char *raw = NULL;
    long k = __atomic_fetch_add(&seen, 1, __ATOMIC_SEQ_CST);
    if (fail_at >= 0 && (k == fail_at || (persist && k > fail_at))) {
        __atomic_add_fetch(&failed, 1, __ATOMIC_SEQ_CST);
        return NULL;
    }
    if (posix_memalign((void**)&raw, 64, HDR + n + NCAN)) return NULL;
    ((uint64_t*)raw)[0] = MAGIC;
    ((uint64_t*)raw)[1] = n;
    memset(raw + HDR + n, CAN, NCAN);
    pattern(raw + HDR, n);
    __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&total, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&bytes, (long)n, __ATOMIC_SEQ_CST);
    return raw + HDR;
}
void *vm_malloc(size_t n) { return get(n); }
void *vm_calloc(size_t n, size_t m) { void *p = get(n*m); if (p) memset(p, 0, n*m); return p; }
void *vm_aligned_alloc(size_t a, size_t n) { return get(n); }
int vm_posix_memalign(void **p, size_t a, size_t n) { *p = get(n); return *p ? 0 : 12; }
void vm_free(void *p) {
    if (!p) return;
    unsigned char *raw = (unsigned char*)p - HDR;
    if (((uint64_t*)raw)[0] != MAGIC) {
        /* double free or a pointer not from here */
        __atomic_add_fetch(&errors, 1, __ATOMIC_SEQ_CST);
        return;
    }
    size_t n = ((uint64_t*)raw)[1];
    for (int i = 0; i < NCAN; i++)
        if (raw[HDR + n + i] != CAN) { __atomic_add_fetch(&errors, 1, __ATOMIC_SEQ_CST); break; }
    ((uint64_t*)raw)[0] = 0;
    pattern(p, n);
    __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST);
    __atomic_sub_fetch(&bytes, (long)n, __ATOMIC_SEQ_CST);
    free(raw);
}
void *vm_realloc(void *p, size_t n) {
    if (!p) return get(n);
    size_t o = ((uint64_t*)((unsigned char*)p - HDR))[1];
    void *q = get(n);
    if (q) memcpy(q, p, o < n ? o : n);
    vm_free(p);
    return q;
}

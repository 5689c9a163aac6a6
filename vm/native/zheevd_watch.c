/* Stand-in for the zheevd pointer that scipy hands out: checks the buffers the
 * extension passes (LAPACK itself is not instrumented), then forwards. */
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
typedef void (*Z)(char*, char*, int*, double*, int*, double*, double*, int*, double*, int*, int*, int*, int*);
static Z real;
static long n_query, n_solve;
void vm_zheevd_set(void *p) { real = (Z)p; }
long vm_zheevd_queries(void) { return __atomic_load_n(&n_query, __ATOMIC_SEQ_CST); }
long vm_zheevd_solves(void) { return __atomic_load_n(&n_solve, __ATOMIC_SEQ_CST); }
#ifdef VM_ASAN
extern void *__asan_region_is_poisoned(void *beg, size_t size);
extern void __asan_report_error(void *pc, void *bp, void *sp, void *addr, int is_write, size_t size);
static void region(const char *what, void *p, size_t n) {
    void *bad = __asan_region_is_poisoned(p, n);
    if (bad) {
        fprintf(stderr, "==ZHEEVD-ARGUMENT %s: %zu bytes at %p overrun at offset %ld\n", what, n, p,
                (long)((char*)bad - (char*)p));
        fflush(stderr);
        abort();
    }
}
#elif defined(VM_TSAN)
/* Instrumented accesses on behalf of LAPACK, so that TSan knows about them. */
static void region(const char *what, void *p, size_t n) {
    volatile char *c = p;
    for (size_t i = 0; i + 8 <= n; i += 8) { volatile double *d = (volatile double*)(c + i); *d = *d; }
}
extern void vm_perturb(void);
#else
static void region(const char *what, void *p, size_t n) { }
#endif
static void demand(int ok, const char *what) {
    if (!ok) { fprintf(stderr, "==ZHEEVD-ARGUMENT %s\n", what); fflush(stderr); abort(); }
}
void vm_zheevd(char *jobz, char *uplo, int *n, double *a, int *lda, double *w, double *work, int *lwork,
               double *rwork, int *lrwork, int *iwork, int *liwork, int *info) {
#ifdef VM_TSAN
    vm_perturb();
#endif
    region("n", n, 4); region("lda", lda, 4); region("lwork", lwork, 4); region("lrwork", lrwork, 4);
    region("liwork", liwork, 4); region("info", info, 4); region("jobz", jobz, 1); region("uplo", uplo, 1);
    demand(*n > 0, "n not positive");
    demand(*lda >= *n, "lda too small");
    if (*lwork == -1 || *lrwork == -1 || *liwork == -1) {
        region("work (query)", work, 16); region("rwork (query)", rwork, 8); region("iwork (query)", iwork, 4);
        __atomic_add_fetch(&n_query, 1, __ATOMIC_SEQ_CST);
    } else {
        long N = *n;
        region("a", a, 16*(size_t)*lda*N); region("w", w, 8*N);
        if (*jobz == 'V' && N > 1) {
            demand(*lwork >= 2*N + N*N, "lwork below minimum");
            demand(*lrwork >= 1 + 5*N + 2*N*N, "lrwork below minimum");
            demand(*liwork >= 3 + 5*N, "liwork below minimum");
        }
        region("work", work, 16*(size_t)*lwork); region("rwork", rwork, 8*(size_t)*lrwork);
        region("iwork", iwork, 4*(size_t)*liwork);
        __atomic_add_fetch(&n_solve, 1, __ATOMIC_SEQ_CST);
    }
    real(jobz, uplo, n, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info);
}

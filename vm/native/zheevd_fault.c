/* Stand-in for the zheevd pointer that reports failure at the n-th call of a
 * kind (info > 0, arrays left half processed), otherwise forwards. */
typedef void (*Z)(char*, char*, int*, double*, int*, double*, double*, int*, double*, int*, int*, int*, int*);
static Z real;
static long n_solve, n_query, fail_solve = -1, fail_query = -1, n_failed;
void vm_zheevd_set(void *p) { real = (Z)p; }
void vm_zheevd_fail(long solve, long query) { n_solve = n_query = 0; fail_solve = solve; fail_query = query; }
long vm_zheevd_solves(void) { return __atomic_load_n(&n_solve, __ATOMIC_SEQ_CST); }
long vm_zheevd_queries(void) { return __atomic_load_n(&n_query, __ATOMIC_SEQ_CST); }
long vm_zheevd_failed(void) { return __atomic_load_n(&n_failed, __ATOMIC_SEQ_CST); }
void vm_zheevd(char *jobz, char *uplo, int *n, double *a, int *lda, double *w, double *work, int *lwork,
               double *rwork, int *lrwork, int *iwork, int *liwork, int *info) {
    if (*lwork == -1 || *lrwork == -1 || *liwork == -1) {
        if (__atomic_fetch_add(&n_query, 1, __ATOMIC_SEQ_CST) == fail_query) {
            *info = -8;
            __atomic_add_fetch(&n_failed, 1, __ATOMIC_SEQ_CST);
            return;
        }
    } else if (__atomic_fetch_add(&n_solve, 1, __ATOMIC_SEQ_CST) == fail_solve) {
        /* not converged: some eigenvalues, no eigenvectors */
        for (int i = 0; i < *n; i++) w[i] = 1e-4*(i + 1);
        for (long i = 0; i < 2L*(*n)*(*n)/2; i++) a[i] = 0.25;
        *info = 1;
        __atomic_add_fetch(&n_failed, 1, __ATOMIC_SEQ_CST);
        return;
    }
    real(jobz, uplo, n, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info);
}

/* A small OpenMP runtime on plain pthreads, compiled with -fsanitize=thread, so
 * that ThreadSanitizer sees every fork, join, barrier and lock (libgomp is not
 * instrumented and would hide or invent orderings). It also injects seeded
 * delays at the points where the real runtime may be preempted. */
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <sched.h>
#include <stdio.h>
#include <time.h>

typedef struct team {
    int n;
    void (*fn)(void *);
    void *data;
    pthread_mutex_t mu;
    pthread_cond_t cv;
    int arrived, generation;
    /* work sharing: one descriptor per loop instance */
    long next, end, incr, chunk;
    int loop_open, loop_left, guided;
    int single_count;
} team_t;

static __thread team_t *cur;
static __thread int tid;
static __thread unsigned rng;
static __thread int my_single;
static int nthreads_icv = 1;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static long n_regions, n_delays, n_threads_started;
static unsigned seed0 = 1;
static int delays_on = 1;
long vm_gomp_regions(void) { return __atomic_load_n(&n_regions, __ATOMIC_SEQ_CST); }
long vm_gomp_delays(void) { return __atomic_load_n(&n_delays, __ATOMIC_SEQ_CST); }
long vm_gomp_threads(void) { return __atomic_load_n(&n_threads_started, __ATOMIC_SEQ_CST); }
void vm_gomp_seed(unsigned s) { seed0 = s; }
void vm_gomp_delays_on(int x) { delays_on = x; }

/* called between q-points (from the watched zheevd) as well as by the runtime */
void vm_perturb(void) {
    if (!delays_on || !cur) return;
    rng = rng*1664525u + 1013904223u;
    unsigned r = rng >> 24;
    if (r < 90) return;
    __atomic_add_fetch(&n_delays, 1, __ATOMIC_SEQ_CST);
    if (r < 160) sched_yield();
    else usleep(r - 150);
}

typedef struct { team_t *t; int id; } arg_t;
static void *entry(void *p) {
    arg_t *a = p;
    cur = a->t; tid = a->id; rng = seed0*2654435761u + a->id*40503u; my_single = 0;
    vm_perturb();
    cur->fn(cur->data);
    return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
    if (cur) {    /* nested: serialise */
        team_t *old = cur; int ot = tid, os = my_single;
        team_t s = {.n = 1, .fn = fn, .data = data};
        pthread_mutex_init(&s.mu, NULL); pthread_cond_init(&s.cv, NULL);
        cur = &s; tid = 0; my_single = 0; fn(data); cur = old; tid = ot; my_single = os;
        return;
    }
    int n = num_threads ? (int)num_threads : nthreads_icv;
    if (n < 1) n = 1;
    __atomic_add_fetch(&n_regions, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&n_threads_started, n, __ATOMIC_SEQ_CST);
    team_t *t = calloc(1, sizeof *t);
    t->n = n; t->fn = fn; t->data = data;
    pthread_mutex_init(&t->mu, NULL); pthread_cond_init(&t->cv, NULL);
    pthread_t *th = calloc(n, sizeof *th);
    arg_t *a = calloc(n, sizeof *a);
    for (int i = 1; i < n; i++) { a[i].t = t; a[i].id = i; pthread_create(&th[i], NULL, entry, &a[i]); }
    a[0].t = t; a[0].id = 0;
    entry(&a[0]);
    for (int i = 1; i < n; i++) pthread_join(th[i], NULL);
    cur = NULL; tid = 0;
    pthread_mutex_destroy(&t->mu); pthread_cond_destroy(&t->cv);
    free(th); free(a); free(t);
}

void GOMP_barrier(void) {
    if (!cur || cur->n == 1) return;
    team_t *t = cur;
    vm_perturb();
    pthread_mutex_lock(&t->mu);
    int g = t->generation;
    if (++t->arrived == t->n) { t->arrived = 0; t->generation++; pthread_cond_broadcast(&t->cv); }
    else while (g == t->generation) pthread_cond_wait(&t->cv, &t->mu);
    pthread_mutex_unlock(&t->mu);
}

/* ---- work sharing (dynamic/guided/runtime/static through the runtime) ---- */
static bool take(long *s, long *e) {
    team_t *t = cur;
    vm_perturb();
    pthread_mutex_lock(&t->mu);
    long left = t->incr > 0 ? t->end - t->next : t->next - t->end;
    bool ok = left > 0;
    if (ok) {
        long step = t->chunk*t->incr;
        *s = t->next;
        *e = t->next + step;
        if ((t->incr > 0 && *e > t->end) || (t->incr < 0 && *e < t->end)) *e = t->end;
        t->next = *e;
    }
    pthread_mutex_unlock(&t->mu);
    return ok;
}
static team_t solo = {.n = 1, .mu = PTHREAD_MUTEX_INITIALIZER, .cv = PTHREAD_COND_INITIALIZER};
static bool start(long s, long e, long i, long c, long *is, long *ie) {
    if (!cur) cur = &solo;
    team_t *t = cur;
    pthread_mutex_lock(&t->mu);
    while (t->loop_open && t->loop_left < 0) pthread_cond_wait(&t->cv, &t->mu);
    if (!t->loop_open) { t->loop_open = 1; t->loop_left = t->n; t->next = s; t->end = e; t->incr = i; t->chunk = c > 0 ? c : 1; }
    pthread_mutex_unlock(&t->mu);
    return take(is, ie);
}
static void leave(void) {
    team_t *t = cur;
    pthread_mutex_lock(&t->mu);
    if (--t->loop_left == 0) { t->loop_open = 0; pthread_cond_broadcast(&t->cv); }
    pthread_mutex_unlock(&t->mu);
}
void GOMP_loop_end(void) { leave(); GOMP_barrier(); if (cur == &solo) cur = NULL; }
void GOMP_loop_end_nowait(void) { leave(); if (cur == &solo) cur = NULL; }
#define LOOP(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return start(s, e, i, c, is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return take(is, ie); } \
    struct pl_##name { void (*fn)(void*); void *d; long s, e, i, c; }; \
    static void pl_run_##name(void *p) { struct pl_##name *x = p; team_t *t = cur; \
        pthread_mutex_lock(&t->mu); \
        if (!t->loop_open) { t->loop_open = 1; t->loop_left = t->n; t->next = x->s; t->end = x->e; t->incr = x->i; t->chunk = x->c > 0 ? x->c : 1; } \
        pthread_mutex_unlock(&t->mu); x->fn(x->d); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) { \
        struct pl_##name x = {fn, data, s, e, i, c}; GOMP_parallel(pl_run_##name, &x, n, f); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { return start(s, e, i, 1, is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return take(is, ie); } \
    struct rpl_##name { void (*fn)(void*); void *d; long s, e, i; }; \
    static void rpl_run_##name(void *p) { struct rpl_##name *x = p; team_t *t = cur; \
        pthread_mutex_lock(&t->mu); \
        if (!t->loop_open) { t->loop_open = 1; t->loop_left = t->n; t->next = x->s; t->end = x->e; t->incr = x->i; t->chunk = 1; } \
        pthread_mutex_unlock(&t->mu); x->fn(x->d); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned f) { \
        struct rpl_##name x = {fn, data, s, e, i}; GOMP_parallel(rpl_run_##name, &x, n, f); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)

bool GOMP_single_start(void) {
    if (!cur || cur->n == 1) return true;
    team_t *t = cur;
    pthread_mutex_lock(&t->mu);
    bool first = t->single_count == my_single;
    if (first) t->single_count++;
    my_single++;
    pthread_mutex_unlock(&t->mu);
    return first;
}
void GOMP_critical_start(void) { vm_perturb(); pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); vm_perturb(); }
static pthread_mutex_t named = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_name_start(void **p) { vm_perturb(); pthread_mutex_lock(&named); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(&named); vm_perturb(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void omp_set_num_threads(int n) { nthreads_icv = n < 1 ? 1 : n; }
int omp_get_num_threads(void) { return cur ? cur->n : 1; }
int omp_get_thread_num(void) { return cur ? tid : 0; }
int omp_get_max_threads(void) { return nthreads_icv; }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return cur && cur->n > 1; }
void omp_set_dynamic(int d) { }
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
typedef struct { pthread_mutex_t m; } *lk;
void omp_init_lock(void **l) { lk x = malloc(sizeof *x); pthread_mutex_init(&x->m, NULL); *l = x; }
void omp_destroy_lock(void **l) { lk x = *l; pthread_mutex_destroy(&x->m); free(x); }
void omp_set_lock(void **l) { pthread_mutex_lock(&((lk)*l)->m); }
void omp_unset_lock(void **l) { pthread_mutex_unlock(&((lk)*l)->m); }

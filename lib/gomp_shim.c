/* Minimal OpenMP runtime on pthreads, for ThreadSanitizer builds of the pythran kernels.
   Every team is created and joined with pthread_create/pthread_join and every lock is a
   pthread mutex, so ThreadSanitizer sees all happens-before edges and nothing else.
   SHIM_THREADS sets the team size, SHIM_JITTER a seed for injected start delays. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdbool.h>
#include <stdio.h>
#include <time.h>
#include <sched.h>

struct team { void (*fn)(void *); void *data; int n; pthread_barrier_t bar; pthread_mutex_t mu;
              long next, end, incr, chunk; int single; int loop_gen; };
struct arg { struct team *t; int id; };
static __thread struct team *cur; static __thread int myid;
static __thread long l_start, l_end, l_incr, l_chunk; static __thread int l_static_done; static __thread int seen_single;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
unsigned long shim_regions, shim_threads_started;   /* read by the harness through ctypes */
static unsigned jit;

static int team_size(void) { const char *e = getenv("SHIM_THREADS"); int n = e ? atoi(e) : 4; return n < 1 ? 1 : n; }
static unsigned rnd(void) { jit = jit * 1103515245u + 12345u; return jit >> 16; }

static void *run(void *p) {
    struct arg *a = p; cur = a->t; myid = a->id; seen_single = 0;
    a->t->fn(a->t->data);
    return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) {
    struct team t; struct arg args[64]; pthread_t th[64]; int i;
    struct team *oldt = cur; int oldid = myid;
    t.fn = fn; t.data = data; t.n = oldt ? 1 : (nt ? (int)nt : team_size()); if (t.n > 64) t.n = 64;
    t.single = 0; t.next = t.end = 0; t.incr = t.chunk = 1; t.loop_gen = 0;
    pthread_barrier_init(&t.bar, NULL, t.n); pthread_mutex_init(&t.mu, NULL);
    if (!jit) { const char *e = getenv("SHIM_JITTER"); jit = e ? (unsigned)atoi(e) * 2654435761u + 1 : 1; }
    shim_regions++; shim_threads_started += t.n - 1;
    for (i = 1; i < t.n; i++) {
        args[i].t = &t; args[i].id = i;
        if (rnd() % 3 == 0) { struct timespec ts = {0, (long)(rnd() % 200) * 1000}; nanosleep(&ts, NULL); }
        if (pthread_create(&th[i], NULL, run, &args[i])) abort();
    }
    if (rnd() % 3 == 0) { struct timespec ts = {0, (long)(rnd() % 200) * 1000}; nanosleep(&ts, NULL); }
    args[0].t = &t; args[0].id = 0; run(&args[0]);
    for (i = 1; i < t.n; i++) pthread_join(th[i], NULL);
    cur = oldt; myid = oldid;
    pthread_barrier_destroy(&t.bar); pthread_mutex_destroy(&t.mu);
}
int omp_get_num_threads(void) { return cur ? cur->n : 1; }
int omp_get_thread_num(void) { return cur ? myid : 0; }
int omp_get_max_threads(void) { return team_size(); }
int omp_get_num_procs(void) { return team_size(); }
int omp_in_parallel(void) { return cur && cur->n > 1; }
void omp_set_num_threads(int n) { (void)n; }
int omp_get_level(void) { return cur ? 1 : 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void GOMP_barrier(void) { if (cur) pthread_barrier_wait(&cur->bar); }
bool GOMP_single_start(void) {
    if (!cur) return true;
    bool r; pthread_mutex_lock(&cur->mu); r = cur->single == seen_single; seen_single++; if (r) cur->single++; pthread_mutex_unlock(&cur->mu);
    return r;
}
/* work sharing: all dynamic-like schedules are served in random small chunks from a shared counter */
static bool next_chunk(long *s, long *e) {
    struct team *t = cur; bool ok = false;
    pthread_mutex_lock(&t->mu);
    if (t->incr > 0 ? t->next < t->end : t->next > t->end) {
        long c = t->chunk > 0 ? t->chunk : 1; *s = t->next; *e = t->next + c * t->incr;
        if (t->incr > 0 ? *e > t->end : *e < t->end) *e = t->end;
        t->next = *e; ok = true;
    }
    pthread_mutex_unlock(&t->mu);
    return ok;
}
static bool loop_start(long st, long en, long inc, long chunk, long *s, long *e) {
    struct team *t = cur; static __thread int gen; static __thread struct team *last;
    struct team solo;
    if (!t) { (void)solo; *s = st; *e = en; return inc > 0 ? st < en : st > en; }
    if (last != t) { last = t; gen = 0; }
    pthread_mutex_lock(&t->mu);
    if (t->loop_gen == gen) { t->loop_gen++; t->next = st; t->end = en; t->incr = inc; t->chunk = chunk; }
    gen++;
    pthread_mutex_unlock(&t->mu);
    return next_chunk(s, e);
}
#define LOOP(name) \
 bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
 bool GOMP_loop_##name##_next(long *s, long *e) { return cur ? next_chunk(s, e) : false; } \
 void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long a, long b, long i, long c, unsigned f);
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return cur ? next_chunk(s, e) : false; }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return cur ? next_chunk(s, e) : false; }
void GOMP_loop_end(void) { if (cur) pthread_barrier_wait(&cur->bar); }
void GOMP_loop_end_nowait(void) {}
/* combined constructs: start the team with the loop bounds preset */
struct comb { void (*fn)(void *); void *data; long a, b, i, c; };
static void comb_run(void *p) {
    struct comb *c = p;
    pthread_mutex_lock(&cur->mu);
    if (cur->loop_gen == 0) { cur->loop_gen = 1; cur->next = c->a; cur->end = c->b; cur->incr = c->i; cur->chunk = c->c; }
    pthread_mutex_unlock(&cur->mu);
    c->fn(c->data);
}
static void comb(void (*fn)(void *), void *data, unsigned nt, long a, long b, long i, long c) {
    struct comb x = {fn, data, a, b, i, c}; GOMP_parallel(comb_run, &x, nt, 0);
}
#define COMB(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) { comb(fn, d, nt, a, b, i, c); }
COMB(dynamic) COMB(guided) COMB(static) COMB(nonmonotonic_dynamic) COMB(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned f) { comb(fn, d, nt, a, b, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned f) { comb(fn, d, nt, a, b, i, 1); }

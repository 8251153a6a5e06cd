/* A small OpenMP runtime on pthreads, so that ThreadSanitizer sees every synchronisation (libgomp itself is not instrumented). */
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <sched.h>
static int NT(void) { char *s = getenv("STUB_THREADS"); int n = s ? atoi(s) : 4; return n > 0 ? n : 1; }
static __thread int tid = 0;
static __thread int nth = 1;
static __thread unsigned wsid = 0;
static pthread_barrier_t bar;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, wsm = PTHREAD_MUTEX_INITIALIZER;
struct ws { long next, end, incr, chunk; int init, left; bool guided; };
#define MAXWS 4096
static struct ws wss[MAXWS];
struct arg { void (*fn)(void *); void *data; int id, n; };
static void *start(void *p) { struct arg *a = p; tid = a->id; nth = a->n; wsid = 0; if (a->id % 2) sched_yield(); a->fn(a->data); return NULL; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags) {
    int n = num ? (int)num : NT();
    if (nth > 1) { int t = tid, k = nth; tid = 0; nth = 1; fn(data); tid = t; nth = k; return; }
    pthread_t th[64];
    struct arg a[64];
    if (n > 64) n = 64;
    for (int i = 0; i < MAXWS; i++) wss[i].init = 0;
    pthread_barrier_init(&bar, NULL, n);
    for (int i = 1; i < n; i++) { a[i] = (struct arg){fn, data, i, n}; pthread_create(&th[i], NULL, start, &a[i]); }
    a[0] = (struct arg){fn, data, 0, n};
    start(&a[0]);
    for (int i = 1; i < n; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&bar);
    tid = 0; nth = 1; wsid = 0;
}
void GOMP_barrier(void) { if (nth > 1) pthread_barrier_wait(&bar); }
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return nth; }
int omp_get_max_threads(void) { return NT(); }
int omp_in_parallel(void) { return nth > 1; }
void omp_set_num_threads(int n) { (void)n; }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void) { unsigned w = wsid++ % MAXWS; pthread_mutex_lock(&wsm); bool r = !wss[w].init; wss[w].init = 1; pthread_mutex_unlock(&wsm); return r; }
static bool nxt(unsigned w, long *is, long *ie) {
    bool r = false;
    pthread_mutex_lock(&wsm);
    struct ws *s = &wss[w];
    if (s->incr > 0 ? s->next < s->end : s->next > s->end) {
        *is = s->next; s->next += s->chunk * s->incr;
        if (s->incr > 0 ? s->next > s->end : s->next < s->end) s->next = s->end;
        *ie = s->next; r = true;
    }
    pthread_mutex_unlock(&wsm);
    return r;
}
static bool beg(long a, long b, long inc, long ch, long *is, long *ie) {
    unsigned w = wsid % MAXWS;
    pthread_mutex_lock(&wsm);
    if (!wss[w].init) wss[w] = (struct ws){a, b, inc, ch > 0 ? ch : 1, 1, 0, false};
    pthread_mutex_unlock(&wsm);
    return nxt(w, is, ie);
}
#define LOOP(P, T) \
bool GOMP_##P##_start P##_ARGS { long s, e; if (!beg(P##_A, &s, &e)) return false; *is = (T)s; *ie = (T)e; return true; } \
bool GOMP_##P##_next(T *is, T *ie) { long s, e; if (!nxt(wsid % MAXWS, &s, &e)) return false; *is = (T)s; *ie = (T)e; return true; }
#define L(P) bool GOMP_loop_##P##_start(long a, long b, long inc, long ch, long *is, long *ie) { return beg(a, b, inc, ch, is, ie); } \
 bool GOMP_loop_##P##_next(long *is, long *ie) { return nxt(wsid % MAXWS, is, ie); } \
 bool GOMP_loop_ull_##P##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long ch, unsigned long long *is, unsigned long long *ie) { \
   long s, e; (void)up; if (!beg((long)a, (long)b, (long)inc, (long)ch, &s, &e)) return false; *is = s; *ie = e; return true; } \
 bool GOMP_loop_ull_##P##_next(unsigned long long *is, unsigned long long *ie) { long s, e; if (!nxt(wsid % MAXWS, &s, &e)) return false; *is = s; *ie = e; return true; }
L(dynamic) L(nonmonotonic_dynamic) L(guided) L(nonmonotonic_guided) L(static)
void GOMP_loop_end(void) { wsid++; GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { wsid++; }

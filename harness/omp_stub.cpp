// pthread implementation of the libgomp entry points the library uses, so that ThreadSanitizer sees
// the fork/join order (the system libgomp is not instrumented).
#include <pthread.h>
#include <stdlib.h>
#include <vector>
static int g_nt = 4;
struct Team { int n; pthread_barrier_t bar; pthread_mutex_t mu; long next, end, inc, chunk; bool have; };
static __thread int t_id = 0; static __thread int t_n = 1; static __thread Team* t_team = 0; static __thread int t_single = 0;
struct Arg { void (*fn)(void*); void* d; int id; Team* t; };
static pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER;
static void* thr(void* v) { Arg* a = (Arg*) v; t_id = a->id; t_n = a->t->n; t_team = a->t; a->fn(a->d); t_id = 0; t_n = 1; t_team = 0; return 0; }
static void run(void (*fn)(void*), void* d, unsigned nt, Team& T) {
	int n = nt ? (int) nt : g_nt; if(t_team) n = 1;
	T.n = n; pthread_barrier_init(&T.bar, 0, n); pthread_mutex_init(&T.mu, 0);
	std::vector<pthread_t> th(n); std::vector<Arg> a(n);
	for(int i = 0; i < n; i++) { a[i] = Arg{fn, d, i, &T}; if(pthread_create(&th[i], 0, thr, &a[i])) abort(); }
	for(int i = 0; i < n; i++) pthread_join(th[i], 0);
	pthread_barrier_destroy(&T.bar); pthread_mutex_destroy(&T.mu);
}
extern "C" {
int omp_get_num_threads() { return t_n; }
int omp_get_thread_num() { return t_id; }
int omp_get_max_threads() { return g_nt; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return t_team != 0; }
void omp_set_num_threads(int n) { g_nt = n < 1 ? 1 : n; }
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { Team T; T.have = false; run(fn, d, nt, T); }
void GOMP_barrier() { if(t_team) pthread_barrier_wait(&t_team->bar); }
void GOMP_critical_start() { pthread_mutex_lock(&g_crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&g_crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_crit); }
bool GOMP_single_start() { return t_id == 0; }
static void pl(void (*fn)(void*), void* d, unsigned nt, long s, long e, long inc, long ch) { Team T; T.have = true; T.next = s; T.end = e; T.inc = inc; T.chunk = ch < 1 ? 1 : ch; run(fn, d, nt, T); }
void GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { pl(fn,d,nt,s,e,i,c); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { pl(fn,d,nt,s,e,i,c); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { pl(fn,d,nt,s,e,i,c); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { pl(fn,d,nt,s,e,i,1); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { pl(fn,d,nt,s,e,i,c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { pl(fn,d,nt,s,e,i,c); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { pl(fn,d,nt,s,e,i,1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { pl(fn,d,nt,s,e,i,1); }
static bool nx(long* a, long* b) { Team* T = t_team; bool r = false; pthread_mutex_lock(&T->mu);
	if(T->inc > 0 ? T->next < T->end : T->next > T->end) { *a = T->next; long e = T->next + T->inc*T->chunk; if(T->inc > 0 ? e > T->end : e < T->end) e = T->end; *b = e; T->next = e; r = true; }
	pthread_mutex_unlock(&T->mu); return r; }
bool GOMP_loop_dynamic_next(long* a, long* b) { return nx(a,b); }
bool GOMP_loop_guided_next(long* a, long* b) { return nx(a,b); }
bool GOMP_loop_static_next(long* a, long* b) { return nx(a,b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return nx(a,b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return nx(a,b); }
bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b) { return nx(a,b); }
bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { return nx(a,b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return nx(a,b); }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { if(t_team) pthread_barrier_wait(&t_team->bar); }
}

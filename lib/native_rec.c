/* Runtime for code compiled with -fsanitize=thread: instead of detecting races while running freely, it records the set of
   memory granules (8 bytes, stack of the calling thread excluded) that one native call reads and writes, and it can hand the
   control from one thread to another at chosen accesses to a given set of conflicting granules. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef uintptr_t U;
static __thread U stack_lo, stack_hi;
static __thread int who = -1;              /* index of the controlled thread, -1: not controlled */
static __thread int recording;

#define CAP (1u << 20)
static U *tab_key; static uint8_t *tab_val; static unsigned tab_n;   /* recording: granule -> 1 read | 2 written */
static U *con_key; static unsigned con_n;                            /* conflicting granules */
static int scheduling;
static int max_threads; static int turn; static int done[16]; static long count[16];
static long sw_at[64]; static int sw_who[64], sw_to[64], n_sw;       /* at access sw_at of thread sw_who hand over to sw_to */
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;

static void bounds(void) {
	pthread_attr_t a; void *p; size_t n;
	pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a);
	stack_lo = (U) p; stack_hi = (U) p + n;
}
static unsigned slot(U *t, U g) { unsigned h = (unsigned)((g * 0x9E3779B97F4A7C15ull) >> 44) & (CAP-1); while(t[h] && t[h] != g) h = (h+1) & (CAP-1); return h; }

static void hit(U addr, size_t size, int kind) {
	if(!recording && !(scheduling && who >= 0)) return;
	if(!stack_hi) bounds();
	if(addr >= stack_lo && addr < stack_hi) return;
	for(U g = addr >> 3; g <= (addr + size - 1) >> 3; g++) {
		if(recording) {
			unsigned h = slot(tab_key, g);
			if(!tab_key[h]) { if(tab_n > CAP/2) abort(); tab_key[h] = g; tab_n++; }
			tab_val[h] |= kind;
		}
		if(scheduling && who >= 0 && con_n) {
			unsigned h = slot(con_key, g);
			if(con_key[h]) {
				pthread_mutex_lock(&mu);
				while(turn != who) pthread_cond_wait(&cv, &mu);
				long c = count[who]++;
				for(int s = 0; s < n_sw; s++)
					if(sw_who[s] == who && sw_at[s] == c && !done[sw_to[s]]) { turn = sw_to[s]; pthread_cond_broadcast(&cv); break; }
				while(turn != who) pthread_cond_wait(&cv, &mu);
				pthread_mutex_unlock(&mu);
			}
		}
	}
}

/* -- control, called from Python */
void rec_start(void) {
	if(!tab_key) { tab_key = calloc(CAP, sizeof(U)); tab_val = calloc(CAP, 1); }
	memset(tab_key, 0, CAP*sizeof(U)); memset(tab_val, 0, CAP); tab_n = 0; recording = 1;
}
unsigned rec_stop(U *keys, uint8_t *vals, unsigned max) {
	recording = 0; unsigned n = 0;
	for(unsigned i = 0; i < CAP; i++) if(tab_key[i]) { if(n < max) { keys[n] = tab_key[i]; vals[n] = tab_val[i]; } n++; }
	return n;
}
void sched_setup(U *keys, unsigned n, int first, int nthreads, int *w, long *at, int *to, int nsw) {
	if(!con_key) con_key = calloc(CAP, sizeof(U));
	memset(con_key, 0, CAP*sizeof(U)); con_n = n;
	for(unsigned i = 0; i < n; i++) con_key[slot(con_key, keys[i])] = keys[i];
	turn = first; max_threads = nthreads; n_sw = nsw;
	for(int i = 0; i < 16; i++) { done[i] = i >= nthreads; count[i] = 0; }
	for(int i = 0; i < nsw; i++) { sw_who[i] = w[i]; sw_at[i] = at[i]; sw_to[i] = to[i]; }
	scheduling = 1;
}
/* a controlled thread waits for its first turn before its native call; what comes before is not scheduled */
void sched_enter(int i) {
	pthread_mutex_lock(&mu); while(turn != i) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu);
	who = i;
}
void sched_leave(int i, int final) {
	who = -1;
	if(!final) return;
	pthread_mutex_lock(&mu); done[i] = 1;
	if(turn == i) for(int k = 1; k <= max_threads; k++) { int j = (i + k) % max_threads; if(!done[j]) { turn = j; break; } }
	pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu);
}
void sched_end(long *counts) { scheduling = 0; for(int i = 0; i < 16; i++) counts[i] = count[i]; }

/* -- the instrumentation interface */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { hit((U)p, 8, 2); }
void __tsan_vptr_read(void **p) { hit((U)p, 8, 1); }
#define RW(n) void __tsan_read##n(void *p) { hit((U)p, n, 1); } void __tsan_write##n(void *p) { hit((U)p, n, 2); } \
	void __tsan_unaligned_read##n(void *p) { hit((U)p, n, 1); } void __tsan_unaligned_write##n(void *p) { hit((U)p, n, 2); } \
	void __tsan_read_write##n(void *p) { hit((U)p, n, 3); } void __tsan_unaligned_read_write##n(void *p) { hit((U)p, n, 3); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if(n) hit((U)p, n, 1); }
void __tsan_write_range(void *p, unsigned long n) { if(n) hit((U)p, n, 2); }
void *__tsan_memcpy(void *d, const void *s, U n) { if(n) { hit((U)s, n, 1); hit((U)d, n, 2); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, U n) { if(n) { hit((U)s, n, 1); hit((U)d, n, 2); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, U n) { if(n) hit((U)d, n, 2); return memset(d, c, n); }
/* synchronisation operations are executed as they are; their places count as accesses */
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T *a, int m) { hit((U)a, n/8, 1); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##n##_store(volatile T *a, T v, int m) { hit((U)a, n/8, 2); __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) { hit((U)a, n/8, 3); return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) { hit((U)a, n/8, 3); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) { hit((U)a, n/8, 3); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) { hit((U)a, n/8, 3); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) { hit((U)a, n/8, 3); return __atomic_fetch_or(a, v, 5); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { hit((U)a, n/8, 3); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { hit((U)a, n/8, 3); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int m) {}

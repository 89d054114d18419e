/* Linked to the instrumented backend: a numpy allocator that puts every array between two poisoned stretches and never caches memory, and
   functions with deliberate errors to see that the instrumentation works. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>

void __asan_poison_memory_region(void const volatile *addr, size_t size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);

#define PAD 8192

static void *get(size_t n, int zero) {
	size_t body = n ? n : 1;
	char *p = malloc(body + 2*PAD);
	if(!p) return NULL;
	*(size_t *) p = n;
	if(zero) memset(p + PAD, 0, body);
	__asan_poison_memory_region(p, PAD);
	/* byte exact: the granule that holds the last byte is partially addressable */
	__asan_poison_memory_region(p + PAD + n, PAD + body - n);
	return p + PAD;
}
static size_t size_of(char *q) { char *p = q - PAD; __asan_unpoison_memory_region(p, sizeof(size_t)); size_t n = *(size_t *) p; __asan_poison_memory_region(p, 8); return n; }
static void *g_malloc(void *ctx, size_t n) { (void) ctx; return get(n, 0); }
static void *g_calloc(void *ctx, size_t a, size_t b) { (void) ctx; return get(a*b, 1); }
static void g_free(void *ctx, void *q, size_t n) {
	(void) ctx; (void) n;
	if(!q) return;
	char *p = (char *) q - PAD;
	size_t m = size_of(q);
	__asan_unpoison_memory_region(p, (m ? m : 1) + 2*PAD);
	free(p);
}
static void *g_realloc(void *ctx, void *q, size_t n) {
	void *r = get(n, 0);
	if(q && r) { size_t m = size_of(q); memcpy(r, q, m < n ? m : n); g_free(ctx, q, m); }
	return r;
}

static struct {
	char name[127]; uint8_t version;
	struct { void *ctx; void *(*m)(void *, size_t); void *(*c)(void *, size_t, size_t); void *(*r)(void *, void *, size_t); void (*f)(void *, void *, size_t); } a;
} handler = { "guarded", 1, { NULL, g_malloc, g_calloc, g_realloc, g_free } };

void *guard_handler(void) { return &handler; }

double guard_read(double *p, long i) { return p[i]; }
void guard_write(double *p, long i) { p[i] = 1.; }
static double table[3] = {1., 2., 3.};
double guard_table(int i) { return table[i]; }
double guard_inner(double (*p)[4], int i) { return p[0][i]; }

// Native replay runtime: feeds a recorded assignment to the real build.
#include "mse.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <time.h>
static FILE* vec; static int inited;
static void finish(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
static void init(void) { if (inited) return; inited = 1; const char* p = getenv("MSE_VECTOR"); if (p) vec = fopen(p, "r"); if (!vec) { fprintf(stderr, "REPLAY: no vector\n"); finish(5); } }
static char line[1 << 20];
static char* next(const char* name)
{
	init();
	if (!fgets(line, sizeof(line), vec)) { fprintf(stderr, "REPLAY: vector exhausted at '%s'\n", name); finish(6); }
	line[strcspn(line, "\n")] = 0;
	char* e = strrchr(line, '='); if (!e) finish(6);
	*e = 0;
	if (strcmp(line, name)) { fprintf(stderr, "REPLAY: diverged, expected '%s', vector has '%s'\n", name, line); finish(6); }
	return e + 1;
}
void mse_sym(void* p, uint64_t size, const char* name)
{
	char* v = next(name); if (*v == 'x') v++;
	for (uint64_t i = 0; i < size; i++) { unsigned b; if (sscanf(v + 2 * i, "%2x", &b) != 1) finish(6); ((uint8_t*)p)[i] = b; }
}
uint64_t mse_choose(uint64_t n, const char* name) { return strtoull(next(name), NULL, 10); }
void mse_assume(uint64_t c) { if (!c) { fprintf(stderr, "REPLAY: assumption does not hold\n"); finish(4); } }
void mse_assert(uint64_t c, const char* m) { if (!c) { fprintf(stderr, "REPLAY: PROPERTY VIOLATED: %s\n", m); finish(1); } }
void mse_fail(const char* m) { mse_assert(0, m); }
void mse_reach(const char* l) { }
void mse_note(const char* t, ...) { fprintf(stderr, "[note] %s\n", t); }
int mse_is_sym(uint64_t v) { return 0; }
int mse_native(void) { return 1; }
static int64_t nlive;
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
static void on_malloc(const volatile void* p, size_t n) { __atomic_add_fetch(&nlive, 1, __ATOMIC_SEQ_CST); }
static void on_free(const volatile void* p) { if (p) __atomic_sub_fetch(&nlive, 1, __ATOMIC_SEQ_CST); }
uint64_t mse_live(void) { return nlive; }
uint64_t mse_concretize(uint64_t v) { return v; }
uint64_t mse_ite(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t mse_lin_same(uint64_t a, uint64_t b) { return a == b; }
void mse_end(void) { fprintf(stderr, "REPLAY: end without violation\n"); finish(0); }
typedef struct { sem_t s; int status; uint64_t wait; void* (*fn)(void*); void* arg; pthread_t t; } Th;
static Th th[32]; static int nth = 1, cur; static __thread int me; static int budget;
static void ensure(void) { static int done; if (!done) { done = 1; for (int i = 0; i < 32; i++) sem_init(&th[i].s, 0, 0); } }
static void switch_to(int t) { int self = me; if (t == self) { cur = t; return; } cur = t; sem_post(&th[t].s); if (th[self].status != 2) while (sem_wait(&th[self].s)) ; }
static void schedule(int must)
{
	int n = 0; for (int i = 0; i < nth; i++) if (th[i].status == 0 && !(must && i == me)) n++;
	if (!n) { if (must && th[me].status == 0) return; for (int i = 0; i < nth; i++) if (th[i].status == 1) { fprintf(stderr, "REPLAY: PROPERTY VIOLATED: deadlock\n"); finish(1); } finish(0); }
	int t = (int)strtoull(next("sched"), NULL, 10);
	switch_to(t);
}
static void* tramp(void* p) { Th* t = p; me = t - th; while (sem_wait(&t->s)) ; t->fn(t->arg); t->status = 2; for (int i = 0; i < nth; i++) if (th[i].status == 1 && th[i].wait == MSE_JOIN + me) th[i].status = 0; schedule(0); return NULL; }
int mse_thread(void* fn, void* arg) { ensure(); int id = nth++; th[id].fn = (void* (*)(void*))fn; th[id].arg = arg; th[id].status = 0; pthread_create(&th[id].t, NULL, tramp, &th[id]); return id; }
int mse_self(void) { return me; }
void mse_set_preempt(uint64_t b) { budget = b; }
void mse_preempt(void)
{
	if (nth < 2) return;
	int n = 0; for (int i = 0; i < nth; i++) if (th[i].status == 0 && i != me) n++;
	if (!n || budget <= 0) return;
	int t = (int)strtoull(next("preempt"), NULL, 10);
	if (t != me) { budget--; switch_to(t); }
}
void mse_block(uint64_t on) { th[me].status = 1; th[me].wait = on; schedule(0); }
void mse_wake(uint64_t on) { for (int i = 0; i < nth; i++) if (th[i].status == 1 && th[i].wait == on) th[i].status = 0; }
int mse_thread_done(uint64_t id) { return th[id].status == 2; }
void mse_pause(void) { schedule(1); }
double mse_strtod(const char* s, char** e) { return strtod(s, e); }
int mse_fmt_double(char* b, uint64_t n, uint64_t p, double d) { return snprintf(b, n, (p >> 8) == 'g' ? "%.*g" : (p >> 8) == 'e' ? "%.*e" : "%.*f", (int)(p & 255), d); }
void mse_main(void);
int main(void) { ensure(); init(); setvbuf(stdout, NULL, _IONBF, 0); fgetc(vec); rewind(vec); time_t zt = 0; localtime(&zt); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); mse_main(); fprintf(stderr, "REPLAY: end without violation\n"); finish(0); }

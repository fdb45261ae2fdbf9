// The queue of background requests: any sequence of requests added, taken with
// any filter, continued or finished; and workers that wait for requests.
#include "lib.h"
#ifndef OPS
#define OPS 5
#endif
#ifndef MODE
#define MODE 0      // 0 sequences  1 waiting workers
#endif
#ifndef WORKERS
#define WORKERS "a" // filter of each worker: a any  w without upload  u upload
#endif
#ifndef ADD
#define ADD 2
#endif
static Service s;
typedef struct { uint64_t id; int kind, current, alive; } Q;
static Q q[OPS + 4]; static int order[4 * OPS + 16], n_order, nq;
static int up(Q* x) { return x->kind == 3 ? x->current == 4 : x->kind == 4 ? x->current == 0 : 0; }
static int actions(Q* x) { return x->kind < 2 ? 2 : x->kind == 2 ? 3 : x->kind == 3 ? 7 : 3; }
static void add(int kind, uint64_t id)
{
	static Part part; static int cloud; memset(&part, 0, sizeof(part)); part.id.min = id;
	part.cloud = kind == 3 || kind == 4 ? (void*)&cloud : NULL;
	if (kind == 0) service_rotate(&s); else if (kind == 1) service_rebalance(&s); else if (kind < 4) service_refresh(&s, &part); else service_upload(&s, &part);
}
static int passes(int up, ServiceFilter f) { return f == SERVICE_ANY || (f == SERVICE_UPLOAD) == up; }
static void sequences(void)
{
	for (int i = 0; i < OPS; i++) {
		if (mse_choose(2, "add or take") == 0) {
			int kind = mse_choose(5, "kind"); Q* x = &q[nq]; x->kind = kind; x->id = kind < 2 ? UINT64_MAX : mse_u64("id");
			add(kind, x->id); x->alive = 1; order[n_order++] = nq++;
			continue;
		}
		ServiceFilter f = mse_choose(3, "filter"); ServiceReq* r = NULL;
		int stop = service_next(&s, f, false, &r);
		mse_assert(!stop, "no shutdown was asked for");
		int at = -1; for (int k = 0; k < n_order && at < 0; k++) if (order[k] >= 0 && passes(up(&q[order[k]]), f)) at = k;
		if (at < 0) { mse_assert(r == NULL, "a worker gets only requests of its kind"); mse_reach("nothing"); continue; }
		mse_assert(r != NULL, "a worker gets a request it can take");
		Q* x = &q[order[at]];
		mse_assert((r->id == x->id) & (r->current == x->current) & (r->actions_count == actions(x)), "requests are taken in order");
		mse_assert(service_req_is_refresh(r) == (x->kind == 2 || x->kind == 3), "the request that was added");
		order[at] = -1;
		int step = mse_choose(3, "continue");
		if (step) { r->current += step; x->current += step; if (x->kind == 3 && mse_choose(2, "up to the upload")) { r->current = x->current = 4; } }
			if (r->current < r->actions_count) mse_assert(service_filter(r, f) == passes(up(x), f), "the next action is one of the worker or not");
		if (step && x->current < actions(x)) { order[n_order++] = x - q; service_schedule(&s, r); mse_reach("continued"); } else { x->alive = 0; service_req_free(r); mse_reach("taken"); }
	}
	// everything is still there, in order
	for (int k = 0; k < n_order; k++) if (order[k] >= 0) {
		ServiceReq* r = NULL; service_next(&s, SERVICE_ANY, false, &r);
		mse_assert(r != NULL, "no request is lost"); mse_assert(r->id == q[order[k]].id && r->current == q[order[k]].current, "requests are taken in order");
		service_req_free(r);
	}
	ServiceReq* r = NULL; service_next(&s, SERVICE_ANY, false, &r); mse_assert(r == NULL, "no request is taken twice");
}
static Mutex lock; static CondVar done; static int taken[8], n_taken;
static void* worker(void* p)
{
	char c = ((const char*)WORKERS)[(uint64_t)p]; ServiceFilter f = c == 'a' ? SERVICE_ANY : c == 'w' ? SERVICE_WITHOUT_UPLOAD : SERVICE_UPLOAD;
	for (;;) {
		ServiceReq* r = NULL;
		if (service_next(&s, f, true, &r)) break;
		mse_assert(r != NULL, "a waiting worker gets a request or the shutdown");
		mse_assert(passes(service_req_is_upload(r), f), "a worker gets only requests of its kind");
		mutex_lock(&lock); taken[r->id & 7]++; n_taken++; cond_var_signal(&done); mutex_unlock(&lock);
		service_req_free(r);
	}
	return NULL;
}
static void waiting(void)
{
	int nw = strlen(WORKERS), t[4], any = 0, w = 0, u = 0, expect = 0;
	for (int i = 0; i < nw; i++) { char c = WORKERS[i]; any |= c == 'a'; w |= c == 'w'; u |= c == 'u'; }
	mutex_init(&lock); cond_var_init(&done);
	mse_set_preempt(2);
	for (int i = 0; i < nw; i++) t[i] = mse_thread((void*)worker, (void*)(uint64_t)i);
	for (int i = 0; i < ADD; i++) { int upload = mse_in(0, 1, "upload"); add(upload ? 4 : 2, i); q[i].alive = any || (upload ? u : w); expect += q[i].alive; }
	mutex_lock(&lock); while (n_taken < expect) cond_var_wait(&done, &lock); mutex_unlock(&lock);
	service_shutdown(&s);
	for (int i = 0; i < nw; i++) while (!mse_thread_done(t[i])) mse_block(MSE_JOIN + t[i]);
	mse_set_preempt(0);
	for (int i = 0; i < ADD; i++) mse_assert(taken[i] == (q[i].alive != 0), "each request is run once");
	mse_reach("stopped");
	mutex_free(&lock); cond_var_free(&done);
}
void mse_main(void)
{
	lib_init(); 
	service_init(&s);
	if (MODE) waiting(); else sequences();
	service_free(&s);
	lib_free();
}

// Background requests of a whole environment: after every step each partition
// over its limit or covered by a checkpoint has a request pending until it has
// been stored, also when tasks fail; running the requests does all the work.
//   V U run one request as a worker without uploads, only uploads
#include "hist.h"
#ifndef SEQ
#define SEQ "w?v"
#endif
#ifndef MODE
#define MODE 0     // 2 failing calls
#endif
#ifndef MAXSTEP
#define MAXSTEP 200
#endif
#ifndef WM
#define WM "1"
#endif
static Engine* eng(void) { struct o { int type; Main main; }; return &((struct o*)db)->main.engine; }
static int pending(uint64_t id, int type)
{
	int n = 0;
	list_foreach(&eng()->service->list) {
		ServiceReq* r = list_at(ServiceReq, link);
		if (r->id == id) for (int i = r->current; i < r->actions_count; i++) if (r->actions[i].type == type) { n++; break; }
	}
	return n;
}
static int all(int upload) { int n = 0; list_foreach(&eng()->service->list) { ServiceReq* r = list_at(ServiceReq, link); if (!upload || r->actions[r->current].type == ACTION_UPLOAD) n++; } return n; }
static int objects(void) { int n = 0; for (int i = 0; i < env_files(); i++) if (strstr(env_file(i), "/mock/")) n++; return n; }
static int strict;
static void queue(int from, char o)
{
	for (Slice* sl = mapping_min(&eng()->mapping); sl; sl = mapping_next(&eng()->mapping, sl)) {
		Part* p = ref_of(sl)->part;
		int stored = heap_used(&p->memtable->heap) == 0, n = pending(sl->min, ACTION_REFRESH);
		if (p->refresh) mse_assert(n > 0, "a partition marked as waiting has a request");
		mse_assert(n <= 2, "requests do not pile up");
		if (strict && o == 'c') mse_assert(stored || n > 0, "a checkpoint asks for every partition with writes in memory");
		if (strict && strchr("wdb", o)) for (int i = from; i < nmop; i++) if (mop[i].id / ITV == sl->min / ITV) mse_assert(n > 0, "a partition over its limit is asked for");
		if (o == 'n' && p->cloud && !(p->state & ID_CLOUD)) mse_assert(pending(sl->min, ACTION_UPLOAD) > 0, "what was not uploaded is asked for again at the next start");
	}
}
static void step(char o)
{
	static const char set[] = OPSET;
	if (o == '?') o = set[mse_choose(sizeof(set) - 1, "op")];
	int from = nmop, f = h_failed;
	if (o == 'V' || o == 'U') {
		struct ob { int type; Main main; }; runtime_init(&((struct ob*)db)->main.context);
		Refresh rf; int n = all(0), u = all(1), c = objects(); refresh_init(&rf, eng());
		int stop = engine_service(eng(), &rf, o == 'V' ? SERVICE_WITHOUT_UPLOAD : SERVICE_UPLOAD, false);
		refresh_free(&rf); mse_assert(!stop, "no shutdown was asked for");
		if (o == 'V') { mse_assert(objects() <= c, "a worker without uploads uploads nothing"); mse_assert(all(1) >= u, "a worker without uploads leaves them"); }
		else { mse_assert(all(0) - all(1) >= n - u, "a worker for uploads leaves the rest"); if (u) { mse_assert(MODE || all(1) == u - 1, "a worker for uploads runs one"); mse_reach("uploaded"); } }
	} else h_op(o);
	if (h_failed != f) { mse_reach("failed"); strict = 0; h_failed = 0; }
	queue(from, o);
}
void mse_main(void)
{
	fl_from = -1; strict = 1;
	db_open();
	h_storages();
	db_must("alter storage main set (refresh_wm " WM ")"); db_must("alter storage other set (refresh_wm " WM ")");
	if (MODE == 2) { env_fault_at = mse_u8("failing step"); mse_assume(env_fault_at <= MAXSTEP); mse_assume(env_fault_at == env_fault_at); h_fault = 1; }
	for (const char* s = SEQ; *s; s++) step(*s);
	env_armed = 0; h_fault = 0; strict = 0;
	// run everything, twice: a task that failed is asked for again
	for (int again = 0; again < 2; again++) {
		step('c');
		for (int i = 0; all(0) > 0; i++) { mse_assert(i < 40, "requests come to an end"); db_must("service"); }
		queue(nmop, ' ');
	}
	for (Slice* sl = mapping_min(&eng()->mapping); sl; sl = mapping_next(&eng()->mapping, sl)) {
		Part* p = ref_of(sl)->part;
		mse_assert(!p->refresh, "nothing is waiting");
		mse_assert(p->memtable_a.count == 0 && p->memtable_b.count == 0, "everything in memory was stored");
		if (p->cloud) (void)0;
	}
	mse_reach("drained");
	h_compare(); db_reopen(); h_compare();
	queue(nmop, 'n');
	for (int i = 0; all(0) > 0; i++) { mse_assert(i < 40, "requests come to an end"); db_must("service"); }
	for (Slice* sl = mapping_min(&eng()->mapping); sl; sl = mapping_next(&eng()->mapping, sl)) if (ref_of(sl)->part->cloud) mse_assert(ref_of(sl)->part->state & ID_CLOUD, "everything is uploaded once its requests were run");
	h_compare();
	db_close();
}

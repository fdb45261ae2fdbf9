// Rebalancing against a model of the pipeline rules: partitions with symbolic
// times of creation, event counts and sizes, tiers with symbolic limits; what
// is moved and dropped, the limits afterwards, and every event that is kept.
#include "hist.h"
#ifndef NPART
#define NPART 3
#endif
#ifndef PLACE
#define PLACE "000"     // storage of every partition, 0 main, 1 sa, 2 sb; ? any
#endif
#ifndef STATEOF
#define STATEOF "fff"   // f in a file, m in memory, b both, ? any of them
#endif
#ifndef TIERS
#define TIERS "01"      // storages of the pipeline
#endif
#ifndef RULES
#define RULES "p"       // rules tried per tier: p partitions s size e events d duration - none; one digit per rule set is chosen
#endif
#ifndef LAST
#define LAST RULES      // rules of the last tier
#endif
#ifndef BUSY
#define BUSY 0          // 1: a checkpoint marks partitions with events in memory as busy
#endif
#ifndef EVENTS
#define EVENTS 2        // a partition has 1 to this many events
#endif
#ifndef MODE
#define MODE 0          // 1 crash, 2 failing call
#endif
#ifndef CLOUD
#define CLOUD 0         // storage from which a cloud is used
#endif
#ifndef BACK
#define BACK 0          // clock may run backwards
#endif
typedef struct { int at, file, mem; uint64_t time; int64_t events, size; int busy, dead, n; } Pt;
static Pt pt[NPART + 1]; static int np;
static const char* sn[3] = { "main", "sa", "sb" };
static const char tiers[] = TIERS; enum { NT = sizeof(tiers) - 1 };
static int64_t lim[3][4]; // partitions size events duration
static Main* r_main(void) { struct o { int type; Main main; }; return &((struct o*)db)->main; }
static Engine* eng(void) { return &r_main()->engine; }
static Part* find(int p, int* at)
{
	Part* r = NULL;
	list_foreach(&eng()->storage_mgr.list) {
		auto s = list_at(Storage, link);
		int k = !strncmp(s->source->name.pos, "main", 4) ? 0 : s->source->name.pos[1] == 'a' ? 1 : 2;
		auto f = storage_find(s, p * ITV);
		if (f) { mse_assert(!r, "a partition is in one storage"); r = f; *at = k; mse_assert(f->source == s->source, "a partition is in one storage"); }
	}
	return r;
}
// what a storage counts is what its partitions have
static void counted(void)
{
	list_foreach(&eng()->storage_mgr.list) {
		auto s = list_at(Storage, link);
		int64_t size = 0, events = 0; int n = 0;
		for (List* l = s->list.next; l != &s->list; l = l->next) {
			auto f = container_of(l, Part, link); n++;
			if (f->state != ID_NONE) { size += f->index.size_regions; events += f->index.events; }
		}
		mse_assert((s->list_count == n) & (s->size == size) & (s->events == events), "the totals of a storage are those of its partitions");
	}
}
static void learn(void) // sizes and times are taken from the engine
{
	for (int i = 0; i < np; i++) {
		if (pt[i].dead) continue;
		int at; Part* f = find(i, &at);
		pt[i].file = f->state != ID_NONE;
		pt[i].size = pt[i].file ? f->index.size_regions : 0;
		pt[i].events = pt[i].file ? f->index.events : 0;
	}
}
static int oldest(int s) { int o = -1; for (int i = 0; i < np; i++) if (!pt[i].dead && pt[i].at == s && (o < 0 || pt[i].time < pt[o].time)) o = i; return o; }
static int over(int t, int64_t now)
{
	int s = tiers[t] - '0', n = 0; int64_t size = 0, ev = 0;
	for (int i = 0; i < np; i++) if (!pt[i].dead && pt[i].at == s) { n++; size += pt[i].size; ev += pt[i].events; }
	if (n == 0) return 0;
	int o = oldest(s);
	if (lim[t][0] >= 0 && n > lim[t][0]) return 1;
	if (lim[t][1] >= 0 && size > lim[t][1]) return 1;
	if (lim[t][2] >= 0 && ev > lim[t][2]) return 1;
	if (lim[t][3] >= 0 && now - (int64_t)pt[o].time >= lim[t][3]) return 1;
	return 0;
}
static int act; // moved and dropped
// fsize: what a moved partition will have; every event goes to the file
static void model(int64_t now)
{
	for (;;) {
		int done = 1;
		for (int t = 0; t < NT; t++) {
			int s = tiers[t] - '0';
			if (!over(t, now)) continue;
			int o = oldest(s);
			if (pt[o].busy) continue;
			act++;
			if (t == NT - 1) { pt[o].dead = 1; m_range(o * ITV, o * ITV + ITV - 1); mse_reach("dropped"); }
			else { pt[o].at = tiers[t + 1] - '0'; pt[o].file = 1; pt[o].events = pt[o].n; pt[o].mem = 0; pt[o].size = sizeof(Region) + pt[o].n * (sizeof(uint32_t) + sizeof(Event) + 3); mse_reach("moved"); }
			done = 0; break;
		}
		if (done) return;
	}
}
static void agree(int files)
{
	for (int i = 0; i < np; i++) {
		int at = -1; Part* f = find(i, &at);
		if (pt[i].dead) { mse_assert(!f, "a partition is dropped exactly when the last tier is over its limits, the oldest first"); continue; }
		mse_assert(f != NULL, "a partition is dropped exactly when the last tier is over its limits, the oldest first");
		mse_assert(at == pt[i].at, "a partition is moved exactly when its tier is over its limits, the oldest first");
		if (files) {
			if ((f->state != ID_NONE) != pt[i].file) mse_note("p %d state %d file %d at %d mem %d", i, f->state, pt[i].file, at, (int)f->memtable->count);
			mse_assert((f->state != ID_NONE) == pt[i].file, "a moved partition is stored, one that is not moved is left as it was");
			if (pt[i].file) mse_assert((f->index.events == pt[i].events) & (f->index.size_regions == pt[i].size), "a moved partition is stored whole");
			mse_assert(f->time_create == pt[i].time, "a partition keeps its time of creation");
		}
	}
	counted();
	db_scan(NULL); db_compare(0);
}
static void within(int64_t now) { for (int t = 0; t < NT; t++) mse_assert(!over(t, now), "every tier is within its limits"); }
static void create(int i, char where, char how, uint64_t base)
{
	char c[96];
	Pt* p = &pt[i]; memset(p, 0, sizeof(*p)); np = i + 1;
	p->time = base;
	for (int left = mse_choose(NPART - i, "order"), j = 0; ; j++) { int used = 0; for (int k = 0; k < i; k++) used |= pt[k].time == base + j * 100; if (!used && left-- == 0) { p->time = base + j * 100; break; } }
	env_time_us = p->time;
	p->n = 1 + mse_choose(EVENTS, "events");
	int k = how == '?' ? mse_choose(3, "kind") : how == 'f' ? 0 : how == 'm' ? 1 : 2;
	int first = k == 2 ? (p->n > 1 ? p->n - 1 : p->n) : p->n;
	for (int j = 0; j < first; j++) db_put(i * ITV + j, 0, 0, 0, (h_tag += 2));
	if (k != 1) { snprintf(c, sizeof(c), "refresh partition %d", i * ITV); db_must(c); }
	p->at = where == '?' ? mse_choose(3, "storage") : where - '0';
	if (p->at) { snprintf(c, sizeof(c), "move partition %d into %s", i * ITV, sn[p->at]); db_must(c); }
	for (int j = first; j < p->n; j++) db_put(i * ITV + j, 0, 0, 0, (h_tag += 2));
}
static int64_t now_; 
static int rebalance(void) { return db_exec("rebalance"); }
static void limits(void)
{
	// limits of any value, set where the parsed ones are kept
	int t = 0;
	list_foreach(&eng()->pipeline.list) {
		auto tier = list_at(Tier, link);
		tier->config->partitions = lim[t][0]; tier->config->size = lim[t][1]; tier->config->events = lim[t][2]; tier->config->duration = lim[t][3];
		t++;
	}
	mse_assert(t == NT, "harness");
}
static void again(void) { db_close(); db_open(); limits(); }
void mse_main(void)
{
	fl_from = -1;
	uint64_t live = env_live();
	db_open();
	if (CLOUD) db_must("create cloud c (type 'mock')");
	db_must(CLOUD && CLOUD <= 1 ? "create storage sa (cloud 'c', cloud_drop_local true, sync false, compression '')" : "create storage sa (sync false, compression '')");
	db_must(CLOUD ? "create storage sb (cloud 'c', cloud_drop_local false, sync false, compression '')" : "create storage sb (sync false, compression '')");
	uint64_t base = 1700000000ull * 1000000;
	for (int i = 0; i < NPART; i++) create(i, PLACE[i], STATEOF[i], base);
	learn();
	char c[160]; int n = snprintf(c, sizeof(c), "alter pipeline set ");
	for (int t = 0; t < NT; t++) {
		const char* r = t == NT - 1 ? LAST : RULES; const char* all = "psed";
		for (int k = 0; k < 4; k++) lim[t][k] = strchr(r, all[k]) ? (int64_t)mse_u64("limit") : -1;
		for (int k = 0; k < 4; k++) if (lim[t][k] != -1) mse_assume(lim[t][k] >= -1);
		n += snprintf(c + n, sizeof(c) - n, "%s%s (partitions 100)", t ? ", " : "", sn[tiers[t] - '0']);
	}
	db_must(c);
	limits();
	now_ = base + (BACK ? 50 : 1000);
	env_time_us = now_;
	if (BUSY) {
		db_must("checkpoint");
		for (int i = 0; i < np; i++) { int at; pt[i].busy = heap_used(&find(i, &at)->memtable->heap) > 0; if (pt[i].busy) mse_reach("busy"); }
	}
	Pt start[NPART + 1]; memcpy(start, pt, sizeof(start));
	int from = nmop;
#if MODE == 0
	model(now_);
	mse_assert(rebalance() == 0, "rebalance succeeds");
	agree(1);
	if (!BUSY) within(now_);
	else {
		db_must("service"); db_must("service"); db_must("service"); db_must("service"); db_must("service"); db_must("service");
		for (int i = 0; i < np; i++) pt[i].busy = 0;
		for (int i = 0; i < np; i++) { int at; Part* f = find(i, &at); if (f) { mse_assert(!f->refresh, "no partition stays busy"); } }
		mse_assert(rebalance() == 0, "rebalance succeeds");
		counted();
		// everything is in files now: the rules are applied to what is there
		for (int i = 0; i < np; i++) { int at; Part* f = find(i, &at); if (!f) { if (!pt[i].dead) { pt[i].dead = 1; m_range(i * ITV, i * ITV + ITV - 1); } } else pt[i].at = at; }
		learn();
		within(now_);
		db_scan(NULL); db_compare(0);
	}
	int stored = 1; // creating a partition also stores the one before it
	for (int i = 0; i < np; i++) if (!pt[i].dead && (!pt[i].file || pt[i].events != pt[i].n)) stored = 0;
	int more = mse_choose(2 + stored, "again");
	if (more == 2 && !BUSY) {
		// a new partition goes to the first tier, which is then rebalanced in the background
		Pt* p = &pt[np]; memset(p, 0, sizeof(*p)); p->at = tiers[0] - '0'; p->time = env_time_us = now_ + 100; p->n = 1;
		now_ = p->time;
		db_put(np * ITV, 0, 0, 0, (h_tag += 2)); np++;
		{ int at; Part* f = find(np - 1, &at); mse_assert(f && at == p->at && f->time_create == p->time, "a new partition is in the first tier"); }
		model(now_);
		db_must("service"); db_must("service");
		agree(1); within(now_);
		mse_reach("created");
	} else if (more) { int a = act; model(now_); mse_assert(a == act || BUSY, "harness"); mse_assert(rebalance() == 0, "rebalance succeeds"); agree(!BUSY); }
#else
	model(now_);
	int to = nmop;
	env_armed = 1; env_step = 0; env_torn = 0;
#if MODE == 1
	env_crash_at = mse_u8("crash step");
	ENV_CRASHABLE(rebalance(););
	env_armed = 0;
	if (!env_crashed) { db_close(); mse_reach("no crash"); } else mse_reach("crashed");
	env_reboot();
	db_open();
#else
	env_fault_at = mse_u8("failing step");
	int rc = rebalance();
	env_armed = 0; env_fault_at = ~0ull;
	if (rc != 0) mse_reach("failed"); else mse_reach("no failure");
#endif
	// a partition is either where the rules put it, on the way, or not moved yet: all its events or, if it is to be dropped, none
	db_scan(NULL);
	for (int i = 0; i < np; i++) {
		int at; Part* f = find(i, &at);
		if (!pt[i].dead) mse_assert(f != NULL, "only partitions over the limits of the last tier are dropped");
		for (int k = 0; k < nmop; k++) if (mop[k].range && mop[k].id == (uint64_t)i * ITV) mop[k].on = f == NULL;
	}
	db_compare(0);
	limits();
	mse_assert(rebalance() == 0, "rebalance can be repeated");
	for (int k = 0; k < nmop; k++) mop[k].on = 1;
	agree(MODE == 2);
	within(now_);
#endif
	again();
	if (MODE == 2) mse_assert(rebalance() == 0, "rebalance can be repeated"); // a move that failed may be undone by the restart
	for (int i = 0; i < np; i++) if (!pt[i].dead && !pt[i].file) pt[i].at = tiers[0] - '0'; // never stored: created again
	{ int keep = 0; for (int i = 0; i < np; i++) { int at; Part* f = find(i, &at); if (!pt[i].dead && f && pt[i].file) { mse_assert(f->time_create == pt[i].time, "a partition keeps its time of creation"); keep = 1; } } (void)keep; }
	agree(0);
	mse_reach("reopened");
	db_close();
	if (MODE != 1) mse_assert(env_live() == live, "everything is released at close");
}

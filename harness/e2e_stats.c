// What is shown about storages and partitions after every step of a history,
// compared with the reference map, with the files there are, and with itself.
#include "hist.h"
#ifndef SEQ
#define SEQ "d?d"
#endif
#ifndef MODE
#define MODE 0   // 1 crash, 2 failing call
#endif
#ifndef MAXSTEP
#define MAXSTEP 63
#endif
#ifndef DBG
#define DBG 0
#endif
#ifndef POST
#define POST ""
#endif
enum { P_N = HI / ITV + 1 };
static int stored[P_N], since[P_N], refreshes[P_N]; // entries in the file, entries before that are not in memory
static int left;  // a failed rename may have left the file of a partition with the name it is written under
static int orphan; // an upload may have been cut short after it was in the cloud
static int loose;                                    // something failed and was not repeated
static uint64_t touched(int i, int p, int from)
{
	if (i < from || mop[i].range) return 0;
	uint64_t f = (mop[i].id >= p * ITV) & (mop[i].id < (p + 1) * ITV);
	for (int j = i + 1; j < nmop; j++) if (!mop[j].range) f &= !((mop[j].id == mop[i].id) & (mop[j].klen == mop[i].klen) & ((mop[i].klen == 0) | (mop[j].key == mop[i].key)));
	return f;
}
static uint64_t in_memory(int p) { uint64_t n = 0; for (int i = since[p]; i < nmop; i++) n += touched(i, p, since[p]); return n; }
static uint64_t in_file(int p)
{
	uint64_t n = 0;
	for (int i = 0; i < stored[p]; i++) {
		if (mop[i].range) continue;
		uint64_t f = (mop[i].id >= p * ITV) & (mop[i].id < (p + 1) * ITV) & !mop[i].del;
		for (int j = i + 1; j < stored[p]; j++) {
			if (mop[j].range) { if (p * ITV >= mop[j].id && p * ITV <= mop[j].hi) f = 0; continue; }
			f &= !((mop[j].id == mop[i].id) & (mop[j].klen == mop[i].klen) & ((mop[i].klen == 0) | (mop[j].key == mop[i].key)));
		}
		n += f;
	}
	return n;
}
static uint64_t exists(int p)
{
	uint64_t f = 0;
	for (int i = 0; i < nmop; i++) if (mop[i].range) { if (p * ITV >= mop[i].id && p * ITV <= mop[i].hi) f = 0; } else f |= (mop[i].id >= p * ITV) & (mop[i].id < (p + 1) * ITV);
	return f;
}
// reading the text
static const char* after(const char* p, const char* field)
{
	size_t n = strlen(field);
	for (; *p; p++) if (*p == '"' && !strncmp(p + 1, field, n) && p[1 + n] == '"' && p[2 + n] == ':') { p += n + 3; while (*p == ' ') p++; return p; }
	mse_note(field); mse_fail("every number is shown"); return NULL;
}
static int64_t num(const char* p, const char* field)
{
	p = after(p, field);
	if (*p == 't') return 1;
	if (*p == 'f') return 0;
	int neg = *p == '-'; p += neg; int64_t v = 0;
	for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + *p - '0';
	return neg ? -v : v;
}
static void text(const char* p, const char* field, char* to, int max)
{
	p = after(p, field); int n = 0;
	if (*p == '"') for (p++; *p != '"' && n + 1 < max; p++) to[n++] = *p;
	to[n] = 0;
}
enum { F_EVENTS, F_HEAP, F_REGIONS, F_SIZE, F_ORIGIN, F_SHEAP, F_LOCAL, F_CLOUD, F_PARTS, F_MIN, F_MAX, F_N };
static const char* fn[F_N] = { "events", "events_heap", "regions", "size", "size_uncompressed", "size_heap", "partitions_local", "partitions_cloud", "partitions", "min", "max" };
typedef struct { char name[24], uuid[40]; int64_t shown[F_N], sum[F_N]; } St;
static St st[4]; static int ns;
static char* show(const char* c)
{
	char* r = NULL;
	if (monotone_execute(db, c, &r) != 0) { mse_note(monotone_error(db)); mse_fail("show succeeds"); }
	mse_assert(r != NULL, "show shows something");
	return r;
}
static const char* one(const char* p, St* s) // one storage
{
	text(p, "uuid", s->uuid, sizeof(s->uuid)); text(p, "name", s->name, sizeof(s->name));
	const char* q = after(p, "stats");
	for (int i = 0; i < F_N; i++) s->shown[i] = num(q, fn[i]);
	return q;
}
static void walk(const char* f, int64_t regions, int64_t events, int64_t size)
{
	static char t[140];
	if (left && !(env_exists(f) && env_size(f) == size)) { snprintf(t, sizeof(t), "%s.complete", f); if (env_exists(t)) f = t; else { snprintf(t, sizeof(t), "%s.incomplete", f); if (env_exists(t)) f = t; } }
	mse_assert(env_exists(f), "a partition is shown where its files are");
	mse_assert(env_size(f) == size, "the size of a partition is that of its file");
	uint8_t* d = env_data(f); int64_t at = 0, n = 0, e = 0;
	while (n < regions && at + (int64_t)sizeof(Region) <= size) { Region* r = (Region*)(d + at); n++; e += r->events; at += r->size; }
	mse_assert((n == regions) & (e == events), "the regions and events of a partition are those of its file");
	mse_assert(size - at == (int64_t)(sizeof(Index) + n * sizeof(IndexRegion)), "a file holds the shown regions and no more");
}
static void dbgn(int64_t v) { static int k; char t[40]; snprintf(t, sizeof(t), "%d: %lld", ++k, (long long)v); mse_note(t); }
static void stats(void)
{
	int armed = env_armed; env_armed = 0;
	char c[96], f[128], g[128], e[128], name[24];
	ns = 0;
	char* r = show("show storages"); const char* p = r;
	while ((p = strstr(p, "\"config\""))) { St* s = &st[ns++]; p = one(p, s); for (int i = 0; i < F_N; i++) s->sum[i] = 0; s->sum[F_MIN] = -1; }
	free(r);
	int seen[P_N] = { 0 }, prev = -1; int64_t files = 0;
	r = show("show partitions"); p = r;
	while ((p = strchr(p, '{'))) {
		p++;
		int64_t v[F_N], min = num(p, "min"), max = num(p, "max");
		for (int i = 0; i <= F_SHEAP; i++) v[i] = num(p, fn[i]);
		int on = num(p, "on_storage"), up = num(p, "on_cloud");
		v[F_LOCAL] = on; v[F_CLOUD] = up; v[F_PARTS] = 1; v[F_MIN] = min; v[F_MAX] = max;
		mse_assert(min >= 0 && min % ITV == 0 && max == min + ITV - 1 && min / ITV < P_N && min > prev, "partitions are shown once, in order, with their range"); prev = min;
		int n = min / ITV; seen[n] = 1;
		text(p, "storage", name, sizeof(name));
		St* s = NULL; for (int i = 0; i < ns; i++) if (!strcmp(st[i].name, name)) s = &st[i];
		mse_assert(s != NULL, "a partition is shown in a storage there is");
		for (int i = 0; i < F_MIN; i++) s->sum[i] += v[i];
		if (s->sum[F_MIN] < 0 || min < s->sum[F_MIN]) s->sum[F_MIN] = min;
		if (max > s->sum[F_MAX]) s->sum[F_MAX] = max;
		// the reference
		if (!loose) {
			mse_assert(exists(n), "a partition is shown when there were events in it");
			uint64_t m = in_memory(n), d = stored[n] < 0 ? 0 : in_file(n);
			mse_assert((v[F_HEAP] == m) & (v[F_EVENTS] == m + d), "the events of a partition are those in memory and those in its file");
			mse_assert((on | up) == (stored[n] >= 0), "a partition is shown as stored when it is");
		} else mse_assert(v[F_EVENTS] >= v[F_HEAP], "events in memory are among the events");
		if (DBG) mse_note("ev.heap.on.loose"), dbgn(v[F_EVENTS] * 1000 + v[F_HEAP] * 100 + on * 10 + loose);
		mse_assert(v[F_HEAP] ? v[F_SHEAP] > 0 : left || v[F_SHEAP] == 0, "memory is used by events in memory only");
		// the files
		snprintf(f, sizeof(f), "/db/%s/%020llu", s->uuid, (unsigned long long)min); snprintf(g, sizeof(g), "%s.cloud", f); snprintf(e, sizeof(e), "/db/%s/mock/%020llu", s->uuid, (unsigned long long)min);
		if (!left) mse_assert((env_exists(f) == on) & (env_exists(g) == up), "a partition is shown where its files are");
		if (!left) mse_assert(orphan ? env_exists(e) >= up : env_exists(e) == up, "a partition is shown in the cloud when it is there");
		if (on) walk(f, v[F_REGIONS], v[F_EVENTS] - v[F_HEAP], v[F_SIZE]);
		if (up) walk(e, v[F_REGIONS], v[F_EVENTS] - v[F_HEAP], v[F_SIZE]), mse_reach("in the cloud");
		if (!on && !up) mse_assert((v[F_REGIONS] == 0) & (v[F_SIZE] == 0), "a partition which is not stored has no size");
		mse_assert(v[F_SIZE] == v[F_ORIGIN], "without compression both sizes are the same");
		files += on + up;
		// the same partition on its own
		if (armed == 0 && MODE == 0) {
			snprintf(c, sizeof(c), "show partition %lld", (long long)min);
			char* x = show(c);
			for (int i = 0; i <= F_SHEAP; i++) mse_assert(num(x, fn[i]) == v[i], "a partition is shown on its own as in the list");
			mse_assert(num(x, "min") == min && num(x, "on_storage") == on && num(x, "on_cloud") == up && num(x, "created") == num(p, "created") && num(x, "refreshes") == num(p, "refreshes"), "a partition is shown on its own as in the list");
			free(x);
		}
	}
	free(r);
	if (!loose && !left) {
		for (int n = 0; n < P_N; n++) mse_assert(seen[n] == exists(n), "every partition is shown");
		int64_t k = 0; for (int i = 0; i < env_files(); i++) { const char* b = strrchr(env_file(i), '/') + 1; int l = strlen(b); if (!strstr(env_file(i), "/mock/") && ((l == 20 && !strstr(env_file(i), "/wal/")) || (l == 26 && !strcmp(b + 20, ".cloud")))) k++; }
		mse_assert(k == files, "every file is of a partition that is shown");
	}
	for (int i = 0; i < ns; i++) {
		St* s = &st[i]; if (s->sum[F_MIN] < 0) s->sum[F_MIN] = 0;
		for (int k = 0; k < F_N; k++) { if (s->shown[k] != s->sum[k]) mse_note("%s %s: shown %d, of its partitions %d", s->name, fn[k], (int)s->shown[k], (int)s->sum[k]); mse_assert(s->shown[k] == s->sum[k], "the numbers of a storage are those of its partitions"); }
		if (MODE) continue;
		static St t; snprintf(c, sizeof(c), "show storage %s", s->name); r = show(c); one(r, &t); free(r);
		for (int k = 0; k < F_N; k++) mse_assert(t.shown[k] == s->shown[k], "a storage is shown on its own as in the list");
		snprintf(c, sizeof(c), "show partitions %s", s->name); r = show(c); int64_t n = 0, ev = 0; for (p = r; (p = strchr(p, '{')); p++) { n++; ev += num(p, "events"); text(p, "storage", name, sizeof(name)); mse_assert(!strcmp(name, s->name), "the partitions of a storage are shown"); } free(r);
		mse_assert((n == s->shown[F_PARTS]) & (ev == s->shown[F_EVENTS]), "the partitions of a storage are shown");
	}
	env_armed = armed;
}
static void step(char o)
{
	static const char s[] = OPSET;
	if (o == '?') o = s[mse_choose(sizeof(s) - 1, "op")];
	int from = nmop, failed = h_failed; char up = o == 'i' ? 'i' : 0, w[P_N];
	for (int p = 0; p < P_N; p++) { w[p] = 0; if (up) { struct o { int type; Main main; }; Mapping* mp = &((struct o*)db)->main.engine.mapping; Slice* sl = mp->tree_count ? mapping_seek(mp, p * ITV) : NULL; w[p] = sl && sl->min == (uint64_t)p * ITV && strncmp(ref_of(sl)->part->source->name.pos, "main", 4); } }
	if (DBG) dbgn(o);
	h_op(o);
	if (h_failed != failed) { if (DBG) mse_note(monotone_error(db)); mse_reach("failed"); left = orphan = 1; if (strchr("RMwdb", o)) loose = 2; h_failed = 0; }
	if (o == 'r' && !env_armed && loose > 0) loose--; // the first stores what was being stored when it failed
	if (o == 'x') {
		// nothing there: nothing dropped
		for (int p = 0; p < P_N; p++) if (mop[from].id == (uint64_t)p * ITV) stored[p] = -1, since[p] = nmop, refreshes[p] = 0;
	}
	if (strchr("rRm", o) || o == 'i') for (int p = 0; p < P_N; p++) {
		if (o == 'i' && !w[p]) continue;
		if (!loose) { if (exists(p)) { stored[p] = nmop; since[p] = nmop; refreshes[p]++; } else stored[p] = -1; }
	}
	if (o == 'n') left = 0;
	stats();
}
void mse_main(void)
{
	fl_from = -1; for (int p = 0; p < P_N; p++) stored[p] = -1;
	db_open();
#ifdef OTHER
	h_storages();
#endif
#ifndef AT
#define AT env_fault_at
#endif
	if (MODE == 2) { env_fault_at = mse_u8("failing step"); mse_assume(env_fault_at <= MAXSTEP); mse_assume(env_fault_at == AT); h_fault = 1; }
	if (MODE == 1) {
		env_crash_at = mse_u8("crash step"); mse_assume(env_crash_at <= MAXSTEP);
		ENV_CRASHABLE({ for (const char* s = SEQ; *s; s++) step(*s); });
		env_armed = 0;
		if (env_crashed) { mse_reach("crashed"); env_reboot(); loose = 99; orphan = 1; db_open(); stats(); h_compare(); }
	} else for (const char* s = SEQ; *s; s++) step(*s);
	env_armed = 0; h_fault = 0;
	mse_reach("shown");
	for (const char* s = POST; *s; s++) step(*s);
	db_reopen(); left = 0;
	stats();
	h_compare();
	db_close();
}

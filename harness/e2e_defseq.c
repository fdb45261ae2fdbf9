// Sequences of definition commands against a small model of what is defined:
// each command is done or refused as the model says, the definitions are what
// the model says, before and after a restart, and no data is lost.
#include "hist.h"
#ifndef N
#define N 2
#endif
#ifndef SYMS
#define SYMS 1
#endif
typedef struct { int on, cloud, region, sync; } St;
static St st[3]; static int cl[2], npipe, pipe_[4], home, opts[2], limit[4]; // storage 0 is main; clouds c, e
static const char* sn[3] = { "main", "sa", "sb" }; static const char* cn[2] = { "ca", "cb" };
static int in_pipe(int s) { for (int i = 0; i < npipe; i++) if (pipe_[i] == s) return 1; return 0; }
static int refs(int c) { int n = 0; for (int i = 0; i < 3; i++) n += st[i].on && st[i].cloud == c; return n; }
static uint8_t dg = '5', lg = 'q'; // a digit of every size and a letter of every login
static char cmd[160]; static int ok, up; // up: the partition is on a cloud
#define C(...) snprintf(cmd, sizeof(cmd), __VA_ARGS__)
static void create(int s, int ife, int c)
{
	if (c >= 0) C("create storage %s%s (cloud '%s', sync false, region_size 6%c)", ife ? "if not exists " : "", sn[s], cn[c], dg); else C("create storage %s%s (sync false, region_size 6%c)", ife ? "if not exists " : "", sn[s], dg);
	if (st[s].on) { ok = ife; return; }
	ok = c < 0 || cl[c];
	if (ok) st[s] = (St){ 1, c, 60 + dg - '0', 0 };
}
static void drop(int s, int ife)
{
	C("drop storage %s%s", ife ? "if exists " : "", sn[s]);
	if (!st[s].on) { ok = ife; return; }
	ok = s != 0 && home != s && !in_pipe(s);
	if (ok) st[s].on = 0;
}
static void ren(int s, int t, int ife)
{
	C("alter storage %s%s rename to %s", ife ? "if exists " : "", sn[s], sn[t]);
	if (s == 0) { ok = 0; return; }
	if (!st[s].on) { ok = ife; return; }
	ok = !st[t].on;
	if (!ok) return;
	st[t] = st[s]; st[s].on = 0; if (home == s) home = t;
	for (int i = 0; i < npipe; i++) if (pipe_[i] == s) pipe_[i] = t;
}
static void cren(int c, int e)
{
	C("alter cloud %s rename to %s", cn[c], cn[e]);
	ok = cl[c] && !cl[e];
	if (!ok) return;
	cl[e] = 1; cl[c] = 0; opts[e] = opts[c]; for (int i = 0; i < 3; i++) if (st[i].on && st[i].cloud == c) st[i].cloud = e;
}
static void setcloud(int s, int c)
{
	if (c >= 0) C("alter storage %s set (cloud '%s', region_size 7%c)", sn[s], cn[c], dg); else C("alter storage %s set (cloud '')", sn[s]);
	ok = st[s].on && (c < 0 || cl[c]) && !(home == s && up); // an uploaded partition keeps its cloud
	if (!ok) return;
	st[s].cloud = c; if (c >= 0) st[s].region = 70 + dg - '0';
}
static void pipes(int a, int b, int lim)
{
	if (b < 0) C("alter pipeline set %s", sn[a]); else if (lim) C("alter pipeline set %s (partitions %d), %s", sn[a], lim, sn[b]); else C("alter pipeline set %s, %s", sn[a], sn[b]);
	ok = st[a].on && (b < 0 || (st[b].on && a != b && lim));
	if (!ok) return;
	npipe = 0; pipe_[npipe] = a; limit[npipe++] = b < 0 ? -1 : lim; if (b >= 0) { pipe_[npipe] = b; limit[npipe++] = -1; }
}
static void op(int o)
{
	ok = 1;
	switch (o) {
	case 0: create(1, 0, -1); break;
	case 1: create(2, 1, 0); break;
	case 2: drop(1, 0); break;
	case 3: drop(2, 1); break;
	case 4: ren(1, 2, 0); break;
	case 5: ren(2, 1, 1); break;
	case 6: C("create cloud %s (type 'mock', login 'x%c')", cn[0], lg); ok = !cl[0]; if (ok) { cl[0] = 1; opts[0] = 1; } break;
	case 7: C("create cloud %s (type 'bad')", cn[1]); ok = 0; break;
	case 8: C("drop cloud %s", cn[0]); ok = cl[0] && !refs(0); if (ok) cl[0] = 0; break;
	case 9: cren(0, 1); break;
	case 10: cren(1, 0); break;
	case 11: setcloud(1, 0); break;
	case 12: setcloud(1, -1); break;
	case 13: pipes(0, 1, 3); break;
	case 14: C("alter pipeline reset"); npipe = 0; break;
	case 15: pipes(2, -1, 0); break;
	case 16: C("move partitions between 0 and 100 into %s", sn[1]); ok = st[1].on; if (ok && home != 1) up = st[1].cloud >= 0; if (ok) home = 1; break;
	case 17: C("move partitions between 0 and 100 into %s", sn[0]); home = up = 0; break;
	case 18: C("drop cloud if exists %s", cn[1]); ok = !cl[1] || !refs(1); if (ok) cl[1] = 0; break;
	case 19: setcloud(2, 1); break;
	case 20: pipes(1, 1, 2); break;
	case 21: C("alter cloud %s set (login 'y%c')", cn[0], lg); ok = cl[0]; if (ok) opts[0] = 2; break;
	case 22: C("alter storage %s set (region_size 8%c, sync true)", sn[2], dg); ok = st[2].on; if (ok) { st[2].region = 80 + dg - '0'; st[2].sync = 1; } break;
	case 23: pipes(0, 1, 0); break;
	case 24: ren(1, 0, 0); break;
	case 25: C("drop storage main"); ok = 0; break;
	case 26: C("alter storage %s set (compression 'bad', region_size 90)", sn[1]); ok = 0; break;
	}
}
static char* text; static void show(const char* c) { if (text) free(text); text = NULL; if (monotone_execute(db, c, &text) != 0) { mse_note(c); mse_note(monotone_error(db)); mse_fail("show succeeds"); } if (!text) text = strdup(""); }
static int64_t num(const char* f) { char t[64]; snprintf(t, sizeof(t), "\"%s\": ", f); char* p = strstr(text, t); if (!p) return -2; p += strlen(t); if (*p == '-') return -1; int64_t v = 0; for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + *p - '0'; return v; }
static int has(const char* a, const char* b) { char t[100]; snprintf(t, sizeof(t), "\"%s\": \"%s\"", a, b); return strstr(text, t) != NULL; }
static int has2(const char* a, char b, char c) { char t[100]; snprintf(t, sizeof(t), "\"%s\": \"", a); char* p = strstr(text, t); return p && p[strlen(t)] == b && p[strlen(t) + 1] == c && p[strlen(t) + 2] == '"'; }
static void verify(void)
{
	char t[64];
	for (int s = 0; s < 3; s++) {
		show("show storages"); mse_assert(has("name", sn[s]) == st[s].on, "exactly the defined storages are shown");
		if (!st[s].on) { snprintf(t, sizeof(t), "show storage %s", sn[s]); mse_assert(db_exec(t) != 0, "an unknown storage is not shown"); continue; }
		snprintf(t, sizeof(t), "show storage %s", sn[s]); show(t);
		mse_assert(has("cloud", st[s].cloud < 0 ? "" : cn[st[s].cloud]), "a storage has the cloud it was given");
		if (s) mse_assert(num("region_size") == st[s].region, "a storage has the options it was given");
		if (s) mse_assert((strstr(text, "\"sync\": true") != NULL) == st[s].sync, "a storage has the options it was given");
		snprintf(t, sizeof(t), "show partitions %s", sn[s]); show(t);
		mse_assert((strstr(text, "\"min\"") != NULL) == (home == s), "partitions belong to the storage they were put into");
	}
	show("show clouds");
	for (int c = 0; c < 2; c++) {
		mse_assert(has("name", cn[c]) == cl[c], "exactly the defined clouds are shown");
		if (cl[c]) { snprintf(t, sizeof(t), "show cloud %s", cn[c]); show(t); mse_assert(has2("login", opts[c] == 2 ? 'y' : 'x', lg), "a cloud has the options it was given"); show("show clouds"); }
	}
	show("show pipeline");
	char* p = text;
	for (int i = 0; i < npipe; i++) {
		p = strstr(p, "\"name\": \""); mse_assert(p != NULL, "the pipeline has the tiers it was given"); p += 9;
		mse_assert(!strncmp(p, sn[pipe_[i]], strlen(sn[pipe_[i]])) && p[strlen(sn[pipe_[i]])] == '"', "the pipeline has the tiers it was given");
		char* q = text; text = p; mse_assert(num("partitions") == limit[i], "a tier has the limits it was given"); text = q;
	}
	if (p) mse_assert(strstr(p, "\"name\": \"") == NULL, "the pipeline has the tiers it was given");
	db_scan(NULL); db_compare(0);
}
void mse_main(void)
{
	fl_from = -1;
#if SYMS
	dg = mse_in('0', '9', "digit"); lg = mse_in('a', 'z', "letter");
#endif
	uint64_t live = env_live();
	db_open();
	st[0] = (St){ 1, -1, 0, 1 };
	h_run("Wr");
	static const int8_t pre[][6] = { { 0, -1 }, { 0, 13, 16, -1 }, { 6, 0, 11, -1 }, { 6, 9, 19, 1, 0, -1 }, { 6, 0, 1, 16, -1 }, { 0, 4, 15, 0, -1 }, { 6, 9, 6, 0, 1, -1 } };
	#ifdef START
	int k = START;
#else
	int k = mse_choose(sizeof(pre) / sizeof(pre[0]), "start");
#endif
	for (int i = 0; pre[k][i] >= 0; i++) { op(pre[k][i]); int rc = db_exec(cmd); if (rc != 0) mse_note(monotone_error(db)); mse_assert((rc == 0) == ok, "a command is done or refused as defined"); }
	for (int i = 0; i < N; i++) {
		op(mse_choose(27, "command"));
		mse_note(cmd);
		int rc = db_exec(cmd);
		if (rc != 0) mse_note(monotone_error(db));
		mse_assert((rc == 0) == ok, "a command is done or refused as defined");
		mse_reach(ok ? "done" : "refused");
		if (i + 1 == N || !ok) verify();
#ifdef REOPEN
		if (i + 1 < N) { db_close(); db_open(); }
#endif
	}
	int again = mse_choose(2, "write"); if (again) h_run("W");
	db_close(); db_open();
	verify();
	mse_reach("reopened");
	if (text) free(text); text = NULL;
	db_close();
	mse_assert(env_live() == live, "everything is released at close");
}

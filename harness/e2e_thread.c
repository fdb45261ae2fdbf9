// Threads: every schedule within a number of preemptions.  What every scan saw
// and the final contents are those of one sequential order of the operations
// that agrees with the order within each thread and in time; the same is there
// after a restart; nothing blocks forever and no lock is left held.
//   wN dN write/delete of id N   bN BN batch of N, N+1 (or N+1, N)   fN batch of N and an event that is refused
//   s scan  q seek and read one  r refresh all  p N refresh partition N  m move all to other  i and back  x N drop partition N
//   ( open a cursor at the start (kept)  ) read it to the end and close it: nobody else gets at the partition in between
//   c checkpoint  v service  u upload l download  n show  a set  g WAL gc  o new WAL file  e rebalance  z alter storage   ? id is symbolic
#define MAXOPS 16
#include "db.h"
#ifndef FIRST
#define FIRST "w0r"
#endif
#ifndef T1
#define T1 "w0"
#endif
#ifndef T2
#define T2 "r"
#endif
#ifndef T3
#define T3 ""
#endif
#ifndef P
#define P 2
#endif
#ifndef HI
#define HI (ITV - 1)
#endif
#ifndef STORAGE
#define STORAGE ""
#endif
#ifndef WHOLE
#define WHOLE (HI < ITV)  // a scan is one step
#endif
#ifndef MAYFAIL
#define MAYFAIL ""        // operations that may be refused as another one is under way
#endif
typedef struct { char o; int th, start, end, rc, n; MOp e[2]; int nrow; Row row[8]; } Op;
static Op op[24]; static int nop; static int now; static uint64_t tags = 0x101;
static const char* script[4] = { FIRST, T1, T2, T3 };
static monotone_cursor_t* held[4][4]; static int nheld[4], held_from[4], wrote[4]; // (what the thread itself writes need not be seen by its open cursors)
static int same_rows(Row* a, int n, Row* b, int m) { uint64_t f = n == m; for (int i = 0; i < n && i < m; i++) f &= (a[i].id == b[i].id) & (a[i].klen == b[i].klen) & (a[i].key == b[i].key) & (a[i].tag == b[i].tag) & (a[i].vsize == b[i].vsize); return f; }
static monotone_cursor_t* cursor(int one)
{
	monotone_event_t k; memset(&k, 0, sizeof(k));
	monotone_cursor_t* c = monotone_cursor(db, NULL, one ? &k : NULL);
	if (! c) { mse_note(monotone_error(db)); mse_fail("cursor opens"); }
	return c;
}
static void drain(Op* o, monotone_cursor_t* c, int one)
{
	for (;;) {
		Row r; int rc = row_of(c, &r);
		mse_assert(rc != -1, "read succeeds");
		if (rc == 0) break;
		mse_assert(o->nrow < 8, "cursor returns no more events than were written");
		o->row[o->nrow++] = r;
		if (one) break;
		rc = monotone_next(c);
		mse_assert(rc != -1, "next succeeds");
	}
	monotone_free(c);
}
static int back[4];
#define BACK(id, i) (back[o->th] ? id + n - 1 - i : id + i)
static void put(Op* o, uint64_t id, int n, int del, int bad)
{
	uint8_t vb[3][4]; static uint8_t big[300];
	monotone_event_t ev[3]; memset(ev, 0, sizeof(ev));
	for (int i = 0; i < n; i++) {
		uint64_t tag = tags++;
		vb[i][0] = tag; vb[i][1] = tag >> 8; vb[i][2] = 0x77;
		ev[i].flags = del ? MONOTONE_DELETE : 0; ev[i].id = BACK(id, i); ev[i].value = vb[i]; ev[i].value_size = 2 + (tag & 1);
		MOp* e = &o->e[i]; memset(e, 0, sizeof(*e)); e->id = BACK(id, i); e->del = del; e->tag = tag; e->on = 1;
	}
	if (bad) { ev[n].id = id; ev[n].key = big; ev[n].key_size = 256; ev[n].value = vb[0]; ev[n].value_size = 2; }
	o->rc = monotone_write(db, ev, n + bad);
	mse_assert(bad ? o->rc == -1 : o->rc == 0, bad ? "a batch with a key which is too long is refused" : "write succeeds");
	o->n = bad ? 0 : n; wrote[o->th] = 1;
}
static void run(const char* s, int th)
{
	while (*s) {
		char c = *s++, t[96]; t[0] = 0;
		Op* o = &op[nop++]; mse_assert(nop <= 24, "harness: too many operations"); o->o = c; o->th = th; o->start = ++now; o->end = 1000;
		uint64_t a = 0;
		if (strchr("wdbBfpx", c)) { char d = *s++; a = d == '?' ? mse_in(0, HI, "id") : d - '0'; }
		switch (c) {
		case 'w': put(o, a, 1, 0, 0); break;
		case 'd': put(o, a, 1, 1, 0); break;
		case 'b': put(o, a, 2, 0, 0); break;
		case 'B': back[th] = 1; put(o, a, 2, 0, 0); back[th] = 0; break;
		case 'f': put(o, a, 1, 0, 1); break;
		case 's': drain(o, cursor(0), 0); break;
		case 'q': drain(o, cursor(1), 1); break;
		case '(': { monotone_cursor_t* cu = held[th][nheld[th]] = cursor(0); Row w; if (!nheld[th]++ && row_of(cu, &w) > 0) held_from[th] = now; wrote[th] = 0; break; }
		case ')': if (!wrote[th]) o->o = 's'; if (!--nheld[th]) held_from[th] = 0; drain(o, held[th][nheld[th]], 0); break;
		case 'r': snprintf(t, sizeof(t), "refresh partitions between 0 and 1000000"); break;
		case 'p': snprintf(t, sizeof(t), "refresh partition if exists %d", (int)a * ITV); break;
		case 'm': snprintf(t, sizeof(t), "move partitions between 0 and 1000000 into other"); break;
		case 'i': snprintf(t, sizeof(t), "move partitions between 0 and 1000000 into main"); break;
		case 'x': snprintf(t, sizeof(t), "drop partition if exists %d", (int)a * ITV); { MOp* e = &o->e[0]; memset(e, 0, sizeof(*e)); e->id = a * ITV; e->hi = a * ITV + ITV - 1; e->range = e->del = e->on = 1; o->n = 1; } break;
		case 'c': snprintf(t, sizeof(t), "checkpoint"); break;
		case 'v': snprintf(t, sizeof(t), "service"); break;
		case 'u': snprintf(t, sizeof(t), "upload partitions between 0 and 1000000 if cloud"); break;
		case 'l': snprintf(t, sizeof(t), "download partitions between 0 and 1000000 if cloud"); break;
		case 'n': snprintf(t, sizeof(t), "show storages, partitions, wal"); break;
		case 'a': snprintf(t, sizeof(t), "set test_int to 5"); break;
		case 'g': snprintf(t, sizeof(t), "debug \"wal_gc\""); break;
		case 'o': snprintf(t, sizeof(t), "debug \"wal_create\""); break;
		case 'e': snprintf(t, sizeof(t), "rebalance"); break;
		case 'z': snprintf(t, sizeof(t), "alter storage main set (refresh_wm 1000)"); break;
		}
		if (t[0] && db_exec(t) != 0) { if (!strchr(MAYFAIL, c)) { mse_note(t); mse_note(monotone_error(db)); mse_fail("command failed"); } o->n = 0; mse_reach("refused"); }
		if (strchr("wdbBfrpmix", c) && o->rc == 0) for (int i = 1; i < 4; i++) if (WHOLE && i != th && held_from[i] && held_from[i] < o->start) mse_fail("a partition is changed while another thread holds it");
		o->end = ++now;
	}
}
static void* second(void* p) { run(script[(int)(uint64_t)p], (int)(uint64_t)p); return NULL; }
// every order that agrees with the order within threads and in time
static uint64_t any; static int used[24]; static Row fin[16]; static int nfin; static Row none;
static int overlap(void) { for (int i = 0; i < nop; i++) for (int j = 0; j < nop; j++) if (op[i].th != op[j].th && op[i].th && op[j].th && op[i].start < op[j].end && op[j].start < op[i].end) return 1; return 0; }
static void orders(int left, uint64_t ok)
{
	int last = 1;
	for (int i = 0; i < nop; i++) {
		if (used[i]) continue;
		last = 0;
		int can = 1;
		for (int j = 0; j < nop; j++) if (!used[j] && j != i && op[j].end < op[i].start) can = 0;
		if (!can) continue;
		Op* o = &op[i]; used[i] = 1; int keep = nmop; uint64_t k = ok;
		for (int e = 0; e < o->n; e++) mop[nmop++] = o->e[e];
		if (WHOLE && o->o == 's') { memcpy(row, o->row, sizeof(o->row)); nrow = o->nrow; k &= db_equal_at(&none); }
		orders(left - 1, k);
		nmop = keep; used[i] = 0;
		// the order of steps without effect does not matter
		if (o->n == 0 && !(WHOLE && o->o == 's')) return;
	}
	if (!last) return;
	memcpy(row, fin, sizeof(fin)); nrow = nfin;
	any |= ok & db_equal_at(&none);
}
void mse_main(void)
{
	db_open();
	if (STORAGE[0]) db_settings(STORAGE);
	run(FIRST, 0);
	mse_set_preempt(P);
	int t[2]; int n = 0;
	if (T2[0]) t[n++] = mse_thread((void*)second, (void*)2);
	if (T3[0]) t[n++] = mse_thread((void*)second, (void*)3);
	mse_preempt();
	run(T1, 1);
	for (int i = 0; i < n; i++) while (!mse_thread_done(t[i])) mse_block(MSE_JOIN + t[i]);
	mse_set_preempt(0);
	if (overlap()) mse_reach("at the same time"); else mse_reach("one after the other");
	for (int i = 0; i < nop; i++) if (op[i].o == 'q' || op[i].o == 's') for (int r = 0; r < op[i].nrow; r++) {
		uint64_t f = 0; Row* w = &op[i].row[r];
		for (int j = 0; j < nop; j++) if (op[j].start < op[i].end) for (int e = 0; e < op[j].n; e++) f |= !op[j].e[e].range & !op[j].e[e].del & (op[j].e[e].id == w->id) & (op[j].e[e].tag == w->tag);
		mse_assert(f, "a scan sees only what was written");
		if (r) mse_assert(row_less(w - 1, w), "events come back in strictly increasing (id, key) order");
	}
	db_scan(NULL); memcpy(fin, row, sizeof(fin)); nfin = nrow;
	orders(nop, 1);
	mse_assert(any, "what is read is the result of some order of the operations");
	// everything is free
	db_must("set test_int to 7"); db_must("refresh partitions between 0 and 1000000");
	db_scan(NULL); mse_assert(same_rows(row, nrow, fin, nfin), "a refresh changes nothing");
	db_reopen();
	db_scan(NULL); mse_assert(same_rows(row, nrow, fin, nfin), "everything is there after a restart");
	db_close();
	mse_assert(env_open_fds() == 0, "no descriptor is left open after close");
}

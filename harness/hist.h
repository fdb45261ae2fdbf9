#pragma once
// Histories: a sequence of operations, each a letter, with a crash or fault
// at any step, compared with the reference after recovery.
//   w write   d write or delete   b batch of two   W write with fixed id
//   r refresh all   p refresh one partition   m move all   x drop a partition   o new WAL file   g WAL gc
//   R M the same, not repeated when it fails   s other side for moves
//   c checkpoint   n close and open   k check   q cursor at any id   v service all   ? one of OPSET
//   u upload all   l download all   y drop all local copies of uploaded ones   z drop all cloud copies of local ones
//   e rebalance    i move all into main
//   * crash/fault may happen from here on   . and no more
#include "db.h"
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI (2 * ITV - 1)
#endif
#ifndef KEYS
#define KEYS 0
#endif
#ifndef OPSET
#define OPSET "dr"
#endif
static int h_fault;            // a failing operation is acceptable
static int h_failed;
static int fl_from;            // first reference entry of the operation in flight
static uint64_t h_tag = 0x101;
static int h_side;             // where move goes next
static void m_range(uint64_t lo, uint64_t hi)
{
	MOp* o = &mop[nmop++]; memset(o, 0, sizeof(*o)); o->id = lo; o->hi = hi; o->range = 1; o->del = 1; o->on = 1;
}
static void h_compare(void)
{
	int armed = env_armed; env_armed = 0; // reading to compare is not part of the history
	db_scan(NULL);
	env_armed = armed;
	if (fl_from < 0 || fl_from == nmop) { db_compare(0); return; }
	// the operation in flight is there as a whole or not at all
	Row lo = { 0 };
	for (int i = fl_from; i < nmop; i++) mop[i].on = 1;
	uint64_t with = db_equal_at(&lo);
	for (int i = fl_from; i < nmop; i++) mop[i].on = 0;
	uint64_t without = db_equal_at(&lo);
	mse_assert(with | without, "after recovery the operation in flight is there as a whole or not at all, and everything acknowledged is there");
	for (int i = fl_from; i < nmop; i++) mop[i].on = with;
	fl_from = -1;
}
static int h_fixed;
static uint64_t h_id(void)
{
	if (h_fixed) return LO;
#ifdef WIDE
	return mse_u64("id");
#else
	return db_id(LO, HI);
#endif
}
static void h_write(int n, int dels)
{
	static uint8_t kb[4], vb[4][4];
	monotone_event_t ev[4]; memset(ev, 0, sizeof(ev));
	int from = nmop;
	for (int i = 0; i < n; i++) {
		uint64_t id = h_id();
		uint64_t klen = KEYS ? mse_choose(2, "klen") : 0, key = klen ? mse_in(0x61, 0x63, "key") : 0, del = dels ? mse_choose(2, "delete") : 0;
		uint64_t tag = h_tag++;
		kb[i] = key; vb[i][0] = tag; vb[i][1] = tag >> 8; vb[i][2] = 0x77;
		ev[i].flags = del ? MONOTONE_DELETE : 0; ev[i].id = id; ev[i].key = klen ? &kb[i] : NULL; ev[i].key_size = klen; ev[i].value = vb[i]; ev[i].value_size = 2 + (tag & 1);
		m_add(id, klen, key, del, tag);
	}
	fl_from = from;
	if (monotone_write(db, ev, n) != 0) {
		if (!h_fault) { mse_note(monotone_error(db)); mse_fail("write succeeds"); }
		nmop = from; h_failed = 1;
	}
	fl_from = -1;
}
static int h_cmd(const char* c)
{
	if (db_exec(c) == 0) return 0;
	mse_note(monotone_error(db));
	if (!h_fault) { mse_note(c); mse_fail("command failed"); }
	h_failed = 1;
	return -1;
}
// a command that has to work when repeated once the fault is gone
static void h_retry(const char* c)
{
	if (h_cmd(c) == 0) return;
	h_compare();
	int f = h_fault, a = env_armed; h_fault = 0; env_armed = 0;
	h_cmd(c);
	h_fault = f; env_armed = a;
	mse_reach("retried");
}
static void h_op(char o)
{
	char t[96];
	if (o == '?') { static const char s[] = OPSET; o = s[mse_choose(sizeof(s) - 1, "op")]; }
	switch (o) {
	case 'w': h_write(1, 0); break;
	case 'W': h_fixed = 1; h_write(1, 0); h_fixed = 0; break;
	case 'd': h_write(1, 1); break;
	case 'b': h_write(2, 1); break;
	case 'B': h_write(3, 1); break;
	case 'r': h_retry("refresh partitions between 0 and 1000000"); break;
	case 'm': h_retry(h_side ? "move partitions between 0 and 1000000 into main" : "move partitions between 0 and 1000000 into other"); h_side = !h_side; break;
	case 'x': {
		uint64_t p = LO / ITV + mse_choose(HI / ITV - LO / ITV + 1, "drop") ;
		snprintf(t, sizeof(t), "drop partition if exists %llu", (unsigned long long)(p * ITV));
		int from = nmop;
		m_range(p * ITV, p * ITV + ITV - 1);
		fl_from = from;
		if (h_cmd(t) != 0) { h_compare(); int f = h_fault, a = env_armed; h_fault = 0; env_armed = 0; h_cmd(t); h_fault = f; env_armed = a; mop[from].on = 1; mse_reach("retried"); }
		fl_from = -1;
		break; }
	case 'p': snprintf(t, sizeof(t), "refresh partition if exists %llu", (unsigned long long)((LO / ITV + mse_choose(HI / ITV - LO / ITV + 1, "which")) * ITV)); h_retry(t); break;
	case 'R': h_cmd("refresh partitions between 0 and 1000000"); break;
	case 'M': h_cmd(h_side ? "move partitions between 0 and 1000000 into main" : "move partitions between 0 and 1000000 into other"); break;
	case 'u': h_retry("upload partitions between 0 and 1000000 if cloud"); break;
	case 'l': h_retry("download partitions between 0 and 1000000 if cloud"); break;
	case 'y': case 'z':
		for (uint64_t p = LO / ITV; p <= HI / ITV; p++) {
			struct o { int type; Main main; };
			Mapping* mp = &((struct o*)db)->main.engine.mapping;
			if (! mp->tree_count) break;
			Slice* sl = mapping_seek(mp, p * ITV);
			if (sl->min != p * ITV || ref_of(sl)->part->state != (ID|ID_CLOUD)) continue;
			snprintf(t, sizeof(t), "drop partition %llu on %s", (unsigned long long)(p * ITV), o == 'y' ? "storage" : "cloud");
			h_retry(t);
			mse_reach(o == 'y' ? "only on cloud" : "only local");
		}
		break;
	case 'e': h_retry("rebalance"); break;
	case 'i': h_retry("move partitions between 0 and 1000000 into main"); h_side = 0; break;
	case 'o': h_retry("debug \"wal_create\""); break;
	case 'g': h_retry("debug \"wal_gc\""); break;
	case 'c': h_retry("checkpoint"); break;
	case 'v': h_retry("service"); break;
	case 'n': db_close(); db_open(); mse_reach("reopened"); break;
	case 'k': h_compare(); break;
	case 'q': { int a = env_armed; env_armed = 0; db_check_from(mse_in(LO, HI, "from")); env_armed = a; mse_reach("sought"); break; }
	case '*': env_armed = 1; break;
	case '.': env_armed = 0; break;
	}
}
#ifndef CLOUD
#define CLOUD 0   // 1 the other storage has a cloud  2 and local copies are dropped once uploaded
#endif
static void h_storages(void)
{
	if (CLOUD) db_must("create cloud c (type 'mock')");
	db_must(CLOUD == 0 ? "create storage other (sync false, region_size 60)" : CLOUD == 1 ? "create storage other (sync false, region_size 60, cloud 'c', cloud_drop_local false)" : "create storage other (sync false, region_size 60, cloud 'c', cloud_drop_local true)");
}
static void h_run(const char* s) { for (; *s; s++) h_op(*s); }
// no temporary file is left and no partition is shown twice
static void h_files(void)
{
	for (int i = 0; i < env_files(); i++) {
		const char* f = env_file(i);
		mse_assert(!strstr(f, ".incomplete") && !strstr(f, ".complete"), "no incomplete or complete file is left");
	}
}

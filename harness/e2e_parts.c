// Explicit and automatic partitions: the ranges never overlap, cover what is
// written, and hold only events of their own.
#include "hist.h"
#ifndef OPS
#define OPS "???"
#endif
#ifndef DIG
#define DIG "0"      // leading digits of the numbers in commands
#endif
#ifndef BASE
#define BASE 0
#endif
#ifndef KINDS
#define KINDS "Cwx"
#endif
static Engine* eng(void) { struct o { int type; Main main; }; return &((struct o*)db)->main.engine; }
static void ranges(void)
{
	Slice* prev = NULL; int n = 0;
	for (Slice* s = mapping_min(&eng()->mapping); s; s = mapping_next(&eng()->mapping, s), n++) {
		mse_assert(s->min <= s->max, "a partition has a range");
		if (prev) mse_assert(prev->max < s->min, "partitions do not overlap and are in order");
		Part* p = ref_of(s)->part;
		mse_assert((p->id.min == s->min) & (p->id.max == s->max), "a partition keeps its range");
		for (int m = 0; m < 2; m++) {
			Memtable* t = m ? &p->memtable_b : &p->memtable_a;
			for (RbtreeNode* r = t->count_pages ? rbtree_min(&t->tree) : NULL; r; r = rbtree_next(&t->tree, r)) {
				MemtablePage* g = container_of(r, MemtablePage, node);
				for (int i = 0; i < g->events_count; i++) mse_assert((g->events[i]->id >= s->min) & (g->events[i]->id <= s->max), "an event lies in the range of its partition");
			}
		}
		prev = s;
	}
	mse_assert(n == eng()->mapping.tree_count, "all partitions are reachable");
}
static uint64_t covered(uint64_t id) { uint64_t c = 0; for (Slice* s = mapping_min(&eng()->mapping); s; s = mapping_next(&eng()->mapping, s)) c |= (id >= s->min) & (id <= s->max); return c; }
#ifdef TOP
static uint64_t digit(char* t, const char* n) { uint64_t d = mse_choose(TOP, n) + 6 - TOP;
#else
static uint64_t digit(char* t, const char* n) { uint64_t d = mse_in(0, 9, n);
#endif
 char c[2] = { (char)('0' + d), 0 }; strcat(t, DIG); strcat(t, c); return BASE + d; }
static uint64_t omin[16], omax[16]; static int onum;
static void remember(void) { onum = 0; for (Slice* s = mapping_min(&eng()->mapping); s; s = mapping_next(&eng()->mapping, s)) { omin[onum] = s->min; omax[onum++] = s->max; } }
static void op(char o)
{
	char t[80] = "";
	static const char kinds[] = KINDS;
	if (o == '?') o = kinds[mse_choose(sizeof(kinds) - 1, "op")];
	switch (o) {
	case 'C': {
		strcpy(t, "create partition "); uint64_t a = digit(t, "min"); strcat(t, " "); uint64_t b = digit(t, "max");
		remember();
		int rc = db_exec(t);
		mse_assert((rc != 0) == (a > b), "a partition is created unless its range is empty");
		if (rc == 0) {
			mse_assert(covered(a) & covered(b), "a created partition covers its range"); mse_reach("created");
		}
		// partitions that were there are still there
		for (int i = 0; i < onum; i++) {
			uint64_t same = 0;
			for (Slice* s = mapping_min(&eng()->mapping); s; s = mapping_next(&eng()->mapping, s)) same |= (s->min == omin[i]) & (s->max == omax[i]);
			mse_assert(same, "existing partitions are left alone");
		}
		// and nothing outside the range was created
		for (Slice* s = mapping_min(&eng()->mapping); s; s = mapping_next(&eng()->mapping, s)) {
			uint64_t ok = (s->min >= a) & (s->max <= b) & (rc == 0);
			for (int i = 0; i < onum; i++) ok |= (s->min == omin[i]) & (s->max == omax[i]);
			mse_assert(ok, "a partition is created only inside its range");
		}
		break; }
	case 'w': h_write(1, 0); mse_assert(covered(mop[nmop - 1].id), "a written event has a partition"); break;
	case 'x': {
		strcpy(t, "drop partition "); uint64_t d = digit(t, "drop");
		uint64_t any = covered(d), lo = 1, hi = 0;
		for (Slice* s = mapping_min(&eng()->mapping); s; s = mapping_next(&eng()->mapping, s)) { uint64_t in = (d >= s->min) & (d <= s->max); lo = mse_ite(in, s->min, lo); hi = mse_ite(in, s->max, hi); }
		int rc = db_exec(t);
		mse_assert((rc == 0) == any, "a partition is dropped if there is one");
		if (rc == 0) { m_range(lo, hi); mse_assert(!covered(d), "a dropped partition is gone"); mse_reach("dropped"); }
		break; }
	case 'r': h_retry("refresh partitions between 0 and 1000000"); break;
	}
	ranges();
}
void mse_main(void)
{
	fl_from = -1;
	db_open();
	for (const char* o = OPS; *o; o++) op(*o);
	h_compare();
	mse_reach("scanned");
#ifdef REOPEN
	db_reopen();
	ranges();
	h_compare();
	mse_reach("reopened");
#endif
	db_close();
}

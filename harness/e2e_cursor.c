// A cursor stays open while the same thread writes, deletes and has batches
// refused around it.
#include "hist.h"
#ifndef PRE
#define PRE 2
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef INFILE
#define INFILE 1      // how many of the first writes end up in a file
#endif
static monotone_cursor_t* cur; static int over;
// read where the cursor stands
static void here(void)
{
	Row r;
	int rc = row_of(cur, &r);
	mse_assert(rc != -1, "read succeeds");
	if (rc == 0) { over = 1; return; }
	mse_assert(nrow < MAXROWS, "cursor ends");
	row[nrow++] = r;
}
static void step(void)
{
	if (over) return;
	int rc = monotone_next(cur);
	mse_assert(rc != -1, "next succeeds");
	here();
}
// a batch whose last event cannot be written
static void refused(void)
{
	static uint8_t big[256]; monotone_event_t ev[2]; memset(ev, 0, sizeof(ev));
	ev[0].id = h_id(); ev[0].value = "??"; ev[0].value_size = 2; ev[0].flags = mse_choose(2, "delete") ? MONOTONE_DELETE : 0;
	ev[1].id = 1; ev[1].key = big; ev[1].key_size = 256;
	mse_assert(monotone_write(db, ev, 2) == -1, "an event with a key of 256 bytes is refused");
	mse_reach("refused");
}
void mse_main(void)
{
	fl_from = -1;
	db_open();
	for (int i = 0; i < PRE; i++) { h_write(1, 0); if (i + 1 == INFILE) db_must("refresh partitions between 0 and 1000000"); }
	int open_at = nmop;
	uint64_t from = mse_choose(2, "seek") ? mse_in(LO, HI, "from") : 0;
	monotone_event_t k; memset(&k, 0, sizeof(k)); k.id = from;
	cur = monotone_cursor(db, NULL, from == 0 ? NULL : &k);
	mse_assert(cur != NULL, "cursor opens");
#ifdef TWO   // another one at the same place, opened before or after
	monotone_cursor_t* other = monotone_cursor(db, NULL, from == 0 ? NULL : &k);
	mse_assert(other != NULL, "cursor opens");
	if (mse_choose(2, "which")) { monotone_cursor_t* t = cur; cur = other; other = t; }
#endif
	here();
	for (int i = 0; i < OPS; i++) {
		if (i && mse_choose(2, "next")) step();
#ifdef REFUSED
		if (mse_choose(2, "refused")) { refused(); continue; }
#endif
		h_write(1, 1);
	}
	while (!over) step();
	monotone_free(cur);
#ifdef TWO
	monotone_free(other);
#endif
	for (int i = 0; i + 1 < nrow; i++) mse_assert(row_less(&row[i], &row[i + 1]), "an open cursor returns events in strictly increasing order");
	for (int i = 0; i < nrow; i++) {
		// its value at the time the cursor was opened, or a later one
		int all = nmop; nmop = open_at; uint64_t t = m_get(row[i].id, row[i].klen, row[i].key); nmop = all;
		uint64_t ok = (t != 0) & (t == row[i].tag);
		for (int j = open_at; j < nmop; j++) ok |= !mop[j].del & same(row[i].id, row[i].klen, row[i].key, &mop[j]) & (mop[j].tag == row[i].tag);
		mse_assert(ok, "an open cursor returns values that were current since it was opened");
		mse_assert(row[i].id >= from, "a cursor starts at its key");
	}
	for (int i = 0; i < open_at; i++) {
		Row r = { mop[i].id, mop[i].klen, mop[i].key, 0, 0 }, lo = { from, 0, 0, 0, 0 };
		uint64_t found = row_less(&r, &lo);
		for (int j = open_at; j < nmop; j++) found |= mop[j].del & same(r.id, r.klen, r.key, &mop[j]);
		for (int j = 0; j < nrow; j++) found |= same(row[j].id, row[j].klen, row[j].key, &mop[i]);
		mse_assert(found, "an open cursor misses no event that was there when it was opened");
	}
	mse_reach("drained");
	h_compare();
	mse_reach("scanned");
	db_close();
}

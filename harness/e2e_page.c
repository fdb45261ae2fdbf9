// Pages of the memory table at their real size: PRE events in ascending,
// descending or alternating order, then symbolic writes and deletes near a
// chosen place, a full scan and a scan from a symbolic id.
#define MAXOPS 16
#define MAXROWS (PRE + 8)
#ifndef PRE
#define PRE 512
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef ITV
#define ITV 4000
#endif
#include "db.h"
static uint64_t base(int i) { return 2 + 2 * (uint64_t)i; }
static uint64_t win[5] = { 0, 3, PRE / 2, PRE - 4, PRE };
static uint64_t wplace;
void mse_main(void)
{
	db_open();
#ifdef BATCH
#define PASS0 1
#else
#define PASS0 0
#endif
#ifndef STANDS
#define STANDS 2
#endif
#ifndef WIN
#define WIN 7
#endif
#ifndef ORDERS
#define ORDERS 3
#endif
	int order = mse_choose(ORDERS, "order");
	for (int i = 0; i < PRE; i++) {
		int k = order == 0 ? i : order == 1 ? PRE - 1 - i : (i & 1 ? PRE - 1 - i / 2 : i / 2);
		if (db_put_sz(base(k), 0, 0, 0, 0x77, 2) != 0) mse_fail("write succeeds");
	}
#ifdef CURSOR
	// a cursor stands somewhere while the writes are made
	static monotone_cursor_t* cur; static uint64_t start; Row at;
	static const int stand[3] = { PRE - 4, PRE - PRE / 3, 1 };
	start = base(stand[mse_choose(STANDS, "cursor")]);
	monotone_event_t ck; memset(&ck, 0, sizeof(ck)); ck.id = start;
	cur = monotone_cursor(db, NULL, &ck);
	mse_assert(cur != NULL, "cursor opens");
	int over = row_of(cur, &at) != 1;
	if (!over) row[nrow++] = at;
#endif
#ifdef BATCH
	static monotone_event_t ev[OPS + 1]; static uint8_t vb[OPS + 1][2], big[256];
	int bad = mse_choose(2, "bad");
#endif
	for (int i = 0; i < OPS; i++) {
		uint64_t w = wplace = win[mse_choose(5, "place")];
		uint64_t lo = base(w) > 3 ? base(w) - 3 : 0;
#ifdef CURSOR
		lo += 2;
#endif
		uint64_t id = mse_in(lo, lo + WIN, "id"), del = mse_choose(2, "delete");
#ifdef BATCH
		memset(&ev[i], 0, sizeof(ev[i])); vb[i][0] = 1 + i; vb[i][1] = 1;
		ev[i].id = id; ev[i].flags = del ? MONOTONE_DELETE : 0; ev[i].value = vb[i]; ev[i].value_size = 2;
		m_add(id, 0, 0, del, 0x101 + i);
#else
		db_put(id, 0, 0, del, 0x101 + i);
#endif
#ifdef CURSOR
		if (!over && mse_choose(2, "next")) { mse_assert(monotone_next(cur) != -1, "next succeeds"); if (row_of(cur, &at) == 1) row[nrow++] = at; else over = 1; }
#endif
	}
#ifdef BATCH
	if (bad) { memset(&ev[OPS], 0, sizeof(ev[OPS])); ev[OPS].key = big; ev[OPS].key_size = 256; nmop = 0; mse_reach("refused"); }
	mse_assert(monotone_write(db, ev, OPS + bad) == (bad ? -1 : 0), "a batch is refused exactly when one of its events is invalid");
#endif
#ifdef CURSOR
	while (!over) { mse_assert(monotone_next(cur) != -1, "next succeeds"); if (row_of(cur, &at) != 1) break; mse_assert(nrow < MAXROWS, "cursor ends"); row[nrow++] = at; }
	monotone_free(cur);
	for (int i = 0; i + 1 < nrow; i++) mse_assert(row[i].id < row[i + 1].id, "an open cursor returns events in strictly increasing order");
	for (int i = 0; i < PRE; i++) {
		if (base(i) < start) continue;
		uint64_t ok = 0; for (int j = 0; j < nmop; j++) ok |= (mop[j].id == base(i)) & mop[j].del;
		for (int j = 0; j < nrow; j++) ok |= (row[j].id == base(i));
		mse_assert(ok, "an open cursor misses no event that was there when it was opened");
	}
	for (int j = 0; j < nrow; j++) {
		uint64_t ok = (row[j].tag == 0x77) & ((row[j].id & 1) == 0) & (row[j].id >= 2) & (row[j].id <= base(PRE - 1));
		for (int i = 0; i < nmop; i++) ok |= (row[j].id == mop[i].id) & (row[j].tag == mop[i].tag) & !mop[i].del;
		mse_assert(ok, "an open cursor returns values that were current since it was opened");
	}
	mse_reach("drained");
	db_close();
	return;
#endif
#ifdef REFRESH
	if (mse_choose(2, "refresh")) { db_must("refresh partition 0"); mse_reach("refreshed"); }
#endif
	uint64_t from = 0;
	for (int pass = PASS0; pass < 2; pass++) {
		if (pass) { db_scan(NULL); }
		else { monotone_event_t k; memset(&k, 0, sizeof(k)); uint64_t w = base(mse_choose(2, "seek elsewhere") ? PRE / 2 + 40 : wplace); from = k.id = mse_in(w > 3 ? w - 3 : 0, w + 4, "from"); db_scan(&k); }
		uint64_t lo = pass ? 0 : from;
		for (int i = 0; i + 1 < nrow; i++) mse_assert(row[i].id < row[i + 1].id, "events come back in strictly increasing order");
		if (nrow) mse_assert(row[0].id >= lo, "a cursor starts at its key");
		// expected number of rows at or after lo
		uint64_t n = 0;
		uint64_t first = lo <= 2 ? 0 : (lo - 1) / 2;                       // index of first prefilled event >= lo
		n = first >= PRE ? 0 : PRE - first;
		for (int i = 0; i < nmop; i++) {
			uint64_t last = mop[i].id >= lo;
			for (int j = i + 1; j < nmop; j++) last &= mop[j].id != mop[i].id;
			uint64_t pre = ((mop[i].id & 1) == 0) & (mop[i].id >= 2) & (mop[i].id <= base(PRE - 1));
			n += mse_ite(last & !pre & !mop[i].del, 1, 0);
			n -= mse_ite(last & pre & mop[i].del, 1, 0);
		}
		mse_assert(n == (uint64_t)nrow, "every live event is read once");
		for (int i = 0; i < nmop; i++) {
			uint64_t last = (mop[i].id >= lo) & !mop[i].del, found = 0;
			for (int j = i + 1; j < nmop; j++) last &= mop[j].id != mop[i].id;
			for (int j = 0; j < nrow; j++) found |= (row[j].id == mop[i].id) & (row[j].tag == mop[i].tag);
			mse_assert(!last | found, "an event read has the value of its last write");
		}
		mse_reach(pass ? "scanned" : "sought");
	}
	db_close();
}

// A memory limit at the level of the API: large events over two partitions,
// refreshes in between.  A write is refused only at the limit, changes nothing
// then, and works again once the memory has been freed.
#include "hist.h"
#ifndef SEQ
#define SEQ "w?w?w?w"
#endif
static int big(int fail_ok)
{
	uint64_t id = h_id(), tag = h_tag++; tag &= ~1ull; h_tag++;
	static uint8_t v[2600]; v[0] = tag; v[1] = tag >> 8;
	monotone_event_t ev; memset(&ev, 0, sizeof(ev));
	ev.id = id; ev.value = v; ev.value_size = sizeof(v);
	int64_t used = db_show("show memory", "pages");
	int rc = monotone_write(db, &ev, 1);
	int why = rc != 0 && strstr(monotone_error(db), "memory") != NULL;
	int64_t after = db_show("show memory", "pages");
	if (rc != 0) {
		mse_assert(fail_ok, "a write succeeds once memory has been freed");
		mse_assert(used >= LIMIT, "memory is refused only at the limit");
		mse_assert(why, "the refusal says why");
		mse_reach("refused");
		return -1;
	}
	mse_assert(after <= LIMIT, "memory stays within the limit");
	m_add(id, 0, 0, 0, tag);
	return 0;
}
static void big_compare(void)
{
	db_scan(NULL);
	for (int i = 0; i < nrow; i++) { mse_assert(row[i].vsize == 2600, "a value read back has the size that was written"); row[i].vsize = 2; }
	Row lo = { 0 }; db_compare_at(&lo);
}
void mse_main(void)
{
	fl_from = -1;
	db_open();
	for (const char* s = SEQ; *s; s++) {
		if (*s == 'w') big(1); else h_op(*s);
		big_compare();
	}
	db_must("refresh partitions between 0 and 1000000");
	int64_t pages = db_show("show memory", "pages_used");
	mse_assert(pages == 0, "storing everything frees its memory");
	big(0);
	big_compare();
	db_reopen();
	big_compare();
	mse_reach("reopened");
	db_close();
	mse_assert(env_maps == 0, "every page is returned at close");
}

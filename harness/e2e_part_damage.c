// Any bytes of a partition file replaced by any other, or the file cut
// anywhere: opening or reading reports an error or gives what was written.
#include "hist.h"
#ifndef PRE
#define PRE 3
#endif
#ifndef STORE
#define STORE "region_size 60"
#endif
#ifndef W
#define W 1        // adjacent bytes replaced
#endif
static int strict;
static void read_all(monotone_event_t* from)
{
	monotone_cursor_t* c = monotone_cursor(db, NULL, from);
	if (!c) { mse_assert(monotone_error(db)[0] != 0, "a refused cursor has a message"); mse_reach("refused"); return; }
	nrow = 0; int whole = 0, n = 0; uint64_t sum = 0;
	for (;;) {
		monotone_event_t ev; memset(&ev, 0, sizeof(ev));
		int rc = monotone_read(c, &ev);
		if (rc == 0) { whole = 1; break; }
		if (rc == -1) { mse_reach("refused"); break; }
		mse_assert(++n <= 64, "a scan ends");
		if (strict) {
			Row* r = &row[nrow++];
			mse_assert((ev.key_size <= 2) & (ev.value_size >= 2) & (nrow < MAXROWS), "what is read is what was written");
			r->id = ev.id; r->klen = ev.key_size; r->vsize = ev.value_size; r->key = ev.key_size ? *(uint8_t*)ev.key : 0;
			r->tag = ((uint8_t*)ev.value)[0] | ((uint8_t*)ev.value)[1] << 8;
			mse_assert(r->tag == m_get(r->id, r->klen, r->key), "what is read is what was written");
		} else {
			for (uint64_t i = 0; i < ev.key_size; i++) sum += ((uint8_t*)ev.key)[i];
			if (ev.value_size > 0) sum += ((uint8_t*)ev.value)[0] + ((uint8_t*)ev.value)[ev.value_size - 1];
		}
		rc = monotone_next(c);
		if (rc == 0) { whole = 1; break; }
		if (rc == -1) { mse_assert(monotone_error(db)[0] != 0, "a failed read has a message"); mse_reach("refused"); break; }
	}
	monotone_free(c);
	if (strict && whole) { db_compare(from ? from->id : 0); mse_reach("read"); }
}
void mse_main(void)
{
	fl_from = -1;
	db_open();
	db_must("alter storage main set (" STORE ")");
	for (int i = 0; i < PRE; i++) db_put(i * 2 + 1, i & 1, i & 1 ? 0x61 : 0, 0, 0x201 + i);
	db_must("refresh partitions between 0 and 1000");
	db_close(); env_reboot();
	const char* path = NULL;
	for (int i = 0; i < env_files(); i++) { const char* b = strrchr(env_file(i), '/') + 1; if (*b >= '0' && *b <= '9' && !strchr(b, '.')) path = env_file(i); }
	mse_assert(path != NULL, "there is a partition file");
	static char name[128]; strcpy(name, path);
	int64_t size = env_size(name);
	static uint8_t copy[4096]; memcpy(copy, env_data(name), size);
	uint64_t index = size - sizeof(Index) - ((Index*)(copy + size - sizeof(Index)))->size, in_index = 0;
#ifdef STRICT
	strict = 1;
#endif
#ifdef CUT
	env_put(name, copy, mse_choose(size + 1, "length"));
#else
	uint64_t hi = size - W + 1, lo = 0, ne = 0;
#ifdef REGIONS   // not the index, which has its own checksums
	hi = index - W + 1;
#endif
	uint64_t pos = lo + mse_choose(hi - lo, "position");
	for (int i = 0; i < W; i++) { uint8_t v = mse_u8("byte"); ne |= v != copy[pos + i]; copy[pos + i] = v; }
	mse_assume(ne);
	in_index = pos >= index;
	env_put(name, copy, size);
#endif
	model_fmt_exact = 0;
	if (db_try_open() != 0) {
		mse_assert(monotone_error(db)[0] != 0, "a refused open has a message");
		mse_reach("refused");
		db_close();
		return;
	}
	mse_reach("opened");
	if (strict) mse_assert(!in_index, "a changed index is reported");
	read_all(NULL);
	monotone_event_t k; memset(&k, 0, sizeof(k)); k.id = mse_choose(3, "from") * 2;
	read_all(&k);
	// reading to merge
	if (db_exec("refresh partitions between 0 and 1000") == 0 && strict) read_all(NULL);
	mse_reach("merged");
	db_close();
}

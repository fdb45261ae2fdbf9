// Any bytes of a WAL file replaced by any other, or the file cut anywhere:
// the environment refuses to open, or shows whole records only.
#include "hist.h"
#ifndef SEQ
#define SEQ "wb"
#endif
#ifndef W
#define W 1        // adjacent bytes replaced
#endif
#ifndef FILENO
#define FILENO 0   // which WAL file
#endif
#ifndef FROM
#define FROM 0
#endif
static int rec[16], nrec; // first reference entry of each record
static void put_rec(int n, int del)
{
	static uint64_t id = 1; static uint8_t vb[4][4]; static uint8_t kb[4];
	monotone_event_t ev[4]; memset(ev, 0, sizeof(ev));
	rec[nrec++] = nmop;
	for (int i = 0; i < n; i++) {
		uint64_t tag = h_tag++, klen = tag & 1;
		kb[i] = 0x61; vb[i][0] = tag; vb[i][1] = tag >> 8; vb[i][2] = 0x77;
		ev[i].id = id; ev[i].flags = del ? MONOTONE_DELETE : 0; ev[i].key = klen ? &kb[i] : NULL; ev[i].key_size = klen; ev[i].value = vb[i]; ev[i].value_size = 2 + (tag & 1);
		m_add(id, klen, klen ? 0x61 : 0, del, tag);
		if (!del) id = id * 2 + 1;
	}
	if (monotone_write(db, ev, n) != 0) { mse_note(monotone_error(db)); mse_fail("write succeeds"); }
}
void mse_main(void)
{
	fl_from = -1;
	db_open();
	for (const char* s = SEQ; *s; s++) switch (*s) {
	case 'w': put_rec(1, 0); break;
	case 'b': put_rec(2, 0); break;
	case 'd': put_rec(1, 1); break;
	case 'x': rec[nrec++] = nmop; m_range(0, ITV - 1); db_must("drop partition 0"); break;
	default: h_op(*s);
	}
	rec[nrec] = nmop;
	db_close(); env_reboot();
	int k = FILENO, first = 0; const char* path = NULL; // first record of the file
	for (int i = 0; i < env_files(); i++) if (strstr(env_file(i), ".wal")) {
		if (k-- == 0) { path = env_file(i); break; }
		for (uint64_t at = 0; at < env_size(env_file(i)); at += ((LogWrite*)(env_data(env_file(i)) + at))->size) first++;
	}
	mse_assert(path != NULL, "there is a WAL file");
	static char name[128]; strcpy(name, path);
	int64_t size = env_size(name);
	static uint8_t copy[4096]; memcpy(copy, env_data(name), size);
	int gone = -1; // a record which is not the one written
#ifdef CUT
	uint64_t n = mse_choose(size + 1, "length");
	env_put(name, copy, n);
#else
	uint64_t pos = FROM + mse_choose(size - W + 1 - FROM, "position"), ne = 0;
	gone = first;
	for (uint64_t at = 0; (at += ((LogWrite*)(copy + at))->size) <= pos; ) gone++;
	if (gone + 1 < nrec && W > 1) gone = -1; // could be in the next one
	for (int i = 0; i < W; i++) { uint8_t v = mse_u8("byte"); ne |= v != copy[pos + i]; copy[pos + i] = v; }
	mse_assume(ne);
	env_put(name, copy, size);
#endif
	model_fmt_exact = 0;
	if (db_try_open() != 0) {
		mse_assert(monotone_error(db)[0] != 0, "a refused open has a message");
		mse_reach("refused");
		db_close();
		return;
	}
	mse_reach("opened");
#ifdef CRC
	db_scan(NULL);
	// exactly some of the records, whole
	uint64_t any = 0; Row lo = { 0 };
	for (int m = 0; m < (1 << nrec); m++) {
		if (gone >= 0 && ((m >> gone) & 1)) continue;
		for (int r = 0; r < nrec; r++) for (int i = rec[r]; i < rec[r + 1]; i++) mop[i].on = (m >> r) & 1;
		any |= db_equal_at(&lo);
	}
	mse_assert(any, "only whole and unchanged records are replayed");
#else
	monotone_cursor_t* c = monotone_cursor(db, NULL, NULL);
	if (c) {
		monotone_event_t ev; int n = 0; uint64_t sum = 0;
		while (monotone_read(c, &ev) == 1) {
			mse_assert(++n <= 64, "a scan ends");
			for (uint64_t i = 0; i < ev.key_size; i++) sum += ((uint8_t*)ev.key)[i];
			for (uint64_t i = 0; i < ev.value_size && i < 64; i++) sum += ((uint8_t*)ev.value)[i];
			if (ev.value_size > 0) sum += ((uint8_t*)ev.value)[ev.value_size - 1];
			if (monotone_next(c) != 1) break;
		}
		monotone_free(c);
	}
#endif
	// it stays usable
	db_close();
	if (db_try_open() == 0) mse_reach("again");
	db_close();
}

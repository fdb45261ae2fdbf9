// Batches over contents in memory and in a file.  One event of the batch may
// be invalid; then nothing changes, now and after a restart.
#include "hist.h"
#ifndef N
#define N 3
#endif
#ifndef MODES
#define MODES 3
#endif
void mse_main(void)
{
	fl_from = -1;
	db_open();
	// contents: events 1 (in a file) and 2 (in memory), 3 is in a file and deleted
	db_put(1, 0, 0, 0, h_tag++);
	db_put(3, 0, 0, 0, h_tag++);
	db_must("refresh partitions between 0 and 1000000");
	db_put(2, 0, 0, 0, h_tag++);
	db_put(3, 0, 0, 1, h_tag++);
	static uint8_t kb[4], vb[4][4], big[256];
	monotone_event_t ev[4]; memset(ev, 0, sizeof(ev));
	int from = nmop;
	uint64_t bad = mse_choose(N + 1, "bad"), how = bad < N ? mse_choose(MODES, "how") : 0;
	for (int i = 0; i < N; i++) {
		uint64_t id = h_id(), klen = KEYS ? mse_choose(2, "klen") : 0, key = klen ? mse_in(0x61, 0x62, "key") : 0, del = mse_choose(2, "delete"), tag = h_tag++;
		kb[i] = key; vb[i][0] = tag; vb[i][1] = tag >> 8; vb[i][2] = 0x77;
		ev[i].flags = del ? MONOTONE_DELETE : 0; ev[i].id = id; ev[i].key = klen ? &kb[i] : NULL; ev[i].key_size = klen; ev[i].value = vb[i]; ev[i].value_size = 2 + (tag & 1);
		m_add(id, klen, key, del, tag);
	}
	if (bad < N) {
		if (how == 0) { ev[bad].key = big; ev[bad].key_size = 256; }
		if (how == 1) { ev[bad].value = big; ev[bad].value_size = 0x40000000; }
		if (how == 2) db_must("set error_wal to true");
	}
	int rc = monotone_write(db, ev, N);
	if (bad < N) {
		mse_assert(rc == -1, "a batch with an event that cannot be written is refused");
		mse_assert(monotone_error(db)[0] != 0, "a refused batch has an error message");
		nmop = from;
		if (how == 2) db_must("set error_wal to false");
		mse_reach("refused");
	} else mse_assert(rc == 0, "batch write succeeds");
	h_compare();
	mse_reach("scanned");
	h_run(POST);
	db_reopen();
	h_compare();
	mse_reach("reopened");
	db_close();
}

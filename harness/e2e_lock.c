// Two environments and one directory: the second is refused without touching
// its files, and gets it once the first is gone.
#include "db.h"
static monotone_t *a, *b;
static uint64_t base;
static int dir_state(uint64_t* bytes) { int n = env_files(); *bytes = 0; for (int i = 0; i < n; i++) *bytes += env_size(env_file(i)); return n; }
void mse_main(void)
{
	base = env_live();
	db_open(); a = db;
	int n = 1;
	for (int i = 0; i < n; i++) db_put(mse_in(0, 3, "id"), 0, 0, 0, 0x101 + i);
	int refreshed = mse_choose(2, "refreshed");
	if (refreshed) db_must("refresh partitions between 0 and 1000");
	b = monotone_init();
	mse_assert(b != NULL, "environment can be created");
	db = b; db_settings(db_cfg);
	int when = mse_choose(4, "when");
	int tries = 1 + mse_choose(2, "tries"), retry = mse_choose(2, "same handle");
	for (int i = 0; i < tries; i++) {
		uint64_t bytes, bytes2, writes = env_writes, syncs = env_syncs; int files = dir_state(&bytes);
		env_armed = 1; uint64_t step = env_step;
		mse_assert(monotone_open(b, i ? "/db" : "//db/") != 0, "a directory in use is refused");
		env_armed = 0;
		mse_assert(env_step == step, "no file is created, changed or removed by a refused open");
		mse_assert(env_writes == writes && env_syncs == syncs && dir_state(&bytes2) == files && bytes == bytes2, "a refused open changes nothing");
		mse_assert(monotone_error(b)[0] != 0, "a refusal has a message");
		mse_reach("refused");
	}
	monotone_event_t ev; memset(&ev, 0, sizeof(ev)); ev.value = "ab"; ev.value_size = 2;
	mse_assert(monotone_write(b, &ev, 1) != 0, "nothing can be written without the directory");
	// the first one still works
	db = a;
	if (when & 1) { db_put(mse_in(0, 3, "id"), 0, 0, 0, 0x111); db_check(); }
	if (when & 2) { monotone_free(b); b = NULL; db_put(mse_in(0, 3, "id"), 0, 0, 0, 0x112); db_check(); db_must("refresh partitions between 0 and 1000"); db_check(); }
	if (!b) { // still locked by the first
		b = monotone_init(); db = b; db_settings(db_cfg);
		mse_assert(monotone_open(b, "/db") != 0, "a directory in use is refused");
		db = a;
	}
	db_check();
	db_close();
	db = b;
	if (! retry) { monotone_free(b); db = b = monotone_init(); db_settings(db_cfg); }
	if (monotone_open(b, "/db") != 0) { mse_note(monotone_error(b)); mse_fail("the directory can be opened once it was closed"); }
	db_check();
	mse_reach("opened");
	db_close();
	mse_assert(env_open_fds() == 0, "no descriptor is left open after close");
	mse_assert(env_live() == base, "no memory is left in use after close");
}

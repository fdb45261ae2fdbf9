// Everything taken is given back at close, whatever failed before: heap
// blocks, memory mappings, descriptors; and the directory can be opened again.
#include "hist.h"
#ifndef SEQ
#define SEQ "d*r"
#endif
#ifndef OPENFAULT
#define OPENFAULT 0
#endif
#ifndef RFAULTS
#define RFAULTS 1
#endif
#ifndef RUNS
#define RUNS 1
#endif
#ifndef SQL
#define SQL ""
#endif
static uint64_t base;
static void released(const char* what)
{
	mse_assert(env_open_fds() == 0, "no descriptor is left open after close");
	mse_assert(env_maps == 0, "no memory mapping is left after close");
	mse_assert(env_live() == base, what);
}
static void commands(void)
{
	static const char s[] = SQL; char t[200]; int n = 0;
	for (int i = 0; s[i]; i++) { if (s[i] != ';') { t[n++] = s[i]; continue; } t[n] = 0; n = 0; if (db_exec(t) != 0) { mse_note(monotone_error(db)); mse_reach("failed"); } }
}
void mse_main(void)
{
	fl_from = -1;
	base = env_live();
	db_open();
#ifdef OTHER
	h_storages();
#endif
	env_rfaults = RFAULTS;
	env_fault_at = mse_u8("failing step");
	if (RUNS > 1) env_faults = mse_choose(RUNS, "more failures");
	h_fault = 1;
#if OPENFAULT
	// the history runs first, then reopening fails
	h_run(SEQ);
	db_close();
	released("no memory is left in use after close");
	env_step = 0; env_armed = 1;
	int rc = db_try_open();
	env_armed = 0;
	if (rc != 0) {
		mse_reach("failed");
		env_rfaults = 0;
		// either works or is refused; nothing is lost
		if (mse_choose(2, "again")) monotone_open(db, "/db");
	}
	db_close();
	released("no memory is left in use after a failed open");
#else
	env_step = 0;
	h_run(SEQ);
	commands();
	env_armed = 0;
	if (h_failed) mse_reach("failed");
	db_close();
	released("no memory is left in use after close");
#endif
	h_fault = 0;
	db_open();
	db_scan(NULL);
	mse_reach("reopened");
	db_close();
	released("no memory is left in use after close");
}

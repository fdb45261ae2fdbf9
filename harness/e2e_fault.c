// A history in which any system call fails (or is cut short), optionally
// followed by further failures.  What failed changes nothing, a failed
// command can be repeated, and everything is still there after a restart.
#include "hist.h"
#ifndef SEQ
#define SEQ "d*b.k"
#endif
#ifndef POST
#define POST "wknk"
#endif
#ifndef TORN
#define TORN 1
#endif
#ifndef MAXSTEP
#define MAXSTEP 63
#endif
#ifndef RUNS
#define RUNS 1
#endif
#ifndef RFAULTS
#define RFAULTS 0
#endif
void mse_main(void)
{
	fl_from = -1;
	db_open();
#ifdef OTHER
	h_storages();
#endif
	env_torn = TORN;
	env_rfaults = RFAULTS;
	env_fault_at = mse_u8("failing step");
	mse_assume(env_fault_at <= MAXSTEP);
	if (RUNS > 1) env_faults = mse_choose(RUNS, "more failures");
#ifdef FAULT2
	env_fault2_at = mse_u8("second failing step");
	mse_assume((env_fault2_at <= MAXSTEP) & (env_fault2_at > env_fault_at));
#endif
	h_fault = 1;
	h_run(SEQ);
	env_armed = 0; h_fault = 0;
	if (h_failed) mse_reach("failed");
	h_compare();
	h_run(POST);
	mse_reach("continued");
	db_close();
	mse_assert(env_open_fds() == 0, "no descriptor is left open after close");
#ifdef FILES
	h_files();
#endif
}

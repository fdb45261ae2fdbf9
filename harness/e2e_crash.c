// A history with the process dying at any system call (and any torn write),
// recovery, more operations and further restarts.
#include "hist.h"
#ifndef SEQ
#define SEQ "*dd"
#endif
#ifndef POST
#define POST "wnk"
#endif
#ifndef TORN
#define TORN 1
#endif
#ifndef MAXSTEP
#define MAXSTEP 63
#endif
#ifndef OPENCRASH
#define OPENCRASH 0
#endif
void mse_main(void)
{
	fl_from = -1;
	db_open();
#ifdef OTHER
	h_storages();
#endif
#ifdef BEFORE
	// an earlier part of the history with a failing call
	env_fault_at = mse_u8("failing step"); mse_assume(env_fault_at <= MAXSTEP);
	h_fault = 1;
	h_run(BEFORE);
	env_armed = 0; h_fault = 0; env_fault_at = ~0ull; env_step = 0;
	if (h_failed) mse_reach("failed");
#endif
	env_torn = TORN;
	env_crash_at = mse_u8("crash step");
	mse_assume(env_crash_at <= MAXSTEP);
#ifdef POWERLOSS
	env_powerloss = 1;
#endif
	ENV_CRASHABLE(h_run(SEQ););
	env_armed = 0;
	if (!env_crashed) { db_close(); mse_reach("no crash"); }
	else mse_reach("crashed");
	env_reboot();
#if OPENCRASH
	// and again while recovering
	env_step = 0; env_crash_at = mse_u8("crash step in recovery"); mse_assume(env_crash_at <= MAXSTEP);
	ENV_CRASHABLE(env_armed = 1; db_open(); env_armed = 0;);
	env_armed = 0;
	if (env_crashed) { mse_reach("crashed in recovery"); env_reboot(); db_open(); }
#else
	db_open();
#endif
	h_compare();
	mse_reach("recovered");
#ifdef FILES
	h_files();
#endif
	h_run(POST);
	mse_reach("continued");
	db_close();
}

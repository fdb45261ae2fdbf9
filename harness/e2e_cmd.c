// Command text: any byte replaced, inserted or appended at any place of a
// command, or everything after any place cut off.  A command ends with success
// or an error and a message, keeps nothing, and has no effect when refused.
#include "hist.h"
#ifndef CMDS
#define CMDS "show all;"
#endif
#ifndef HOW
#define HOW 0     // 0 a byte replaced, 1 a byte inserted, 2 cut and N bytes appended
#endif
#ifndef N
#define N 1
#endif
#ifndef FROM
#define FROM 0    // first position tried
#endif
#ifndef STEP
#define STEP 1
#endif
static int n_cmd; static const char* cmds[40]; static int len[40];
static char* state(void)
{
	char* r = NULL;
	if (monotone_execute(db, "show config, storages, clouds, pipeline, partitions", &r) != 0) { mse_note(monotone_error(db)); mse_fail("show succeeds"); }
	return r;
}
void mse_main(void)
{
	static const char all[] = CMDS; const char* p = all;
	for (const char* c = all; *c; c++) if (*c == ';') { cmds[n_cmd] = p; len[n_cmd++] = c - p; p = c + 1; }
	fl_from = -1;
	db_open();
	db_must("create cloud c (type 'mock')"); db_must("create cloud f (type 'mock')"); db_must("create storage s (cloud 'c', sync false)"); db_must("create storage tt (sync false)"); db_must("alter pipeline set main (partitions 9), tt");
	h_run("W"); h_run("r"); db_put(ITV, 0, 0, 0, 0x55); db_must("move partition 0 into s"); h_run("W");
	db_exec("show error"); free(state());
	int k = mse_choose(n_cmd, "command"), n = len[k];
	int at = FROM + STEP * mse_choose((n + (HOW != 0) - FROM + STEP - 1) / STEP, "position");
	if (HOW == 2) { char* t = NULL; (void)t; }
	int size = HOW == 0 ? n : HOW == 1 ? n + 1 : at + N;
	char* t = malloc(size + 1);
	if (HOW == 0) memcpy(t, cmds[k], n);
	if (HOW == 1) { memcpy(t, cmds[k], at); memcpy(t + at + 1, cmds[k] + at, n - at); }
	if (HOW == 2) memcpy(t, cmds[k], at);
	if (HOW == 2) { if (N) mse_sym(t + at, N, "bytes"); } else mse_sym(t + at, 1, "byte");
	t[size] = 0;
	for (int i = 0; i < (HOW == 2 ? N : 1); i++) mse_assume(t[at + i] != 0);
	char* before = state();
	uint64_t live = env_live();
	int fds = env_open_fds(), rows = nmop;
	char* r = NULL;
	int rc = monotone_execute(db, t, &r);
	if (rc != 0) {
		mse_assert(rc == -1, "a command is done or refused");
		const char* e = monotone_error(db);
		mse_assert(e && *e, "a refused command has an error and a message");
		mse_assert(r == NULL, "a refused command has no result");
		mse_assert(env_live() == live, "a refused command keeps no memory");
		char* s = state();
		mse_assert(!strcmp(s, before), "a refused command has no effect");
		free(s);
		nmop = rows; db_scan(NULL); db_compare(0);
		mse_reach("refused");
	} else {
		if (r) { mse_assert(strlen(r) < 100000, "a result is a text"); free(r); }
		mse_reach("done");
	}
	mse_assert(env_open_fds() <= fds + 2, "a command leaves no descriptors open");
	free(before); free(t);
	// no lock is kept
	db_exec("show all"); db_must("set test_int to 5"); db_put(1, 0, 0, 0, 0x56); db_must("create storage if not exists zz (sync false)");
	if (rc != 0) { db_scan(NULL); db_compare(0); }
	db_close();
	mse_assert(env_open_fds() == 0, "no descriptor is left open after close");
}

// A batch with more events than one system call takes: there as a whole or
// not at all, after a refusal, a failing or cut write, a crash between the
// calls, and a restart.
#include "db.h"
#ifndef N
#define N 1030
#endif
static uint64_t twice, present;
static void check(void)
{
	monotone_cursor_t* c = monotone_cursor(db, NULL, NULL);
	mse_assert(c != NULL, "cursor opens");
	monotone_event_t ev; uint64_t n = 0, ne = 0;
	while (monotone_read(c, &ev) == 1) {
		if (ev.id == 4000) mse_assert(n == present, "events come back in order");
		else {
			mse_assert(n < N && ev.id == n && ev.value_size == 2, "events come back in order");
			uint8_t* v = ev.value;
			ne |= (v[0] | v[1] << 8) ^ mse_ite(twice == n, 0x7777, n);
			n++;
		}
		if (monotone_next(c) != 1) break;
	}
	monotone_free(c);
	mse_assert(n == 0 || n == N, "a batch is there as a whole or not at all");
	if (present != ~0ull) mse_assert(n == present, "a batch is there exactly if it was accepted");
	present = n;
	mse_assert(ne == 0, "every event of the batch has its last value");
}
static int batch(int bad)
{
	static monotone_event_t ev[N + 1]; static uint8_t v[N + 1][2];
	for (int i = 0; i <= N; i++) {
		v[i][0] = i; v[i][1] = i >> 8; memset(&ev[i], 0, sizeof(*ev));
		ev[i].id = i; ev[i].value = v[i]; ev[i].value_size = 2;
	}
	v[N][0] = v[N][1] = 0x77; ev[N].id = twice;
	if (bad) { ev[N].key = v; ev[N].key_size = 256; }
	return monotone_write(db, ev, N + 1);
}
void mse_main(void)
{
	db_open();
	uint64_t win[] = { 0, 508, 1020 };
	uint64_t w = win[mse_choose(3, "window")];
	twice = mse_in(w, w + 3, "written twice");
	int mode = mse_choose(4, "mode");
	int rc = 0;
	env_torn = 1;
	if (mode == 0) rc = batch(0);
	else if (mode == 1) { rc = batch(1); mse_assert(rc != 0, "a batch with a bad event is refused"); }
	else if (mode == 2) { env_fault_at = mse_choose(3, "failing step"); env_armed = 1; rc = batch(0); env_armed = 0; }
	else {
		env_crash_at = mse_choose(3, "crash"); env_armed = 1;
		if (setjmp(env_crash_jmp) == 0) { rc = batch(0); env_armed = 0; }
		else { mse_reach("crashed"); env_reboot(); present = ~0ull; db_open(); check(); goto after; }
	}
	if (mode == 0) mse_assert(rc == 0, "write succeeds");
	if (rc) mse_reach("refused");
	present = rc ? 0 : N;
	check();
after:
	db_put_sz(4000, 0, 0, 0, 1, 2);
	check();
	db_reopen();
	check();
	mse_reach("reopened");
	db_must("refresh partitions between 0 and 10000");
	check();
	db_close();
}

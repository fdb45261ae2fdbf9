// Serial mode: assigned ids are increasing, distinct, beyond everything that
// was present when the environment was opened.
//   s write without id   S batch of two   E write or delete with any id (followed by n before the next s)
#include "hist.h"
#ifndef SEQ
#define SEQ "ss?ns"
#endif
static uint64_t present;  // one past the largest id present when opened
static uint64_t next_min; // the next assigned id is at least this
static void note_present(void)
{
	db_scan(NULL); present = 0;
	for (int i = 0; i < nrow; i++) present = mse_ite(row[i].id >= present, row[i].id + 1, present);
	next_min = present;
}
static void serial(int n)
{
	static uint8_t vb[4][4];
	monotone_event_t ev[4]; memset(ev, 0, sizeof(ev));
	uint64_t tag0 = h_tag;
	for (int i = 0; i < n; i++) {
		uint64_t tag = h_tag++;
		vb[i][0] = tag; vb[i][1] = tag >> 8; vb[i][2] = 0x77;
		ev[i].id = UINT64_MAX; ev[i].value = vb[i]; ev[i].value_size = 2 + (tag & 1);
	}
	int rc = monotone_write(db, ev, n);
	if (rc != 0 && !h_fault) { mse_note(monotone_error(db)); mse_fail("write succeeds"); }
	if (rc != 0) { h_failed = 1; h_compare(); return; }
	db_scan(NULL);
	for (int i = 0; i < n; i++) {
		int at = -1;
		for (int j = 0; j < nrow; j++) if (mse_concretize(row[j].tag == tag0 + i)) { mse_assert(at < 0, "a written event is there once"); at = j; }
		mse_assert(at >= 0, "an event written without an id is there");
		mse_assert(row[at].id >= next_min, "an assigned id is larger than all assigned before and all present at start");
		next_min = row[at].id + 1;
		m_add(row[at].id, 0, 0, 0, tag0 + i);
	}
	mse_reach("assigned");
	h_compare();
}
static void step(char o)
{
	if (o == '?') { static const char s[] = OPSET; o = s[mse_choose(sizeof(s) - 1, "op")]; }
	switch (o) {
	case 's': serial(1); break;
	case 'S': serial(2); break;
	case 'E': h_write(1, 1); break;
	case 'C': { char t[64]; uint64_t p = (mse_choose(3, "create")) * ITV; snprintf(t, sizeof(t), "create partition %llu", (unsigned long long)p); db_must(t); break; }
	default: h_op(o); if (o == 'n') note_present();
	}
}
void mse_main(void)
{
	fl_from = -1;
	db_open();
	db_must("alter storage main set (region_size 40)"); // an event or two in each region
	note_present();
#ifdef CRASHSEQ
	env_torn = 1; env_crash_at = mse_u8("crash step"); mse_assume(env_crash_at <= 63);
	ENV_CRASHABLE(env_armed = 1; h_run(CRASHSEQ););
	env_armed = 0;
	if (!env_crashed) db_close(); else mse_reach("crashed");
	env_reboot(); db_open(); h_compare(); note_present();
#endif
	for (const char* s = SEQ; *s; s++) step(*s);
	h_compare();
	db_reopen(); note_present();
	h_compare();
	serial(1);
	mse_reach("reopened");
	db_close();
}

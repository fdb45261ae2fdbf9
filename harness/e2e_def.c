// Settings and definitions: what a command sets is shown, and shown the same
// after a restart; a refused command changes nothing; a crash or failing call
// leaves the definitions before or after the command.
//   PRE    commands run first        CMD   commands under test, ';' after each
//   ~d digit  ~n digit 1..9  ~b true/false  ~w 0..7  ~x 8..9  ~y letter but l  ~c any printable character but quotes and backslash  ~a letter
//   ~0..~9 the text chosen for the n-th of them
//   EXPECT  "show ...@text that must be shown;"     REFUSED  CMD must be refused
//   STATE   the commands whose output is the state
#include "hist.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef EXPECT
#define EXPECT ""
#endif
#ifndef REFUSED
#define REFUSED 0
#endif
#ifndef STATE
#define STATE "show storages debug;show clouds;show pipeline;"
#endif
#ifndef MODE
#define MODE 0      // 0 plain, 1 crash, 2 failing call
#endif
#ifndef TORN
#define TORN 1
#endif
#ifndef ROWS
#define ROWS 0
#endif
#ifndef BEFORE_OPEN
#define BEFORE_OPEN 0
#endif
#define TEXT 8192
static char var[10][8]; static int nvar, known; // known: already chosen by an earlier run of the same commands
static const char* dir = "/db";
static int expand(const char** s, char* t)
{
	int n = 0;
	for (; **s && **s != ';'; ++*s) {
		if (**s != '~') { t[n++] = **s; continue; }
		char c = *++*s; char* v;
		if (c >= '0' && c <= '9') { v = var[c - '0']; while (*v) t[n++] = *v++; continue; }
		v = var[nvar++];
		if (nvar <= known) { while (*v) t[n++] = *v++; continue; }
		switch (c) {
		case 'd': v[0] = mse_in('0', '9', "digit"); v[1] = 0; break;
		case 'n': v[0] = mse_in('1', '9', "digit"); v[1] = 0; break;
		case 'w': v[0] = mse_in('0', '7', "digit"); v[1] = 0; break; // 0..7, the last digit below 2^63
		case 'x': v[0] = mse_in('8', '9', "digit"); v[1] = 0; break;
		case 'y': v[0] = mse_in('a', 'z', "letter"); v[1] = 0; mse_assume(v[0] != 'l'); break; // not 'l'
		case 'b': strcpy(v, mse_choose(2, "bool") ? "true" : "false"); break;
		case 'a': v[0] = mse_in('a', 'z', "letter"); v[1] = 0; break;
		case 'c': v[0] = mse_in(' ', '~', "character"); v[1] = 0; mse_assume((v[0] != '\'') & (v[0] != '"') & (v[0] != '\\')); break;
		}
		known = nvar;
		while (*v) t[n++] = *v++;
	}
	if (**s == ';') ++*s;
	t[n] = 0;
	return n;
}
static int d_try_open(void)
{
	db = monotone_init();
	mse_assert(db != NULL, "environment can be created");
	db_settings(db_cfg);
	return monotone_open(db, dir);
}
static void d_open(void) { if (d_try_open() != 0) { mse_note(monotone_error(db)); mse_fail("open succeeds on files the engine itself wrote"); } }
// everything shown, as one text
static int shown(char* to)
{
	int n = 0; const char* s = STATE; char t[200];
	while (*s) {
		expand(&s, t);
		char* r = NULL;
		if (monotone_execute(db, t, &r) != 0) { mse_note(t); mse_note(monotone_error(db)); mse_fail("show succeeds"); }
		for (char* p = r; p && *p; p++) { mse_assert(n < TEXT, "harness"); to[n++] = *p; }
		if (r) free(r);
	}
	return n;
}
static uint64_t equal(char* a, int n, char* b, int m) { if (n != m) return 0; uint64_t ne = 0; for (int i = 0; i < n; i++) ne |= a[i] ^ b[i]; return ne == 0; }
static void expected(void)
{
	const char* s = EXPECT; char t[200];
	while (*s) {
		int n = expand(&s, t); char* bar = strchr(t, '@'); *bar++ = 0; int k = n - (bar - t);
		char* r = NULL;
		if (monotone_execute(db, t, &r) != 0) { mse_note(t); mse_note(monotone_error(db)); mse_fail("show succeeds"); }
		uint64_t found = 0; int m = r ? strlen(r) : 0;
		for (int i = 0; i + k <= m; i++) { uint64_t ne = 0; for (int j = 0; j < k; j++) ne |= r[i + j] ^ bar[j]; found |= ne == 0; }
		if (! mse_is_sym(found) && ! found) { mse_note(r); mse_note(bar); }
		mse_assert(found, "what was set is shown");
		if (r) free(r);
	}
}
static int run(const char* s)
{
	char t[400]; int rc = 0;
	while (*s) { expand(&s, t); rc = db_exec(t); if (rc != 0) { mse_assert(monotone_error(db)[0] != 0, "a refusal has a message"); mse_note(t); mse_note(monotone_error(db)); } }
	return rc;
}
static void pre(void)
{
	const char* s = PRE; char t[400];
	while (*s) {
		expand(&s, t);
		if (!strncmp(t, "!", 1)) { h_run(t + 1); continue; } // history letters
		db_must(t);
	}
}
static void check_rows(void) { if (ROWS) { db_scan(NULL); db_compare(0); } }
static char before[TEXT], after[TEXT], again[TEXT]; static int nb, na, ng;
void mse_main(void)
{
	fl_from = -1;
	uint64_t live = env_live();
	d_open();
	pre();
	nb = shown(before);
#ifdef POWERLOSS
	env_powerloss = 1;
#endif
#if MODE == 0
	int rc = run(CMD);
	na = shown(after);
	if (REFUSED || rc != 0) {
		mse_assert(rc != 0, "such a command is refused");
		mse_assert(equal(before, nb, after, na), "a refused command changes nothing");
		mse_reach("refused");
	} else mse_reach("done");
	if (! REFUSED) mse_assert(rc == 0, "a valid command is done");
	expected();
	check_rows();
	for (int i = 0; i < 2; i++) {
		monotone_free(db);
		mse_assert(env_live() == live, "everything is released at close");
		d_open();
		ng = shown(again);
		if (!equal(after, na, again, ng)) { mse_note("before restart: %s", after); mse_note("after: %s", again); }
		mse_assert(equal(after, na, again, ng), "the same is shown after a restart");
		expected();
		check_rows();
		mse_reach("reopened");
	}
#else
	// the state after the command, from a run of its own
	int had = nvar, ops = nmop; char mid[1];
	monotone_free(db); dir = "/db2"; nvar = 0; fl_from = -1;
	h_tag += 0x100;
	{
		static MOp keep[MAXOPS]; memcpy(keep, mop, sizeof(keep));
		d_open(); pre();
		nb = shown(before);
		int had2 = nvar;
		mse_assert(run(CMD) == 0, "a valid command is done");
		na = shown(after);
		monotone_free(db);
		memcpy(mop, keep, sizeof(keep)); nmop = ops;
	}
	dir = "/db"; nvar = had;
	d_open();
#if MODE == 1
	env_torn = TORN;
	env_crash_at = mse_u8("crash step"); mse_assume(env_crash_at <= 63);
	env_step = 0;
	ENV_CRASHABLE(env_armed = 1; run(CMD); env_armed = 0;);
	env_armed = 0;
	if (!env_crashed) { monotone_free(db); mse_reach("no crash"); } else mse_reach("crashed");
	env_reboot();
#else
	env_fault_at = mse_u8("failing step"); mse_assume(env_fault_at <= 63);
	env_torn = TORN;
	env_step = 0; env_armed = 1; int rc = run(CMD); env_armed = 0;
	env_fault_at = ~0ull;
	if (rc != 0) mse_reach("failed");
	ng = shown(again);
	uint64_t now_old = equal(before, nb, again, ng), now_new = equal(after, na, again, ng);
	mse_assert(now_old | now_new, "a failed command is done as a whole or not at all");
	check_rows();
	monotone_free(db);
#endif
	d_open();
	ng = shown(again);
	uint64_t is_old = equal(before, nb, again, ng), is_new = equal(after, na, again, ng);
	if (!(is_old | is_new)) { mse_note("shown: %s", again); }
	mse_assert(is_old | is_new, "definitions are those before or after the command");
#if MODE == 2
	if (rc == 0) mse_assert(is_new, "a command that was done persists");
#endif
	check_rows();
	if (!is_new) { nvar = had; mse_assert(run(CMD) == 0, "the command can be repeated"); ng = shown(again); mse_assert(equal(after, na, again, ng), "the command can be repeated"); }
	expected();
	check_rows();
	monotone_free(db); d_open();
	ng = shown(again);
	mse_assert(equal(after, na, again, ng), "the same is shown after a restart");
	check_rows();
	mse_reach("recovered");
#endif
	monotone_free(db);
	if (MODE != 1) mse_assert(env_live() == live, "everything is released at close");
}

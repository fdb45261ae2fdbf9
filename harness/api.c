// Arguments at and beyond the limits, and use in the wrong state.
#include "db.h"
#ifndef PAGE
#define PAGE 8192
#endif
#ifndef PART
#define PART 0
#endif
#define MAXV (PAGE - sizeof(Page) - sizeof(Event))
static void message(void) { mse_assert(monotone_error(db)[0] != 0, "a refusal has a message"); }
#if PART == 0
static uint8_t key[700], val[PAGE + 64]; static uint64_t ksz, vsz, stored;
static void check_rows(void)
{
	monotone_cursor_t* c = monotone_cursor(db, NULL, NULL);
	mse_assert(c != NULL, "cursor opens");
	monotone_event_t ev;
	int n = 0;
	while (monotone_read(c, &ev) == 1) {
		if (ev.id == 5) { // the event written first
			mse_assert(ev.key_size == 1 && ev.value_size == 1 && *(uint8_t*)ev.key == 'a' && *(uint8_t*)ev.value == 'b', "an earlier event is unchanged");
		} else {
			mse_assert(stored && ev.id == 6, "only accepted events are stored");
			mse_assert(ev.key_size == ksz && ev.value_size == vsz, "the key and value sizes are those given");
			uint64_t ne = 0;
			for (uint64_t i = 0; i < ksz; i++) ne |= ((uint8_t*)ev.key)[i] ^ key[i];
			for (uint64_t i = 0; i < vsz; i++) ne |= ((uint8_t*)ev.value)[i] ^ val[i];
			mse_assert(ne == 0, "the key and value are those given");
			mse_assert((ev.flags & MONOTONE_DELETE) == 0, "an event read is not a delete");
		}
		n++;
		if (monotone_next(c) != 1) break;
	}
	monotone_free(c);
	mse_assert(n == 1 + stored, "every accepted event is read");
}
static void put_first(void)
{
	monotone_event_t ev; memset(&ev, 0, sizeof(ev));
	ev.id = 5; ev.key = "a"; ev.key_size = 1; ev.value = "b"; ev.value_size = 1;
	mse_assert(monotone_write(db, &ev, 1) == 0, "write succeeds");
}
void mse_main(void)
{
	db_open();
	put_first();
	uint64_t ks[] = { 0, 1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513 };
	for (uint64_t i = 0; i < sizeof(key); i++) key[i] = 'k' + i % 7;
	for (uint64_t i = 0; i < sizeof(val); i++) val[i] = 'v' + i % 5;
	int kind = mse_choose(3, "kind");
	monotone_event_t ev[2]; memset(ev, 0, sizeof(ev));
	ev[0].id = 6; ev[0].key = key; ev[0].value = val;
	int ok;
	if (kind == 0) { // sizes around the limits
		ksz = ks[mse_choose(sizeof(ks) / sizeof(*ks), "key size")];
		uint64_t max = MAXV - (ksz <= 255 ? ksz : 0);
		uint64_t vs[] = { 0, 1, 127, 128, 255, 256, max - 1, max, max + 1, max + 2, max + sizeof(Event), max + sizeof(Page) };
		vsz = vs[mse_choose(sizeof(vs) / sizeof(*vs), "value size")];
		if (ksz) { mse_sym(key, 1, "k"); mse_sym(key + ksz - 1, 1, "k"); }
		if (vsz) { mse_sym(val, 1, "v"); mse_sym(val + vsz - 1, 1, "v"); }
		ok = ksz <= 255 && vsz <= max;
	} else if (kind == 1) { // any value size beyond the page
		ksz = ks[mse_choose(7, "key size")];
		vsz = mse_u64("value size");
		mse_assume(vsz > MAXV - ksz);
		ok = 0;
	} else { // any key size beyond 255
		ksz = mse_u64("key size");
		mse_assume(ksz > 255);
		vsz = mse_choose(2, "value size");
		ok = 0;
	}
	ev[0].key_size = ksz; ev[0].value_size = vsz;
	int pos = mse_choose(2, "second of a batch"), rc;
	if (pos) { ev[1] = ev[0]; memset(&ev[0], 0, sizeof(*ev)); ev[0].id = 5; ev[0].key = "a"; ev[0].key_size = 1; ev[0].value = ok ? "b" : "c"; ev[0].value_size = 1; rc = monotone_write(db, ev, 2); }
	else rc = monotone_write(db, ev, 1);
	mse_assert(ok ? rc == 0 : rc != 0, ok ? "sizes within the limits are accepted" : "sizes beyond the limits are refused");
	if (! ok) { message(); mse_reach("refused"); } else mse_reach("accepted");
	stored = ok;
	check_rows();
	if (ok && kind == 0) { // found by its own key
		monotone_event_t k = ev[pos]; k.value = NULL; k.value_size = 0;
		monotone_cursor_t* c = monotone_cursor(db, NULL, &k);
		monotone_event_t got;
		mse_assert(c != NULL, "cursor opens");
		mse_assert(monotone_read(c, &got) == 1 && got.id == 6 && got.key_size == ksz, "an accepted event is found by its key");
		monotone_free(c);
	}
	if (kind == 0) {
		db_must("refresh partitions between 0 and 1000");
		check_rows();
		db_reopen();
		check_rows();
		mse_reach("reopened");
	}
	db_close();
}
#elif PART == 1
// cursor keys of any size, with a value that must not matter
void mse_main(void)
{
	db_open();
	monotone_event_t ev; memset(&ev, 0, sizeof(ev));
	static uint8_t key[600];
	for (int i = 0; i < 600; i++) key[i] = 'k';
	ev.id = 6; ev.key = key; ev.key_size = 200; ev.value = "b"; ev.value_size = 1;
	mse_assert(monotone_write(db, &ev, 1) == 0, "write succeeds");
	monotone_event_t k; memset(&k, 0, sizeof(k)); k.id = 6; k.key = key; k.value = key; k.value_size = mse_choose(2, "with value") ? mse_u64("value size") : 3;
	if (mse_choose(2, "any")) { k.key_size = mse_u64("key size"); mse_assume(k.key_size > 600); }
	else { uint64_t ks[] = { 0, 1, 199, 200, 201, 255, 256, 257, 300, 456, 512, 513, 600 }; k.key_size = ks[mse_choose(13, "key size")]; }
	monotone_cursor_t* c = monotone_cursor(db, NULL, &k);
	if (mse_is_sym(k.key_size) || k.key_size > 255) {
		mse_assert(c == NULL, "a cursor key beyond the limit is refused");
		message(); mse_reach("refused");
	} else {
		monotone_event_t got;
		mse_assert(c != NULL, "a cursor key within the limit is accepted");
		int rc = monotone_read(c, &got);
		mse_assert(k.key_size <= 200 ? rc == 1 : rc == 0, "a cursor starts at its key");
		mse_reach("accepted");
		monotone_free(c);
	}
	// no lock is left
	ev.id = 6; ev.value = "c";
	mse_assert(monotone_write(db, &ev, 1) == 0, "write succeeds");
	db_must("refresh partitions between 0 and 1000");
	db_close();
}
#elif PART == 2
// every operation in every state
static const char* cmds[] = { "show all", "show config", "show wal", "show memory", "show storages", "show storage 'main'", "show partitions", "show partitions on 'main'", "show partition 1", "show pipeline", "show clouds", "show cloud 'x'", "show uuid", "show directory", "show engine",
	"show version", "set log to false", "set interval to 8", "set nosuch to 1", "set online to true", "debug \"wal_gc\"", "debug \"wal_create\"", "debug \"wal_read\"", "debug \"x\"",
	"checkpoint", "service", "rebalance", "create cloud c (type 'mock')", "drop cloud c", "drop cloud if exists c", "alter cloud c set (url 'x')", "create storage s", "create storage if not exists s", "drop storage s", "drop storage if exists main", "alter storage s rename to t", "alter storage main set (sync true)",
	"alter pipeline set main", "alter pipeline reset", "alter pipeline main", "create partition 1", "create partitions between 1 and 2", "drop partition 1", "drop partition if exists 1", "drop partitions between 1 and 9", "move partition 1 into main", "move partitions between 1 and 9 into main", "move partition if exists 1 into nosuch", "refresh partition 1", "refresh partition if exists 1",
	"refresh partitions between 1 and 9", "download partition 1", "download partition if exists 1", "download partitions between 1 and 9", "upload partition 1", "upload partition if exists 1", "upload partitions between 1 and 9", "" };
#define NCMD (sizeof(cmds) / sizeof(*cmds))
static void use(int online, int few)
{
	int n = few ? NCMD + mse_choose(3, "operation") : mse_choose(NCMD + 6, "operation");
	monotone_event_t ev; memset(&ev, 0, sizeof(ev)); ev.id = online == 2 ? mse_in(0, 7, "id") : 1; ev.value = "abc"; ev.value_size = 3;
	if (n < NCMD) {
		mse_note(cmds[n]);
		char* r = NULL;
		int rc = monotone_execute(db, cmds[n], mse_choose(2, "no result wanted") ? NULL : &r);
		if (rc != 0) { message(); mse_assert(r == NULL, "no result with an error"); mse_reach("refused"); }
		if (! online && rc == 0) mse_assert(!strncmp(cmds[n], "show", 4) || !strncmp(cmds[n], "set", 3) || !cmds[n][0], "only settings can be used before the environment is open");
		if (r) { mse_assert(strlen(r) > 0, "a result is text"); free(r); }
	} else if (n == NCMD) {
		int rc = monotone_write(db, &ev, 1);
		mse_assert(online ? rc == 0 : rc != 0, online ? "write succeeds" : "a write before the environment is open is refused");
		if (rc) message();
	} else if (n == NCMD + 1) {
		monotone_cursor_t* c = monotone_cursor(db, NULL, mse_choose(2, "from") ? &ev : NULL);
		mse_assert(online ? c != NULL : c == NULL, online ? "cursor opens" : "a cursor before the environment is open is refused");
		if (c) monotone_free(c); else message();
	} else if (n == NCMD + 2) {
		int counts[] = { 0, -1, -1000000, 0x80000000 };
		int rc = monotone_write(db, mse_choose(2, "no events") ? NULL : &ev, counts[mse_choose(4, "count")]);
		mse_assert(online || rc != 0, "a write before the environment is open is refused");
		if (rc) message();
	} else if (n == NCMD + 3) {
		if (online) { mse_assert(monotone_open(db, "/db") != 0, "an open environment cannot be opened again"); message(); }
	} else if (n == NCMD + 4) {
		if (online) { mse_assert(monotone_open(db, "/other") != 0, "an open environment cannot be opened again"); message(); mse_assert(!env_exists("/other"), "refused without touching anything"); }
	} else ;
}
void mse_main(void)
{
	int state = mse_choose(3, "state");
	db = monotone_init();
	mse_assert(db != NULL, "environment can be created");
	db_settings(db_cfg);
	if (state == 0) { // not open yet
		use(0, 0);
		use(0, 1);
		mse_reach("before open");
		mse_assert(monotone_open(db, "/db") == 0, "open succeeds");
	} else if (state == 1) { // refused: no such parent directory
		mse_assert(monotone_open(db, "/no/such/dir") != 0, "open fails");
		message();
		use(0, 0);
		mse_reach("after failed open");
		db_close();
		db_open();
	} else {
		mse_assert(monotone_open(db, "/db") == 0, "open succeeds");
		use(2, 0);
		use(2, 1);
		mse_reach("open");
	}
	// still works
	db_put_sz(900, 0, 0, 0, 2, 2);
	db_scan(NULL);
	int found = 0;
	for (int i = 0; i < nrow; i++) { if (row[i].id == 900) found++; else mse_assert(row[i].id < 8, "only written events are read"); }
	mse_assert(found == 1, "the environment still works");
	db_must("refresh partitions between 0 and 2000");
	db_reopen();
	db_scan(NULL);
	mse_assert(nrow >= 1 && row[nrow - 1].id == 900, "the environment still works after a restart");
	db_close();
	mse_assert(env_open_fds() == 0, "no descriptor is left open after close");
}
#endif

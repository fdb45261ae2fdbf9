// helpers shared by the demonstrations
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/wait.h>
#include <monotone.h>
static monotone_t* db; static char dbpath[512];
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); _exit(1); } while (0)
#define CHECK(c) do { if (!(c)) FAIL("%s:%d: %s", __FILE__, __LINE__, #c); } while (0)
static int try_exec(const char* f, ...)
{
	char t[2048]; va_list a; va_start(a, f); vsnprintf(t, sizeof(t), f, a); va_end(a);
	char* r = NULL; int rc = monotone_execute(db, t, &r); if (r) free(r); return rc;
}
static void exec(const char* f, ...)
{
	char t[2048]; va_list a; va_start(a, f); vsnprintf(t, sizeof(t), f, a); va_end(a);
	char* r = NULL; if (monotone_execute(db, t, &r)) FAIL("%s: %s", t, monotone_error(db)); if (r) free(r);
}
static char* query(const char* q) { char* r = NULL; if (monotone_execute(db, q, &r)) FAIL("%s: %s", q, monotone_error(db)); return r; }
// settings separated by ';' are applied before opening
static int try_open_db(const char* settings)
{
	db = monotone_init(); CHECK(db);
	exec("set workers to 0"); exec("set workers_upload to 0"); exec("set log to false"); exec("set serial to false"); exec("set sync to false"); exec("set compression to ''");
	char t[1024]; snprintf(t, sizeof(t), "%s", settings ? settings : "");
	for (char* p = strtok(t, ";"); p; p = strtok(NULL, ";")) exec("%s", p);
	return monotone_open(db, dbpath);
}
static void open_db(const char* settings) { if (try_open_db(settings)) FAIL("open: %s", monotone_error(db)); }
static void close_db(void) { monotone_free(db); db = NULL; }
static int try_putk(int flags, uint64_t id, const char* key, const char* value)
{
	monotone_event_t e; memset(&e, 0, sizeof(e));
	e.flags = flags; e.id = id; e.key = (void*)key; e.key_size = key ? strlen(key) : 0; e.value = (void*)value; e.value_size = value ? strlen(value) : 0;
	return monotone_write(db, &e, 1);
}
static void putk(uint64_t id, const char* key, const char* value) { if (try_putk(0, id, key, value)) FAIL("write: %s", monotone_error(db)); }
static void put(uint64_t id, const char* value) { putk(id, NULL, value); }
static void del(uint64_t id) { if (try_putk(MONOTONE_DELETE, id, NULL, NULL)) FAIL("delete: %s", monotone_error(db)); }
// "id=value " or "id:key=value " for every event at or after id
static char* scan_from(monotone_event_t* from)
{
	static char out[1 << 16]; int n = 0; out[0] = 0;
	monotone_cursor_t* c = monotone_cursor(db, NULL, from); if (!c) FAIL("cursor: %s", monotone_error(db));
	monotone_event_t e;
	int rc;
	while ((rc = monotone_read(c, &e)) == 1) {
		n += snprintf(out + n, sizeof(out) - n, "%llu", (unsigned long long)e.id);
		if (e.key_size) n += snprintf(out + n, sizeof(out) - n, ":%.*s", (int)e.key_size, (char*)e.key);
		n += snprintf(out + n, sizeof(out) - n, "=%.*s ", (int)e.value_size, (char*)e.value);
		if (monotone_next(c) == -1) FAIL("next: %s", monotone_error(db));
	}
	if (rc == -1) FAIL("read: %s", monotone_error(db));
	monotone_free(c);
	return out;
}
static char* scan(void) { return scan_from(NULL); }
static char* scan_id(uint64_t id) { monotone_event_t k; memset(&k, 0, sizeof(k)); k.id = id; return scan_from(&k); }
static void expect(const char* got, const char* want) { if (strcmp(got, want)) FAIL("got '%s', expected '%s'", got, want); }
static void setup(int argc, char** argv) { snprintf(dbpath, sizeof(dbpath), "%s/db", argv[1]); }

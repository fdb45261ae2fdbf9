#pragma once
// Drives the engine through its public API and compares what it returns with
// a reference map.
#include <monotone_runtime.h>
#include <monotone_lib.h>
#include <monotone_config.h>
#include <monotone_cloud.h>
#include <monotone_io.h>
#include <monotone_storage.h>
#include <monotone_wal.h>
#include <monotone_engine.h>
#include <monotone_command.h>
#include <monotone_main.h>
#include <monotone.h>
#include "env.h"

static monotone_t* db;
#ifndef DB_SETUP
#define DB_SETUP ""
#endif
#ifndef ITV
#define ITV 4
#endif
#define DB_STR2(x) #x
#define DB_STR(x) DB_STR2(x)
static int db_exec(const char* cmd)
{
	char* result = NULL;
	int rc = monotone_execute(db, cmd, &result);
	if (result) free(result);
	return rc;
}
static void db_must(const char* cmd)
{
	if (db_exec(cmd) != 0) { mse_note(cmd); mse_note(monotone_error(db)); mse_fail("command failed"); }
}
// settings: text with one command per ';'
static void db_settings(const char* s)
{
	char t[160]; int n = 0;
	for (;; s++) {
		if (*s && *s != ';') { t[n++] = *s; continue; }
		t[n] = 0;
		if (n) db_must(t);
		n = 0;
		if (! *s) break;
	}
}
static const char* db_cfg = "set workers to 0;set workers_upload to 0;set log to false;set serial to false;set compression to '';set sync to false;set interval to " DB_STR(ITV) ";" DB_SETUP;
static int db_try_open(void)
{
	db = monotone_init();
	mse_assert(db != NULL, "environment can be created");
	db_settings(db_cfg);
	return monotone_open(db, "/db");
}
static void db_open(void)
{
	if (db_try_open() != 0) { mse_note(monotone_error(db)); mse_fail("open succeeds on files the engine itself wrote"); }
}
static void db_close(void);
static void db_reopen(void) { db_close(); db_open(); }
static void db_close(void) { monotone_free(db); db = NULL; }

// reference ------------------------------------------------------------
#ifndef MAXOPS
#define MAXOPS 24
#endif
#ifndef MAXROWS
#define MAXROWS (MAXOPS + 2)
#endif
typedef struct { uint64_t id; uint64_t klen; uint64_t key; uint64_t del; uint64_t tag; uint64_t on; uint64_t hi; int range; } MOp; // range: a dropped partition; // key: up to 2 bytes, big endian in the low 16 bits
static MOp mop[MAXOPS]; static int nmop;
typedef struct { uint64_t id, klen, key, tag, vsize; } Row;
static Row row[MAXROWS]; static int nrow;

static uint64_t same(uint64_t id, uint64_t klen, uint64_t key, MOp* o) { if (o->range) return (id >= o->id) & (id <= o->hi); return (o->id == id) & (o->klen == klen) & (o->key == key); }
static void m_add(uint64_t id, uint64_t klen, uint64_t key, uint64_t del, uint64_t tag)
{
	MOp* o = &mop[nmop++]; o->id = id; o->klen = klen; o->key = key; o->del = del; o->tag = tag; o->on = 1; o->range = 0;
}
// tag of the live event or 0
static uint64_t m_get(uint64_t id, uint64_t klen, uint64_t key)
{
	uint64_t r = 0;
	for (int i = 0; i < nmop; i++) r = mse_ite(mop[i].on & same(id, klen, key, &mop[i]), mse_ite(mop[i].del, 0, mop[i].tag), r);
	return r;
}
// number of live events in [lo, hi]
static uint64_t m_count(uint64_t lo, uint64_t hi)
{
	uint64_t n = 0;
	for (int i = 0; i < nmop; i++) {
		uint64_t last = mop[i].on & !mop[i].del & (mop[i].id >= lo) & (mop[i].id <= hi);
		for (int j = i + 1; j < nmop; j++) last &= !(mop[j].on & same(mop[i].id, mop[i].klen, mop[i].key, &mop[j]));
		n += last;
	}
	return n;
}
// writes ---------------------------------------------------------------
// value carries the tag (and optional padding)
static int db_put_sz(uint64_t id, uint64_t klen, uint64_t key, uint64_t del, uint64_t tag, uint64_t vsize)
{
	static uint8_t kb[2]; static uint8_t vb[4096];
	if (klen == 1) kb[0] = (uint8_t)key; else if (klen == 2) { kb[0] = (uint8_t)(key >> 8); kb[1] = (uint8_t)key; }
	memset(vb, 0x77, vsize < sizeof(vb) ? vsize : sizeof(vb));
	vb[0] = (uint8_t)tag; vb[1] = (uint8_t)(tag >> 8);
	monotone_event_t ev; memset(&ev, 0, sizeof(ev));
	ev.flags = del ? MONOTONE_DELETE : 0;
	ev.id = id; ev.key = klen ? kb : NULL; ev.key_size = klen; ev.value = vb; ev.value_size = vsize;
	return monotone_write(db, &ev, 1);
}
static void db_put(uint64_t id, uint64_t klen, uint64_t key, uint64_t del, uint64_t tag)
{
	int rc = db_put_sz(id, klen, key, del, tag, 2 + (tag & 1));
	if (rc != 0) { mse_note(monotone_error(db)); mse_fail("write succeeds"); }
	m_add(id, klen, key, del, tag);
}
// a symbolic write inside [lo, hi]
// any id in [lo, hi]; one path per partition, symbolic inside it
static uint64_t db_id(uint64_t lo, uint64_t hi)
{
	uint64_t p0 = lo / ITV, p1 = hi / ITV;
	uint64_t p = p0 + (p1 > p0 ? mse_choose(p1 - p0 + 1, "part") : 0);
	uint64_t a = p * ITV < lo ? lo : p * ITV, b = p * ITV + ITV - 1 > hi ? hi : p * ITV + ITV - 1;
	return mse_in(a, b, "id");
}
static uint64_t sym_key(uint64_t klen) { return klen == 1 ? mse_u8("key") : klen == 2 ? mse_u16("key") : 0; }
static void db_put_sym(uint64_t lo, uint64_t hi, int keys, int dels, uint64_t tag)
{
#ifdef WIDE
	uint64_t id = mse_u64("id");
#else
	uint64_t id = db_id(lo, hi);
#endif
	uint64_t klen = keys ? mse_choose(keys + 1, "klen") : 0;
	uint64_t key = klen ? mse_in(0x61, 0x63, "key") : 0;
	if (klen == 2) key = (key << 8) | 0x62;
	uint64_t del = dels ? mse_choose(2, "delete") : 0;
	db_put(id, klen, key, del, tag);
}
// reads ----------------------------------------------------------------
static int row_of(monotone_cursor_t* c, Row* r)
{
	monotone_event_t ev; memset(&ev, 0, sizeof(ev));
	int rc = monotone_read(c, &ev);
	if (rc != 1) return rc;
	r->id = ev.id; r->klen = ev.key_size; r->vsize = ev.value_size; r->key = 0;
	uint8_t* k = ev.key; uint8_t* v = ev.value;
	mse_assert(ev.key_size <= 2, "key size read back is one that was written");
	if (ev.key_size == 1) r->key = k[0]; else if (ev.key_size == 2) r->key = ((uint64_t)k[0] << 8) | k[1];
	mse_assert(ev.value_size >= 2, "value size read back is one that was written");
	r->tag = v[0] | ((uint64_t)v[1] << 8);
	return 1;
}
static void db_scan(monotone_event_t* from)
{
	nrow = 0;
	monotone_cursor_t* c = monotone_cursor(db, NULL, from);
	if (! c) { mse_note(monotone_error(db)); mse_fail("cursor opens"); }
	Row r;
	for (;;) {
		int rc = row_of(c, &r);
		mse_assert(rc != -1, "read succeeds");
		if (rc == 0) break;
		mse_assert(nrow < MAXROWS, "cursor returns no more events than were written");
		row[nrow++] = r;
		rc = monotone_next(c);
		if (rc == -1) mse_note(monotone_error(db));
		mse_assert(rc != -1, "next succeeds");
		if (rc == 0) { Row t; mse_assert(row_of(c, &t) == 0, "nothing can be read after the end"); break; }
	}
	monotone_free(c);
}
static uint64_t key_less(uint64_t alen, uint64_t a, uint64_t blen, uint64_t b)
{
	// byte-wise, a proper prefix sorts first
	uint64_t a0 = mse_ite(alen == 2, a >> 8, a), b0 = mse_ite(blen == 2, b >> 8, b);
	uint64_t both = (alen != 0) & (blen != 0);
	uint64_t first_less = both & (a0 < b0), first_eq = !both | (a0 == b0);
	uint64_t both2 = (alen == 2) & (blen == 2);
	uint64_t sec_less = both2 & ((a & 255) < (b & 255)), sec_eq = !both2 | ((a & 255) == (b & 255));
	return first_less | (first_eq & (sec_less | (sec_eq & (alen < blen))));
}
static uint64_t row_less(Row* a, Row* b) { return (a->id < b->id) | ((a->id == b->id) & key_less(a->klen, a->key, b->klen, b->key)); }
// rows are exactly the live events at or after lo, in order
static uint64_t db_all; static int db_soft;
static void must(uint64_t c, const char* m) { if (db_soft) db_all &= c; else mse_assert(c, m); }
static void db_compare_at(Row* lo)
{
	for (int i = 0; i + 1 < nrow; i++) must(row_less(&row[i], &row[i + 1]), "events come back in strictly increasing (id, key) order");
	for (int i = 0; i < nrow; i++) {
		uint64_t t = m_get(row[i].id, row[i].klen, row[i].key);
		must(t != 0, "every event read was written and not deleted");
		must(t == row[i].tag, "an event read has the value of its last write");
		must(row[i].vsize == 2 + (row[i].tag & 1), "a value read back has the size that was written");
		must(!row_less(&row[i], lo), "a cursor starts at its key");
	}
	// each live event is among the rows
	for (int i = 0; i < nmop; i++) {
		if (mop[i].range) continue;
		Row r = { mop[i].id, mop[i].klen, mop[i].key, 0, 0 };
		uint64_t found = !mop[i].on | (mop[i].del != 0) | row_less(&r, lo);
		for (int j = i + 1; j < nmop; j++) found |= mop[j].on & same(mop[i].id, mop[i].klen, mop[i].key, &mop[j]);
		for (int j = 0; j < nrow; j++) found |= same(row[j].id, row[j].klen, row[j].key, &mop[i]);
		must(found, "every live event is read");
	}
}
static uint64_t db_equal_at(Row* lo) { db_soft = 1; db_all = 1; db_compare_at(lo); db_soft = 0; return db_all; }
static void db_compare(uint64_t lo) { Row r = { lo, 0, 0, 0, 0 }; db_compare_at(&r); }
static void db_check(void) { db_scan(NULL); db_compare(0); }
static void db_check_from(uint64_t id) { monotone_event_t k; memset(&k, 0, sizeof(k)); k.id = id; db_scan(&k); db_compare(id); }
static void db_check_at(uint64_t id, uint64_t klen, uint64_t key)
{
	static uint8_t kb[2];
	if (klen == 1) kb[0] = (uint8_t)key; else if (klen == 2) { kb[0] = (uint8_t)(key >> 8); kb[1] = (uint8_t)key; }
	monotone_event_t k; memset(&k, 0, sizeof(k)); k.id = id; k.key = klen ? kb : NULL; k.key_size = klen;
	db_scan(&k);
	Row r = { id, klen, key, 0, 0 };
	db_compare_at(&r);
}
static void db_refresh(uint64_t min) { char t[64]; snprintf(t, sizeof(t), "refresh partition %llu", (unsigned long long)min); db_must(t); }
// number shown for a field by a show command (concrete), -1 if it is not there
static int64_t db_show(const char* cmd, const char* field)
{
	char* r = NULL; int64_t v = -1;
	if (monotone_execute(db, cmd, &r) != 0) { mse_note(monotone_error(db)); mse_fail("show succeeds"); }
	size_t n = strlen(field);
	for (char* p = r; p && *p; p++) if (*p == '"' && !strncmp(p + 1, field, n) && p[1 + n] == '"') {
		p += n + 2; while (*p == ':' || *p == ' ') p++;
		if (*p < '0' || *p > '9') continue;
		for (v = 0; *p >= '0' && *p <= '9'; p++) v = v * 10 + *p - '0';
		break;
	}
	if (r) free(r);
	return v;
}
static int db_wal_files(void) { int n = 0; for (int i = 0; i < env_files(); i++) if (strstr(env_file(i), ".wal")) n++; return n; }

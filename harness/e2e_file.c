// Histories of writes, deletes, refreshes, moves and restarts over one or two
// partitions with small regions; the results are compared before and after a
// restart.  STORE is a list of settings applied to the storage.
#include "db.h"
#ifndef OPS
#define OPS 2
#endif
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI (ITV - 1)
#endif
#ifndef KEYS
#define KEYS 0
#endif
#ifndef DELS
#define DELS 1
#endif
#ifndef PRE
#define PRE 0      // events already in the file: ids PSTEP, 2 * PSTEP ...
#endif
#ifndef PSTEP
#define PSTEP 3
#endif
static const char* store =
#ifdef STORE_SMALL
	"alter storage main set (region_size 60)"
#elif defined(STORE_ZSTD)
	"alter storage main set (region_size 90, compression 'zstd')"
#elif defined(STORE_LZ4)
	"alter storage main set (region_size 60, compression 'lz4', crc true)"
#elif defined(STORE_AES)
	"alter storage main set (region_size 60, encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')"
#elif defined(STORE_ALL)
	"alter storage main set (region_size 90, compression 'zstd', crc true, encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')"
#else
	"alter storage main set (crc true)"
#endif
	;
static void refresh(void)
{
#ifdef MOVE
	switch (mse_choose(3, "action")) {
	case 0: return;
	case 1: db_must("refresh partitions between 0 and 1000"); break;
	case 2: { static int to; db_must(to ? "move partitions between 0 and 1000 into main" : "move partitions between 0 and 1000 into other"); to = !to; break; }
	}
	mse_reach("refreshed");
#else
	if (mse_choose(2, "refresh")) { db_must("refresh partitions between 0 and 1000"); mse_reach("refreshed"); }
#endif
}
void mse_main(void)
{
	db_open();
	db_must(store);
#ifdef MOVE
	db_must("create storage other (sync false, region_size 60)");
#endif
#if PRE
	for (int i = 0; i < PRE; i++) db_put((i + 1) * PSTEP, 0, 0, 0, 0x201 + i);
	db_must("refresh partitions between 0 and 1000");
#endif
	for (int i = 0; i < OPS; i++) {
		db_put_sym(LO, HI, KEYS, DELS, 0x101 + i);
		if (i + 1 < OPS || !PRE) refresh();
	}
#if PRE
	refresh();
#endif
#if defined(SEEK) && KEYS
	uint64_t sl = mse_choose(KEYS + 1, "seek klen"), sk = sl ? mse_in(0x60, 0x64, "seek key") : 0;
	if (sl == 2) sk = (sk << 8) | mse_in(0x61, 0x63, "seek key2");
	db_check_at(mse_in(LO, HI, "from"), sl, sk);
	mse_reach("sought");
#elif defined(SEEK)
	db_check_from(mse_in(LO, HI, "from"));
	mse_reach("sought");
#else
	db_check();
	mse_reach("scanned");
#endif
#ifdef REOPEN
	db_reopen();
	db_check();
	mse_reach("reopened");
#endif
	db_close();
}

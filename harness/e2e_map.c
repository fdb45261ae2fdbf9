// Symbolic writes over several partitions, then a full scan and a scan from a
// symbolic position.  LO..HI ids, OPS writes, optional refresh in between.
#include "db.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef LO
#define LO 2
#endif
#ifndef HI
#define HI 9
#endif
#ifndef KEYS
#define KEYS 0
#endif
#ifndef DELS
#define DELS 1
#endif
#ifndef REFRESH
#define REFRESH 0
#endif
void mse_main(void)
{
	db_open();
	for (int i = 0; i < OPS; i++) {
		db_put_sym(LO, HI, KEYS, DELS, 0x101 + i);
#if REFRESH
		if (mse_choose(2, "refresh")) { db_must("refresh partitions between 0 and 1000"); mse_reach("refreshed"); }
#endif
	}
	db_check();
	mse_reach("scanned");
#if defined(SEEK) && KEYS
	uint64_t sl = mse_choose(KEYS + 1, "seek klen"), sk = sl ? mse_in(0x60, 0x64, "seek key") : 0;
	if (sl == 2) sk = (sk << 8) | mse_in(0x61, 0x63, "seek key2");
	db_check_at(mse_in(LO, HI, "from"), sl, sk);
	mse_reach("sought");
#elif defined(SEEK)
	#ifdef WIDE
	db_check_from(mse_u64("from"));
#else
	db_check_from(mse_in(LO - 1, HI + 1, "from"));
#endif
	mse_reach("sought");
#endif
	db_close();
	mse_assert(env_open_fds() == 0, "no descriptor is left open after close");
}

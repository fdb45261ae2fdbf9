// Histories without failures: every operation chosen from a set, compared at
// the end, after a restart, and after a second one.  Sequence numbers never go
// back; a WAL file is gone once everything in it is stored.
#include "hist.h"
#ifndef SEQ
#define SEQ "d?d"
#endif
#ifndef POST
#define POST ""
#endif
void mse_main(void)
{
	fl_from = -1;
	db_open();
#ifdef OTHER
	h_storages();
#endif
	h_run(SEQ);
	h_compare();
	int64_t lsn = db_show("show wal", "lsn");
	mse_assert(lsn >= 0, "the sequence number is shown");
#ifdef STORED
	// everything is stored: only the current WAL file stays
	db_must("refresh partitions between 0 and 1000000"); db_must("debug \"wal_create\""); db_must("debug \"wal_gc\"");
	mse_assert(db_wal_files() == 1, "once everything is stored garbage collection leaves only the current WAL file");
	h_compare();
	mse_reach("stored");
#endif
	db_reopen();
	h_compare();
	mse_assert(db_show("show wal", "lsn") >= lsn, "sequence numbers do not go back after a restart");
	mse_reach("reopened");
	db_reopen();
	h_compare();
	h_run(POST);
	h_compare();
	db_reopen();
	h_compare();
	mse_reach("again");
#ifdef FILES
	h_files();
#endif
	db_close();
}

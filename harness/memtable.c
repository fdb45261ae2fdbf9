// Memory table with small pages: any sequence of sets and unsets of symbolic
// ids, compared with a reference map; contents, order, seek and iteration.
#include "db.h"
#ifndef OPS
#define OPS 6
#endif
#ifndef PAGE
#define PAGE 4
#endif
#ifndef IDBITS
#define IDBITS 64
#endif
static Event* ev[OPS]; static uint64_t live[OPS];
static uint64_t same_key(Event* a, Event* b) { return (a->id == b->id); }
void mse_main(void)
{
	db = monotone_init();
	extern __thread Runtime mn_runtime;
	Comparator cmp; comparator_init(&cmp);
	memory_mgr_set(global()->memory_mgr, 4096, 1 << 20, 0, &config()->mm_limit_behaviour.string, 0);
	Memtable mt; memtable_init(&mt, PAGE, PAGE / 2, &cmp);
	int n = 0;
	for (int i = 0; i < OPS; i++) {
		EventArg a; memset(&a, 0, sizeof(a));
#if IDBITS == 64
		a.id = mse_u64("id");
#else
		a.id = mse_in(0, (1u << IDBITS) - 1, "id");
#endif
		Event* e = event_allocate(&mt.heap, &a);
		ev[n] = e; live[n] = 0;
#ifdef UNSET
		if (n > 0 && mse_choose(2, "unset")) {
			uint64_t any = 0;
			for (int j = 0; j < n; j++) any |= live[j] & same_key(ev[j], e);
			if (!any) mse_end();
			memtable_unset(&mt, e);
			for (int j = 0; j < n; j++) live[j] &= !same_key(ev[j], e);
		} else
#endif
		{
			Event* prev = memtable_set(&mt, e);
			uint64_t had = 0;
			for (int j = 0; j < n; j++) { uint64_t s = live[j] & same_key(ev[j], e); had |= s; mse_assert(!s | (prev == ev[j]), "replacing returns the previous event"); live[j] &= !s; }
			mse_assert(had == (prev != NULL), "a previous event is returned only for the same key");
			live[n] = 1;
		}
		n++;
	}
	uint64_t cnt = 0;
	for (int j = 0; j < n; j++) cnt += live[j];
	mse_assert(mt.count == cnt, "count of events");
	Event* max = NULL;
	MemtableIterator it; memtable_iterator_init(&it);
	memtable_iterator_open(&it, &mt, NULL, false);
	Event* prev = NULL; uint64_t seen = 0;
	while (memtable_iterator_has(&it)) {
		Event* at = memtable_iterator_at(&it);
		mse_assert(at != NULL, "an event");
		uint64_t ok = 0;
		for (int j = 0; j < n; j++) ok |= live[j] & (at == ev[j]);
		mse_assert(ok, "an event returned is live");
		if (prev) mse_assert(prev->id < at->id, "events are in increasing order");
		prev = at; max = at; seen++;
		mse_assert(seen <= OPS, "iteration ends");
		memtable_iterator_next(&it);
	}
	memtable_iterator_close(&it);
	mse_assert(seen == cnt, "every live event is returned");
	if (cnt) mse_assert(memtable_max(&mt) == max, "the largest event");
	mse_reach("iterated");
#ifdef SEEK
	EventArg a; memset(&a, 0, sizeof(a)); a.id = mse_u64("key");
	Event* key = event_malloc(&a);
	memtable_iterator_init(&it);
	bool match = memtable_iterator_open(&it, &mt, key, false);
	Event* at = memtable_iterator_at(&it);
	uint64_t exact = 0, ge = 0;
	for (int j = 0; j < n; j++) { exact |= live[j] & (ev[j]->id == a.id); ge |= live[j] & (ev[j]->id >= a.id); }
	mse_assert(match == exact, "a seek matches exactly the present keys");
	mse_assert((at != NULL) == ge, "a seek finds an event when there is one at or after the key");
	if (at) for (int j = 0; j < n; j++) mse_assert(!live[j] | (ev[j]->id < a.id) | (ev[j]->id >= at->id), "a seek finds the first event at or after the key");
	if (at) mse_assert(at->id >= a.id, "a seek finds an event at or after the key");
	mse_reach("sought");
#endif
}

// Event memory: allocations of symbolic sizes over two heaps, resets, trimming
// of the cache, limits that fail or wait, failing mmap.
#include "lib.h"
#ifndef PAGE
#define PAGE 256
#endif
#ifndef OPS
#define OPS 4
#endif
static MemoryMgr m;
static Heap h[3];
typedef struct { uint64_t at, size; int heap; } A;
static A al[OPS + 8]; static int nal;
static uint64_t data_size(void) { return m.page_size; }
static int set(const char* how, uint64_t cache, int limit, uint64_t wm)
{
	Str s; str_set_cstr(&s, how);
	return TRY(memory_mgr_set(&m, PAGE, cache, limit, &s, wm));
}
static void accounting(void)
{
	uint64_t used = atomic_u32_of(&h[0].list_count) + atomic_u32_of(&h[1].list_count) + atomic_u32_of(&h[2].list_count);
	mse_assert(env_maps == used + m.free_list_count, "every page belongs to a heap or is free");
	mse_assert(m.count == (int)env_maps, "pages counted are the pages taken");
	mse_assert(heap_used(&h[0]) == atomic_u32_of(&h[0].list_count) * (uint64_t)PAGE, "memory of a heap");
}
static void* take(int heap, uint64_t size, int* failed)
{
	void* volatile p = NULL;
	int ok = TRY(p = heap_allocate(&h[heap], (int)size));
	*failed = !ok;
	return p;
}
static void got(int heap, void* p, uint64_t size)
{
	for (int i = 0; i < nal; i++) if (al[i].heap >= 0)
		mse_assert(((uint64_t)p + size <= al[i].at) | (al[i].at + al[i].size <= (uint64_t)p), "memory in use is not handed out again");
	uint64_t in = 0;
	for (Page* x = h[heap].list; x; x = x->next) in |= ((uint64_t)p >= (uint64_t)x->data) & ((uint64_t)p + size <= (uint64_t)x->data + data_size());
	mse_assert(in, "memory inside a page of the heap");
	al[nal].at = (uint64_t)p; al[nal].size = size; al[nal].heap = heap; nal++;
}
static void reset(int heap)
{
	heap_reset(&h[heap]);
	for (int i = 0; i < nal; i++) if (al[i].heap == heap) al[i].heap = -1;
}
static void done(void)
{
	reset(0); reset(1); reset(2);
	accounting();
	mse_assert(m.count == m.free_list_count, "all pages are free again");
	memory_mgr_free(&m);
	mse_assert(env_maps == 0, "every page is returned");
	mse_reach("done");
}
#ifdef WAIT
static int ready, finished;
static void* waiter(void* arg)
{
	extern __thread Runtime mn_runtime; (void)mn_runtime;
	int f; void* p = take((int)(uint64_t)arg, data_size(), &f);
	mse_assert(p != NULL && !f, "a waiting writer gets its memory");
	finished++;
	return NULL;
}
#endif
void mse_main(void)
{
	lib_init();
	uint64_t base = env_maps; mse_assert(base == 0, "no memory is taken before use");
	memory_mgr_init(&m);
	heap_init(&h[0], &m); heap_init(&h[1], &m); heap_init(&h[2], &m);
#ifdef WAIT
	// the limit is reached by the first heap; a writer of the second waits; the first frees its memory
	uint64_t cache = mse_choose(2, "cache") ? 1 << 20 : 0;
	mse_assert(set("block", cache, 1, 2 * (PAGE - sizeof(Page))), "setting");
	int f; for (int i = 0; i < 2; i++) { take(0, data_size(), &f); mse_assert(!f, "below the limit"); }
	mse_set_preempt(WAIT);
	int t = mse_thread((void*)waiter, (void*)1), t2 = -1;
#ifdef TWO
	t2 = mse_thread((void*)waiter, (void*)2);
#endif
	mse_preempt();
	heap_reset(&h[0]);
	if (mse_choose(2, "trim")) memory_mgr_reset(&m);
	while (!mse_thread_done(t)) mse_block(MSE_JOIN + t);
	while (t2 >= 0 && !mse_thread_done(t2)) mse_block(MSE_JOIN + t2);
	mse_assert(finished == 1 + (t2 >= 0), "a waiting writer continues");
	mse_reach("waited");
	done();
#elif defined(LIMIT)
	uint64_t pages = mse_in(1, 3, "limit in pages"), wm = pages * PAGE - mse_in(0, PAGE - 1, "less");
	mse_assert(set("error", mse_choose(2, "cache") ? 1 << 20 : 0, 1, wm), "setting");
	for (int i = 0; i < OPS; i++) {
		int heap = mse_choose(2, "heap");
		if (mse_choose(3, "op") == 2) { reset(heap); if (mse_choose(2, "trim")) memory_mgr_reset(&m); mse_reach("reset"); accounting(); continue; }
		uint64_t size = mse_choose(2, "size") ? data_size() : data_size() / 2, before = env_maps, hits = m.limit_hits; int free_pages = m.free_list_count;
		int f; void* p = take(heap, size, &f);
		if (f) {
			mse_assert(before * PAGE >= wm, "memory is refused only at the limit");
			mse_assert(free_pages == 0, "free pages are used first");
			mse_assert(m.limit_hits == hits + 1, "refusals are counted");
			mse_reach("refused");
		} else {
			mse_assert(p != NULL, "memory");
			mse_assert(env_maps == before || before * (PAGE - sizeof(Page)) < wm, "no further page is taken at the limit");
			got(heap, p, size);
			mse_reach("allocated");
		}
		accounting();
	}
	done();
#elif defined(NOMEM)
	mse_assert(set("block", 1 << 20, mse_choose(2, "limit"), PAGE * 2), "setting");
	for (int i = 0; i < OPS; i++) {
		int heap = mse_choose(2, "heap"), fail = mse_choose(2, "fail");
		if (m.limit && env_maps >= 2) break;
		env_map_fail = fail;
		int f; void* p = take(heap, data_size(), &f);
		mse_assert(f == fail, "a failing system call is reported");
		env_map_fail = 0;
		if (!f) got(heap, p, data_size()); else mse_reach("failed");
		accounting();
	}
	done();
#else
	static const uint64_t caches[] = { 0, PAGE, 1 << 20 };
	mse_assert(set("block", caches[mse_choose(3, "cache")], 0, 0), "setting");
	for (int i = 0; i < OPS; i++) {
		int heap = mse_choose(2, "heap"), op = mse_choose(3, "op");
		if (op == 1) { reset(heap); mse_reach("reset"); }
		else if (op == 2) memory_mgr_reset(&m);
		else {
			uint64_t size = mse_in(1, 511, "size");
			int f; void* p = take(heap, size, &f);
			mse_assert(!f, "no limit is set");
			if (size > data_size()) { mse_assert(p == NULL, "more than a page is refused"); mse_reach("too large"); }
			else { mse_assert(p != NULL, "memory"); got(heap, p, size); mse_reach("allocated"); }
		}
		accounting();
	}
	done();
#endif
	lib_free();
}

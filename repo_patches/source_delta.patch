From 547860a025f2ce8a096406796c1e02d21948a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 01/62] fix: order events by their full 64-bit id

compare() returned the 64-bit difference of two ids, which its callers
truncate to int: ids 2^31 or more apart were ordered wrongly, and ids a
multiple of 2^32 apart were taken for the same event.  The memtable page
search also only recognised a comparison result of exactly 1.
---
 monotone/engine/io/comparator.h | 5 ++---
 monotone/engine/io/memtable.c   | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/io/comparator.h b/monotone/engine/io/comparator.h
index 53a83b0..be29dcd 100644
--- a/monotone/engine/io/comparator.h
+++ b/monotone/engine/io/comparator.h
@@ -31,9 +31,8 @@ compare(Comparator* self, Event* a, Event* b)
 {
 	unused(self);
 	// compare by [id, key]
-	int64_t diff = a->id - b->id;
-	if (likely(diff != 0))
-		return diff;
+	if (likely(a->id != b->id))
+		return a->id < b->id ? -1 : 1;
 	if (a->key_size == 0 && b->key_size == 0)
 		return 0;
 	int size;
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index f904dbe..7e51bec 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -103,7 +103,7 @@ memtable_search_page(Memtable* self, Event* key)
 	RbtreeNode* part_ptr = NULL;
 	int rc = memtable_find(&self->tree, self, key, &part_ptr);
 	assert(part_ptr != NULL);
-	if (rc == 1)
+	if (rc > 0)
 	{
 		auto prev = rbtree_prev(&self->tree, part_ptr);
 		if (prev)
-- 
2.43.0


From 0aa0b086cea9977f96d359a65fbb0cf5004f914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 02/62] fix: compare unsigned 64-bit values over their whole
 range

The difference of two values was truncated to int by rbtree_get callers
(and wraps past 2^63), so partitions 2^31 or more apart were looked up in
the wrong place.
---
 monotone/runtime/runtime/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/runtime/misc.h b/monotone/runtime/runtime/misc.h
index 3b747eb..5561c0b 100644
--- a/monotone/runtime/runtime/misc.h
+++ b/monotone/runtime/runtime/misc.h
@@ -16,5 +16,5 @@
 always_inline static inline int64_t
 compare_u64(uint64_t a, uint64_t b)
 {
-	return (int64_t)a - (int64_t)b;
+	return (a > b) - (a < b);
 }
-- 
2.43.0


From f95f8e0595d8faeac6c29ab11d9ef725316b478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 03/62] fix: position a memtable cursor past the end of a page

A seek key greater than every event of its page left the iterator at the
end, although following pages have greater events.
---
 monotone/engine/io/memtable_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 64a9581..d0bbdf7 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -40,9 +40,14 @@ memtable_iterator_open(MemtableIterator* self,
 	bool match = memtable_seek(memtable, key, &self->page, &self->page_pos);
 	if (self->page_pos >= self->page->events_count)
 	{
+		// key is greater than any event of the page, continue
+		// with the next one
+		auto next = rbtree_next(&memtable->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, MemtablePage, node);
 	}
 	self->current = self->page->events[self->page_pos];
 
-- 
2.43.0


From e36fdf876a30bd32df6a228abbf383bfc2eeae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 04/62] fix: position a partition cursor past the end of a
 region

A seek key with the id of the last event of a region but a greater key
left the iterator at the end, although following regions have greater
events.
---
 monotone/engine/io/part_iterator.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/part_iterator.h b/monotone/engine/io/part_iterator.h
index 3bc134e..cd341ac 100644
--- a/monotone/engine/io/part_iterator.h
+++ b/monotone/engine/io/part_iterator.h
@@ -38,6 +38,9 @@ part_iterator_open_region(PartIterator* self, Event* event)
 	                             event);
 }
 
+hot static inline void
+part_iterator_next(PartIterator*);
+
 hot static inline bool
 part_iterator_open(PartIterator* self, Part* part, Event* event)
 {
@@ -53,7 +56,13 @@ part_iterator_open(PartIterator* self, Part* part, Event* event)
 		return false;
 
 	reader_open(&self->reader, part);
-	return part_iterator_open_region(self, event);
+	bool match = part_iterator_open_region(self, event);
+
+	// key is greater than any event of the region, continue with
+	// the next one
+	if (unlikely(! region_iterator_has(&self->region_iterator)))
+		part_iterator_next(self);
+	return match;
 }
 
 hot static inline bool
-- 
2.43.0


From f5948658943656feca92dd7a83010ac60ea62a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 05/62] fix: keep an open cursor in place when its page changes

An insert at the position of a cursor was taken for a replace and moved
the cursor onto the new event, an insert with a page split compared the
position relative to the right page, and a rolled back write left the
position one too far.
---
 monotone/engine/io/memtable.c          | 17 +++++++++--
 monotone/engine/io/memtable_iterator.h | 40 ++++++++++++++++++--------
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 7e51bec..bad74c4 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -208,8 +208,11 @@ memtable_insert(Memtable*      self,
 		page->events[pos] = event;
 
 		// update iterators
-		if (self->iterators_count > 0)
-			memtable_sync(self, page, NULL, pos);
+		list_foreach(&self->iterators)
+		{
+			auto it = list_at(MemtableIterator, link);
+			memtable_iterator_sync_replace(it, page, pos);
+		}
 
 		return prev;
 	}
@@ -217,6 +220,7 @@ memtable_insert(Memtable*      self,
 		pos = 0;
 
 	// split
+	int pos_insert = pos;
 	MemtablePage* ref = page;
 	MemtablePage* l   = page;
 	MemtablePage* r   = NULL;
@@ -244,7 +248,7 @@ memtable_insert(Memtable*      self,
 
 	// update iterators
 	if (self->iterators_count > 0)
-		memtable_sync(self, l, r, pos);
+		memtable_sync(self, l, r, pos_insert);
 
 	*page_split = r;
 	return NULL;
@@ -299,6 +303,13 @@ memtable_unset(Memtable* self, Event* event)
 	page->events_count--;
 	atomic_u64_dec(&self->count);
 
+	// update iterators
+	list_foreach(&self->iterators)
+	{
+		auto it = list_at(MemtableIterator, link);
+		memtable_iterator_sync_remove(it, page, pos);
+	}
+
 	// remove page, if it becomes empty
 	if (page->events_count == 0)
 	{
diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index d0bbdf7..88a5a62 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -144,15 +144,11 @@ memtable_iterator_sync(MemtableIterator* self,
 	if (self->page != page || !self->current)
 		return;
 
-	// replace
-	if (self->page_pos == pos)
-	{
-		// update current page event pointer on replace
-		self->current = self->page->events[self->page_pos];
-		return;
-	}
+	// move position, if key was inserted before it
+	if (pos <= self->page_pos)
+		self->page_pos++;
 
-	// insert
+	// follow events moved by the page split
 	if (page_split)
 	{
 		if (self->page_pos >= page->events_count)
@@ -161,10 +157,30 @@ memtable_iterator_sync(MemtableIterator* self,
 			self->page_pos = self->page_pos - page->events_count;
 		}
 	}
+}
 
-	// move position, if key was inserted before it
-	if (pos <= self->page_pos)
-		self->page_pos++;
+static inline void
+memtable_iterator_sync_replace(MemtableIterator* self,
+                               MemtablePage*     page,
+                               int               pos)
+{
+	if (self->page != page || !self->current)
+		return;
 
-	self->current = self->page->events[self->page_pos];
+	// update current page event pointer on replace
+	if (self->page_pos == pos)
+		self->current = self->page->events[self->page_pos];
+}
+
+static inline void
+memtable_iterator_sync_remove(MemtableIterator* self,
+                              MemtablePage*     page,
+                              int               pos)
+{
+	if (self->page != page || !self->current)
+		return;
+
+	// move position, if key was removed before it
+	if (pos < self->page_pos)
+		self->page_pos--;
 }
-- 
2.43.0


From 9f4f9b07e3fec5707f16ddb2cb63b08d7b4aefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 06/62] fix: hold a partition lock until its last nested unlock

The first lock was not counted, so the unlock of one nested lock released
the partition to other threads while still held.
---
 monotone/engine/engine/lockage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 65a56d1..1466c7f 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -79,7 +79,7 @@ lockage_lock(Lockage* self, LockType type)
 		if (lock->locker == 0)
 		{
 			lock->locker = pthread_id;
-			lock->locker_refs = 0;
+			lock->locker_refs = 1;
 			break;
 		}
 		lock->pending++;
-- 
2.43.0


From ab5bf62309133746ecc1dba8b7f0660219152952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 07/62] fix: count the key of an event once in its size

data_size already includes the key, so every event with a key was copied,
checksummed and logged with key_size bytes past its end: reads past the
heap page, and WAL records whose checksum covers the next event of the
batch before it is written (crc mismatch on recovery).
---
 monotone/engine/io/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 9f3435a..8fbcb48 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -49,7 +49,7 @@ event_is_delete(Event* self)
 always_inline hot static inline int
 event_size(Event* self)
 {
-	return sizeof(Event) + self->key_size + self->data_size;
+	return sizeof(Event) + self->data_size;
 }
 
 always_inline hot static inline uint8_t*
-- 
2.43.0


From 8dc593d460718690cb12ff50ddf419f1dc99cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 08/62] fix: roll back a write that fails before its event is
 added

A write failing before or during its first insert (key size limit, memory
limit) dereferenced a position before the empty log, or removed a NULL
event from the memtable.
---
 monotone/engine/engine/write.c | 7 ++++---
 monotone/engine/io/memtable.c  | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index dad5893..9909067 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -24,20 +24,21 @@
 static void
 engine_rollback(Engine* self, Log* log)
 {
-	auto pos   = log_last(log);
+	auto pos   = log_end(log);
 	auto first = log_first(log);
-	while (pos >= first)
+	while (pos > first)
 	{
+		pos--;
 		if (pos->ref)
 		{
 			Ref* ref = pos->ref;
 			if (pos->prev)
 				memtable_set(ref->part->memtable, pos->prev);
 			else
+			if (pos->event)
 				memtable_unset(ref->part->memtable, pos->event);
 			engine_unlock(self, ref, LOCK_ACCESS);
 		}
-		pos--;
 	}
 	log_reset(log);
 }
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index bad74c4..08aad46 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -287,7 +287,9 @@ memtable_set(Memtable* self, Event* event)
 void
 memtable_unset(Memtable* self, Event* event)
 {
-	assert(self->count_pages > 0);
+	// event was not added
+	if (self->count_pages == 0)
+		return;
 
 	// search page
 	auto page = memtable_search_page(self, event);
-- 
2.43.0


From ac2e0e7e2cde1246269b8b2e8f7fc77dff96ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 09/62] fix: refuse events larger than a memory page

heap_allocate() returns NULL for them, which was written to.
---
 monotone/engine/io/event.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 8fbcb48..2db0d69 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -77,11 +77,19 @@ event_init(Event* self, EventArg* arg)
 		memcpy(self->data + arg->key_size, arg->value, arg->value_size);
 }
 
+static inline Event*
+event_heap_allocate(Heap* heap, size_t size)
+{
+	if (unlikely(size > (size_t)heap->memory_mgr->page_size))
+		error("event size exceeds the memory page size");
+	return (Event*)heap_allocate(heap, size);
+}
+
 static inline Event*
 event_allocate(Heap* heap, EventArg* arg)
 {
 	auto arg_size = arg->key_size + arg->value_size;
-	auto event = (Event*)heap_allocate(heap, sizeof(Event) + arg_size);
+	auto event = event_heap_allocate(heap, sizeof(Event) + arg_size);
 	event_init(event, arg);
 	return event;
 }
@@ -89,7 +97,7 @@ event_allocate(Heap* heap, EventArg* arg)
 static inline Event*
 event_copy(Heap* heap, Event* src)
 {
-	auto event = (Event*)heap_allocate(heap, event_size(src));
+	auto event = event_heap_allocate(heap, sizeof(Event) + (size_t)src->data_size);
 	memcpy(event, src, event_size(src));
 	return event;
 }
-- 
2.43.0


From 29413b025cc48868b8e62f86b21d028321c84aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 10/62] fix: handle partitions at the end of the id range

The position after a partition ending at 2^64-1 wrapped to 0: cursors and
range commands started over and never ended, filling a gap before such a
partition created overlapping partitions, and an interval crossing the end
could not be created.  Range commands also stopped at a partition that
starts before the range instead of skipping it.
---
 monotone/engine/engine/engine.c        |  2 +
 monotone/engine/engine/engine_cursor.h |  7 ++--
 monotone/engine/engine/op.c            | 54 +++++++++++++++++---------
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index e459767..dc4c28f 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -142,6 +142,8 @@ engine_lock(Engine* self, uint64_t id, LockType lock,
 			// interval is inclusive
 			auto min = config_interval_of(id);
 			auto max = (min + config_interval()) - 1;
+			if (unlikely(max < min))
+				max = UINT64_MAX;
 			engine_fill_nolock(self, min, max);
 
 			// retry search
diff --git a/monotone/engine/engine/engine_cursor.h b/monotone/engine/engine/engine_cursor.h
index 8907440..db00c90 100644
--- a/monotone/engine/engine/engine_cursor.h
+++ b/monotone/engine/engine/engine_cursor.h
@@ -98,15 +98,16 @@ engine_cursor_next(EngineCursor* self)
 	if (likely(part_cursor_has(&self->cursor)))
 		return;
 
-	uint64_t next_interval = self->ref->slice.max + 1;
+	uint64_t max = self->ref->slice.max;
 
 	// close previous partition
 	part_cursor_close(&self->cursor);
 	engine_unlock(self->engine, self->ref, LOCK_ACCESS);
 	self->ref = NULL;
 
-	// open next partition
-	engine_cursor_open_part(self, next_interval, NULL);
+	// open next partition, unless this is the last possible one
+	if (likely(max < UINT64_MAX))
+		engine_cursor_open_part(self, max + 1, NULL);
 }
 
 hot static inline void
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2d3e9ab..4dce211 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -101,11 +101,13 @@ engine_fill_nolock(Engine* self, uint64_t min, uint64_t max)
 				else
 					gap.max = slice->min - 1;
 				buf_write(&gaps, &gap, sizeof(gap));
+			}
 
-				min = slice->max + 1;
-			} else
-			if (slice_in(slice, min))
+			// continue after the slice
+			if (min <= slice->max)
 			{
+				if (max <= slice->max)
+					break;
 				min = slice->max + 1;
 			}
 
@@ -143,20 +145,36 @@ engine_fill(Engine* self, uint64_t min, uint64_t max)
 }
 
 static inline bool
-engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
+engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t* max)
 {
-	// get next reference >= min and <= max
-	auto ref = engine_lock(self, *min, LOCK_ACCESS, true, false);
-	if (ref == NULL)
-		return false;
-	uint64_t ref_min = ref->slice.min;
-	uint64_t ref_max = ref->slice.max;
-	engine_unlock(self, ref, LOCK_ACCESS);
-	if (ref_min >= *min && ref_max <= max)
+	while (*min <= *max)
 	{
-		*min = ref_min;
+		// get next reference >= min and <= max
+		auto ref = engine_lock(self, *min, LOCK_ACCESS, true, false);
+		if (ref == NULL)
+			return false;
+		uint64_t ref_min = ref->slice.min;
+		uint64_t ref_max = ref->slice.max;
+		engine_unlock(self, ref, LOCK_ACCESS);
+		if (ref_max > *max)
+			return false;
+
+		bool match = ref_min >= *min;
+		if (match)
+			*min = ref_min;
+
+		// last possible partition, stop on the next call
 		*min_next = ref_max + 1;
-		return true;
+		if (unlikely(ref_max == UINT64_MAX))
+		{
+			*min_next = UINT64_MAX;
+			*max = 0;
+		}
+		if (match)
+			return true;
+
+		// skip partition which starts before the range
+		*min = *min_next;
 	}
 	return false;
 }
@@ -318,7 +336,7 @@ void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_drop(self, min, true, mask);
 }
 
@@ -387,7 +405,7 @@ void
 engine_download_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_download(self, min, true, if_cloud);
 }
 
@@ -457,7 +475,7 @@ void
 engine_upload_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_upload(self, min, true, if_cloud);
 }
 
@@ -487,7 +505,7 @@ engine_refresh_range(Engine* self, Refresh* refresh, uint64_t min, uint64_t max,
                      Str* storage)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_refresh(self, refresh, min, storage, true);
 }
 
-- 
2.43.0


From 55151d08263ced932306daf0f74dbd890961e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 11/62] fix: retry a failed refresh without losing or
 reordering writes

After a failed merge the next refresh made the older, unmerged memtable
active again on top of newer writes, and its WAL records were skipped on
recovery.  The new partition file was also created over the leftover of
the failed attempt (in use by the partition, if the refresh failed late),
and the partition was never scheduled for refresh again.
---
 monotone/engine/engine/refresh.c | 13 ++++++++++++-
 monotone/engine/io/part.c        |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index db6e5c0..9237d02 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -108,7 +108,14 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	mutex_lock(&engine->lock);
 	ref_lock(ref, LOCK_ACCESS);
 
-	self->memtable = part_memtable_rotate(self->origin);
+	// in case previous attempt failed, its memtable still has data
+	// older then the active one, merge it first
+	Memtable* memtable_prev;
+	part_memtable(self->origin, &memtable_prev);
+	if (memtable_prev->count > 0)
+		self->memtable = memtable_prev;
+	else
+		self->memtable = part_memtable_rotate(self->origin);
 
 	ref_unlock(ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
@@ -228,6 +235,10 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		refresh_end(self);
 	}
 
+	// allow to schedule next refresh on error
+	if (e.triggered)
+		self->ref->part->refresh = false;
+
 	// complete
 	engine_unlock(self->engine, self->ref, LOCK_SERVICE);
 	self->ref = NULL;
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 8e673a5..4a1afb1 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -90,6 +90,9 @@ part_create(Part* self, int state)
 	switch (state) {
 	case ID_INCOMPLETE:
 	{
+		// in case previous attempt failed without crash
+		part_delete(self, state);
+
 		id_path(&self->id, self->source, state, path);
 		file_create(&self->file, path);
 		break;
-- 
2.43.0


From 21f0a48a26272507ddd9d5b8badc3c2dbc12dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 12/62] fix: validate the size of a WAL record

A record size below the header size underflowed the body size, and offsets
past 4 GiB wrapped in the end of file check.
---
 monotone/engine/wal/wal_file.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index f34ad1f..fd3f4f3 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_writev(WalFile* self, struct iovec* iov, int iovc)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -99,6 +99,11 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((LogWrite*)(buf->start + start))->size;
 
+	// record has at least a header and some data
+	if (unlikely(size <= size_header))
+		error("wal: file '%s' is corrupted at offset %" PRIu64,
+		      str_of(&self->file.path), offset);
+
 	// check for eof
 	if (wal_file_eof(self, offset, size))
 		return false;
-- 
2.43.0


From 67fbd2e5eb42c91a6d687ea56712ee65cb42cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 13/62] fix: remove an incomplete record from the end of the
 WAL on open

New records were appended after it, so writes acknowledged after a crash
could not be read by the next recovery.
---
 monotone/engine/wal/wal.c      |  2 +-
 monotone/engine/wal/wal_file.h | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 80a32bf..20f432c 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -188,7 +188,7 @@ wal_open(Wal* self)
 		uint64_t last = wal_id_max(&self->list);
 		self->current = wal_file_allocate(last);
 		wal_file_open(self->current);
-		file_seek_to_end(&self->current->file);
+		wal_file_truncate(self->current);
 	} else
 	{
 		wal_rotate(self, 0);
diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index fd3f4f3..4d6680f 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -128,3 +128,20 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 
 	return true;
 }
+
+static inline void
+wal_file_truncate(WalFile* self)
+{
+	// remove record which was not completely written and set file
+	// position to the end
+	Buf buf;
+	buf_init(&buf);
+	guard(buf_free, &buf);
+	uint64_t offset = 0;
+	while (wal_file_pread(self, offset, &buf))
+		offset += buf_size(&buf);
+	if (offset != self->file.size)
+		file_truncate(&self->file, offset);
+	else
+		file_seek_to_end(&self->file);
+}
-- 
2.43.0


From ae9f0179cb2da17e095364176372d5189f4bc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 14/62] fix: remove a WAL record that failed to be written

A failed write or sync left a partial (or complete) record of a write that
was rolled back; following records were appended after it.
---
 monotone/engine/wal/wal_file.h | 42 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index 4d6680f..84c1ae1 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -62,20 +62,50 @@ wal_file_close(WalFile* self)
 	file_close(&self->file);
 }
 
+static inline void
+wal_file_rollback(WalFile* self, uint64_t size)
+{
+	// remove partially written record, next record will overwrite
+	// it otherwise
+	vfs_truncate(self->file.fd, size);
+	vfs_seek(self->file.fd, size);
+	self->file.size = size;
+}
+
 static inline void
 wal_file_write(WalFile* self, void* data, int data_size)
 {
-	file_write(&self->file, data, data_size);
-	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
-		file_sync(&self->file);
+	uint64_t size = self->file.size;
+	Exception e;
+	if (enter(&e))
+	{
+		file_write(&self->file, data, data_size);
+		if (var_int_of(&config()->wal_sync_on_write) && config_sync())
+			file_sync(&self->file);
+	}
+	if (leave(&e))
+	{
+		wal_file_rollback(self, size);
+		rethrow();
+	}
 }
 
 static inline void
 wal_file_writev(WalFile* self, struct iovec* iov, int iovc)
 {
-	file_writev(&self->file, iov, iovc);
-	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
-		file_sync(&self->file);
+	uint64_t size = self->file.size;
+	Exception e;
+	if (enter(&e))
+	{
+		file_writev(&self->file, iov, iovc);
+		if (var_int_of(&config()->wal_sync_on_write) && config_sync())
+			file_sync(&self->file);
+	}
+	if (leave(&e))
+	{
+		wal_file_rollback(self, size);
+		rethrow();
+	}
 }
 
 static inline bool
-- 
2.43.0


From 4ddf7a37999392260c0acccac344445402e85a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 15/62] fix: do not log a partition drop again on recovery

Replaying a drop appended a new drop record to the end of the WAL, with an
already used lsn: the next recovery dropped the partition after replaying
the writes which followed the original drop.
---
 monotone/engine/engine/op.c | 4 ++--
 monotone/main/main/main.c   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 4dce211..bfe39fb 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -290,8 +290,8 @@ engine_drop_reference(Engine* self, uint64_t min)
 	// free
 	ref_free(ref);
 
-	// wal write
-	if (var_int_of(&config()->wal))
+	// wal write, unless this is a replay
+	if (var_int_of(&config()->wal) && config_online())
 	{
 		LogDrop drop;
 		log_drop_init(&drop, min);
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 617b022..9b8978d 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -194,6 +194,7 @@ main_replay(Main* self)
 		{
 			auto drop = (LogDrop*)write;
 			engine_drop(&self->engine, drop->id, true, ID|ID_CLOUD);
+			config_lsn_follow(write->lsn);
 			break;
 		}
 		default:
-- 
2.43.0


From 013fc82afca1dc9585c60a03aa8f5c3af4e831e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 16/62] fix: do not remove WAL files of a write in progress

A write follows its lsn only after its WAL record is written, so a WAL
rotation and garbage collection in between removed the record.
---
 monotone/engine/engine/op.c    | 3 ++-
 monotone/engine/engine/write.c | 6 ++++++
 monotone/engine/io/memtable.c  | 8 ++++++++
 monotone/engine/io/memtable.h  | 1 +
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index bfe39fb..72fce74 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -644,7 +644,8 @@ engine_gc(Engine* self)
 	guard(control_unlock_guard, NULL);
 
 	// get minimum lsn currently used by any memtable
-	uint64_t lsn_min = UINT64_MAX;
+	// (last lsn is taken first, concurrent writes have greater lsn)
+	uint64_t lsn_min = config_lsn() + 1;
 	mutex_lock(&self->lock);
 
 	auto slice = mapping_min(&self->mapping);
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index 9909067..16e0a36 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -115,6 +115,12 @@ engine_write(Engine* self, EventArg* events, int count)
 			// wal write error test case
 			error_injection(error_wal);
 
+			// keep wal record until memtables are refreshed
+			auto lsn = config_lsn() + 1;
+			auto pos = log_first(&log);
+			for (; pos < log_end(&log); pos++)
+				memtable_pin(((Ref*)pos->ref)->part->memtable, lsn);
+
 			auto rotate_ready = wal_write(self->wal, &log);
 
 			// schedule wal rotation
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 08aad46..0196c7d 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -367,3 +367,11 @@ memtable_follow(Memtable* self, uint64_t lsn)
 	if (lsn > atomic_u64_of(&self->lsn_max))
 		atomic_u64_set(&self->lsn_max, lsn);
 }
+
+void
+memtable_pin(Memtable* self, uint64_t lsn)
+{
+	// keep wal records >= lsn
+	if (lsn < atomic_u64_of(&self->lsn_min))
+		atomic_u64_set(&self->lsn_min, lsn);
+}
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 1a66d06..2f7dcbd 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -46,3 +46,4 @@ void   memtable_unset(Memtable*, Event*);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
 void   memtable_follow(Memtable*, uint64_t);
+void   memtable_pin(Memtable*, uint64_t);
-- 
2.43.0


From 35e8c60478e0cc7ff40cc658207495c3f63f3128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 17/62] fix: remove leftovers of a failed refresh on drop

A partition dropped after a refresh that failed late came back on restart.
---
 monotone/engine/io/part.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 4a1afb1..3c916d4 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -205,6 +205,10 @@ part_offload(Part* self, bool from_storage)
 		// remove data file
 		file_close(&self->file);
 		part_delete(self, ID);
+
+		// in case previous refresh failed without crash
+		part_delete(self, ID_INCOMPLETE);
+		part_delete(self, ID_COMPLETE);
 		return;
 	}
 
-- 
2.43.0


From a5b03eea59669e6849c962bf4b4b11ae5e4412be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 18/62] fix: recover from any combination of incomplete files

A failed upload leaves an incomplete cloud file behind: after a refresh,
drop or crash later on, the combination of partition files was unexpected
and the environment could not be opened.
---
 monotone/engine/engine/engine_recover.c | 41 +++++++------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 5a6f1b4..30e1576 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -96,6 +96,14 @@ engine_recover_storage(Engine* self, Storage* storage)
 			continue;
 		}
 
+		// remove incomplete files, left by a crash or by a failed
+		// refresh, download or upload
+		if (state == ID_INCOMPLETE || state == ID_CLOUD_INCOMPLETE)
+		{
+			fs_unlink("%s%s", path, entry->d_name);
+			continue;
+		}
+
 		// find or create partition object
 		auto part = storage_find(storage, min);
 		if (part == NULL)
@@ -127,19 +135,9 @@ engine_recover_validate(Engine* self, Storage* storage)
 			break;
 
 		// crash recovery cases (see refresh)
-
-		// crash case 1 (without parent)
-		case ID_INCOMPLETE:
-			storage_remove(storage, part);
-			part_delete(part, ID_INCOMPLETE);
-			part_free(part);
-			break;
-
-		// crash case 1 (with parent)
-		case ID | ID_INCOMPLETE:
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
+		//
+		// crash case 1, 4 and 5 leave only incomplete files, which are
+		// already removed
 
 		// crash case 2
 		case ID | ID_COMPLETE:
@@ -174,23 +172,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 			break;
 		}
 
-		// crash case 4
-		case ID_CLOUD | ID_INCOMPLETE:
-			// crash during download
-			//
-			// there is no complete state for download, cloud file not
-			// removed after download (only prior to refresh)
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
-		// crash case 5
-		case ID | ID_CLOUD_INCOMPLETE:
-			// crash during upload
-			part_delete(part, ID_CLOUD_INCOMPLETE);
-			part_unset(part, ID_CLOUD_INCOMPLETE);
-			break;
-
 		default:
 			error("partition '%" PRIu64"' has unexpected state: %d",
 			      part->id.min, part->state);
-- 
2.43.0


From d18a1f35e05c45ad6ddcc469906f7a4361b8aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 19/62] fix: keep WAL files until a refresh is complete

Between the switch to the new partition and the removal of the old file,
a crash recovers the old file, but the WAL records of the merged memtable
could already be garbage collected.
---
 monotone/engine/engine/refresh.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index 9237d02..dea70a3 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -161,6 +161,11 @@ refresh_apply(Refresh* self)
 	// use active memtable on the new partition
 	memtable_move(part->memtable, origin->memtable);
 
+	// keep wal records until refresh is complete
+	Memtable* memtable_prev;
+	part_memtable(part, &memtable_prev);
+	memtable_pin(memtable_prev, self->memtable->lsn_min);
+
 	// this should be ID_INCOMPLETE until sync
 	// completed, but made this way in order to be
 	// available for access during the
@@ -197,6 +202,11 @@ refresh_end(Refresh* self)
 	part_free(origin);
 	self->origin = NULL;
 
+	// new partition file will be recovered from now on
+	Memtable* memtable_prev;
+	part_memtable(part, &memtable_prev);
+	memtable_free(memtable_prev);
+
 	// crash case 3
 	error_injection(error_refresh_3);
 
-- 
2.43.0


From 818184a151df4a154555886561e0e29f570180e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:57 +0000
Subject: [PATCH 20/62] fix: replace the config file atomically

A crash or an error while saving left no config.json (a new one with
defaults is then created: clouds, storages and the pipeline are lost) or
an incomplete one.
---
 monotone/runtime/config/config.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index 9abde99..0ff2192 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -254,21 +254,15 @@ config_save_to(Config* self, const char* path)
 void
 config_save(Config* self, const char* path)
 {
-	// remove old saved config, if exists
-	Buf buf;
-	buf_init(&buf);
-	guard(buf_free, &buf);
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing config as a old
-	fs_rename(path,  "%s.old", path);
-
-	// create config file
-	config_save_to(self, path);
+	// remove incomplete config, if exists
+	char path_new[PATH_MAX];
+	snprintf(path_new, sizeof(path_new), "%s.incomplete", path);
+	if (fs_exists("%s", path_new))
+		fs_unlink("%s", path_new);
 
-	// remove old config file
-	fs_unlink("%s.old", path);
+	// create new config file and replace the existing one
+	config_save_to(self, path_new);
+	fs_rename(path_new, "%s", path);
 }
 
 void
@@ -288,7 +282,7 @@ config_open(Config* self, const char* path)
 	}
 
 	// create config file
-	config_save_to(self, path);
+	config_save(self, path);
 }
 
 void
-- 
2.43.0


From 48f11ffd457bcd106a2db429e0a3f986f9c89547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:57 +0000
Subject: [PATCH 21/62] fix: keep lz4 contexts in their own cache

A used lz4 context was cached as a zstd one, and handed to zstd.
---
 monotone/runtime/lib/compression_mgr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_mgr.c b/monotone/runtime/lib/compression_mgr.c
index 395d88f..c04765a 100644
--- a/monotone/runtime/lib/compression_mgr.c
+++ b/monotone/runtime/lib/compression_mgr.c
@@ -33,6 +33,11 @@ compression_mgr_free(CompressionMgr* self)
 	cache_reset(&self->cache_zstd);
 	cache_free(&self->cache_zstd);
 
+	list_foreach_safe(&self->cache_lz4.list)
+	{
+		auto ref = list_at(Compression, link);
+		compression_free(ref);
+	}
 	cache_reset(&self->cache_lz4);
 	cache_free(&self->cache_lz4);
 }
@@ -67,7 +72,7 @@ compression_mgr_push(CompressionMgr* self, Compression* compression)
 	}
 	if (compression->iface->id == COMPRESSION_LZ4)
 	{
-		cache_push(&self->cache_zstd, &compression->link);
+		cache_push(&self->cache_lz4, &compression->link);
 		return;
 	}
 	abort();
-- 
2.43.0


From 11fc87bca2e19202fbb747d116f6a0d25464da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 22/62] fix: reserve enough memory to compress incompressible
 data

zstd output can be larger than its input; the region was cut off.
---
 monotone/runtime/lib/compression_zstd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index 9c799a5..33844fb 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -61,7 +61,7 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	size_t size = 0;
 	for (int i = 0; i < argc; i++)
 		size += buf_size(argv[i]);
-	buf_reserve(buf, size);
+	buf_reserve(buf, ZSTD_compressBound(size));
 
 	ZSTD_outBuffer out;
 	out.dst  = buf->position;
-- 
2.43.0


From 9190b1ed051a503bbe034cf6a8aa7cf2ba4f15f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:29 +0000
Subject: [PATCH 23/62] fix: verify the checksum and size of a region read from
 a file

The crc of a region was written (storage option crc) but never checked,
and a region smaller than its header was accessed.
---
 monotone/engine/io/reader.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index 5be2947..f3d7baa 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -107,6 +107,14 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	}
 	Buf* origin = &self->buf;
 
+	// check region crc
+	if (index_region->crc != 0)
+	{
+		uint32_t crc = crc32(0, origin->start, buf_size(origin));
+		if (unlikely(crc != index_region->crc))
+			error("read: region crc mismatch");
+	}
+
 	// decrypt region
 	if (self->encryption)
 	{
@@ -131,6 +139,9 @@ reader_execute(Reader* self, IndexRegion* index_region)
 
 	// consistency check
 	auto region = (Region*)origin->start;
+	if (unlikely(buf_size(origin) != (int)index_region->size_origin ||
+	             buf_size(origin) < (int)sizeof(Region)))
+		error("read: region meta data mismatch");
 	if (region->size   != index_region->size_origin ||
 	    region->events != index_region->events)
 		error("read: region meta data mismatch");
-- 
2.43.0


From 9d3184f79f1413a73a24dc2193f442777dd715b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 24/62] fix: report an unexpected decompressed size as an error

A damaged region could abort the process (or loop forever with lz4).
---
 monotone/runtime/lib/compression_lz4.c  | 7 ++++++-
 monotone/runtime/lib/compression_zstd.c | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/lib/compression_lz4.c b/monotone/runtime/lib/compression_lz4.c
index 196af80..f5d31e0 100644
--- a/monotone/runtime/lib/compression_lz4.c
+++ b/monotone/runtime/lib/compression_lz4.c
@@ -136,8 +136,13 @@ compression_lz4_decompress(Compression* ptr,
 			compression_lz4_error(rc);
 		buf_advance(buf, dst_size);
 		pos += src_size;
+
+		// no progress, decompressed data is larger than expected
+		if (unlikely(dst_size == 0 && src_size == 0))
+			error("lz4: unexpected decompressed size");
 	}
-	assert(buf_size(buf) == data_size_uncompressed);
+	if (unlikely(buf_size(buf) != data_size_uncompressed))
+		error("lz4: unexpected decompressed size");
 }
 
 CompressionIf compression_lz4 =
diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index 33844fb..c18c7b7 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -106,7 +106,8 @@ compression_zstd_decompress(Compression* ptr,
 	rc = ZSTD_decompress(buf->start, data_size_uncompressed, data, data_size);
 	if (unlikely(ZSTD_isError(rc)))
 		error("zstd: decompression failed");
-	assert(rc == data_size_uncompressed);
+	if (unlikely(rc != data_size_uncompressed))
+		error("zstd: unexpected decompressed size");
 	buf_advance(buf, data_size_uncompressed);
 }
 
-- 
2.43.0


From 78cebe07c91a520b575693bed62ef179a6856a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 25/62] fix: do not lose pages when a page which is not the
 last one is split

---
 monotone/engine/io/memtable.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 0196c7d..f80383b 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -277,8 +277,11 @@ memtable_set(Memtable* self, Event* event)
 	auto prev = memtable_insert(self, page, &page_split, event);
 	if (page_split)
 	{
-		// update split page
-		rbtree_set(&self->tree, &page->node, -1, &page_split->node);
+		// add split page (its position must be searched, since the
+		// page can already have children in the tree)
+		RbtreeNode* node = NULL;
+		int rc = memtable_find(&self->tree, self, page_split->events[0], &node);
+		rbtree_set(&self->tree, node, rc, &page_split->node);
 		self->count_pages++;
 	}
 	return prev;
-- 
2.43.0


From 9093723f3a8ed26c7100c97ff932abd0d8a430c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 26/62] fix: do not truncate storage sizes to 32 bits

---
 monotone/cloud/cloud/source.h | 6 +++---
 monotone/engine/io/part.h     | 2 +-
 monotone/engine/io/writer.c   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/monotone/cloud/cloud/source.h b/monotone/cloud/cloud/source.h
index 6178ddf..cca4928 100644
--- a/monotone/cloud/cloud/source.h
+++ b/monotone/cloud/cloud/source.h
@@ -127,13 +127,13 @@ source_set_crc(Source* self, bool value)
 }
 
 static inline void
-source_set_refresh_wm(Source* self, int value)
+source_set_refresh_wm(Source* self, int64_t value)
 {
 	self->refresh_wm = value;
 }
 
 static inline void
-source_set_region_size(Source* self, int value)
+source_set_region_size(Source* self, int64_t value)
 {
 	self->region_size = value;
 }
@@ -146,7 +146,7 @@ source_set_compression(Source* self, Str* value)
 }
 
 static inline void
-source_set_compression_level(Source* self, int value)
+source_set_compression_level(Source* self, int64_t value)
 {
 	self->compression_level = value;
 }
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 1908e1e..a983fdf 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -111,5 +111,5 @@ part_refresh_ready(Part* self)
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-	return heap_used(&self->memtable->heap) > (uint32_t)self->source->refresh_wm;
+	return heap_used(&self->memtable->heap) > (uint64_t)self->source->refresh_wm;
 }
diff --git a/monotone/engine/io/writer.c b/monotone/engine/io/writer.c
index 824bdd0..544b293 100644
--- a/monotone/engine/io/writer.c
+++ b/monotone/engine/io/writer.c
@@ -63,7 +63,7 @@ writer_is_region_limit(Writer* self)
 {
 	if (unlikely(! region_writer_started(&self->region_writer)))
 		return true;
-	return region_writer_size(&self->region_writer) >= (uint32_t)self->source->region_size;
+	return region_writer_size(&self->region_writer) >= (uint64_t)self->source->region_size;
 }
 
 static inline void
-- 
2.43.0


From 80ddacab1c06e7b64b9d7b2781c9b66c05511954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 27/62] fix: restore serial number when the last partitions are
 empty

---
 monotone/engine/engine/engine.c | 43 ++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index dc4c28f..aeb0a7f 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -78,29 +78,34 @@ engine_close(Engine* self)
 void
 engine_set_serial(Engine* self)
 {
-	auto slice = mapping_max(&self->mapping);
-	if (! slice)
-		return;
-	auto ref  = ref_of(slice);
-	auto part = ref->part;
-
-	bool     serial_set = false;
+	// find the last partition which has events
 	uint64_t serial = 0;
-	if (part->state != ID_NONE && part->index.regions > 0)
+	auto slice = mapping_max(&self->mapping);
+	for (; slice; slice = mapping_prev(&self->mapping, slice))
 	{
-		serial = index_max(&part->index, &part->index_data);
-		serial_set = true;
-	}
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
 
-	auto max = memtable_max(part->memtable);
-	if (max && max->id >= serial)
-	{
-		serial = max->id;
-		serial_set = true;
-	}
+		bool serial_set = false;
+		if (part->state != ID_NONE && part->index.regions > 0)
+		{
+			serial = index_max(&part->index, &part->index_data);
+			serial_set = true;
+		}
 
-	if (serial_set)
-		serial++;
+		auto max = memtable_max(part->memtable);
+		if (max && max->id >= serial)
+		{
+			serial = max->id;
+			serial_set = true;
+		}
+
+		if (serial_set)
+		{
+			serial++;
+			break;
+		}
+	}
 
 	config_ssn_set(serial);
 }
-- 
2.43.0


From 90ba726899896fa59ad4e934b9ae8b2f99b527d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 28/62] fix: refuse to open an environment which is already
 open

---
 monotone/main/main/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 9b8978d..edbf7b9 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -118,7 +118,7 @@ static void
 main_deploy(Main* self, Str* directory)
 {
 	if (config_online())
-		log("environment is already open");
+		error("environment is already open");
 
 	// prepare random manager
 	random_open(&self->random);
-- 
2.43.0


From c8148a5c4625567534935f70466c9c10c85511a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:33 +0000
Subject: [PATCH 29/62] fix: refuse to use an environment which is not open

---
 monotone/main/api/monotone.c | 4 ++++
 monotone/main/main/execute.c | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index d4688e4..cc31a09 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -156,6 +156,8 @@ monotone_write(monotone_t* self, monotone_event_t* events, int count)
 	int rc = 0;
 	Exception e;
 	if (enter(&e)) {
+		if (unlikely(! config_online()))
+			error("environment is not open");
 		engine_write(&self->main.engine, (EventArg*)events, count);
 	}
 	if (leave(&e)) {
@@ -181,6 +183,8 @@ monotone_cursor(monotone_t* self, const char* options, monotone_event_t* key)
 	Exception e;
 	if (enter(&e))
 	{
+		if (unlikely(! config_online()))
+			error("environment is not open");
 		if (key == NULL) {
 			engine_cursor_open(&cursor->cursor, &self->main.engine, NULL);
 		} else
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 9cd65c5..572de82 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -572,7 +572,10 @@ main_execute(Main* self, const char* command, char** result)
 
 	// execute
 	Exception e;
-	if (enter(&e)) {
+	if (enter(&e))
+	{
+		if (unlikely(! config_online() && cmd->type != CMD_SET && cmd->type != CMD_SHOW))
+			error("environment is not open");
 		execute->function(&arg);
 	}
 	if (execute->lock != EXECUTE_LOCK_NONE)
-- 
2.43.0


From f029a4702379157be46c10709fd0709c33c2a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:07 +0000
Subject: [PATCH 30/62] fix: free the old partition when a refresh fails after
 replacing it

---
 monotone/engine/engine/refresh.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index dea70a3..29b489d 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -245,10 +245,19 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		refresh_end(self);
 	}
 
-	// allow to schedule next refresh on error
 	if (e.triggered)
+	{
+		// allow to schedule next refresh on error
 		self->ref->part->refresh = false;
 
+		// free old partition if it is already replaced
+		if (self->origin && self->origin != self->ref->part)
+		{
+			part_free(self->origin);
+			self->origin = NULL;
+		}
+	}
+
 	// complete
 	engine_unlock(self->engine, self->ref, LOCK_SERVICE);
 	self->ref = NULL;
-- 
2.43.0


From 4a0f1376027d354548c5c1b286c2d91f30389344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:07 +0000
Subject: [PATCH 31/62] fix: complete or repeat a partition drop which is
 interrupted or fails

---
 monotone/engine/engine/op.c | 82 ++++++++++++++++++++++++++++---------
 monotone/engine/engine/op.h |  1 +
 monotone/engine/io/part.c   |  8 ++--
 monotone/main/main/main.c   |  2 +-
 4 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 72fce74..a05992b 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -179,10 +179,33 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t* max)
 	return false;
 }
 
+static void
+engine_drop_log(Engine* self, Part* part, uint64_t min, uint64_t* lsn)
+{
+	// wal write, unless this is a replay
+	if (!var_int_of(&config()->wal) || !config_online())
+		return;
+
+	// already logged and there were no writes since then
+	if (*lsn > 0 && part->memtable_a.lsn_max < *lsn &&
+	    part->memtable_b.lsn_max < *lsn &&
+	    (part->state == ID_NONE || part->index.lsn < *lsn))
+		return;
+
+	LogDrop drop;
+	log_drop_init(&drop, min);
+	auto rotate_ready = wal_write_op(self->wal, &drop.write);
+	*lsn = drop.write.lsn;
+
+	// schedule wal rotation
+	if (rotate_ready)
+		service_rotate(self->service);
+}
+
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
                  bool    cloud_drop_local,
-                 int     mask)
+                 int     mask, uint64_t* lsn)
 {
 	// find the original partition
 	auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
@@ -214,6 +237,11 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	Exception e;
 	if (enter(&e))
 	{
+		// log full drop before removing files, to complete it on
+		// recovery
+		if (mask == (ID|ID_CLOUD) && part->state != ID_NONE)
+			engine_drop_log(self, part, min, lsn);
+
 		if (mask & ID_CLOUD)
 		{
 			if (part_has(part, ID_CLOUD))
@@ -255,7 +283,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 }
 
 static bool
-engine_drop_reference(Engine* self, uint64_t min)
+engine_drop_reference(Engine* self, uint64_t min, uint64_t* lsn)
 {
 	// take exclusive control lock
 	control_lock_exclusive();
@@ -278,6 +306,17 @@ engine_drop_reference(Engine* self, uint64_t min)
 		return false;
 	}
 
+	// log drop while there are no other writes
+	Exception e;
+	if (enter(&e)) {
+		engine_drop_log(self, part, min, lsn);
+	}
+	if (leave(&e))
+	{
+		control_unlock();
+		rethrow();
+	}
+
 	// remove partition from mapping
 	mapping_remove(&self->mapping, slice);
 
@@ -289,19 +328,6 @@ engine_drop_reference(Engine* self, uint64_t min)
 
 	// free
 	ref_free(ref);
-
-	// wal write, unless this is a replay
-	if (var_int_of(&config()->wal) && config_online())
-	{
-		LogDrop drop;
-		log_drop_init(&drop, min);
-		auto rotate_ready = wal_write_op(self->wal, &drop.write);
-
-		// schedule wal rotation
-		if (rotate_ready)
-			service_rotate(self->service);
-	}
-
 	return true;
 }
 
@@ -311,17 +337,18 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 	// partition drop
 	if (mask == (ID|ID_CLOUD))
 	{
+		uint64_t lsn = 0;
 		for (;;)
 		{
 			// in order to avoid heavy exclusive lock during drop,
 			// separate file drop first
-			auto exists = engine_drop_file(self, min, if_exists, false, mask);
+			auto exists = engine_drop_file(self, min, if_exists, false, mask, &lsn);
 			if (! exists)
 				break;
 
 			// try to drop partition mapping, or retry drop if
 			// partition still has files
-			if (engine_drop_reference(self, min))
+			if (engine_drop_reference(self, min, &lsn))
 				break;
 		}
 
@@ -329,7 +356,22 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 	}
 
 	// drop partition file on storage or cloud only
-	engine_drop_file(self, min, if_exists, false, mask);
+	engine_drop_file(self, min, if_exists, false, mask, NULL);
+}
+
+void
+engine_drop_replay(Engine* self, LogDrop* drop)
+{
+	auto ref = engine_lock(self, drop->id, LOCK_ACCESS, false, false);
+	if (! ref)
+		return;
+
+	// skip if partition is newer then drop lsn
+	auto part = ref->part;
+	auto skip = part->state != ID_NONE && part->index.lsn >= drop->write.lsn;
+	engine_unlock(self, ref, LOCK_ACCESS);
+	if (! skip)
+		engine_drop(self, drop->id, true, ID|ID_CLOUD);
 }
 
 void
@@ -497,7 +539,7 @@ engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
 	engine_upload(self, min, true, true);
 
 	// drop partition from storage, only if file been uploaded
-	engine_drop_file(self, min, if_exists, true, ID);
+	engine_drop_file(self, min, if_exists, true, ID, NULL);
 }
 
 void
@@ -711,7 +753,7 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 			case ACTION_DROP_ON_STORAGE:
 				// drop partition file from storage, only if the file
 				// has been uploaded
-				engine_drop_file(self, req->id, true, true, ID);
+				engine_drop_file(self, req->id, true, true, ID, NULL);
 				break;
 			case ACTION_DROP_ON_CLOUD:
 				engine_drop(self, req->id, true, ID_CLOUD);
diff --git a/monotone/engine/engine/op.h b/monotone/engine/engine/op.h
index a4ab3db..fc12b90 100644
--- a/monotone/engine/engine/op.h
+++ b/monotone/engine/engine/op.h
@@ -17,6 +17,7 @@
 void engine_fill_nolock(Engine*, uint64_t, uint64_t);
 void engine_fill(Engine*, uint64_t, uint64_t);
 void engine_drop(Engine*, uint64_t, bool, int);
+void engine_drop_replay(Engine*, LogDrop*);
 void engine_drop_range(Engine*, uint64_t, uint64_t, int);
 
 // cloud
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 3c916d4..1a9f805 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -202,13 +202,13 @@ part_offload(Part* self, bool from_storage)
 	// remove from storage
 	if (from_storage)
 	{
-		// remove data file
-		file_close(&self->file);
-		part_delete(self, ID);
-
 		// in case previous refresh failed without crash
 		part_delete(self, ID_INCOMPLETE);
 		part_delete(self, ID_COMPLETE);
+
+		// remove data file
+		part_delete(self, ID);
+		file_close(&self->file);
 		return;
 	}
 
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index edbf7b9..02d202f 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -193,7 +193,7 @@ main_replay(Main* self)
 		case LOG_DROP:
 		{
 			auto drop = (LogDrop*)write;
-			engine_drop(&self->engine, drop->id, true, ID|ID_CLOUD);
+			engine_drop_replay(&self->engine, drop);
 			config_lsn_follow(write->lsn);
 			break;
 		}
-- 
2.43.0


From 898165b3839f0c1b677d84264bb45a6ffaf987f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:37 +0000
Subject: [PATCH 32/62] fix: WAL record with damaged events is read past its
 end

---
 monotone/engine/wal/wal_file.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index 84c1ae1..654ce03 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -114,6 +114,29 @@ wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 	return (offset + size) > self->file.size;
 }
 
+static inline bool
+wal_file_validate(LogWrite* write)
+{
+	// drop has fixed size
+	if (write->type == LOG_DROP)
+		return write->size == sizeof(LogDrop);
+
+	// write consists of exactly count events
+	uint64_t offset = sizeof(LogWrite);
+	uint32_t count  = 0;
+	while (offset < write->size)
+	{
+		auto event = (Event*)((uintptr_t)write + offset);
+		if (write->size - offset < sizeof(Event) ||
+		    write->size - offset < sizeof(Event) + (uint64_t)event->data_size ||
+		    event->key_size > event->data_size)
+			return false;
+		offset += sizeof(Event) + (uint64_t)event->data_size;
+		count++;
+	}
+	return count == write->count;
+}
+
 static inline bool
 wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 {
@@ -156,6 +179,11 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 			      offset, write->lsn);
 	}
 
+	// check events
+	if (unlikely(! wal_file_validate((LogWrite*)(buf->start + start))))
+		error("wal: file '%s' is corrupted at offset %" PRIu64,
+		      str_of(&self->file.path), offset);
+
 	return true;
 }
 
-- 
2.43.0


From a95363dcfc3eae119150225eba340458a5877c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:24 +0000
Subject: [PATCH 33/62] fix: damaged region without checksum is read past its
 end

---
 monotone/engine/io/reader.h |  2 ++
 monotone/engine/io/region.h | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index f3d7baa..355de98 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -145,6 +145,8 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	if (region->size   != index_region->size_origin ||
 	    region->events != index_region->events)
 		error("read: region meta data mismatch");
+	if (unlikely(! region_validate(region)))
+		error("read: region is corrupted");
 
 	return region;
 }
diff --git a/monotone/engine/io/region.h b/monotone/engine/io/region.h
index 141f195..71a0d6e 100644
--- a/monotone/engine/io/region.h
+++ b/monotone/engine/io/region.h
@@ -33,3 +33,24 @@ region_get(Region* self, int pos)
 	return (Event*)(start + (sizeof(uint32_t) * self->events) +
 	                offset[pos]);
 }
+
+static inline bool
+region_validate(Region* self)
+{
+	// check that all events are inside of the region
+	uint64_t start = sizeof(Region) + sizeof(uint32_t) * (uint64_t)self->events;
+	if (start > self->size)
+		return false;
+	uint64_t size   = self->size - start;
+	auto     offset = (uint32_t*)((char*)self + sizeof(Region));
+	for (uint32_t i = 0; i < self->events; i++)
+	{
+		if (offset[i] > size || size - offset[i] < sizeof(Event))
+			return false;
+		auto event = region_get(self, i);
+		if (event->data_size > size - offset[i] - sizeof(Event) ||
+		    event->key_size  > event->data_size)
+			return false;
+	}
+	return true;
+}
-- 
2.43.0


From 71c81434d465fba8d51a58a76ccad44a9fb3d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:43 +0000
Subject: [PATCH 34/62] fix: real values lose precision when stored

---
 monotone/runtime/lib/data.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/lib/data.h b/monotone/runtime/lib/data.h
index d19f3e4..aa0bd3e 100644
--- a/monotone/runtime/lib/data.h
+++ b/monotone/runtime/lib/data.h
@@ -438,7 +438,7 @@ data_is_bool(uint8_t* data)
 always_inline hot static inline int
 data_size_real(double value)
 {
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (value >= FLT_MIN && value <= FLT_MAX && (float)value == value)
 		return data_size_type() + sizeof(float);
 	return data_size_type() + sizeof(double);
 }
@@ -472,7 +472,7 @@ always_inline hot static inline void
 data_write_real(uint8_t** pos, double value)
 {
 	uint8_t* data = *pos;
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (value >= FLT_MIN && value <= FLT_MAX && (float)value == value)
 	{
 		*data = MN_REAL32;
 		*(float*)(data + data_size_type()) = value;
-- 
2.43.0


From 0b741624a11004090fda395128f099b8dbfc295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:10 +0000
Subject: [PATCH 35/62] fix: strings with quotes or backslashes break exported
 json and the saved config

---
 monotone/runtime/lib/json.c | 43 ++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index a1660f3..1e4ae26 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -53,6 +53,39 @@ json_next(Json* self, int n)
 	return self->json[self->pos];
 }
 
+hot static inline void
+json_read_string(Json* self, int offset, int size)
+{
+	// quote and backslash are prefixed with a backslash
+	auto data  = &self->buf;
+	auto start = self->json + offset;
+	int  count = size;
+	for (int i = 0; i + 1 < size; i++)
+	{
+		if (start[i] == '\\' && (start[i + 1] == '"' || start[i + 1] == '\\'))
+		{
+			count--;
+			i++;
+		}
+	}
+	if (likely(count == size))
+	{
+		encode_raw(data, start, size);
+		return;
+	}
+	char* copy = mn_malloc(count);
+	guard(mn_free, copy);
+	int   pos  = 0;
+	for (int i = 0; i < size; i++)
+	{
+		if (i + 1 < size && start[i] == '\\' &&
+		    (start[i + 1] == '"' || start[i + 1] == '\\'))
+			i++;
+		copy[pos++] = start[i];
+	}
+	encode_raw(data, copy, count);
+}
+
 hot static inline int
 json_read(Json* self, int skip)
 {
@@ -176,7 +209,7 @@ json_read(Json* self, int skip)
 		if (unlikely(self->pos > self->json_size))
 			return -1;
 		int size = self->pos - offset - 1;
-		encode_raw(data, self->json + offset, size);
+		json_read_string(self, offset, size);
 		return token;
 	}
 	case 'n':
@@ -311,12 +344,16 @@ json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 	}
 	case MN_STRINGV0 ... MN_STRING32:
 	{
-		// todo: quouting
 		char* value;
 		int   size;
 		data_read_raw(pos, &value, &size);
 		buf_write(data, "\"", 1);
-		buf_write(data, value, size);
+		for (int i = 0; i < size; i++)
+		{
+			if (value[i] == '"' || value[i] == '\\')
+				buf_write(data, "\\", 1);
+			buf_write(data, value + i, 1);
+		}
 		buf_write(data, "\"", 1);
 		break;
 	}
-- 
2.43.0


From f31cf60f25a36c566c5707f17ce84961ae6597f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:37 +0000
Subject: [PATCH 36/62] fix: json parser reads past its input, accepts empty
 text and numbers it cannot hold

---
 monotone/runtime/lib/json.c | 39 +++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index 1e4ae26..1a13a56 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -166,7 +166,7 @@ json_read(Json* self, int skip)
 				return -1;
 			// value
 			rc = json_read(self, 1);
-			if (unlikely(rc == -1))
+			if (unlikely(rc <= 0))
 				return -1;
 			count++;
 
@@ -252,7 +252,11 @@ json_read(Json* self, int skip)
 		if (self->json[start] == '.')
 			goto fp;
 
-		int64_t value = 0;
+		uint64_t limit  = INT64_MAX;
+		uint64_t value  = 0;
+		int      digits = 0;
+		if (negative)
+			limit++;
 		while (self->pos < self->json_size)
 		{
 			// float
@@ -265,21 +269,34 @@ json_read(Json* self, int skip)
 			}
 			if (! isdigit(symbol))
 				break;
-			value = (value * 10) + symbol - '0';
+			uint64_t digit = symbol - '0';
+			if (unlikely(value > (limit - digit) / 10))
+				return -1;
+			value = (value * 10) + digit;
+			digits++;
 			self->pos++;
 		}
+		if (unlikely(! digits))
+			return -1;
 		if (negative)
 			value = -value;
 		encode_integer(data, value);
 		return token;
 fp:;
+		// json string is not required to be null-terminated
+		char   number[512];
+		size_t number_size = self->json_size - self->pos;
+		if (number_size > sizeof(number) - 1)
+			number_size = sizeof(number) - 1;
+		memcpy(number, self->json + self->pos, number_size);
+		number[number_size] = 0;
+
 		char* end;
-		double real = strtod(self->json + self->pos, &end);
-		if (errno == ERANGE)
-			return -1;
-		self->pos += (end - (self->json + self->pos));
-		if (unlikely(self->pos > self->json_size))
+		errno = 0;
+		double real = strtod(number, &end);
+		if (errno == ERANGE || end == number)
 			return -1;
+		self->pos += end - number;
 		if (negative)
 			real = -real;
 		encode_real(data, real);
@@ -299,7 +316,7 @@ json_parse(Json* self, Str* string)
 	self->pos       = 0;
 	int rc;
 	rc = json_read(self, 0);
-	if (unlikely(rc == -1))
+	if (unlikely(rc <= 0))
 		error("%s", "json parse error");
 	assert(self->buf.position <= self->buf.end);
 }
@@ -330,7 +347,9 @@ json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 	{
 		double value;
 		data_read_real(pos, &value);
-		buf_len = snprintf(buf, sizeof(buf), "%f", value);
+		buf_len = snprintf(buf, sizeof(buf), "%.17g", value);
+		if (buf_len == (int)strspn(buf, "-0123456789"))
+			buf_len += snprintf(buf + buf_len, sizeof(buf) - buf_len, ".0");
 		buf_write(data, buf, buf_len);
 		break;
 	}
-- 
2.43.0


From 67544ac792dd16883c52cc5a79656b24b752d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:29 +0000
Subject: [PATCH 37/62] fix: decode real and null fields by their own types

---
 monotone/runtime/lib/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/lib/decode.h b/monotone/runtime/lib/decode.h
index 5b2121e..80f1e10 100644
--- a/monotone/runtime/lib/decode.h
+++ b/monotone/runtime/lib/decode.h
@@ -88,7 +88,7 @@ decode_map(Decode* self, uint8_t** pos)
 			}
 			case DECODE_REAL:
 			{
-				if (unlikely(! data_is_bool(*pos)))
+				if (unlikely(! data_is_real(*pos)))
 					error("config: real expected for '%s'", ref->key);
 				auto value = (double*)ref->value;
 				data_read_real(pos, value);
@@ -96,7 +96,7 @@ decode_map(Decode* self, uint8_t** pos)
 			}
 			case DECODE_NULL:
 			{
-				if (unlikely(! data_is_bool(*pos)))
+				if (unlikely(! data_is_null(*pos)))
 					error("config: null expected for '%s'", ref->key);
 				data_read_null(pos);
 				break;
-- 
2.43.0


From ceaa297c033de50e6d276e3b0c5c2819ff01efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:41 +0000
Subject: [PATCH 38/62] fix: integer literals and units wrap, lists of integers
 overflow the token backlog

---
 monotone/main/command/lex.c        | 86 ++++++++++++++++++------------
 monotone/main/command/parse_misc.h |  3 ++
 2 files changed, 56 insertions(+), 33 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 9f66620..5540949 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -132,69 +132,101 @@ lex_keywords(Lex* self, bool on)
 	self->keywords = on;
 }
 
+// skip white spaces and comments, returns false on eof
+static bool
+lex_skip(Lex* self)
+{
+	for (;;)
+	{
+		while (self->pos < self->end && isspace(*self->pos))
+			self->pos++;
+		// eof
+		if (unlikely(self->pos == self->end))
+			return false;
+		if (*self->pos != '#')
+			return true;
+		while (self->pos < self->end && *self->pos != '\n')
+			self->pos++;
+		// eof
+		if (self->pos == self->end)
+			return false;
+	}
+}
+
 static void
 lex_integer_mod(Lex* self, Token* value)
 {
+	// modificator is a name
+	if (! lex_skip(self))
+		return;
+	if (! isalpha(*self->pos))
+		return;
+
 	Token tk;
 	lex_next(self, &tk);
+
+	uint64_t unit = 1;
 	switch (tk.id) {
 	// time (convert to microseconds)
 	case KUSEC:
 		// do nothing (default resolution)
 		break;
 	case KMSEC:
-		value->integer *= 1000ULL;
+		unit = 1000ULL;
 		break;
 	case KSEC:
-		value->integer *= 1000ULL * 1000;
+		unit = 1000ULL * 1000;
 		break;
 	case KMIN:
-		value->integer *= 60ULL * 1000 * 1000;
+		unit = 60ULL * 1000 * 1000;
 		break;
 	case KHOUR:
-		value->integer *= 60ULL * 60 * 1000 * 1000;
+		unit = 60ULL * 60 * 1000 * 1000;
 		break;
 	case KDAY:
-		value->integer *= 24ULL * 60 * 60 * 1000 * 1000;
+		unit = 24ULL * 60 * 60 * 1000 * 1000;
 		break;
 	case KWEEK:
-		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
+		unit = 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 7 * 24 * 60 * 60 * 1000 * 1000;
+		unit = 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 7 * 24 * 60 * 60 * 1000 * 1000;
+		unit = 365ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
-		value->integer *= 1000ULL;
+		unit = 1000ULL;
 		break;
 	case KKIB:
-		value->integer *= 1024ULL;
+		unit = 1024ULL;
 		break;
 	case KMB:
-		value->integer *= 1000ULL * 1000;
+		unit = 1000ULL * 1000;
 		break;
 	case KMIB:
-		value->integer *= 1024ULL * 1024;
+		unit = 1024ULL * 1024;
 		break;
 	case KGB:
-		value->integer *= 1000ULL * 1000 * 1000;
+		unit = 1000ULL * 1000 * 1000;
 		break;
 	case KGIB:
-		value->integer *= 1024ULL * 1024 * 1024;
+		unit = 1024ULL * 1024 * 1024;
 		break;
 	case KTB:
-		value->integer *= 1000ULL * 1000 * 1000 * 1000;
+		unit = 1000ULL * 1000 * 1000 * 1000;
 		break;
 	case KTIB:
-		value->integer *= 1024ULL * 1024 * 1024 * 1024;
+		unit = 1024ULL * 1024 * 1024 * 1024;
 		break;
 	default:
 		lex_push(self, &tk);
 		break;
 	}
+
+	if (unlikely(__builtin_mul_overflow(value->integer, unit, &value->integer)))
+		error("integer number is too big");
 }
 
 void
@@ -208,22 +240,8 @@ lex_next(Lex* self, Token* tk)
 	}
 	tk->id = KEOF;
 
-	// skip white spaces and comments
-	for (;;)
-	{
-		while (self->pos < self->end && isspace(*self->pos))
-			self->pos++;
-		// eof
-		if (unlikely(self->pos == self->end))
-			return;
-		if (*self->pos != '#')
-			break;
-		while (self->pos < self->end && *self->pos != '\n')
-			self->pos++;
-		// eof
-		if (self->pos == self->end)
-			return;
-	}
+	if (! lex_skip(self))
+		return;
 
 	// symbols
 	if (*self->pos != '\"' &&
@@ -253,7 +271,9 @@ lex_next(Lex* self, Token* tk)
 			}
 			if (! isdigit(*self->pos))
 				break;
-			tk->integer = (tk->integer * 10) + *self->pos - '0';
+			if (unlikely(__builtin_mul_overflow(tk->integer, 10, &tk->integer) ||
+			             __builtin_add_overflow(tk->integer, *self->pos - '0', &tk->integer)))
+				error("integer number is too big");
 			self->pos++;
 		}
 
diff --git a/monotone/main/command/parse_misc.h b/monotone/main/command/parse_misc.h
index 276b552..0d367e4 100644
--- a/monotone/main/command/parse_misc.h
+++ b/monotone/main/command/parse_misc.h
@@ -54,6 +54,9 @@ parse_int(Lex* self, Token* name, int64_t* value)
 		error("%.*s 'integer' expected", str_size(&name->string),
 		      str_of(&name->string));
 
+	if (unlikely(tk.integer > INT64_MAX))
+		error("%.*s integer is too big", str_size(&name->string),
+		      str_of(&name->string));
 	*value = tk.integer;
 }
 
-- 
2.43.0


From 20d5fa68a1d54b87393f5069a6992814dc96b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:28 +0000
Subject: [PATCH 39/62] fix: recognize the min unit

---
 monotone/main/command/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 5540949..3a26647 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -44,7 +44,7 @@ static Keyword keywords[] =
 	{ KSEC,        "sec",          3},
 	{ KSEC,        "second",       6},
 	{ KSEC,        "seconds",      7},
-	{ KMIN,        "min",          2},
+	{ KMIN,        "min",          3},
 	{ KMIN,        "minute",       6},
 	{ KMIN,        "minutes",      7},
 	{ KHOUR,       "hr",           2},
-- 
2.43.0


From e75424a9f22786986509bd6b1f92f249a670a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:08 +0000
Subject: [PATCH 40/62] fix: integer literals (use unsigned operands)

---
 monotone/main/command/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 3a26647..791e44f 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -271,8 +271,8 @@ lex_next(Lex* self, Token* tk)
 			}
 			if (! isdigit(*self->pos))
 				break;
-			if (unlikely(__builtin_mul_overflow(tk->integer, 10, &tk->integer) ||
-			             __builtin_add_overflow(tk->integer, *self->pos - '0', &tk->integer)))
+			if (unlikely(__builtin_mul_overflow(tk->integer, 10ULL, &tk->integer) ||
+			             __builtin_add_overflow(tk->integer, (uint64_t)(*self->pos - '0'), &tk->integer)))
 				error("integer number is too big");
 			self->pos++;
 		}
-- 
2.43.0


From b96d708abef9f736c655042cbb5b78480f9076b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:09 +0000
Subject: [PATCH 41/62] fix: writers waiting for memory are not woken when
 pages are released to the system

---
 monotone/runtime/lib/memory_mgr.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 89dd37a..2de5e4a 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -82,6 +82,7 @@ memory_mgr_reset(MemoryMgr* self)
 	self->count          -= self->free_list_count;
 	self->free_list       = NULL;
 	self->free_list_count = 0;
+	cond_var_broadcast(&self->cond_var);
 	mutex_unlock(&self->lock);
 
 	while (page)
@@ -145,13 +146,19 @@ memory_mgr_pop(MemoryMgr* self)
 				error("mm: memory limit reached");
 			}
 
-			// wait for free page
-			while (! self->free_list)
+			// wait for free page or for the memory to be released
+			while (! self->free_list && used >= self->limit_wm)
+			{
 				cond_var_wait(&self->cond_var, &self->lock);
+				used = self->count * (uint64_t)self->page_size;
+			}
 
-			auto page = memory_mgr_pop_cache(self);
-			mutex_unlock(&self->lock);
-			return page;
+			if (self->free_list)
+			{
+				auto page = memory_mgr_pop_cache(self);
+				mutex_unlock(&self->lock);
+				return page;
+			}
 		}
 	}
 
@@ -177,11 +184,11 @@ memory_mgr_push(MemoryMgr* self, Page* page, Page* page_tail, int count)
 		page_tail->next = self->free_list;
 		self->free_list = page;
 		self->free_list_count += count;
-		cond_var_broadcast(&self->cond_var);
 		page = NULL;
 	} else {
 		self->count -= count;
 	}
+	cond_var_broadcast(&self->cond_var);
 	mutex_unlock(&self->lock);
 
 	while (page)
-- 
2.43.0


From b8ed537414ddd5d910d1936b967886bd9fee0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:18 +0000
Subject: [PATCH 42/62] fix: a failed memory mapping stays counted as used
 memory

---
 monotone/runtime/lib/memory_mgr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 2de5e4a..d110aea 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -168,7 +168,13 @@ memory_mgr_pop(MemoryMgr* self)
 	Page* page;
 	page = vfs_mmap(-1, sizeof(Page) + self->page_size);
 	if (unlikely(page == NULL))
+	{
+		mutex_lock(&self->lock);
+		self->count--;
+		cond_var_broadcast(&self->cond_var);
+		mutex_unlock(&self->lock);
 		error_system();
+	}
 	page->used = 0;
 	page->next = NULL;
 	return page;
-- 
2.43.0


From d5101050dbd43b48158f422f260c297092b91153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:04 +0000
Subject: [PATCH 43/62] fix: writes crash when mm_page_size is too small or too
 large

---
 monotone/engine/io/memtable.c     | 2 ++
 monotone/runtime/lib/memory_mgr.h | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index f80383b..9260dae 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -42,6 +42,8 @@ memtable_page_allocate(Memtable* self)
 {
 	MemtablePage* page;
 	page = heap_allocate(&self->heap, sizeof(MemtablePage) + self->size_page * sizeof(Event*));
+	if (unlikely(page == NULL))
+		error("memory page size is too small");
 	page->events_count = 0;
 	rbtree_init_node(&page->node);
 	return page;
diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index d110aea..a2ea5ba 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -55,12 +55,14 @@ memory_mgr_init(MemoryMgr* self)
 }
 
 static inline void
-memory_mgr_set(MemoryMgr* self, int page_size,
+memory_mgr_set(MemoryMgr* self, uint64_t page_size,
                uint64_t   cache,
                bool       limit,
                Str*       limit_behaviour,
                uint64_t   limit_wm)
 {
+	if (unlikely(page_size <= sizeof(Page) || page_size > INT_MAX))
+		error("mm: invalid page size");
 	self->page_size = page_size - sizeof(Page);
 	self->cache     = cache;
 	self->limit     = limit;
-- 
2.43.0


From 0604f05099d44a4f96cfe09eb666b1d7545ea7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:02 +0000
Subject: [PATCH 44/62] fix: uuid text with trailing characters is accepted

---
 monotone/runtime/lib/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/uuid.c b/monotone/runtime/lib/uuid.c
index 6299c55..d367f64 100644
--- a/monotone/runtime/lib/uuid.c
+++ b/monotone/runtime/lib/uuid.c
@@ -55,7 +55,7 @@ uuid_to_string(Uuid* self, char* string, int size)
 int
 uuid_from_string_nothrow(Uuid* self, Str* src)
 {
-	if (unlikely(str_size(src) < (UUID_SZ - 1)))
+	if (unlikely(str_size(src) != (UUID_SZ - 1)))
 		return -1;
 
 	auto string = str_of(src);
-- 
2.43.0


From 8b66de113db7914ab2c58cc988216b7d3134f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 45/62] fix: oversized cursor keys and value sizes are not
 refused

---
 monotone/engine/io/event.h   | 2 ++
 monotone/main/api/monotone.c | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 2db0d69..099b14b 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -88,6 +88,8 @@ event_heap_allocate(Heap* heap, size_t size)
 static inline Event*
 event_allocate(Heap* heap, EventArg* arg)
 {
+	if (unlikely(arg->value_size > (size_t)heap->memory_mgr->page_size))
+		error("event size exceeds the memory page size");
 	auto arg_size = arg->key_size + arg->value_size;
 	auto event = event_heap_allocate(heap, sizeof(Event) + arg_size);
 	event_init(event, arg);
diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index cc31a09..b5d2e27 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -189,7 +189,13 @@ monotone_cursor(monotone_t* self, const char* options, monotone_event_t* key)
 			engine_cursor_open(&cursor->cursor, &self->main.engine, NULL);
 		} else
 		{
-			auto copy = event_malloc((EventArg*)key);
+			if (unlikely(key->key_size > UINT8_MAX))
+				error("event key size limit is 255 bytes");
+			// only the id and the key are used
+			EventArg arg = *(EventArg*)key;
+			arg.value      = NULL;
+			arg.value_size = 0;
+			auto copy = event_malloc(&arg);
 			guard(event_free, copy);
 			engine_cursor_open(&cursor->cursor, &self->main.engine, copy);
 		}
-- 
2.43.0


From 17a1746afad80dea500411a95f13b8de16da8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:10 +0000
Subject: [PATCH 46/62] fix: memory and descriptors leak when open fails while
 partitions are read

---
 monotone/engine/engine/engine.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index aeb0a7f..1edf5b3 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -71,8 +71,21 @@ engine_close(Engine* self)
 			break;
 		mapping_remove(&self->mapping, slice);
 		auto ref = ref_of(slice);
+		list_unlink(&ref->part->link);
 		ref_free(ref);
 	}
+
+	// free partitions left by a failed open
+	list_foreach(&self->storage_mgr.list)
+	{
+		auto storage = list_at(Storage, link);
+		list_foreach_safe(&storage->list)
+		{
+			auto part = list_at(Part, link);
+			list_unlink(&part->link);
+			part_free(part);
+		}
+	}
 }
 
 void
-- 
2.43.0


From 1ef4e7ae0fb49ad9a74cdad017e3e814d3884738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:28 +0000
Subject: [PATCH 47/62] fix: opening again after a failed open leaks the
 directory lock

---
 monotone/main/main/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 02d202f..df9e0f1 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -120,6 +120,11 @@ main_deploy(Main* self, Str* directory)
 	if (config_online())
 		error("environment is already open");
 
+	// directory is still locked by the failed open
+	if (file_is_openned(&self->lock_directory))
+		error("environment has failed to open and must be freed");
+	file_close(&self->lock_directory);
+
 	// prepare random manager
 	random_open(&self->random);
 
@@ -144,7 +149,10 @@ main_deploy(Main* self, Str* directory)
 	// get exclusive directory lock
 	file_open_directory(&self->lock_directory, str_of(directory));
 	if (! file_lock(&self->lock_directory))
+	{
+		file_close(&self->lock_directory);
 		error("in use by another process");
+	}
 
 	// read or create config file
 	char path[PATH_MAX];
-- 
2.43.0


From 514b27d82c52ddca5985e0e1ce57fdc59b6b9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:00 +0000
Subject: [PATCH 48/62] fix: files left on another storage by a failed move
 break reopening or return dropped events

---
 monotone/engine/engine/op.c           |  1 +
 monotone/engine/engine/refresh.c      |  2 +-
 monotone/engine/storage/storage_mgr.c | 22 ++++++++++++++++++++++
 monotone/engine/storage/storage_mgr.h |  1 +
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index a05992b..3501b90 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -255,6 +255,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 		{
 			if (part_has(part, ID))
 			{
+				storage_mgr_delete_part(&self->storage_mgr, part);
 				part_offload(part, true);
 				part_unset(part, ID);
 			}
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index 29b489d..c7f0a14 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -198,7 +198,7 @@ refresh_end(Refresh* self)
 
 	// step 2. remove old partition file
 	file_close(&origin->file);
-	part_delete(origin, ID);
+	storage_mgr_delete_part(&self->engine->storage_mgr, part);
 	part_free(origin);
 	self->origin = NULL;
 
diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 4dd6773..a87aac3 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -410,3 +410,25 @@ storage_mgr_find_part(StorageMgr* self, Storage* exclude, uint64_t min)
 	}
 	return NULL;
 }
+
+void
+storage_mgr_delete_part(StorageMgr* self, Part* part)
+{
+	// remove partition data file, including files left on other
+	// storages by previous refresh or move, which failed without crash
+	list_foreach(&self->list)
+	{
+		auto storage = list_at(Storage, link);
+		int  states[] = { ID, ID_COMPLETE, ID_INCOMPLETE };
+		for (int i = 0; i < 3; i++)
+		{
+			// new partition file is not complete yet
+			if (storage->source == part->source && states[i] != ID)
+				continue;
+			char path[PATH_MAX];
+			id_path(&part->id, storage->source, states[i], path);
+			if (fs_exists("%s", path))
+				fs_unlink("%s", path);
+		}
+	}
+}
diff --git a/monotone/engine/storage/storage_mgr.h b/monotone/engine/storage/storage_mgr.h
index cfa1e5e..cf7776a 100644
--- a/monotone/engine/storage/storage_mgr.h
+++ b/monotone/engine/storage/storage_mgr.h
@@ -37,6 +37,7 @@ Storage*
 storage_mgr_find(StorageMgr*, Str*);
 Part*
 storage_mgr_find_part(StorageMgr*, Storage*, uint64_t);
+void storage_mgr_delete_part(StorageMgr*, Part*);
 
 static inline Storage*
 storage_mgr_first(StorageMgr* self)
-- 
2.43.0


From d6590dd44bc2151e7ac1031b6ee10c59732b8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:25 +0000
Subject: [PATCH 49/62] fix: ALTER STORAGE changes the storage before it
 refuses an unknown cloud

---
 monotone/engine/storage/storage_mgr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index a87aac3..4ca4be4 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -257,6 +257,15 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 	}
 	bool is_empty = (storage->list_count == 0);
 
+	// ensure new cloud exists before making any changes
+	if ((mask & SOURCE_CLOUD) && !str_empty(&source->cloud))
+	{
+		if (! cloud_mgr_find(self->cloud_mgr, &source->cloud))
+			error("storage '%.*s': cloud '%.*s' not exists",
+			      str_size(&source->name), str_of(&source->name),
+			      str_size(&source->cloud), str_of(&source->cloud));
+	}
+
 	if (mask & SOURCE_CRC)
 	{
 		if (! is_empty)
-- 
2.43.0


From ccf9c8bf04f4bebcb9efef2003159e3cbbf258a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:25 +0000
Subject: [PATCH 50/62] fix: a storage used twice in a pipeline is accepted and
 rebalanced forever

---
 monotone/engine/storage/pipeline.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index 7c89b76..c1fe112 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -108,10 +108,13 @@ pipeline_alter_validate(List* configs)
 			break;
 
 		// cannot use same storage
-		auto next = container_of(_i->next, TierConfig, link);
-		if (str_compare(&config->name, &next->name))
-			error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
-			      str_of(&config->name));
+		for (auto pos = _i->next; pos != configs; pos = pos->next)
+		{
+			auto next = container_of(pos, TierConfig, link);
+			if (str_compare(&config->name, &next->name))
+				error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
+				      str_of(&config->name));
+		}
 
 		// ensure conditions are set to use next
 		if (tier_config_terminal(config))
-- 
2.43.0


From 0afb9d1768b379d8dfca4ba43681293401d48d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:47 +0000
Subject: [PATCH 51/62] fix: ALTER PIPELINE refuses a tier with an empty list
 of options

---
 monotone/main/command/parse_pipeline.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/monotone/main/command/parse_pipeline.c b/monotone/main/command/parse_pipeline.c
index 2c78b35..a2e770f 100644
--- a/monotone/main/command/parse_pipeline.c
+++ b/monotone/main/command/parse_pipeline.c
@@ -60,16 +60,9 @@ parse_pipeline_set(Lex* self, Cmd* arg)
 		if (! lex_if(self, '(', NULL))
 			error("ALTER PIPELINE SET name '(' expected");
 
-		// [)]
-		if (lex_if(self, ')', NULL))
-		{
-			unguard();
-			cmd_pipeline_alter_add(cmd, config);
-			continue;
-		}
-
-		// (tier options)
-		for (;;)
+		// [)] or (tier options)
+		auto empty = lex_if(self, ')', NULL);
+		while (! empty)
 		{
 			// name
 			lex_next(self, &name);
-- 
2.43.0


From 529bd204ca059406fff9aa76d14683e5c0005d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:47 +0000
Subject: [PATCH 52/62] fix: SET of an integer above the signed range makes the
 variable negative

---
 monotone/main/main/execute.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 572de82..bd2f6e5 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -151,6 +151,9 @@ execute_set(Executable* self)
 		if (value->id != KINT)
 			error("SET '%.*s': integer value expected", str_size(name),
 			      str_of(name));
+		if (unlikely(value->integer > INT64_MAX))
+			error("SET '%.*s': integer is too big", str_size(name),
+			      str_of(name));
 		if (var_is(var, VAR_Z) && value->integer == 0)
 			error("SET '%.*s': variable cannot be set to zero", str_size(name),
 			      str_of(name));
-- 
2.43.0


From f03e93b1449ccc75dcea95162807b614ec308b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:47 +0000
Subject: [PATCH 53/62] fix: rebalance moves a partition to a wrong storage
 after skipping a busy one

---
 monotone/engine/engine/op.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 3501b90..370ff3b 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -623,7 +623,11 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
 			if (part->refresh)
+			{
+				str_free(storage);
+				str_init(storage);
 				continue;
+			}
 			part->refresh = true;
 
 			*min = part->id.min;
-- 
2.43.0


From ba744997d80d43e4f4fd9d9135ba836fd25235ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:47 +0000
Subject: [PATCH 54/62] fix: storage size and events are not reduced when a
 partition is dropped

---
 monotone/engine/engine/op.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 370ff3b..22913ae 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -265,7 +265,8 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 		{
 			// unset storage metrics before droping the reference
 			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
-			storage_remove_metrics(storage, part);
+			storage->size   -= part->index.size_regions;
+			storage->events -= part->index.events;
 			index_init(&part->index);
 			buf_reset(&part->index_data);
 		}
-- 
2.43.0


From 5ed09a9d85e4fdc0ef3b9e359964b18ae9b166fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:37 +0000
Subject: [PATCH 55/62] fix: a failed rebalance or background refresh leaves
 the partition marked as busy forever

---
 monotone/engine/engine/op.c          | 39 ++++++++++++++++++++++++----
 monotone/engine/engine/service_req.h |  9 +++++++
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 22913ae..a0f91c0 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -641,6 +641,22 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 	return false;
 }
 
+static void
+engine_refresh_cancel(Engine* self, uint64_t min)
+{
+	// allow to schedule partition refresh again after an error
+
+	// take control shared lock
+	control_lock_shared();
+	guard(control_unlock_guard, NULL);
+
+	mutex_lock(&self->lock);
+	auto slice = mapping_match(&self->mapping, min);
+	if (slice)
+		ref_of(slice)->part->refresh = false;
+	mutex_unlock(&self->lock);
+}
+
 void
 engine_rebalance(Engine* self, Refresh* refresh)
 {
@@ -652,10 +668,20 @@ engine_rebalance(Engine* self, Refresh* refresh)
 		uint64_t min;
 		if (! engine_rebalance_next(self, &min, &storage))
 			break;
-		if (str_empty(&storage))
-			engine_drop(self, min, true, ID|ID_CLOUD);
-		else
-			engine_refresh(self, refresh, min, &storage, true);
+
+		Exception e;
+		if (enter(&e))
+		{
+			if (str_empty(&storage))
+				engine_drop(self, min, true, ID|ID_CLOUD);
+			else
+				engine_refresh(self, refresh, min, &storage, true);
+		}
+		if (leave(&e))
+		{
+			engine_refresh_cancel(self, min);
+			rethrow();
+		}
 	}
 }
 
@@ -781,7 +807,10 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 		}
 	}
 	if (leave(&e))
-	{ }
+	{
+		if (req && service_req_is_refresh(req))
+			engine_refresh_cancel(self, req->id);
+	}
 
 	if (req)
 		service_req_free(req);
diff --git a/monotone/engine/engine/service_req.h b/monotone/engine/engine/service_req.h
index 5e6d335..cba80a1 100644
--- a/monotone/engine/engine/service_req.h
+++ b/monotone/engine/engine/service_req.h
@@ -62,6 +62,15 @@ service_req_free(ServiceReq* self)
 	mn_free(self);
 }
 
+static inline bool
+service_req_is_refresh(ServiceReq* self)
+{
+	for (int i = 0; i < self->actions_count; i++)
+		if (self->actions[i].type == ACTION_REFRESH)
+			return true;
+	return false;
+}
+
 static inline bool
 service_req_is_upload(ServiceReq* self)
 {
-- 
2.43.0


From 2c1deda16005858b786375ea6d2d5befa13f07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:11 +0000
Subject: [PATCH 56/62] fix: partitions are dropped as expired when the clock
 is set back

---
 monotone/engine/engine/op.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index a0f91c0..1fc7d93 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -577,8 +577,10 @@ engine_rebalance_tier_next(Tier* tier)
 		auto part = storage_oldest(tier->storage);
 		if (! part)
 			return NULL;
+		// (partition can be created in the future, if the clock is set back)
 		auto now = time_us();
-		if ((now - part->time_create) >= (uint64_t)tier->config->duration)
+		if (now >= part->time_create &&
+		    (now - part->time_create) >= (uint64_t)tier->config->duration)
 			return part;
 	}
 
-- 
2.43.0


From 4042833c8718500f611aaf7bcb3516280cd67eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:31 +0000
Subject: [PATCH 57/62] fix: an upload over a longer file left by a crash keeps
 its tail, the partition cannot be downloaded

---
 monotone/cloud/cloud/mock.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 2286a67..7fdc7b3 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -135,6 +135,10 @@ mock_upload(Cloud* self, Source* source, Id* id)
 	// crash case 5
 	error_injection(error_upload);
 
+	// in case previous file was not removed
+	if (fs_exists("%s", path_to))
+		fs_unlink("%s", path_to);
+
 	// create mock file
 	File file;
 	file_init(&file);
-- 
2.43.0


From 6f204a3c04823f5eb83e4995c1c5dfd954fd4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:54 +0000
Subject: [PATCH 58/62] fix: a failed download leaves its file open and the
 partition with the index of that file

---
 monotone/engine/io/part.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 1a9f805..bc0e5b0 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -173,8 +173,18 @@ part_download(Part* self)
 	// download partition file locally
 	cloud_download(self->cloud, self->source, &self->id);
 
-	// open
-	part_open(self, ID, false);
+	// open (partition continues to use its cloud file on error)
+	Index index = self->index;
+	Exception e;
+	if (enter(&e)) {
+		part_open(self, ID, false);
+	}
+	if (leave(&e))
+	{
+		file_close(&self->file);
+		self->index = index;
+		rethrow();
+	}
 }
 
 void
-- 
2.43.0


From 399c853211f7e33a797adb189497ced0f8888712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:14 +0000
Subject: [PATCH 59/62] fix: a command followed by a bad token leaks the parsed
 command

---
 monotone/main/command/parse.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/monotone/main/command/parse.c b/monotone/main/command/parse.c
index 964c54e..3b267c7 100644
--- a/monotone/main/command/parse.c
+++ b/monotone/main/command/parse.c
@@ -22,6 +22,13 @@
 #include <monotone_engine.h>
 #include <monotone_command.h>
 
+static inline void
+parse_eof(Lex* self)
+{
+	if (! lex_if(self, KEOF, NULL))
+		error("unexpected clause at the end of command");
+}
+
 Cmd*
 parse(Lex* self)
 {
@@ -171,12 +178,13 @@ parse(Lex* self)
 	}
 
 	// eof
-	if (! lex_if(self, KEOF, NULL))
+	if (cmd == NULL)
 	{
-		if (cmd)
-			cmd_free(cmd);
-		error("unexpected clause at the end of command");
+		parse_eof(self);
+		return NULL;
 	}
-
+	guard(cmd_free, cmd);
+	parse_eof(self);
+	unguard();
 	return cmd;
 }
-- 
2.43.0


From 961191070d3b34236c3e22d29f91b9c8d836fead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:14 +0000
Subject: [PATCH 60/62] fix: MOVE PARTITION into an unknown storage drops the
 cloud copy before it is refused

---
 monotone/engine/engine/op.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 1fc7d93..d94c7e1 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -527,6 +527,20 @@ void
 engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
                bool if_exists)
 {
+	// ensure storage exists before making any changes
+	if (storage)
+	{
+		auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+		if (ref)
+		{
+			auto match = storage_mgr_find(&self->storage_mgr, storage);
+			engine_unlock(self, ref, LOCK_SERVICE);
+			if (unlikely(! match))
+				error("refresh: storage '%.*s' not found", str_size(storage),
+				      str_of(storage));
+		}
+	}
+
 	// download partition from cloud, if necessary
 	engine_download(self, min, if_exists, true);
 
-- 
2.43.0


From 411da441391070d58c55c75ca33a5c58804be810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:16 +0000
Subject: [PATCH 61/62] fix: CHECKPOINT skips a partition whose refresh failed
 and which was not written since

---
 monotone/engine/engine/op.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index d94c7e1..bb477de 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -712,10 +712,15 @@ engine_checkpoint(Engine* self)
 	auto slice = mapping_min(&self->mapping);
 	while (slice)
 	{
-		auto ref = ref_of(slice);
-		if (!ref->part->refresh && heap_used(&ref->part->memtable->heap) > 0)
+		auto part = ref_of(slice)->part;
+
+		// previous refresh attempt might have failed before writing
+		// its memtable
+		Memtable* memtable_prev;
+		auto memtable = part_memtable(part, &memtable_prev);
+		if (!part->refresh &&
+		    (heap_used(&memtable->heap) > 0 || memtable_prev->count > 0))
 		{
-			auto part = ref->part;
 			service_refresh(self->service, part);
 			part->refresh = true;
 		}
-- 
2.43.0


From dcbcdc64ef3c6f117479adabf6126146c30fc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:37 +0000
Subject: [PATCH 62/62] fix: a background task that fails crashes its worker
 when the refresh mark is cleared

---
 monotone/engine/engine/op.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index bb477de..84bb015 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -662,15 +662,17 @@ engine_refresh_cancel(Engine* self, uint64_t min)
 {
 	// allow to schedule partition refresh again after an error
 
-	// take control shared lock
+	// take control shared lock (no guard, workers have no outer exception
+	// handler)
 	control_lock_shared();
-	guard(control_unlock_guard, NULL);
 
 	mutex_lock(&self->lock);
 	auto slice = mapping_match(&self->mapping, min);
 	if (slice)
 		ref_of(slice)->part->refresh = false;
 	mutex_unlock(&self->lock);
+
+	control_unlock();
 }
 
 void
-- 
2.43.0


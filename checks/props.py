# Source of /verif/properties.jsonl (written by gen.py).
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=['monotone/' + f for f in files.split()], state=[dict(zip(('name','meaning','where'), s)) for s in state],
                     mechanism=[dict(name=m[0], where='monotone/' + m[1]) for m in mech], observe_at=list(observe), hook_needed=hook)))

API = ('monotone_write', 'monotone_cursor', 'monotone_read', 'monotone_next')

p('C01', 'A scan returns exactly the last writes, in order',
  'After any sequence of successful writes and deletes, a full scan returns exactly one event for every (id, key) whose last operation was a write, with the value and size of that last write, and nothing else. Events come back in strictly increasing order of 64-bit id and then key bytes (a proper prefix first).',
  'inputs histories', 'all ids (including the extremes of the 64-bit range), keys of 0..2 bytes, write/delete choices and orders of operations spread over several partitions, up to the stated number of operations',
  'The functional tests write a few dozen fixed ascending ids; the property ranges over every id, key, delete and order, including ones that differ only in high bits or in key length.',
  'main/api/monotone.c engine/engine/write.c engine/engine/engine.c engine/engine/engine_cursor.h engine/io/memtable.c engine/io/memtable_iterator.h engine/io/comparator.h engine/io/event.h engine/io/merge_iterator.h engine/io/mapping.h',
  [('event order', 'engine/io/comparator.h compare'), ('insert/replace', 'engine/io/memtable.c memtable_set'), ('partition lookup', 'engine/engine/engine.c engine_lock'), ('delete skipping', 'engine/engine/engine_cursor.h engine_cursor_skip_deletes')], observe=API)
p('C02', 'Storing events in partition files changes no result',
  'Refreshing, merging, moving or recompressing partitions at any point of a history of writes and deletes never changes what scans and positioned cursors return, both before and after a restart. This holds for any mix of events still in memory and already in files, for any region size, compression, checksum and encryption setting.',
  'inputs histories configurations', 'all interleavings of symbolic writes, deletes, refreshes, moves and restarts up to the stated length; several region sizes, compression and encryption on and off',
  'Tests refresh fixed data with one region per file; the merge of memory with several file regions is correct only if it is for every relative order of ids, keys, deletes and region boundaries.',
  'engine/io/merger.c engine/io/writer.c engine/io/region_writer.h engine/io/index_writer.h engine/io/reader.h engine/io/part_cursor.h engine/io/part_iterator.h engine/io/region_iterator.h engine/io/index_iterator.h engine/io/index.h engine/io/merge_iterator.h engine/engine/refresh.c engine/engine/op.c',
  [('k-way merge, newest first', 'engine/io/merge_iterator.h'), ('merge to file', 'engine/io/merger.c'), ('region/index layout', 'engine/io/region_writer.h, index_writer.h'), ('refresh stages', 'engine/engine/refresh.c')], observe=API)
p('C03', 'A cursor starts exactly at its key and reaches every later event',
  'A cursor opened with a key returns, in order, exactly the live events whose (id, key) is greater than or equal to that key, whatever partition, region, page or gap the key falls in, and terminates. This includes keys before the first and after the last event and ids up to the largest 64-bit value.',
  'inputs', 'all seek ids and keys against all symbolic contents within the stated bounds, in memory, in files and in both',
  'The tests seek to a handful of existing ids; off-by-one errors show only at particular boundaries (end of a page, region, partition, or of the id space).',
  'main/api/monotone.c engine/engine/engine_cursor.h engine/engine/engine.c engine/io/memtable_iterator.h engine/io/part_cursor.h engine/io/part_iterator.h engine/io/region_iterator.h engine/io/index_iterator.h engine/io/mapping.h',
  [('partition >= id', 'engine/io/mapping.h mapping_gte'), ('page seek', 'engine/io/memtable.c memtable_seek'), ('region seek', 'engine/io/region_iterator.h'), ('index seek', 'engine/io/index_iterator.h')], observe=API)
p('C04', 'An open cursor stays in place while its thread writes',
  'While a cursor is open, writes, replacements and deletes made through the same thread to the partition being read never make the cursor skip, repeat, reorder or invent events: events after the position it stands on that existed when it was opened and are not deleted are all returned once, in order, with a value that was current at some time since the cursor was opened. Failed and rolled back writes leave the cursor where it was.',
  'inputs histories', 'all symbolic positions of the cursor and of the writes relative to it, including page splits and removals, within the stated bounds',
  'No test writes under an open cursor at a page boundary; the outcome depends on the position of the write relative to the cursor and the page layout.',
  'engine/io/memtable.c engine/io/memtable_iterator.h engine/engine/write.c engine/engine/engine_cursor.h',
  [('iterators attached to a table follow page changes', 'engine/io/memtable_iterator.h memtable_iterator_sync'), ('split', 'engine/io/memtable.c memtable_insert')], observe=API)
p('C05', 'A batch is applied completely or not at all',
  'A batch write either succeeds and all its events (in batch order) become visible, or fails and leaves the visible contents, and what is recovered after a restart, exactly as they were before it. This holds whichever event or system call of the batch fails, also when the batch writes the same key several times.',
  'inputs fault_sequences', 'all batches up to the stated size with symbolic ids, every position of an invalid event, every failing system call, short writes included',
  'Tests inject one fixed write error; rollback order and the restoration of previous values depend on which events collide and where the failure lands.',
  'engine/engine/write.c engine/wal/log.h engine/wal/log_write.h engine/wal/wal.c engine/io/memtable.c main/api/monotone.c',
  [('undo log', 'engine/engine/write.c engine_rollback'), ('wal append', 'engine/wal/wal.c wal_write')], observe=API)
p('C06', 'With the WAL on, an acknowledged write survives any crash',
  'If the process dies at any point, reopening the environment succeeds and shows every acknowledged write and delete, and of the operation in flight either all or nothing. The same stays true for writes made after such a recovery, through any number of crashes, and with synchronous writing on it holds when unsynced file contents are lost.',
  'crash_points inputs histories', 'every system-call boundary and every torn length of the dying write, over symbolic writes, batches, rotations and refreshes up to the stated length',
  'A test can only crash at places somebody thought of; the guarantee is about each boundary and each partially written record.',
  'engine/wal/wal.c engine/wal/wal_file.h engine/wal/wal_cursor.c engine/wal/wal_id.h engine/wal/log_write.h main/main/main.c engine/engine/write.c',
  [('append before acknowledging', 'engine/wal/wal.c wal_write'), ('replay', 'main/main/main.c main_replay'), ('record framing', 'engine/wal/wal_file.h')], observe=('monotone_open',) + API)
p('C07', 'A crash during refresh, move or drop loses and duplicates nothing',
  'If the process dies at any point of a refresh, move or drop of a partition, reopening succeeds, every partition is there exactly once, acknowledged writes are all there (with the WAL on, or already stored), and a dropped partition is either entirely present or entirely gone. No temporary files remain in use, and the interrupted operation can be repeated.',
  'crash_points inputs', 'every system-call boundary of refresh, move and drop over symbolic contents within the stated bounds, and a second crash during recovery',
  'crash.test kills the process at three named points; renames and unlinks create many more intermediate directory states.',
  'engine/engine/refresh.c engine/engine/engine_recover.c engine/engine/op.c engine/io/part.c engine/io/writer.c',
  [('incomplete/complete renames', 'engine/engine/refresh.c'), ('recovery of states', 'engine/engine/engine_recover.c')], observe=('monotone_open',) + API)
p('C08', 'Damaged WAL files are never replayed as valid data',
  'For any content of the WAL files, opening the environment terminates without an invalid memory access: it either fails with an error or recovers a state made of whole records. With WAL checksums on, a changed record is never replayed: opening fails, or (where the changed size reaches beyond the end of the file, as after an unfinished write) only whole and unchanged records are shown.',
  'inputs', 'every value of symbolic corrupted bytes, truncation lengths and record headers of the WAL',
  'The tests damage one byte at one position.',
  'engine/wal/wal_cursor.c engine/wal/wal_file.h engine/wal/wal_id.h engine/wal/wal.c engine/wal/log_write.h main/main/main.c',
  [('record validation', 'engine/wal/wal_file.h'), ('record crc', 'engine/wal/wal_cursor.c')], observe=('monotone_open',))
p('C09', 'Damaged partition files are reported, never misread',
  'For any content of a partition file, opening it and reading from it never accesses memory outside the data read; it either returns the events that were written or reports an error. With checksums on, a change of any stored byte of the index or of a region is detected.',
  'inputs', 'every value of symbolic corrupted bytes at every position of the file, and every truncation',
  'The tests only read files the engine has just written.',
  'engine/io/index_op.c engine/io/index.h engine/io/reader.h engine/io/region.h engine/io/region_iterator.h engine/io/part.c engine/engine/engine_recover.c',
  [('index footer validation', 'engine/io/index_op.c'), ('region validation', 'engine/io/reader.h')], observe=('monotone_open', 'monotone_read'))
p('C10', 'WAL files are removed only when all they hold is stored',
  'A WAL file is deleted only if each of its records has been stored in partition files or belongs to a dropped partition, whatever writes, refreshes (also failed ones), rotations and checkpoints surround it; and once everything is stored a checkpoint leaves no obsolete file behind. A removal in progress never hides records of a write that is being made.',
  'histories schedules', 'all interleavings of symbolic writes over several partitions, rotations, refreshes, failed refreshes and garbage collections up to the stated length, with a restart at the end',
  'The danger is in histories where one partition is refreshed and another is not; tests check one.',
  'engine/wal/wal.c engine/wal/wal_id.h engine/engine/op.c engine/engine/service.h engine/io/memtable.c engine/engine/refresh.c',
  [('lowest sequence number kept', 'engine/engine/op.c'), ('file removal', 'engine/wal/wal.c wal_gc')], observe=('monotone_execute', 'monotone_open'))
p('C11', 'Replaying the WAL is idempotent and keeps operation order',
  'Reopening an environment any number of times, with any part of the logged operations already stored in partition files, shows the same contents each time: no older value replaces a newer one, no deleted or dropped data returns, and sequence numbers given after a restart are larger than all given before it.',
  'histories', 'all histories of symbolic writes, deletes, refreshes, drops and restarts up to the stated length',
  'Double replay and replay over stored data depend on which subset was stored; tests sample one.',
  'main/main/main.c engine/engine/write.c engine/engine/op.c engine/wal/wal.c engine/wal/wal_cursor.c engine/engine/engine_recover.c engine/wal/log_drop.h',
  [('skip of stored records', 'engine/engine/write.c engine_write_replay'), ('drop records', 'main/main/main.c main_replay')], observe=('monotone_open',) + API)
p('C12', 'Partitions never overlap and cover every id that is written',
  'Whatever partitions are created explicitly, dropped, filled automatically or refer to ids at either end of the 64-bit range, the partitions never overlap, each event lies inside the range of its partition, and any id can be written. Creating partitions for a range fills exactly the ids of the range that have no partition yet and leaves existing partitions as they are; an empty range is refused; dropping a partition removes exactly the events of its range.',
  'inputs histories', 'all sequences of symbolic create, drop and write operations up to the stated length over the whole id range',
  'Interval arithmetic fails at particular gaps and at the end of the range; tests use small aligned numbers.',
  'engine/engine/engine.c engine/engine/op.c engine/io/mapping.h main/command/parse_partition.c runtime/config/global.h',
  [('gap filling', 'engine/engine/op.c engine_fill_nolock'), ('ordered map of ranges', 'engine/io/mapping.h')], observe=('monotone_execute', 'monotone_write'))
p('C13', 'A failed refresh or move loses nothing and can be retried',
  'If any system call of a refresh or move fails, the command reports it, everything that was readable stays readable and writable with the same results, and the environment can be closed and reopened without loss. Repeating the command once the fault is gone succeeds and stores the data.',
  'fault_sequences inputs', 'each failing system call (and runs of failing calls, and short writes) in a refresh or move over symbolic contents',
  'Tests use three fixed injection points; each system call in the path is a distinct failure.',
  'engine/engine/refresh.c engine/io/part.c engine/io/merger.c engine/io/writer.c engine/engine/op.c runtime/runtime/file.h runtime/runtime/vfs.c',
  [('stages with undo', 'engine/engine/refresh.c')], observe=('monotone_execute',) + API)
p('C14', 'Partition locks exclude each other, nest, and never block forever',
  'Two threads never hold the same lock of a partition at once, a thread may take a lock it already holds and keeps it until its last release, a waiting thread is always woken, and no combination of readers, writers, refreshes and administrative commands deadlocks or leaves a lock held after it returned or failed.',
  'schedules', 'all schedules within the stated number of threads and preemptions over the real lock, condition variable and reader-writer lock code',
  'Multi-threaded tests see a handful of schedules.',
  'engine/engine/lockage.h engine/engine/engine.c engine/engine/ref.h runtime/config/control.h main/main/execute.c engine/engine/refresh.c',
  [('lockage', 'engine/engine/lockage.h'), ('shared/exclusive control lock', 'runtime/config/control.h')], observe=API + ('monotone_execute',))
p('C15', 'Concurrent use gives the results of some sequential order',
  'When several threads write, scan, refresh, drop and checkpoint at the same time, every write that returned success is visible afterwards, also after a restart, the final contents equal those of some sequential order of the operations, and no scan sees a batch that was rolled back. No thread touches freed memory.',
  'schedules', 'all schedules within the stated number of threads, operations and preemptions at synchronisation points',
  'Schedules are not controllable by the tests.',
  'engine/engine/write.c engine/engine/engine.c engine/engine/refresh.c engine/engine/service.h engine/engine/worker.c engine/wal/wal.c engine/engine/op.c',
  [('lock protocol of refresh', 'engine/engine/refresh.c'), ('log append under lock', 'engine/wal/wal.c')], observe=API + ('monotone_execute',))
p('C16', 'Serial ids are unique and increasing, also across restarts',
  'In serial mode, as long as the counter is not set by hand, each event written without an id gets an id larger than all ids assigned since the environment was opened, and larger than every id that was present when it was opened, in any partition, in memory, in files or in the WAL, also after a crash.',
  'histories', 'all histories of serial writes, explicit partitions, refreshes, deletes and restarts up to the stated length',
  'recovery_serial.test restarts once with one populated partition.',
  'engine/engine/engine.c engine/engine/write.c runtime/config/global.h runtime/config/var.h main/main/main.c',
  [('recovery of the counter', 'engine/engine/engine.c engine_set_serial'), ('assignment', 'engine/engine/write.c')], observe=('monotone_write', 'monotone_cursor'))
p('C17', 'Settings are validated, persist, and read back as set',
  'A setting accepted by SET is shown with exactly that value and, if persistent, has that value after any restart, for every value of its type; a setting of wrong type, read-only or unknown is refused and changes nothing. A crash at any point of saving leaves a config that opens with either the old or the new values.',
  'inputs crash_points', 'every value of integer, boolean and string settings (symbolic bytes), every crash point of saving',
  'Tests set a few literals.',
  'runtime/config/config.c runtime/config/var.h runtime/config/global.h main/command/parse_config.c main/main/execute.c runtime/lib/json.c',
  [('save', 'runtime/config/config.c config_save'), ('typed set', 'main/main/execute.c')], observe=('monotone_execute', 'monotone_open'))
p('C18', 'Storages, clouds and the pipeline persist exactly as defined',
  'After create, alter, rename and drop of storages, clouds and the pipeline, a restart shows exactly the definitions in force before it, with all options, and partitions still belong to their storage. Refused commands (duplicates, objects in use, unknown names, bad options) change nothing, and a crash in any of these commands leaves the definition before or after it.',
  'histories crash_points', 'all sequences of definition commands up to the stated length with symbolic option values, every crash point',
  'Tests check single commands and rarely restart between them.',
  'engine/storage/storage_mgr.c engine/storage/storage.h engine/storage/pipeline.c engine/storage/tier_config.h engine/storage/tier.h cloud/cloud/source.h cloud/cloud/cloud_mgr.c cloud/cloud/cloud_config.h main/command/parse_storage.c main/command/parse_pipeline.c main/command/parse_cloud.c',
  [('catalog state saved with the config', 'engine/storage/storage_mgr.c storage_mgr_save'), ('reference counts', 'engine/storage/storage.h')], observe=('monotone_execute', 'monotone_open'))
p('C19', 'Any command text is answered or refused, never a crash',
  'For every byte string given as a command, execution terminates with success or an error and a message, never reads or writes outside its input or its own memory, and keeps no memory or locks; a command that is refused has no effect on the environment.',
  'inputs', 'every string up to the stated length, every truncation and every single symbolic byte of each command form, arbitrary tails after each keyword',
  'Inputs are unbounded; the tests use well-formed commands and a few errors.',
  'main/command/lex.c main/command/lex.h main/command/parse.c main/command/parse_config.c main/command/parse_storage.c main/command/parse_partition.c main/command/parse_pipeline.c main/command/parse_cloud.c main/command/parse_debug.c main/command/parse_misc.h main/main/execute.c',
  [('lexer bounds', 'main/command/lex.c'), ('keyword dispatch', 'main/command/parse.c')], observe=('monotone_execute', 'monotone_error'))
p('C20', 'Numbers, sizes and durations are read exactly or refused',
  'A number in a command or in a JSON document is read as exactly its decimal value for every value its type can hold; the size and duration suffixes (us, ms, sec, min, hr, day, week, month of 30 days, year of 365 days and their long forms; kb, mb, gb, tb in thousands; k, kib, m, mib, g, gib, t, tib in 1024s) multiply it by their unit; and a number, or product, that does not fit is refused rather than wrapped.',
  'inputs', 'every decimal digit string up to 20 digits with every suffix and sign',
  'Overflow needs specific long inputs.',
  'main/command/lex.c main/command/lex.h main/command/parse_misc.h runtime/lib/json.c main/command/parse_partition.c',
  [('number scanner', 'main/command/lex.c'), ('json number', 'runtime/lib/json.c')], observe=('monotone_execute',))
p('C21', 'JSON text and stored values convert into each other without loss',
  'Exporting any stored value to JSON and parsing the result gives the same value, for every string content, integer, boolean, null and nesting; parsing any byte string terminates with a value or an error without reading outside it.',
  'inputs', 'every string of symbolic bytes and every 64-bit integer, documents up to the stated size; every byte string up to the stated length for the parser',
  'Tests parse a few clean documents.',
  'runtime/lib/json.c runtime/lib/encode.h runtime/lib/decode.h runtime/lib/data.h',
  [('export', 'runtime/lib/json.c json_export'), ('parse', 'runtime/lib/json.c json_parse')], observe=('monotone_execute', 'config.json'))
p('C22', 'Encoded values decode to themselves and malformed ones are refused',
  'Every integer, real, boolean, string, array and map written in the internal binary encoding is read back identical with exactly the bytes written consumed, its stated size is its real size, elements of arrays and keys of maps are found exactly if present, and a value of another type than the one asked for is reported as an error.',
  'inputs', 'all 64-bit integers, all string lengths up to the stated bound across each encoding size class, all type bytes',
  'Size classes of the encoding change at particular values.',
  'runtime/lib/data.h runtime/lib/data_op.h runtime/lib/encode.h runtime/lib/decode.h',
  [('encoding', 'runtime/lib/data.h'), ('typed decode', 'runtime/lib/decode.h')])
p('C23', 'Compression gives back exactly what was stored or reports an error',
  'For every content and size of data, compressing and decompressing through the engine gives the same bytes, never writes outside the memory reserved, works whatever sequence of compressions the cached contexts served before and when several threads use them, and damaged or inconsistent input is reported as an error without touching memory outside its buffers.',
  'inputs fault_sequences', 'all contents up to the stated size, all split points of input in up to the stated number of pieces, all library results allowed by the zstd and lz4 interfaces (modelled)',
  'Incompressible data and library errors do not occur in the tests.',
  'runtime/lib/compression_zstd.c runtime/lib/compression_lz4.c runtime/lib/compression_mgr.c runtime/lib/compression.h runtime/lib/cache.h',
  [('context cache', 'runtime/lib/cache.h'), ('zstd', 'runtime/lib/compression_zstd.c'), ('lz4', 'runtime/lib/compression_lz4.c')])
p('C24', 'Encryption gives back exactly what was stored or reports an error',
  'For every content and size, encrypting and decrypting with the same key gives the same bytes, a fresh initialisation vector is used for each encryption, the plain text never reaches the file, a wrong key, truncation or modification is reported as an error, and no memory outside the buffers is accessed for any input, including inputs shorter than the encryption header.',
  'inputs fault_sequences', 'all contents and sizes up to the stated bound, all input lengths including those below the header, all library results allowed by the cipher interface (modelled)',
  'Tests encrypt and decrypt matching data only.',
  'runtime/lib/encryption_aes.c runtime/lib/encryption_mgr.c runtime/lib/encryption.h engine/io/region_writer.h engine/io/reader.h',
  [('aes-gcm', 'runtime/lib/encryption_aes.c')])
p('C25', 'The checksum is CRC-32C of exactly the bytes given',
  'The checksum of a buffer equals CRC-32C computed bit by bit for every content, length, alignment and starting value, is the same for the hardware and the software implementation, and splitting the buffer anywhere and continuing gives the same result.',
  'inputs', 'all contents up to the stated length, all alignments, all seeds, all split points',
  'Tests run one implementation on whatever data they write.',
  'runtime/lib/crc.c runtime/lib/crc.h',
  [('software tables', 'runtime/lib/crc.c crc32_sw'), ('hardware instruction', 'runtime/lib/crc.c crc32_sse')])
p('C26', 'Event memory is never shared, lost, or beyond its limit',
  'Memory given to one event never overlaps memory in use by another event or partition, freed partition memory is reusable by others, and every page taken is eventually returned exactly once. With a memory limit set, memory in use stays within it, writers over the limit fail or wait as configured, and a waiting writer continues once memory is freed.',
  'inputs histories schedules', 'all sequences of symbolic allocation sizes, resets and frees over several heaps up to the stated length, limits and caches included',
  'Limits and page boundaries are hit only by specific sizes.',
  'runtime/lib/memory_mgr.h runtime/lib/heap.h engine/io/memtable.c engine/io/event.h',
  [('page cache', 'runtime/lib/memory_mgr.h'), ('bump allocation', 'runtime/lib/heap.h')], observe=('monotone_write', 'monotone_execute show memory'))
p('C27', 'The ordered tree stays a balanced search tree',
  'After any sequence of insertions, removals and replacements, in-order traversal in both directions visits exactly the elements present in order, lookups find exactly the elements present, and the depth stays logarithmic.',
  'inputs histories', 'all sequences of symbolic insertions, removals and replacements up to the stated number of elements',
  'Rebalancing has many cases that depend on insertion and removal order.',
  'runtime/lib/rbtree.c runtime/lib/rbtree.h engine/io/mapping.h',
  [('red-black rebalancing', 'runtime/lib/rbtree.c')])
p('C28', 'Rebalancing follows the pipeline rules and never loses reachable data',
  'Rebalancing moves or drops a partition exactly when its tier is over its configured capacity, size or age, oldest partitions first and down the tiers in order, dropping only from the last tier; afterwards every tier is within its limits. A partition that is merely moved keeps all its events, and partitions not in the pipeline are not touched.',
  'inputs configurations histories', 'all small sets of partitions with symbolic sizes, ages and tier limits, up to the stated number',
  'Tests use a capacity of one fixed number and equal partitions.',
  'engine/storage/pipeline.c engine/engine/op.c engine/storage/tier.h engine/storage/tier_config.h',
  [('choice of partition', 'engine/storage/pipeline.c pipeline_rebalance'), ('execution', 'engine/engine/op.c engine_rebalance')], observe=('monotone_execute',))
p('C29', 'Data in a cloud stays readable and is removed only on request',
  'Uploading, downloading, refreshing, moving and dropping cloud partitions never changes the events readable, whatever copies (local, cloud, both) exist and wherever one of the calls fails or the process dies. A local copy is removed only when a complete cloud copy of the same version exists, and a drop of one side leaves the other usable.',
  'histories fault_sequences crash_points', 'all sequences of upload, download, write, refresh, drop and restart up to the stated length against the built-in mock cloud, each failing call, each crash point',
  'The cloud tests run single successful operations with two injected errors.',
  'engine/engine/op.c engine/io/part.c engine/engine/refresh.c engine/engine/engine_recover.c cloud/cloud/mock.c cloud/cloud/cloud.h cloud/cloud/id.h',
  [('partition states', 'cloud/cloud/id.h'), ('upload/download/offload', 'engine/io/part.c'), ('recovery of cloud states', 'engine/engine/engine_recover.c')], observe=('monotone_execute', 'monotone_cursor'))
p('C30', 'Every scheduled background task is run once and none is lost',
  'Each request queued for background work is handed to exactly one worker, in order, and an upload only to a worker that takes uploads. A partition over its size limit or covered by a checkpoint has a pending request until that request has run, once all requests were run everything is stored and uploaded, uploads left at shutdown are requested again at the next start, and waiting workers stop at close. A task that fails does not stop the workers or block later tasks on the partition.',
  'schedules histories', 'all interleavings of producers and workers and all request sequences up to the stated length',
  'Background tests wait for an expected final state on one schedule.',
  'engine/engine/service.h engine/engine/service_req.h engine/engine/worker.c engine/engine/worker_mgr.c engine/engine/op.c',
  [('request queue', 'engine/engine/service.h'), ('worker loop', 'engine/engine/worker.c')], observe=('monotone_execute service',))
p('C31', 'Shown statistics equal the partitions they describe',
  'The numbers shown for storages, partitions and totals (partitions, events, sizes, cloud parts, ranges) equal the partitions and files that exist after any sequence of operations, including failed ones, drops and moves.',
  'histories', 'all sequences of writes, refreshes, moves, drops and failures up to the stated length',
  'Counters drift only over particular sequences.',
  'engine/io/stats.h engine/engine/engine_show.c engine/storage/storage.h engine/storage/storage_mgr.c engine/engine/op.c',
  [('computed statistics', 'engine/io/stats.h')], observe=('monotone_execute show',))
p('C32', 'Requests to S3 are signed with the credentials over the exact request',
  'Each object request is signed with the base64 of HMAC-SHA1, keyed with the configured secret, over the method, type, date and resource actually sent; base64 of every byte string is correct and stays within its buffer; and responses with errors are reported as errors.',
  'inputs', 'all keys, object names and digests (symbolic bytes) within the stated bounds; all byte strings up to the stated length for base64',
  'Tests against a live S3 server are not run.',
  'cloud/s3/s3_request.c cloud/s3/s3_op.c cloud/s3/s3.c cloud/s3/s3_io.c',
  [('signature', 'cloud/s3/s3_request.c')], observe=('HTTP request',))
p('C33', 'Identifiers convert between text and value without loss',
  'Every unique identifier printed and parsed gives the same value, malformed text is refused for every input, and partition and WAL file names map to exactly the id and state they were made from.',
  'inputs', 'all 128-bit identifiers, all strings of the right length, all 64-bit ids and all file-name suffixes',
  'Tests print a few ids.',
  'runtime/lib/uuid.c runtime/lib/uuid.h cloud/cloud/id.h engine/engine/engine_recover.c engine/wal/wal.c',
  [('uuid', 'runtime/lib/uuid.c'), ('partition file names', 'cloud/cloud/id.h')])
p('C34', 'Out-of-range arguments and misuse are refused with an error',
  'Events whose key or total size exceeds the limits, empty batches, and operations on an environment in the wrong state give a defined result or an error with a message and have no effect; every accepted event is stored with exactly its key and value, for every combination of key and value sizes.',
  'inputs', 'all key and value sizes around each limit (255-byte keys, the memory page size), all flags',
  'Boundary sizes are not tested.',
  'main/api/monotone.c engine/engine/write.c engine/io/event.h main/main/execute.c main/main/main.c',
  [('key size check', 'engine/engine/write.c'), ('event sizes', 'engine/io/event.h')], observe=API)
p('C35', 'One process owns a directory at a time and closing releases everything',
  'A directory can be opened by only one environment at a time and a second one is refused without touching its files; once the environment object is freed, whatever failed before (opening it included), every file descriptor, lock and memory block the engine took has been released, and the directory can be opened again.',
  'histories fault_sequences', 'all sequences of open, use, failing system call and close up to the stated length',
  'Leaks on error paths are not visible to functional tests.',
  'main/main/main.c runtime/runtime/file.h runtime/runtime/vfs.c main/api/monotone.c engine/engine/engine.c runtime/runtime/exception.h',
  [('directory lock', 'main/main/main.c main_deploy'), ('cleanup guards', 'runtime/runtime/guard.h')], observe=('monotone_open', 'monotone_free'))

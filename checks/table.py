
NOTES = 'See DESIGN.md. All checks share one symbolic executor (engine/), environment models (model/) and harnesses (harness/).'
NOT_APPLICABLE = {
  "C23": "the codecs themselves (zstd, lz4) are linked libraries without source here, so only stand-ins can be encoded; what the engine does with them (bounds, wrong sizes, context reuse) is run with stand-ins that keep their documented interface in C02 (jobs zstd, lz4, all) and C09",
  "C24": "AES-GCM is in OpenSSL, a linked library without source here: secrecy and detection of a wrong key depend on it and a stand-in cannot decide them; the file format around it is run with a stand-in in C02 (jobs aes, all) and C09",
  "C32": "the signature and the requests are made by OpenSSL (HMAC) and libcurl, linked libraries without source here, and are judged by a server: there is no reachable oracle within the code",
}
CHECKS = {}
E2E_OUT = 'more operations, larger keys and values than stated, real disks and threads (modelled)'
def job(name, src, procs=2, reach=('scanned',), thorough=None, opts=(), only_thorough=False, max_inst=40000000, **defs):
    return dict(name=name, src=src, procs=procs, defs=defs, thorough=thorough or {}, reach=list(reach), opts=list(opts), thorough_only=only_thorough, max_inst=max_inst)
def q(s): return '"%s"' % s.replace('"', '\\"')
def check(id, level, bounds, *jobs, outside=E2E_OUT, **kw): CHECKS[id] = dict(level=level, bounds=bounds, outside=outside, jobs=list(jobs), **kw)

check('C01', 'model_checking',
  'API level: 3 writes/deletes with symbolic ids over 2 partitions and keys of 0..1 symbolic bytes; 2 writes with fully symbolic 64-bit ids; memory table: 4 symbolic 64-bit ids, 5 sets/unsets over 3-bit ids with pages of 2 events; a full 512-event page with a symbolic write or delete at its ends and middle, filled in three orders.',
  job('mem', 'e2e_map.c', 4, OPS=3, KEYS=1, LO=4, HI=11, thorough=dict(OPS=4)),
  job('wide', 'e2e_map.c', 2, OPS=2, WIDE=1, thorough=dict(OPS=3, DELS=0)),
  job('page', 'e2e_page.c', 3, ('scanned', 'sought'), OPS=1),
  job('memtable', 'memtable.c', 2, ('iterated', 'sought'), OPS=4, PAGE=2, SEEK=1, thorough=dict(OPS=5)),
  job('memtable_unset', 'memtable.c', 2, ('iterated',), OPS=5, PAGE=2, UNSET=1, IDBITS=3, thorough=dict(OPS=6)))

FS = 'file system modelled (system calls take effect in order; a dying or failing write may leave any of the stated prefixes)'
check('C02', 'model_checking',
  'Histories of 3 symbolic writes/deletes with a refresh or none after each (small regions); 2 writes with 1-byte keys; 2 writes over a file of 4 events in 2-event regions; moves between two storages; restart afterwards; zstd, lz4, aes, crc, and all together (library models).',
  job('small', 'e2e_file.c', 2, OPS=3, ITV=16, STORE_SMALL=1, REOPEN=1, reach=('scanned', 'refreshed', 'reopened'), thorough=dict(OPS=4)),
  job('keys', 'e2e_file.c', 2, OPS=2, KEYS=1, REOPEN=1, reach=('scanned', 'refreshed', 'reopened'), thorough=dict(OPS=3)),
  job('merge', 'e2e_file.c', 2, OPS=2, PRE=4, ITV=16, STORE_SMALL=1, reach=('scanned', 'refreshed'), thorough=dict(OPS=3)),
  job('move', 'e2e_file.c', 2, OPS=2, MOVE=1, ITV=8, REOPEN=1, reach=('scanned', 'refreshed', 'reopened'), thorough=dict(OPS=3)),
  job('zstd', 'e2e_file.c', 1, OPS=1, PRE=4, ITV=16, STORE_ZSTD=1, REOPEN=1, reach=('scanned', 'refreshed', 'reopened'), thorough=dict(OPS=2)),
  job('lz4', 'e2e_file.c', 1, OPS=1, PRE=4, ITV=16, STORE_LZ4=1, REOPEN=1, reach=('scanned', 'refreshed', 'reopened'), thorough=dict(OPS=2)),
  job('aes', 'e2e_file.c', 1, OPS=1, PRE=4, ITV=16, STORE_AES=1, REOPEN=1, reach=('scanned', 'refreshed', 'reopened'), thorough=dict(OPS=2)),
  job('all', 'e2e_file.c', 1, OPS=1, PRE=3, ITV=16, STORE_ALL=1, REOPEN=1, reach=('scanned', 'refreshed', 'reopened'), thorough=dict(OPS=2)),
  assumptions=['zstd, lz4 and aes replaced by models that satisfy their documented interface (model/libs.c)', FS])
check('C03', 'model_checking',
  'Cursor at any id (and key) over: 2 symbolic writes/deletes with keys of up to 2 bytes in 2 partitions; 4 writes in one partition; 4 partitions of one id; files of 4 events in 2-event regions plus one write; 2 writes with ids and seek over the whole 64-bit range.',
  job('keys', 'e2e_map.c', 2, OPS=2, KEYS=1, SEEK=1, LO=4, HI=11, reach=('scanned', 'sought'), thorough=dict(KEYS=2)),
  job('one', 'e2e_map.c', 2, OPS=3, ITV=16, LO=0, HI=15, SEEK=1, reach=('scanned', 'sought'), thorough=dict(OPS=4)),
  job('gaps', 'e2e_map.c', 1, OPS=4, ITV=1, LO=3, HI=6, SEEK=1, DELS=0, reach=('scanned', 'sought')),
  job('file', 'e2e_file.c', 3, OPS=1, PRE=4, ITV=16, STORE_SMALL=1, SEEK=1, reach=('sought', 'refreshed'), thorough=dict(OPS=2, HI=9)),
  job('failed', 'e2e_fault.c', 2, HI=3, SEQ='"w*Rw.qRq"', POST='""', TORN=0, RUNS=2, reach=('sought', 'failed')),
  job('filekeys', 'e2e_file.c', 2, OPS=2, KEYS=1, SEEK=1, reach=('sought', 'refreshed')),
  job('wide', 'e2e_map.c', 3, OPS=2, WIDE=1, SEEK=1, DELS=0, reach=('scanned', 'sought'), thorough=dict(DELS=1)))
check('C04', 'model_checking',
  'Cursor over 2-3 events in memory and file, opened at any id, with 1-2 symbolic writes or deletes or refused batches of the same thread around it, a next or none between; a full 512-event page that is split while a cursor stands in it.',
  job('pair', 'e2e_cursor.c', 3, HI=3, REFUSED=1, OPS=2, reach=('drained', 'scanned', 'refused'), thorough=dict(HI=7)),
  job('three', 'e2e_cursor.c', 1, HI=15, ITV=16, PRE=3, OPS=1, reach=('drained', 'scanned'), thorough=dict(OPS=2)),
  job('keys', 'e2e_cursor.c', 1, HI=3, KEYS=1, PRE=2, OPS=1, reach=('drained', 'scanned'), thorough=dict(HI=7)),
  job('two', 'e2e_cursor.c', 1, HI=3, TWO=1, PRE=2, OPS=1, INFILE=0, reach=('drained', 'scanned'), thorough=dict(HI=7)),
  job('memory', 'e2e_cursor.c', 2, HI=3, INFILE=0, OPS=2, reach=('drained', 'scanned'), thorough=dict(HI=7)),
  job('page', 'e2e_page.c', 1, CURSOR=1, OPS=2, ORDERS=1, STANDS=1, WIN=3, reach=('drained',), thorough=dict(ORDERS=3)),
  job('page_far', 'e2e_page.c', 1, CURSOR=1, OPS=1, ORDERS=2, STANDS=2, WIN=3, reach=('drained',), thorough=dict(STANDS=3)),
  job('page_batch', 'e2e_page.c', 1, CURSOR=1, BATCH=1, OPS=1, ORDERS=1, STANDS=2, WIN=3, reach=('drained', 'refused')))
check('C05', 'model_checking',
  'Batches of 2-3 symbolic writes/deletes over contents in memory and file, with an oversized key, an oversized value or a WAL error at any event; batches of 2-3 with every system call failing or cut short; a batch refused after splitting a full 512-event page; a batch of 1031 events (more than one system call takes) with one symbolic id, refused, failing, cut short or crashing at each call; comparison, another write, restart and comparison.',
  job('three', 'e2e_batch.c', 2, N=3, HI=3, POST='""', reach=('refused', 'scanned', 'reopened'), thorough=dict(POST='"d"')),
  job('keys', 'e2e_batch.c', 1, N=2, HI=3, KEYS=1, POST='""', reach=('refused', 'scanned', 'reopened')),
  job('then', 'e2e_batch.c', 1, N=2, HI=3, POST='"d"', reach=('refused', 'scanned', 'reopened'), thorough=dict(HI=7)),
  job('nowal', 'e2e_batch.c', 1, N=2, HI=7, MODES=2, POST='"r"', DB_SETUP='"set wal to false;"', reach=('refused', 'scanned')),
  job('faults', 'e2e_fault.c', 2, HI=3, SEQ='"w*b."', POST='"nk"', reach=('failed', 'continued'), thorough=dict(RUNS=2)),
  job('faults3', 'e2e_fault.c', 2, HI=3, SEQ='"*B"', POST='"nk"', TORN=1, reach=('failed', 'continued')),
  job('page', 'e2e_page.c', 1, BATCH=1, OPS=1, reach=('refused', 'scanned')),
  job('page2', 'e2e_page.c', 2, BATCH=1, OPS=2, ORDERS=1, WIN=3, reach=('refused', 'scanned')),
  job('big', 'e2e_big.c', 2, ('refused', 'reopened', 'crashed'), ITV=8192, MAXOPS=4),
  assumptions=[FS])
SYNC = '"set sync to true;set wal_sync_on_write to true;"'
check('C06', 'fault_enumeration',
  'Crash at every state-changing system call (and at 3 or all prefixes of the dying write) of: two symbolic writes/deletes, a batch, WAL rotation between, refresh and checkpoint between; recovery; a further write, restart and comparison; a second crash during recovery; with synchronous writing also loss of all or half of what was not synced.',
  job('writes', 'e2e_crash.c', 2, ITV=4, HI=3, SEQ='"*dd"', POST='"wnkwnk"', reach=('crashed', 'recovered', 'continued', 'no crash'), thorough=dict(HI=7, TORN=2)),
  job('batch', 'e2e_crash.c', 2, HI=3, SEQ='"*bd"', reach=('crashed', 'recovered', 'continued'), thorough=dict(HI=7)),
  job('rotate', 'e2e_crash.c', 2, HI=3, SEQ='"*dod"', reach=('crashed', 'recovered', 'continued'), thorough=dict(SEQ='"*dodod"')),
  job('mixed', 'e2e_crash.c', 2, HI=3, SEQ='"*dodrcd"', reach=('crashed', 'recovered', 'continued')),
  job('twice', 'e2e_crash.c', 2, HI=3, SEQ='"*dd"', OPENCRASH=1, POST='"wk"', reach=('crashed', 'crashed in recovery', 'recovered', 'continued')),
  job('power', 'e2e_crash.c', 2, HI=3, SEQ='"*dod"', POWERLOSS=1, DB_SETUP=SYNC, reach=('crashed', 'recovered', 'continued'), thorough=dict(SEQ='"*ddrd"')),
  job('crc', 'e2e_crash.c', 1, HI=3, SEQ='"*dd"', DB_SETUP='"set wal_crc to true;"', reach=('crashed', 'recovered', 'continued')),
  assumptions=[FS])
check('C07', 'fault_enumeration',
  'Crash at every state-changing system call of a refresh, move or drop of a partition with a symbolic event in its file and one in memory, with WAL files collected before or not; recovery, comparison, no leftover temporary file, the operation repeated; a second crash at any system call of the recovery; the same after an earlier refresh or move that failed at any system call.',
  job('refresh', 'e2e_crash.c', 2, HI=3, SEQ='"drd*r"', FILES=1, POST='"rknk"', reach=('crashed', 'recovered', 'continued')),
  job('move', 'e2e_crash.c', 2, HI=3, SEQ='"drd*md"', OTHER=1, FILES=1, POST='"mknk"', reach=('crashed', 'recovered', 'continued')),
  job('drop', 'e2e_crash.c', 2, HI=3, SEQ='"drogd*xd"', FILES=1, POST='"kxwkn"', reach=('crashed', 'recovered', 'continued')),
  job('stored', 'e2e_crash.c', 1, HI=3, SEQ='"drogdrog*r*m*x"', OTHER=1, FILES=1, POST='"wknk"', reach=('crashed', 'recovered', 'continued')),
  job('nowal', 'e2e_crash.c', 1, HI=3, SEQ='"dr*rmmr"', OTHER=1, FILES=1, POST='"wk"', DB_SETUP='"set wal to false;"', reach=('crashed', 'recovered', 'continued')),
  job('twice', 'e2e_crash.c', 2, HI=3, SEQ='"drd*r"', FILES=1, OPENCRASH=1, POST='"krk"', reach=('crashed', 'crashed in recovery', 'recovered', 'continued')),
  job('twice_move', 'e2e_crash.c', 2, HI=3, SEQ='"drd*m"', OTHER=1, FILES=1, OPENCRASH=1, POST='"kmk"', reach=('crashed', 'crashed in recovery', 'recovered', 'continued')),
  job('twice_drop', 'e2e_crash.c', 2, HI=3, SEQ='"drogd*x"', FILES=1, OPENCRASH=1, POST='"kwk"', reach=('crashed', 'crashed in recovery', 'recovered', 'continued')),
  job('after_failed_move', 'e2e_crash.c', 1, HI=3, BEFORE='"dr*M."', SEQ='"*sm"', POST='"kogmnkn"', OTHER=1, FILES=1, TORN=0, reach=('failed', 'crashed', 'recovered', 'continued')),
  job('after_failed_move_refresh', 'e2e_crash.c', 1, HI=3, BEFORE='"dr*M."', SEQ='"*r"', POST='"kogmnkn"', OTHER=1, FILES=1, TORN=0, reach=('failed', 'crashed', 'recovered', 'continued')),
  job('after_failed_move_drop', 'e2e_crash.c', 1, HI=3, BEFORE='"dr*M."', SEQ='"*x"', POST='"kognkn"', OTHER=1, FILES=1, TORN=0, reach=('failed', 'crashed', 'recovered', 'continued')),
  job('after_failed_refresh', 'e2e_crash.c', 1, HI=3, BEFORE='"dr*R."', SEQ='"*dr"', POST='"kognkn"', FILES=1, TORN=0, reach=('failed', 'crashed', 'recovered', 'continued')),
  job('two_parts', 'e2e_crash.c', 2, HI=7, SEQ='"dd*rd"', FILES=1, POST='"rk"', only_thorough=True, reach=('crashed', 'recovered', 'continued')),
  assumptions=[FS])
check('C13', 'fault_enumeration',
  'Every state-changing (and reading) system call of a refresh or move fails, alone or as the first of up to 3 consecutive failures, writes cut short, over a partition with symbolic events in file and memory; two failing calls anywhere in two or three operations; comparison, the command repeated, further refreshes, moves back, drops, writes, WAL collection, restart and comparison.',
  job('refresh', 'e2e_fault.c', 2, HI=3, SEQ='"dr*r"', FILES=1, RUNS=3, reach=('failed', 'retried', 'continued')),
  job('write_refresh', 'e2e_fault.c', 2, HI=3, SEQ='"dr*dr"', reach=('failed', 'retried', 'continued'), thorough=dict(RFAULTS=1)),
  job('reads', 'e2e_fault.c', 2, HI=3, SEQ='"wr*wr"', POST='"wknk"', RFAULTS=1, reach=('failed', 'retried', 'continued')),
  job('move', 'e2e_fault.c', 2, HI=3, SEQ='"dr*m"', OTHER=1, FILES=1, RUNS=2, RFAULTS=1, reach=('failed', 'retried', 'continued')),
  job('drop', 'e2e_fault.c', 2, HI=3, SEQ='"drd*x"', FILES=1, reach=('failed', 'retried', 'continued'), thorough=dict(RUNS=2)),
  job('between', 'e2e_fault.c', 2, HI=3, SEQ='"w*R.dkRk"', POST='"nkdRnk"', TORN=0, thorough=dict(TORN=1, RUNS=2), reach=('failed', 'continued')),
  job('after', 'e2e_fault.c', 2, HI=3, SEQ='"w*r.dkr"', POST='"knk"', RUNS=2, reach=('failed', 'retried', 'continued')),
  job('left_refresh', 'e2e_fault.c', 1, HI=3, SEQ='"dr*M.dkRogk"', POST='"nkn"', OTHER=1, FILES=1, reach=('failed', 'continued')),
  job('left_drop', 'e2e_fault.c', 1, HI=3, SEQ='"dr*M.kxogk"', POST='"nkn"', OTHER=1, FILES=1, reach=('failed', 'continued')),
  job('left_back', 'e2e_fault.c', 1, HI=3, SEQ='"dr*M.ksmrogk"', POST='"nkn"', OTHER=1, FILES=1, reach=('failed', 'continued')),
  job('left_back_drop', 'e2e_fault.c', 1, HI=3, SEQ='"dr*M.ksmxogk"', POST='"nkn"', OTHER=1, FILES=1, reach=('failed', 'continued')),
  job('two_moves', 'e2e_fault.c', 1, HI=3, SEQ='"dr*M.ks*Mk"', POST='"ognkn"', OTHER=1, FILES=1, FAULT2=1, TORN=0, reach=('failed', 'continued')),
  job('two', 'e2e_fault.c', 1, HI=3, SEQ='"dr*MRk"', POST='"ognkn"', OTHER=1, FILES=1, FAULT2=1, TORN=0, reach=('failed', 'continued')),
  job('two_drop', 'e2e_fault.c', 1, HI=3, SEQ='"dr*RMxk"', POST='"ognkn"', OTHER=1, FILES=1, FAULT2=1, TORN=0, reach=('failed', 'continued')),
  assumptions=[FS])
check('C10', 'model_checking',
  'Histories of 4 writes or deletes over two partitions with WAL rotation, refresh of one or both partitions, restart and garbage collection in between; refresh or drop failing at any system call before garbage collection; crash at any step of garbage collection; comparison after two restarts.',
  job('pairs', 'e2e_hist.c', 2, HI=7, SEQ='"wowo?d?g"', OPSET='"po"', reach=('again',), thorough=dict(SEQ='"dodo?d?g"')),
  job('stored', 'e2e_hist.c', 2, HI=7, SEQ='"d?d?g"', OPSET='"ro."', STORED=1, reach=('stored', 'again'), thorough=dict(SEQ='"d?d?d?g"')),
  job('restart', 'e2e_hist.c', 2, HI=7, SEQ='"wow?n?dg"', OPSET='"po"', reach=('again',), POST='"og"'),
  job('failed', 'e2e_fault.c', 1, HI=3, SEQ='"do*Rd.ogk"', POST='"nk"', reach=('failed', 'continued'), thorough=dict(RUNS=2)),
  job('failed_drop', 'e2e_fault.c', 1, HI=3, SEQ='"dr*xd.ogk"', POST='"nk"', reach=('failed', 'continued')),
  job('failed_one', 'e2e_fault.c', 2, HI=7, SEQ='"do*pd.ogk"', POST='"nk"', reach=('failed', 'continued'), TORN=0, thorough=dict(TORN=1)),
  job('crash', 'e2e_crash.c', 2, HI=7, SEQ='"dodop*gd"', POST='"nk"', TORN=0, reach=('crashed', 'recovered', 'continued')),
  assumptions=[FS])
check('C11', 'model_checking',
  'Histories of 3 writes or deletes with refresh, WAL rotation, restart or drop after each over one or two partitions; then three restarts with another write; a refresh or drop cut by a crash at any step followed by repeated restarts.',
  job('one', 'e2e_hist.c', 3, HI=3, SEQ='"d?d?d"', OPSET='"ronx"', reach=('again',), thorough=dict(SEQ='"d?d?d?"', POST='"d"')),
  job('two', 'e2e_hist.c', 2, HI=7, SEQ='"d?d?"', OPSET='"ponx"', reach=('again',), thorough=dict(SEQ='"d?d?"', POST='"d"')),
  job('keys', 'e2e_hist.c', 1, HI=3, KEYS=1, SEQ='"d?d"', OPSET='"ronx"', reach=('again',), thorough=dict(SEQ='"d?d?"')),
  job('batch', 'e2e_hist.c', 1, HI=3, SEQ='"b?d"', OPSET='"pox"', reach=('again',), thorough=dict(SEQ='"b?b"')),
  job('crash_drop', 'e2e_crash.c', 2, HI=7, SEQ='"dr*xd"', POST='"nkdnk"', TORN=0, reach=('crashed', 'recovered', 'continued')),
  job('crash_refresh', 'e2e_crash.c', 2, HI=3, SEQ='"dod*rd"', POST='"nkrnkdnk"', TORN=0, reach=('crashed', 'recovered', 'continued')),
  assumptions=[FS])
TOP = dict(DIG='"1844674407370955161"', BASE='18446744073709551610ull', LO='0xfffffffffffffff0ull', HI='0xffffffffffffffffull')
check('C12', 'model_checking',
  'Sequences of 3 create, write, drop and refresh operations with symbolic ids and ranges over 0..9, and over the last ids of the 64-bit range, restart and comparison; 3 writes anywhere near the top.',
  job('create', 'e2e_parts.c', 2, OPS='"C?w"', reach=('created', 'scanned'), thorough=dict(OPS='"???"')),
  job('around', 'e2e_parts.c', 2, OPS='"w?C"', KINDS='"Cwxr"', REOPEN=1, reach=('created', 'reopened', 'scanned', 'dropped')),
  job('pair', 'e2e_parts.c', 1, OPS='"Cw"', REOPEN=1, HI=11, reach=('created', 'reopened', 'scanned')),
  job('stored', 'e2e_parts.c', 2, OPS='"Cwr"', REOPEN=1, HI=11, reach=('created', 'reopened', 'scanned')),
  job('top', 'e2e_parts.c', 1, OPS='"C?w"', KINDS='"Cx"', TOP=4, **TOP, reach=('created', 'scanned', 'dropped'), thorough=dict(TOP=5)),
  job('top_stored', 'e2e_parts.c', 1, OPS='"wCwr"', REOPEN=1, TOP=3, **TOP, reach=('created', 'scanned', 'reopened')),
  job('top_drop', 'e2e_parts.c', 1, OPS='"wC?"', KINDS='"xC"', TOP=3, **TOP, reach=('created', 'scanned', 'dropped')),
  job('top_write', 'e2e_parts.c', 2, OPS='"www"', DELS=0, KINDS='"w"', REOPEN=1, **{**TOP, 'LO': '0xfffffffffffffff8ull'}, reach=('scanned', 'reopened')),
  job('explicit_drop', 'e2e_parts.c', 1, OPS='"Cwx"', REOPEN=1, HI=7, reach=('dropped',)))
SER = 'set serial to true;'
check('C16', 'model_checking',
  'Histories of up to 8 serial writes and batches with refresh, drop, explicit partitions and restarts chosen freely; symbolic explicit ids and deletes in memory, file and WAL before a restart; a crash at any system call of writes, refresh, drop and WAL collection before a restart.',
  job('mixed', 'e2e_serial.c', 2, SEQ='"s?s?n?s"', OPSET='"rpnCx."', DB_SETUP='"%s"' % SER, reach=('assigned', 'reopened'), thorough=dict(SEQ='"s?s?n?s?s"')),
  job('batches', 'e2e_serial.c', 1, SEQ='"sssss?SnS?"', OPSET='"rpnCx."', DB_SETUP='"%s"' % SER, reach=('assigned', 'reopened')),
  job('explicit', 'e2e_serial.c', 3, SEQ='"E?E?ns"', HI=7, OPSET='"rno."', DB_SETUP='"%s"' % SER, reach=('assigned', 'reopened'), thorough=dict(SEQ='"E?E?ns?"')),
  job('crash', 'e2e_serial.c', 1, CRASHSEQ='"drd"', SEQ='"s?s"', HI=3, OPSET='"rn"', DB_SETUP='"%s"' % SER, reach=('assigned', 'reopened', 'crashed')),
  job('crash_gc', 'e2e_serial.c', 2, CRASHSEQ='"dodpg"', SEQ='"s"', HI=7, DB_SETUP='"%s"' % SER, reach=('assigned', 'reopened', 'crashed')),
  assumptions=[FS])
CRCW = '"set wal_crc to true;"'
check('C08', 'model_checking',
  'WAL files of 2-3 records (single event, batch of two, delete, drop): every byte position replaced by every other value, every 4-byte window by every value, every truncation; with checksums every 1- and 2-byte window, in the only, first and last file; open, scan, open again.',
  job('byte', 'e2e_wal_damage.c', 2, SEQ='"wxb"', HI=7, reach=('opened', 'refused', 'again')),
  job('delete', 'e2e_wal_damage.c', 1, SEQ='"wd"', HI=7, reach=('opened', 'refused', 'again')),
  job('window', 'e2e_wal_damage.c', 2, SEQ='"wb"', W=4, reach=('opened', 'refused', 'again')),
  job('cut', 'e2e_wal_damage.c', 1, SEQ='"wxdb"', CUT=1, CRC=1, reach=('opened', 'again')),
  job('cut_last', 'e2e_wal_damage.c', 1, SEQ='"wob"', CUT=1, CRC=1, FILENO=1, reach=('opened', 'again')),
  job('cut_first', 'e2e_wal_damage.c', 1, SEQ='"dob"', CUT=1, CRC=1, reach=('opened', 'again')),
  job('crc', 'e2e_wal_damage.c', 1, SEQ='"wxb"', HI=7, CRC=1, DB_SETUP=CRCW, reach=('opened', 'refused', 'again')),
  job('crc_two', 'e2e_wal_damage.c', 1, SEQ='"wd"', CRC=1, W=2, DB_SETUP=CRCW, reach=('opened', 'refused', 'again'), thorough=dict(W=3)),
  job('crc_first', 'e2e_wal_damage.c', 1, SEQ='"wob"', CRC=1, DB_SETUP=CRCW, reach=('opened', 'refused', 'again')),
  job('crc_last', 'e2e_wal_damage.c', 1, SEQ='"wob"', CRC=1, W=2, FILENO=1, DB_SETUP=CRCW, reach=('opened', 'refused', 'again')))
NOWAL = '"set wal to false;"'
check('C09', 'model_checking',
  'Partition files of 1-3 events in up to 3 regions: every byte position replaced by every other value (2-byte and 4-byte windows), every truncation; with checksums, without, with encryption, with compression (modelled); open, full scan, seek, refresh over it.',
  job('crc', 'e2e_part_damage.c', 1, STORE='"region_size 60, crc true"', STRICT=1, ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened', 'read')),
  job('crc_two', 'e2e_part_damage.c', 1, STORE='"region_size 200, crc true"', STRICT=1, ITV=16, PRE=2, W=2, DB_SETUP=NOWAL, reach=('refused', 'opened', 'read'), thorough=dict(PRE=3)),
  job('plain', 'e2e_part_damage.c', 1, REGIONS=1, ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened', 'merged')),
  job('plain_window', 'e2e_part_damage.c', 1, REGIONS=1, W=4, PRE=1, ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened', 'merged'), thorough=dict(PRE=3)),
  job('cut', 'e2e_part_damage.c', 1, CUT=1, STRICT=1, ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened', 'read')),
  job('aes', 'e2e_part_damage.c', 1, STRICT=1, STORE='"region_size 90, encryption \'aes\', encryption_key \'0123456789abcdef0123456789abcdef\'"', ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened', 'read')),
  job('zstd_crc', 'e2e_part_damage.c', 1, STRICT=1, STORE='"region_size 90, compression \'zstd\', crc true"', ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened')),
  job('zstd', 'e2e_part_damage.c', 2, PRE=2, STORE='"region_size 90, compression \'zstd\'"', ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened', 'merged'), thorough=dict(PRE=3)),
  job('lz4', 'e2e_part_damage.c', 2, PRE=2, STORE='"region_size 90, compression \'lz4\'"', ITV=16, DB_SETUP=NOWAL, reach=('refused', 'opened', 'merged'), thorough=dict(PRE=3)),
  assumptions=['zstd, lz4 and aes replaced by models that satisfy their documented interface (model/libs.c)'])
check('C21', 'model_checking',
  'json_parse on every text of 3 symbolic bytes alone and of 2-4 symbolic bytes after each of a set of prefixes (objects, arrays, keywords, numbers, strings), in exact-size buffers; whatever it accepts is exported and parsed again to the same data; strings of 3 symbolic bytes; trees of nested arrays and objects; integers at the bounds of every width; a list of reals.',
  job('any', 'json.c', 2, ('parsed', 'refused'), N=3, PARSE='""', thorough=dict(N=4)),
  job('any_rt', 'json.c', 2, ('parsed', 'refused', 'round trip'), N=2, PARSE='""', RT=1),
  job('object', 'json.c', 1, ('parsed', 'refused'), N=4, PARSE=r'"{\"a"'),
  job('object2', 'json.c', 1, ('parsed', 'refused'), N=4, PARSE=r'"{\"a\": 1, \"b"'),
  job('keyword', 'json.c', 1, ('parsed', 'refused', 'round trip'), N=3, PARSE='"[tru"', RT=1),
  job('real', 'json.c', 1, ('parsed', 'refused', 'round trip'), N=2, PARSE='"[-1."', RT=1),
  job('number', 'json.c', 1, ('parsed', 'refused', 'round trip'), N=3, PARSE='"[-"', RT=1),
  job('string', 'json.c', 1, ('round trip',), N=3, STRING=0),
  job('string_small', 'json.c', 1, ('round trip',), N=2, STRING=30),
  job('string_8', 'json.c', 1, ('round trip',), N=2, STRING=127),
  job('tree', 'json.c', 2, ('round trip',), TREE=1),
  job('reals', 'json.c', 1, ('round trip',), REALS=1),
  job('ints', 'json.c', 1, ('round trip',), INTS=1),
  outside='longer texts, reals other than the listed ones')
check('C20', 'model_checking',
  'Every digit string of 1-14 digits (thorough 19) without a unit; of 1-3 digits with each of the 35 units; the largest number that fits every unit with its last 2 (4) digits replaced by any, joined or separated by a space or comment; 20-22 digit strings above the range; units in upper case; any letters after a number; numbers in six commands; JSON integers of up to 6 digits and around both ends of the 64-bit range with either sign.',
  job('any', 'lex.c', 2, ('read',), ANY=14, thorough=dict(ANY=19)),
  job('edge', 'lex.c', 1, ('read', 'refused'), EDGE=2, thorough=dict(EDGE=4)),
  job('long', 'lex.c', 1, ('refused',), LONG=2, thorough=dict(LONG=3)),
  job('units', 'lex.c', 1, ('read',), SMALL=3, thorough=dict(SMALL=4)),
  job('case', 'lex.c', 1, ('read',), CASE=1),
  job('other', 'lex.c', 1, ('read', 'unit'), OTHER=3),
  job('command', 'lex.c', 1, ('read',), COMMAND=1),
  job('json', 'lex.c', 2, ('read', 'refused'), JSON=6),
  outside='real numbers (conversion is the C library\'s)')
check('C22', 'model_checking',
  'Every 64-bit integer; every count up to 2^31-1 of arrays, maps and strings; strings of the sizes around each size class with symbolic ends; 18 reals at the edges of both precisions; every first byte; find in arrays and maps of up to 2-3 elements of every kind with symbolic keys; paths; decoding of maps with fields in any order, missing, unknown and of any wrong type.',
  job('ints', 'data.c', 1, ('read',), INTS=1),
  job('counts', 'data.c', 1, ('read',), COUNTS=1),
  job('strings', 'data.c', 1, ('read',), STRINGS=1),
  job('reals', 'data.c', 1, ('read',), REALS=1),
  job('types', 'data.c', 1, ('read', 'refused'), TYPE=1),
  job('find', 'data.c', 2, ('read', 'found'), FIND=1, thorough=dict(PICK=2)),
  job('path', 'data.c', 1, ('read',), PATH=1),
  job('decode', 'data.c', 2, ('read', 'refused'), DECODE=1),
  job('decode_kinds', 'data.c', 1, ('read', 'refused'), DECODE2=1),
  outside='reals other than the listed ones, strings of other sizes, nested values of more elements')
MM = '"set mm_page_size to 8192;set mm_limit to true;%sset mm_limit_wm to 16000;set mm_limit_behaviour to \'error\'"'
check('C25', 'model_checking',
  'Every content and every starting value: lengths 0..20 (thorough 0..64) at each of 8 alignments, hardware and software code; every split of lengths 0..12. Exact-size buffers.',
  job('hardware', 'crc.c', 1, ('whole', 'split'), SPLIT=1, MAXLEN=12, thorough=dict(MAXLEN=20)),
  job('software', 'crc.c', 1, ('whole', 'split'), SPLIT=1, MAXLEN=12, opts=('--nosse',), thorough=dict(MAXLEN=20)),
  job('long', 'crc.c', 1, ('whole',), MAXLEN=20, thorough=dict(MAXLEN=64)),
  job('long_software', 'crc.c', 1, ('whole',), MAXLEN=20, opts=('--nosse',), thorough=dict(MAXLEN=64)),
  job('plain', 'crc.c', 1, ('whole',), PLAIN=1, MAXLEN=1, thorough=dict(MAXLEN=2)),
  job('plain_software', 'crc.c', 1, ('whole',), PLAIN=1, MAXLEN=1, opts=('--nosse',), thorough=dict(MAXLEN=2)),
  assumptions=['the crc32 instruction is modelled after its definition; sums are compared in a normal form over GF(2) computed by the executor, and by Z3 alone for short inputs (jobs plain)'],
  outside='longer buffers')
check('C26', 'model_checking',
  'Sequences of 4 allocations of any size 1..511 of 240-byte pages, resets and cache trims over two heaps with three cache sizes; limits of 1-3 pages in every byte position with refusal; 1-2 waiting writers with up to 2 preemptions; failing memory mappings; API level: sequences of 4 events of 2600 bytes with 8 KiB pages over two partitions with refreshes.',
  job('alloc', 'mem.c', 2, ('done', 'allocated', 'too large', 'reset'), OPS=4, thorough=dict(OPS=5)),
  job('limit', 'mem.c', 2, ('refused', 'allocated', 'reset'), LIMIT=1, OPS=4, thorough=dict(OPS=5)),
  job('mapping', 'mem.c', 1, ('failed', 'done'), NOMEM=1, OPS=3, thorough=dict(OPS=5)),
  job('wait', 'mem.c', 1, ('waited',), WAIT=2, thorough=dict(WAIT=4)),
  job('wait_two', 'mem.c', 1, ('waited',), WAIT=1, TWO=1, thorough=dict(WAIT=3)),
  job('api', 'e2e_mem.c', 1, ('refused', 'reopened'), LIMIT=2, ITV=1, HI=1, SEQ='"ww?w?w"', OPSET='"rp"', DB_SETUP=MM % ''),
  job('api_cache', 'e2e_mem.c', 1, ('refused', 'reopened'), LIMIT=2, ITV=2, HI=3, SEQ='"ww?w"', OPSET='"rp"', DB_SETUP=MM % 'set mm_cache to 0;'),
  outside='more operations, larger pages')
check('C27', 'model_checking',
  'Inductive step: every valid red-black tree of up to 10 nodes (thorough 13), every insertion point, every removal and replacement; sequences of 4 (5) operations from the empty tree with symbolic 64-bit keys; lookups of any id among 4 symbolic disjoint 64-bit ranges.',
  job('step', 'rbtree.c', 3, ('valid', 'inserted', 'removed', 'replaced'), MAX=10, BH=3, thorough=dict(MAX=13)),
  job('sequence', 'rbtree.c', 2, ('sequence',), SEQ=4, thorough=dict(SEQ=5)),
  job('ranges', 'rbtree.c', 1, ('looked up',), RANGES=4, thorough=dict(RANGES=5)),
  outside='larger trees (a tree of up to 10 nodes has every local situation the rebalancing distinguishes)')
check('C33', 'model_checking',
  'UUIDs: every value of any three adjacent hex digits over 3 patterns; a valid text with every byte value at every position and neighbour, every cut, 1-2 further bytes; partition file names: ids in windows of 256 around 10 bases over the 64-bit range, 5 states, both kinds of storage path.',
  job('uuid', 'ids.c', 2, ('printed',), UUID=1),
  job('text', 'ids.c', 2, ('accepted', 'refused'), TEXT=1),
  job('names', 'ids.c', 3, ('named',), NAME=1),
  outside='more than three free digits at once, ids outside the windows; WAL file names are exercised by C06-C11')
check('C34', 'model_checking',
  'Writes alone and second of a batch: 13 key sizes 0..513 times 12 value sizes around 0, 128, 256 and the page limit with symbolic first and last bytes, every 64-bit value size beyond the page, every 64-bit key size beyond 255; cursor keys of 13 sizes and every size beyond 600, any value size; 58 commands and API calls with symbolic ids before open, after a failed open, and open, followed by use and restart.',
  job('sizes', 'api.c', 2, ('accepted', 'refused', 'reopened'), PART=0, DB_SETUP='"set mm_page_size to 8192;"'),
  job('cursor', 'api.c', 1, ('accepted', 'refused'), PART=1),
  job('states', 'api.c', 4, ('before open', 'after failed open', 'open', 'refused'), PART=2),
  outside='pointers that are NULL or dangling, page sizes other than 8192 and the default')
LEAK = ('failed', 'reopened')
check('C35', 'fault_enumeration',
  'Two environments over one directory with symbolic writes, refreshes, order of close, and retries of both handles; every system call (reads included) failing, singly or twice in a row, in histories of writes, refresh, move, drop, WAL and checkpoint commands, definition and cloud commands, and during open over their files; heap blocks, memory mappings and descriptors counted at close, then opened again.',
  job('lock', 'e2e_lock.c', 1, ('refused', 'opened')),
  job('write_refresh', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"dr*rb"', thorough=dict(RUNS=2)),
  job('move', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"dr*mR"', OTHER=1, RUNS=2),
  job('drop', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"dr*x"', RUNS=2),
  job('wal', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"d*cogd"', RUNS=2),
  job('open', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"drd"', OPENFAULT=1, thorough=dict(RUNS=2)),
  job('open_stored', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"drmdrx"', OPENFAULT=1, OTHER=1, thorough=dict(RUNS=2)),
  job('open_wal', 'e2e_leak.c', 1, LEAK, HI=7, SEQ='"wWogo"', OPENFAULT=1, RUNS=2),
  job('storages', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"d*"', SQL='"create storage aa (cloud,;create storage aa (compression \'x\');create storage aa;create storage aa;alter storage aa set (sync 5);alter storage aa rename to main;alter storage aa rename to uu;drop storage aa;drop storage uu;"'),
  job('clouds', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"d*r"', SQL='"create cloud cl (type \'x\');create cloud cl;create cloud cl (type \'mock\');create storage tt (cloud \'cl\');drop cloud cl;alter cloud cl rename to dd;alter cloud cl set (url \'x\');drop storage tt;drop cloud cl;"'),
  job('cloud_data', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"dr*"', SQL='"create cloud cl (type \'mock\');create storage tt (cloud \'cl\');move partitions between 0 and 100 into tt;upload partitions between 0 and 100;download partitions between 0 and 100;drop partitions between 0 and 100 on storage;drop partitions between 0 and 100 on cloud;"'),
  job('pipeline', 'e2e_leak.c', 1, LEAK, HI=3, SEQ='"d*rm"', OTHER=1, SQL='"alter pipeline set main, other;alter pipeline set main (partitions 1), x;alter pipeline set main (partitions 0), other (size 1);rebalance;alter pipeline reset;"'),
  assumptions=[FS], outside='failing memory allocation, real processes (the lock is modelled after flock)')
CFG = '"show config;show test_int;show test_string;show test_bool;"'
DEF = ('done', 'reopened')
REF = ('refused', 'reopened')
CR = ('crashed', 'no crash', 'recovered')
FA = ('failed', 'recovered')
WM = '"show wal_rotate_wm;show interval;show storages debug;"'

check('C17', 'model_checking',
  'SET of every persistent integer and string setting with symbolic digits and printable characters, shown before and after two restarts; 10 kinds of refused SET; every crash point of saving (with and without loss of unsynced data) and every failing call.',
  job('int', 'e2e_def.c', 1, DEF, CMD=q('set wal_rotate_wm to 10~d;'), EXPECT=q('show wal_rotate_wm@10~0;'), STATE=CFG),
  job('wide', 'e2e_def.c', 1, DEF, CMD=q('set wal_rotate_wm to 922337203685477580~w;'), EXPECT=q('show wal_rotate_wm@922337203685477580~0;'), STATE=CFG),
  job('too_big', 'e2e_def.c', 1, REF, CMD=q('set wal_rotate_wm to 922337203685477580~x;'), REFUSED=1, STATE=CFG),
  job('test_int', 'e2e_def.c', 1, REF, CMD=q('set test_int to 1844674407370955161~d;'), REFUSED=1, STATE=CFG),
  job('interval', 'e2e_def.c', 1, DEF, CMD=q('set interval to 3~d0;'), EXPECT=q('show interval@3~00;'), STATE=CFG),
  job('level', 'e2e_def.c', 1, DEF, CMD=q('set compression_level to 1~d;'), EXPECT=q('show compression_level@1~0;'), STATE=CFG),
  job('string', 'e2e_def.c', 1, DEF, CMD=q("set compression to '~c~c';"), EXPECT=q('show compression@~0~1;'), STATE=CFG),
  job('two', 'e2e_def.c', 1, DEF, CMD=q("set compression to 'a~a';set interval to 3~d0;set compression to 'b~c';"), EXPECT=q('show compression@b~2;show interval@3~10;'), STATE=CFG),
  job('data', 'e2e_def.c', 1, DEF, PRE=q('create storage other (sync false);!wrm;'), ROWS=1, HI=3, OTHER=0, CMD=q('set interval to 1~d0;'), EXPECT=q('show interval@1~00;'), STATE=CFG),
  *[job('refused_%d' % k, 'e2e_def.c', 1, REF, CMD=q(c), REFUSED=1, STATE=CFG) for k, c in enumerate((
    'set interval to 0;', 'set interval to true;', "set interval to '1~c';", 'set compression to 1~d;', 'set test_bool to 1~d;', "set test_string to true;",
    'set wal to ~b;', 'set mm_page_size to 1~d;', 'set interva~y to 1;', 'set interval 1~d;', 'set interval to 1~d za~a;', "set uuid to '~c';", 'set directory to 5;'))],
  job('crash', 'e2e_def.c', 2, CR, MODE=1, CMD=q('set wal_rotate_wm to 10~d;'), EXPECT=q('show wal_rotate_wm@10~0;'), STATE=WM),
  job('crash_power', 'e2e_def.c', 2, CR, MODE=1, POWERLOSS=1, DB_SETUP=q('set sync to true;'), CMD=q('set wal_rotate_wm to 10~d;'), EXPECT=q('show wal_rotate_wm@10~0;'), STATE=WM),
  job('failing', 'e2e_def.c', 2, FA, MODE=2, CMD=q('set wal_rotate_wm to 10~d;'), EXPECT=q('show wal_rotate_wm@10~0;'), STATE=WM),
  assumptions=[FS], outside='settings given before the first open (C34), integers other than the stated digit patterns (their decimal conversion is C20/C21)')
MOCK = "create cloud c (type 'mock', login 'x');"
check('C18', 'model_checking',
  'Every single command of 27 definition commands after 7 starts with data (thorough: every two), with symbolic option values, against a model of the definitions, before and after a restart; each option of storages, clouds and tiers with symbolic values over two restarts; each kind of command with every crash point and every failing call.',
  job('sequence', 'e2e_defseq.c', 4, ('done', 'refused', 'reopened'), N=1, thorough=dict(N=2), max_inst=200000000),
  job('sequence_renamed', 'e2e_defseq.c', 4, ('done', 'refused', 'reopened'), N=2, START=3, REOPEN=1, max_inst=200000000),
  job('create', 'e2e_def.c', 1, DEF, CMD=q('create storage s (sync ~b, crc ~b, refresh_wm 1~d);'), EXPECT=q('show storage s@"sync": ~0;show storage s@"crc": ~1;show storage s@"refresh_wm": 1~2;')),
  job('create_cloud_options', 'e2e_def.c', 1, DEF, CMD=q("create storage s (cloud_drop_local ~b, compression 'zstd', compression_level ~d);"), EXPECT=q('show storage s@"cloud_drop_local": ~0;show storage s@"compression_level": ~1;show storage s@"compression": "zstd";')),
  job('create_path', 'e2e_def.c', 1, DEF, CMD=q("create storage s (region_size 5~d0, path 'a~ab', encryption 'aes', encryption_key '0123456789012345678901234567890~a');"), EXPECT=q('show storage s@"region_size": 5~00;show storage s@"path": "a~1b";show storage s@"encryption": "aes";')),
  job('alter', 'e2e_def.c', 1, DEF, PRE=q('create storage s;'), CMD=q('alter storage s set (refresh_wm 10~d, sync ~b);'), EXPECT=q('show storage s@"refresh_wm": 10~0;show storage s@"sync": ~1;')),
  job('rename', 'e2e_def.c', 1, DEF, PRE=q('create storage other (sync false);alter pipeline set other (partitions 3~d0), main;!Wrm;'), OTHER=0, ROWS=1, HI=3, CMD=q('alter storage other rename to b~a;'), EXPECT=q('show storage b~1@"name": "b~1";show pipeline@"name": "b~1";')),
  job('cloud', 'e2e_def.c', 1, DEF, PRE=q(MOCK), CMD=q("alter cloud c set (login '~c~a', password '~a', debug ~b);"), EXPECT=q('show cloud c@"login": "~0~1";show cloud c@"debug": ~3;')),
  job('cloud_rename', 'e2e_def.c', 1, DEF, PRE=q(MOCK + "create storage s (cloud 'c');"), CMD=q('alter cloud c rename to d~a;'), EXPECT=q('show storage s@"cloud": "d~0";show cloud d~0@"name": "d~0";')),
  job('pipeline', 'e2e_def.c', 2, DEF, PRE=q('create storage s;create storage tt;'), CMD=q('alter pipeline set main (partitions 3~d0, size 2~d0), s (events 4~d0), tt (duration 5~d0);'), EXPECT=q('show pipeline@"partitions": 3~00;show pipeline@"size": 2~10;show pipeline@"events": 4~20;show pipeline@"duration": 5~30;')),
  job('repeated_tier', 'e2e_def.c', 1, REF, PRE=q('create storage s;create storage tt;'), REFUSED=1, CMD=q('alter pipeline set main (partitions ~d), s (partitions ~d), tt (partitions 1), main;')),
  job('bare_tiers', 'e2e_def.c', 1, DEF, CMD=q('alter pipeline set main ();'), EXPECT=q('show pipeline@"name": "main";')),
  job('unknown_cloud', 'e2e_def.c', 1, REF, PRE=q(MOCK + "create storage s (cloud 'c');"), REFUSED=1, CMD=q("alter storage s set (cloud 'x~a', sync false);")),
  job('crash_create', 'e2e_def.c', 2, CR, MODE=1, CMD=q('create storage s (refresh_wm 10~d);'), STATE=WM, EXPECT=q('show storage s@"refresh_wm": 10~0;')),
  job('crash_rename', 'e2e_def.c', 2, CR, MODE=1, PRE=q('create storage s;alter pipeline set s (partitions 1), main;'), CMD=q('alter storage s rename to b~a;'), STATE=q('show storages debug;show pipeline;')),
  job('crash_pipeline', 'e2e_def.c', 2, CR, MODE=1, PRE=q('create storage s;'), CMD=q('alter pipeline set main (partitions 3~d0), s;'), STATE=q('show pipeline;')),
  job('crash_drop', 'e2e_def.c', 2, CR, MODE=1, PRE=q('create storage s;'), CMD=q('drop storage s;'), STATE=q('show storages debug;')),
  job('crash_cloud', 'e2e_def.c', 2, CR, MODE=1, CMD=q("create cloud c (type 'mock', login '~a');"), STATE=q('show clouds;')),
  job('fail_create', 'e2e_def.c', 2, FA, MODE=2, CMD=q('create storage s (refresh_wm 10~d);'), STATE=q('show storages debug;')),
  job('fail_rename', 'e2e_def.c', 2, FA, MODE=2, PRE=q('create storage s;'), CMD=q('alter storage s rename to b~a;'), STATE=q('show storages debug;')),
  job('fail_cloud', 'e2e_def.c', 2, FA, MODE=2, CMD=q("create cloud c (type 'mock', login '~a');"), STATE=q('show clouds;')),
  job('fail_drop', 'e2e_def.c', 2, FA, MODE=2, PRE=q('create storage s;'), CMD=q('drop storage s;'), STATE=q('show storages debug;')),
  job('fail_pipeline', 'e2e_def.c', 2, FA, MODE=2, PRE=q('create storage s;'), CMD=q('alter pipeline set main (partitions 3~d0), s;'), STATE=q('show pipeline;')),
  job('fail_alter', 'e2e_def.c', 2, FA, MODE=2, PRE=q('create storage s;'), CMD=q('alter storage s set (refresh_wm 10~d);'), STATE=q('show storages debug;')),
  assumptions=[FS], outside='longer sequences, more than three storages and two clouds, option values outside the stated patterns')
RB = ('moved', 'dropped', 'reopened')
check('C28', 'model_checking',
  '2-3 partitions of 1-2 events in every order of creation, in memory, in files or both, in any of three storages; pipelines of 2-3 tiers with every 64-bit limit of partitions, size, events, age, alone and together; busy partitions; a clock set back; a cloud; a second run, a new partition, a restart; every crash point and failing call of a rebalance.',
  job('capacity', 'e2e_rebal.c', 1, RB + ('created',), RULES='"p"', EVENTS=1, thorough=dict(NPART=4, PLACE='"0000"', STATEOF='"ffff"')),
  job('size', 'e2e_rebal.c', 1, RB, RULES='"s"', NPART=2, thorough=dict(NPART=3)),
  job('events', 'e2e_rebal.c', 1, RB, RULES='"e"', NPART=2, thorough=dict(NPART=3)),
  job('age', 'e2e_rebal.c', 1, RB, RULES='"d"', EVENTS=1),
  job('clock', 'e2e_rebal.c', 1, RB, RULES='"d"', BACK=1, EVENTS=1),
  job('mixed', 'e2e_rebal.c', 1, RB, RULES='"pe"', LAST='"sd"', NPART=2, EVENTS=1, thorough=dict(NPART=3)),
  job('mixed_two', 'e2e_rebal.c', 1, RB, RULES='"sd"', LAST='"pe"', NPART=2, EVENTS=1, thorough=dict(NPART=3)),
  job('terminal', 'e2e_rebal.c', 1, ('moved', 'reopened'), RULES='"p"', LAST='"-"', EVENTS=1),
  job('states', 'e2e_rebal.c', 2, RB, STATEOF='"??"', RULES='"e"', NPART=2, thorough=dict(NPART=3, STATEOF='"??m"')),
  job('tiers', 'e2e_rebal.c', 2, RB, TIERS='"012"', PLACE='"0?1"', EVENTS=1, thorough=dict(PLACE='"???"')),
  job('outside', 'e2e_rebal.c', 1, RB, TIERS='"12"', PLACE='"??"', NPART=2, EVENTS=1, thorough=dict(NPART=3, PLACE='"???"')),
  job('busy', 'e2e_rebal.c', 2, RB + ('busy',), BUSY=1, STATEOF='"f?m"', EVENTS=1, thorough=dict(STATEOF='"???"')),
  job('cloud', 'e2e_rebal.c', 1, RB, CLOUD=1, EVENTS=1),
  job('cloud_tiers', 'e2e_rebal.c', 1, RB, CLOUD=2, TIERS='"012"', EVENTS=1, NPART=2, thorough=dict(NPART=3)),
  job('crash', 'e2e_rebal.c', 1, RB + ('crashed', 'no crash'), MODE=1, NPART=2, EVENTS=1),
  job('crash_memory', 'e2e_rebal.c', 1, RB + ('crashed', 'no crash'), MODE=1, NPART=2, STATEOF='"fb"', EVENTS=2),
  job('crash_tiers', 'e2e_rebal.c', 1, RB + ('crashed', 'no crash'), MODE=1, NPART=2, EVENTS=1, TIERS='"012"', PLACE='"01"'),
  job('crash_cloud', 'e2e_rebal.c', 1, RB + ('crashed', 'no crash'), MODE=1, NPART=2, EVENTS=1, CLOUD=1),
  job('fail', 'e2e_rebal.c', 1, RB + ('failed', 'no failure'), MODE=2, NPART=2, EVENTS=1),
  job('fail_cloud', 'e2e_rebal.c', 1, RB + ('failed', 'no failure'), MODE=2, NPART=2, EVENTS=1, CLOUD=1),
  assumptions=[FS, 'limits are set where ALTER PIPELINE stores them, its parsing is C18 and C20'], outside='more partitions and tiers, partitions created at the same microsecond (either may go first), rebalancing at the same time as other work (a busy partition stands for it)')
CC = dict(OTHER=1, HI=3, CLOUD=1)
CD = dict(OTHER=1, HI=3, CLOUD=2)
CR4 = ('crashed', 'no crash', 'recovered', 'continued')
FA3 = ('failed', 'continued', 'reopened')
def crash(name, seq, base=CC, post=None, **kw): return job(name, 'e2e_crash.c', 1, CR4, **dict(base, **kw), SEQ=q(seq), **({'POST': q(post)} if post else {}))
def fault(name, seq, base=CC, post=None, **kw): return job(name, 'e2e_fault.c', 1, FA3, **dict(base, **kw), SEQ=q(seq), **({'POST': q(post)} if post else {}))
check('C29', 'fault_enumeration',
  'A partition with a write of a symbolic id in the local storage, the cloud or both: every pair of upload, download, drop of either copy, refresh, rebalance, move back, drop (thorough: every three) with restarts between; each of these interrupted at every crash point (some again during recovery) and at every failing call (some with a second run), with further work and restarts afterwards; storages that keep and that drop the local copy after an upload.',
  job('pairs', 'e2e_hist.c', 2, ('again', 'reopened', 'only local', 'only on cloud'), **CC, SEQ=q('wrm?k?k'), OPSET=q('uldyzrxi'), thorough=dict(SEQ=q('wrm?k??k'))),
  job('pairs_dropping', 'e2e_hist.c', 2, ('again', 'reopened'), **CD, SEQ=q('wrmk??'), OPSET=q('uldyzrxi'), thorough=dict(SEQ=q('wrmk???'))),
  job('two', 'e2e_hist.c', 2, ('again', 'reopened'), **dict(CC, HI=7), SEQ=q('wWrmkykd?k'), OPSET=q('lryz'), thorough=dict(OPSET=q('lryzui'))),
  crash('crash_upload', 'wrmz*ud'), crash('crash_refresh', 'wrmy*dr', post='rnk'), crash('crash_both', 'wrmz*ul'), crash('crash_download', 'wrmy*l'),
  crash('crash_drop_sides', 'wrm*yz'), crash('crash_download_newer', 'wrmyd*l', FILES=1), crash('crash_two', 'wWrm*z', post='drykl'), crash('crash_two_upload', 'wWrmz*u', post='druykl'),
  crash('crash_again', 'wrmz*u', OPENCRASH=1), crash('crash_move', 'wr*m', CD), crash('crash_back', 'wrm*i', CD, FILES=1),
  crash('crash_cloud_refresh', 'wrmw*r', CD, post='rnk'), crash('crash_cloud_refresh_again', 'wrmw*r', CD, post='rnk', OPENCRASH=1),
  fault('fail_both', 'wrmz*ul', RUNS=2), fault('fail_drops', 'wrm*yxw'), fault('fail_download_reads', 'wrmy*kl', RFAULTS=1),
  fault('fail_two', 'wWrm*z.', post='dryknl'), fault('fail_two_upload', 'wWrmz*u.y', post='drzknl'), fault('fail_back', 'wrm*i', CD), fault('fail_move', 'wr*M.', CD, post='rylknk'),
  job('fail_refresh', 'e2e_fault.c', 1, FA3, **CC, SEQ=q('wrmy*dR.'), POST=q('kwrnk'), only_thorough=True),
  assumptions=[FS, 'the built-in mock cloud, whose objects are files of the modelled file system'], outside='longer histories, the S3 client (its requests need a server), more than two partitions')
S31 = ('shown',)
S31F = ('shown', 'failed')
S31C = ('shown', 'crashed')
check('C31', 'model_checking',
  'After each of up to six steps (writes and deletes of symbolic ids over 1-2 partitions, refresh, move, drop, upload, download, drop of either copy, restart; two of them chosen among all) everything shown about every storage and partition, against the reference map, the files and their content, and itself; also after each step around every failing call and after a restart at every crash point.',
  job('refreshed', 'e2e_stats.c', 2, S31, HI=7, SEQ=q('ddrd'), thorough=dict(SEQ=q('ddrdrd'))),
  job('dropped', 'e2e_stats.c', 2, S31, HI=7, SEQ=q('drxd'), thorough=dict(SEQ=q('ddrxd'))),
  job('pairs', 'e2e_stats.c', 2, S31, HI=3, OTHER=1, SEQ=q('w?d?'), OPSET=q('rmxn'), thorough=dict(SEQ=q('w?d?d?'))),
  job('cloud_pairs', 'e2e_stats.c', 2, S31 + ('in the cloud', 'only local', 'only on cloud', 'reopened'), HI=3, OTHER=1, CLOUD=1, SEQ=q('wrm?w?'), OPSET=q('uldyzrxin'), thorough=dict(SEQ=q('wrm?d?'))),
  job('cloud_dropping', 'e2e_stats.c', 1, S31 + ('in the cloud',), HI=3, OTHER=1, CLOUD=2, SEQ=q('wrm?w?'), OPSET=q('rnxi'), thorough=dict(SEQ=q('wrm?d?n'))),
  job('fail', 'e2e_stats.c', 1, S31F, HI=3, OTHER=1, MODE=2, SEQ=q('w*rmdr.d')),
  job('fail_move', 'e2e_stats.c', 1, S31F, HI=3, OTHER=1, MODE=2, SEQ=q('wr*MdR.d'), POST=q('rrx')),
  job('fail_drop', 'e2e_stats.c', 1, S31F, HI=3, OTHER=1, MODE=2, SEQ=q('wr*MRx.d'), POST=q('rrx')),
  job('fail_cloud', 'e2e_stats.c', 1, S31F + ('in the cloud',), HI=3, OTHER=1, CLOUD=2, MODE=2, SEQ=q('wr*MR.d'), POST=q('rrx')),
  job('fail_upload', 'e2e_stats.c', 1, S31F + ('in the cloud',), HI=3, OTHER=1, CLOUD=1, MODE=2, SEQ=q('wrmz*ul.w'), POST=q('r')),
  job('crash', 'e2e_stats.c', 1, S31C, HI=3, OTHER=1, MODE=1, SEQ=q('wr*drm'), POST=q('rx'), thorough=dict(SEQ=q('wr*drdm'), POST=q('drx'))),
  job('crash_cloud', 'e2e_stats.c', 1, S31C + ('in the cloud',), HI=3, OTHER=1, CLOUD=1, MODE=1, SEQ=q('wrm*ry'), POST=q('dr'), thorough=dict(SEQ=q('wrm*dry'))),
  assumptions=[FS], outside='show wal (C06, C10, C16), show memory, times shown, compressed sizes')
TH = ('at the same time', 'one after the other')
def th(name, first, t1, t2, t3='', **kw): return job(name, 'e2e_thread.c', 1, kw.pop('reach', TH), FIRST=q(first), T1=q(t1), T2=q(t2), **({'T3': q(t3)} if t3 else {}), **kw)
OT = q('create storage other (sync false);')
TA = 'the scheduler may switch threads wherever a mutex, condition variable or reader-writer lock is used and where a thread starts; between two such points a thread runs alone (data races between them are outside)'
check('C14', 'model_checking',
  'Two threads (thorough: three) of 1-4 operations, one of them holding 1-2 nested cursors with work in between while the other writes a symbolic id, scans, refreshes, moves, drops, changes settings or storages: every schedule with at most 2 preemptions (thorough: 3).',
  th('write', 'w0', '(w1)', 'w?s', HI=1, thorough=dict(P=3)),
  th('nested', 'w0', '((w1)w?)', 'r', HI=1),
  th('batch', 'w0w1', '(w1)s', 'b?', HI=1, thorough=dict(P=3)),
  th('both', 'w0', '(s)', '(w?)', thorough=dict(P=3)),
  th('drop', 'w0r', '(w1)', 'x0w?', HI=1, thorough=dict(P=3)),
  th('one_refreshed', 'w0r', '(s)', 'p0w?', HI=1),
  th('refresh', 'w0r', '(s)', 'w?rs', HI=1),
  th('move', 'w0r', '(w1)d?', 'm', HI=1, STORAGE=OT),
  th('refused', 'w0', '(f1)', 'f0w?', HI=1),
  th('opposite', 'w0w4', 'b3', 'B3', HI=7, reach=('at the same time',)),
  th('batches', 'w0w4', 'b3', 'b3', HI=7),
  th('two', 'w0w4', '(w1)', 'w4r', HI=7, only_thorough=True),
  th('admin', 'w0', 'az', 'w?rn', HI=1),
  th('checkpoint', 'w0', '(w?)', 'cv', HI=1),
  th('three', 'w0', '(w1)', 'r', 'w0', only_thorough=True),
  assumptions=[TA], outside='more threads, preemptions and operations; a thread which keeps a cursor open while it waits for another partition or gives an exclusive command (it would wait for itself)')
check('C15', 'model_checking',
  'Two threads (thorough: three) of 1-3 operations over 1-2 partitions in memory and files: writes, deletes and batches of symbolic or fixed ids, refused batches, scans, refresh, move, drop, checkpoint, background service, new WAL files and WAL GC: every schedule with at most 2 preemptions (thorough: up to 3), then a refresh and a restart.',
  th('write_scan', 'w0r', 'w?', 's', HI=1, thorough=dict(P=3)),
  th('writes_scan_refresh', 'w0r', 'w0w1', 'sr'),
  th('batch_refresh', 'w0r', 'b?', 'r', HI=1, thorough=dict(P=3)),
  th('batches', 'w0r', 'b?', 'b0', HI=1, thorough=dict(P=3)),
  th('refused_scan', 'w0r', 'f?', 's', HI=1, thorough=dict(P=3)),
  th('refused_batch', 'w0r', 'b?', 'f0s', HI=1),
  th('delete_refresh', 'w0r', 'w?d0', 'r', HI=1),
  th('two_refreshes', 'w0r', 'rw?', 'r', HI=1),
  th('refresh_scan', 'w0r', 'w1', 'rs'),
  th('drop', 'w0r', 'w?', 'x0', HI=1, thorough=dict(P=3)),
  th('drop_refresh', 'w0r', 'x0w?', 'r', HI=1),
  th('two_drops', 'w0r', 'x0w?', 'x0w2', HI=1),
  th('move', 'w0r', 'w?', 'm', HI=1, STORAGE=OT),
  th('drop_move', 'w0r', 'x0w?', 'm', HI=1, STORAGE=OT),
  th('service', 'w0', 'cv', 'w?v', HI=1),
  th('wal', 'w0o', 'rg', 'w?o', HI=1),
  th('two', 'w0w4r', 'w4w0', 'b3s', HI=7),
  th('three', 'w0r', 'w0', 'r', 's', only_thorough=True),
  th('deletes', 'w0r', 'w?d?', 'r', only_thorough=True),
  th('three_preemptions', 'w0r', 'w1', 'rs', P=3, only_thorough=True),
  assumptions=[TA, FS], outside='more threads, preemptions and operations; data races within a step; scans over several partitions are checked partition by partition')
LST = 'show memory, wal, clouds, cloud c, storages debug, storage s, partition 0, partitions s debug, pipeline, config interval;'
def cmd(name, cmds, how, reach=('refused', 'done'), **kw): return job(name, 'e2e_cmd.c', 1, reach, CMDS=q(cmds), HOW=how, **kw)
SETC = "set test_int to 15 ;set test_bool to true;set test_string to 'ab';"
MISC = 'debug wal_create;debug "wal_gc";debug "wal_read";checkpoint;service;rebalance;'
CLC = "create cloud d (type 'mock', login 'a');create cloud if not exists c (type 'mock', debug true);"
CLA = "drop cloud if exists f;alter cloud c set (login 'a\\\\'b', debug false);alter cloud if exists c rename to e;"
STC = "create storage a (cloud 'c', sync false);create storage if not exists tt (crc true, region_size 5);"
STA = "alter storage tt set (sync true, refresh_wm 5);alter storage if exists s rename to v;drop storage if exists tt;"
PIP = 'alter pipeline set main (partitions 1), s (events 3);alter pipeline reset;'
PRT = 'create partition 8;create partitions from 8 to 12;drop partition if exists 4;'
RNG = 'drop partitions from 0 to 9;move partitions between 0 and 9 into tt;'
check('C19', 'model_checking',
  'Every position of a set of commands that covers each command form, with the byte there replaced by any of 255, with any byte inserted there, and with everything after it cut off and followed by any byte; any text of up to 2 (thorough: 3) bytes; in an environment with partitions in memory, files and a cloud.',
  cmd('text', ';', 2, ('refused',), N=2, thorough=dict(N=3)),
  cmd('empty', ';', 2, ('refused',), N=1),
  cmd('show', LST, 2), cmd('show_byte', LST, 0), cmd('show_insert', LST, 1, only_thorough=True),
  cmd('set', SETC, 2), cmd('set_byte', SETC, 0), cmd('set_interval', 'set interval to 4 min;', 0, only_thorough=True),
  cmd('misc', MISC, 0), cmd('misc_insert', MISC, 1, only_thorough=True),
  cmd('cloud', CLC, 2), cmd('cloud_byte', CLC, 0, only_thorough=True), cmd('cloud_alter', CLA, 0),
  cmd('storage', STC, 2), cmd('storage_byte', STC, 0, only_thorough=True), cmd('storage_alter', STA, 0), cmd('storage_alter_insert', STA, 1, only_thorough=True),
  cmd('pipeline', PIP, 0),
  cmd('partition', PRT, 0), cmd('partition_insert', PRT, 1, only_thorough=True), cmd('range', RNG, 2),
  cmd('refresh', 'move partition 0 into tt;refresh partition 0;', 0),
  cmd('upload', 'upload partition 0;', 0), cmd('download', 'download partition if exists 0 if cloud;', 1),
  assumptions=[FS], outside='longer free text, several bytes changed at once, commands in other environments, numbers beyond C20')
DR = ('drained',)
def svc(name, seq, reach=DR, **kw): return job(name, 'e2e_service.c', 1, reach, SEQ=q(seq), **kw)
def svf(name, seq, **kw): return svc(name, seq, MODE=2, HI=3, **kw)
check('C30', 'model_checking',
  'Queue: every sequence of 4 (thorough: 5) steps of adding any kind of request with a 64-bit id, taking with any filter, continuing; 1-2 waiting workers of each kind, 2 requests, every schedule with 2 preemptions. Environment: histories of up to 8 steps with writes of symbolic ids over the refresh limit, checkpoint, refresh, move, drop, restart, one request run as any kind of worker, clouds, every failing call; then everything drained, before and after a restart.',
  job('queue', 'queue.c', 1, ('nothing', 'continued', 'taken'), OPS=4, thorough=dict(OPS=5)),
  job('workers_any', 'queue.c', 1, ('stopped',), MODE=1, WORKERS=q('a')),
  job('workers_two', 'queue.c', 1, ('stopped',), MODE=1, WORKERS=q('aa')),
  job('workers_upload', 'queue.c', 1, ('stopped',), MODE=1, WORKERS=q('wu')),
  svc('limit', 'w?d?', DR + ('reopened',), OPSET=q('vrmxcn'), HI=3, thorough=dict(HI=7)),
  svc('checkpoint', 'd?c?', DR + ('reopened',), OPSET=q('vrVncx'), WM=q('100000')),
  svc('upload', 'wvWvmdVVUU', DR + ('uploaded',), CLOUD=1),
  svc('cloud_dropping', 'wvmdV?U', DR + ('uploaded', 'reopened'), CLOUD=2, OPSET=q('vnrcxw')),
  svc('cloud', 'wvmd?V?U', DR + ('uploaded', 'reopened'), CLOUD=1, OPSET=q('vnrcxV'), HI=3),
  svf('fail', 'w*dv.d', reach=DR + ('failed',)),
  svf('fail_refresh', 'wvmd*V.', CLOUD=1), svf('fail_refresh_dropping', 'wvmd*V.U', reach=DR + ('uploaded',), CLOUD=2), svf('fail_upload', 'wvmdV*U.V', reach=DR + ('uploaded',), CLOUD=2),
  assumptions=[FS, TA], outside='more workers and requests, worker threads started by open (their loop is engine_service, which is run here), times')

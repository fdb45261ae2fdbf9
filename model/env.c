#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/file.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include "env.h"

uint64_t env_time_us = 1700000000ull * 1000000;
uint64_t env_step, env_crash_at = ~0ull, env_fault_at = ~0ull, env_fault2_at = ~0ull, env_syncs, env_writes;
int env_faults, env_rfaults, env_torn, env_powerloss, env_armed, env_crashed;
jmp_buf env_crash_jmp;

typedef struct { uint8_t* data; uint64_t size, cap; uint8_t* sdata; uint64_t ssize; int synced_any; int dirty; } Inode;
typedef struct { char* path; int is_dir; Inode* ino; int lockfd; } Ent;
typedef struct { int used; int flags; uint64_t off; Inode* ino; int is_dir; Ent* ent; } Fd;
typedef struct { char prefix[512]; int pos; struct dirent de; } Dir;
#define MAXENT 256
#define MAXFD 128
static uint64_t env_blocks; // memory of the model itself
static void* emalloc(size_t n) { env_blocks++; return malloc(n); }
static void* ecalloc(size_t n) { env_blocks++; return calloc(1, n); }
static void* erealloc(void* p, size_t n) { if (!p) env_blocks++; return realloc(p, n); }
static void efree(void* p) { if (p) env_blocks--; free(p); }
uint64_t env_live(void) { return mse_live() - env_blocks; }
static Ent ents[MAXENT]; static int nents;
static void* cw[16];   // condition each thread waits for
static Fd fds[MAXFD];

int model_fmt_exact = 1; // 0: a symbolic number is printed as '#' (texts nobody reads)
static int seq(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static size_t slen(const char* a) { size_t n = 0; while (a[n]) n++; return n; }
static char nbuf[2][512];
static const char* norm(const char* p, int k)
{
	char* o = nbuf[k]; size_t n = 0;
	for (; *p && n < 510; p++) { if (*p == '/' && n && o[n - 1] == '/') continue; o[n++] = *p; }
	if (n > 1 && o[n - 1] == '/') n--;
	o[n] = 0;
	return o;
}
static Ent* lookup(const char* p) { for (int i = 0; i < nents; i++) if (ents[i].path && seq(ents[i].path, p)) return &ents[i]; return NULL; }
static char* dups(const char* p) { size_t n = slen(p) + 1; char* r = emalloc(n); memcpy(r, p, n); return r; }
static int parent_ok(const char* p)
{
	char t[512]; size_t n = slen(p);
	if (n >= sizeof(t)) return 0;
	memcpy(t, p, n + 1);
	while (n > 0 && t[n] != '/') n--;
	if (n == 0) return 1;
	t[n] = 0;
	Ent* e = lookup(t);
	return e && e->is_dir;
}
static Ent* add(const char* p, int dir)
{
	int i;
	for (i = 0; i < nents; i++) if (!ents[i].path) break;
	if (i == nents) { if (nents == MAXENT) mse_fail("model: too many files"); nents++; }
	ents[i].path = dups(p); ents[i].is_dir = dir; ents[i].ino = dir ? NULL : ecalloc(sizeof(Inode)); ents[i].lockfd = 0;
	return &ents[i];
}
// one step of environment: 0 proceed, 1 fail, 2 die
static int tick(void)
{
	if (!env_armed) return 0;
	uint64_t s = env_step++;
	if (s == env_crash_at) return 2;
	if (s == env_fault_at) { if (env_faults > 0) { env_faults--; env_fault_at++; } else env_fault_at = env_fault2_at; return 1; }
	return 0;
}
static void die(void) { env_crashed = 1; env_armed = 0; longjmp(env_crash_jmp, 1); }
static int rtick(void) { return env_rfaults ? tick() : 0; }
#define RSTEP(err) do { if (rtick() == 1) { errno = (err); return -1; } } while (0)
#define STEP(err) do { int t_ = tick(); if (t_ == 2) die(); if (t_ == 1) { errno = (err); return -1; } } while (0)

static void grow(Inode* f, uint64_t n) { if (n <= f->cap) return; uint64_t c = f->cap ? f->cap : 256; while (c < n) c *= 2; f->data = erealloc(f->data, c); f->cap = c; }
static void put(Inode* f, uint64_t off, const void* d, uint64_t n)
{
	if (!n) return;
	if (n > (1u << 24) || off > (1u << 26)) mse_fail("model: write outside the model's file size");
	grow(f, off + n);
	if (off > f->size) memset(f->data + f->size, 0, off - f->size);
	memcpy(f->data + off, d, n);
	if (off + n > f->size) f->size = off + n;
	f->dirty = 1;
}
int model_open(const char* p, int flags, ...)
{ p = norm(p, 0);
	Ent* e = lookup(p);
	if (flags & O_CREAT) {
		if (e && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (!e) { if (!parent_ok(p)) { errno = ENOENT; return -1; } STEP(ENOSPC); e = add(p, 0); }
	}
	if (!e) { errno = ENOENT; return -1; }
	RSTEP(EMFILE);
	if (!e->is_dir && (flags & O_TRUNC) && e->ino->size) { STEP(EIO); e->ino->size = 0; e->ino->dirty = 1; }
	for (int i = 3; i < MAXFD; i++) if (!fds[i].used) { fds[i].used = 1; fds[i].flags = flags; fds[i].off = 0; fds[i].ino = e->ino; fds[i].is_dir = e->is_dir; fds[i].ent = e; return i; }
	errno = EMFILE; return -1;
}
static Fd* fdof(int fd) { if (fd < 3 || fd >= MAXFD || !fds[fd].used) { errno = EBADF; return NULL; } return &fds[fd]; }
int model_close(int fd) { Fd* f = fdof(fd); if (!f) return -1; f->used = 0; if (f->ent && f->ent->lockfd == fd) f->ent->lockfd = 0; return 0; }
int model_flock(int fd, int op)
{
	Fd* f = fdof(fd); if (!f) return -1;
	if (op & LOCK_UN) { if (f->ent->lockfd == fd) f->ent->lockfd = 0; return 0; }
	if (f->ent->lockfd && f->ent->lockfd != fd) { if (!(op & LOCK_NB)) mse_fail("model: flock would block"); errno = EWOULDBLOCK; return -1; }
	f->ent->lockfd = fd;
	return 0;
}
int model_fdatasync(int fd)
{
	Fd* f = fdof(fd); if (!f) return -1;
	STEP(EIO);
	env_syncs++;
	if (f->ino && env_powerloss) { Inode* n = f->ino; n->sdata = erealloc(n->sdata, n->size + 1); memcpy(n->sdata, n->data, n->size); n->ssize = n->size; }
	if (f->ino) f->ino->dirty = 0;
	return 0;
}
int model_fsync(int fd) { return model_fdatasync(fd); }
int model_sync_file_range(int fd, off_t o, off_t n, unsigned fl) { return fdof(fd) ? 0 : -1; }
int model_ftruncate(int fd, off_t n)
{
	Fd* f = fdof(fd); if (!f || !f->ino) return -1;
	STEP(EIO);
	if ((uint64_t)n < f->ino->size) f->ino->size = n;
	else if ((uint64_t)n > f->ino->size) { grow(f->ino, n); memset(f->ino->data + f->ino->size, 0, n - f->ino->size); f->ino->size = n; }
	f->ino->dirty = 1;
	return 0;
}
static ssize_t rd(Inode* f, uint64_t off, void* b, uint64_t n)
{
	if (off >= f->size) return 0;
	if (n > f->size - off) n = f->size - off;
	memcpy(b, f->data + off, n);
	return n;
}
ssize_t model_read(int fd, void* b, size_t n) { Fd* f = fdof(fd); if (!f) return -1; RSTEP(EIO); ssize_t r = rd(f->ino, f->off, b, n); f->off += r; return r; }
ssize_t model_pread(int fd, void* b, size_t n, off_t off) { Fd* f = fdof(fd); if (!f) return -1; RSTEP(EIO); return rd(f->ino, off, b, n); }
// prefix of a dying or failing write
static uint64_t torn(uint64_t n)
{
	if (!env_torn || n == 0) return 0;
	if (env_torn == 1) { switch (mse_choose(3, "torn")) { case 0: return 0; case 1: return n / 2; default: return n - 1; } }
	return mse_choose(n, "torn");
}
static ssize_t wrv(Fd* f, const struct iovec* v, int cnt, uint64_t off)
{
	uint64_t tot = 0;
	if (cnt < 0 || cnt > 1024) { errno = EINVAL; return -1; }
	for (int i = 0; i < cnt; i++) tot += v[i].iov_len;
	int t = tick(); uint64_t lim = tot;
	if (t) lim = torn(tot);
	env_writes++;
	uint64_t done = 0;
	for (int i = 0; i < cnt && done < lim; i++) {
		uint64_t k = v[i].iov_len; if (k > lim - done) k = lim - done;
		put(f->ino, off + done, v[i].iov_base, k);
		done += k;
	}
	if (t == 2) die();
	if (t == 1 && done == 0) { errno = ENOSPC; return -1; }
	if (t == 1) { env_fault_at = env_step; return done; } // short write, the retry fails
	return done;
}
static uint64_t woff(Fd* f) { return (f->flags & O_APPEND) ? f->ino->size : f->off; }
ssize_t model_write(int fd, const void* b, size_t n) { Fd* f = fdof(fd); if (!f) return -1; struct iovec v = { (void*)b, n }; uint64_t o = woff(f); ssize_t r = wrv(f, &v, 1, o); if (r > 0) f->off = o + r; return r; }
ssize_t model_pwrite(int fd, const void* b, size_t n, off_t off) { Fd* f = fdof(fd); if (!f) return -1; struct iovec v = { (void*)b, n }; return wrv(f, &v, 1, off); }
ssize_t model_writev(int fd, const struct iovec* v, int n) { Fd* f = fdof(fd); if (!f) return -1; uint64_t o = woff(f); ssize_t r = wrv(f, v, n, o); if (r > 0) f->off = o + r; return r; }
ssize_t model_pwritev(int fd, const struct iovec* v, int n, off_t off) { Fd* f = fdof(fd); if (!f) return -1; return wrv(f, v, n, off); }
off_t model_lseek(int fd, off_t o, int wh) { Fd* f = fdof(fd); if (!f) return -1; RSTEP(EIO); if (wh == SEEK_SET) f->off = o; else if (wh == SEEK_CUR) f->off += o; else f->off = f->ino->size + o; return f->off; }
static int st_fill(int dir, Inode* n, struct stat* st) { memset(st, 0, sizeof(*st)); st->st_mode = dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = n ? n->size : 0; return 0; }
int model_fstat(int fd, struct stat* st) { Fd* f = fdof(fd); if (!f) return -1; RSTEP(EIO); return st_fill(f->is_dir, f->ino, st); }
int model_lstat(const char* p, struct stat* st) { p = norm(p, 0); Ent* e = lookup(p); if (!e) { errno = ENOENT; return -1; } return st_fill(e->is_dir, e->ino, st); }
int model_stat(const char* p, struct stat* st) { return model_lstat(p, st); }
int model_access(const char* p, int m) { p = norm(p, 0); if (!lookup(p)) { errno = ENOENT; return -1; } return 0; }
int model_unlink(const char* p) { p = norm(p, 0); Ent* e = lookup(p); if (!e || e->is_dir) { errno = ENOENT; return -1; } STEP(EIO); efree(e->path); e->path = NULL; return 0; }
int model_mkdir(const char* p, mode_t m) { p = norm(p, 0); if (lookup(p)) { errno = EEXIST; return -1; } if (!parent_ok(p)) { errno = ENOENT; return -1; } STEP(ENOSPC); add(p, 1); return 0; }
int model_rmdir(const char* p)
{ p = norm(p, 0);
	Ent* e = lookup(p); if (!e || !e->is_dir) { errno = ENOENT; return -1; }
	size_t n = slen(p);
	for (int i = 0; i < nents; i++) if (ents[i].path && slen(ents[i].path) > n && !memcmp(ents[i].path, p, n) && ents[i].path[n] == '/') { errno = ENOTEMPTY; return -1; }
	STEP(EIO); efree(e->path); e->path = NULL; return 0;
}
int model_rename(const char* a, const char* b)
{
	a = norm(a, 0); b = norm(b, 1);
	Ent* e = lookup(a); if (!e) { errno = ENOENT; return -1; }
	STEP(EIO);
	Ent* o = lookup(b);
	if (o == e) return 0;
	if (o) { efree(o->path); o->path = NULL; }
	if (e->is_dir) {
		size_t n = slen(a), m = slen(b);
		for (int i = 0; i < nents; i++) if (ents[i].path && slen(ents[i].path) > n && !memcmp(ents[i].path, a, n) && ents[i].path[n] == '/') {
			size_t k = slen(ents[i].path); char* np = emalloc(m + k - n + 1); memcpy(np, b, m); memcpy(np + m, ents[i].path + n, k - n + 1); efree(ents[i].path); ents[i].path = np; }
	}
	efree(e->path); e->path = dups(b);
	return 0;
}
DIR* model_opendir(const char* p) { p = norm(p, 0); Ent* e = lookup(p); if (!e || !e->is_dir) { errno = ENOENT; return NULL; } if (rtick() == 1) { errno = EMFILE; return NULL; } Dir* d = calloc(1, sizeof(Dir)); memcpy(d->prefix, p, slen(p) + 1); return (DIR*)d; }
struct dirent* model_readdir(DIR* dd)
{
	Dir* d = (Dir*)dd; size_t n = slen(d->prefix);
	if (d->pos < 2) { memcpy(d->de.d_name, "..", 3); if (d->pos == 0) d->de.d_name[1] = 0; d->de.d_type = DT_DIR; d->pos++; return &d->de; }
	for (; d->pos - 2 < nents; d->pos++) {
		Ent* e = &ents[d->pos - 2];
		if (!e->path) continue;
		size_t k = slen(e->path);
		if (k <= n + 1 || memcmp(e->path, d->prefix, n) || e->path[n] != '/') continue;
		int sub = 0; for (size_t i = n + 1; i < k; i++) if (e->path[i] == '/') sub = 1;
		if (sub) continue;
		memcpy(d->de.d_name, e->path + n + 1, k - n);
		d->de.d_type = e->is_dir ? DT_DIR : DT_REG;
		d->pos++;
		return &d->de;
	}
	return NULL;
}
int model_closedir(DIR* d) { free(d); return 0; }
uint64_t env_maps; int env_map_fail;
void* model_mmap(void* a, size_t n, int prot, int flags, int fd, off_t o) { if (env_map_fail) { env_map_fail--; errno = ENOMEM; return MAP_FAILED; } env_maps++; void* p = calloc(1, n); return p ? p : MAP_FAILED; }
void* model_mremap(void* a, size_t o, size_t n, int fl, ...) { void* p = realloc(a, n); if (p && n > o) memset((char*)p + o, 0, n - o); return p ? p : MAP_FAILED; }
int model_munmap(void* a, size_t n) { env_maps--; free(a); return 0; }

void env_reboot(void)
{
	memset(fds, 0, sizeof(fds));
	for (int i = 0; i < nents; i++) ents[i].lockfd = 0;
	memset(cw, 0, sizeof(cw));
	env_armed = 0;
	if (env_powerloss)
		for (int i = 0; i < nents; i++) if (ents[i].path && !ents[i].is_dir && ents[i].ino->dirty) {
			Inode* n = ents[i].ino;
			// all, none or half of what was written after the last sync survives
			uint64_t c = mse_choose(3, "survive");
			if (c == 1) { n->size = n->ssize; if (n->ssize) memcpy(n->data, n->sdata, n->ssize); }
			if (c == 2 && n->size > n->ssize) n->size = n->ssize + (n->size - n->ssize) / 2;
			n->dirty = 0;
		}
}
int env_exists(const char* p) { p = norm(p, 0); return lookup(p) != NULL; }
int64_t env_size(const char* p) { p = norm(p, 0); Ent* e = lookup(p); return e && !e->is_dir ? (int64_t)e->ino->size : -1; }
uint8_t* env_data(const char* p) { p = norm(p, 0); Ent* e = lookup(p); return e && !e->is_dir ? e->ino->data : NULL; }
int env_files(void) { int n = 0; for (int i = 0; i < nents; i++) if (ents[i].path && !ents[i].is_dir) n++; return n; }
const char* env_file(int k) { for (int i = 0; i < nents; i++) if (ents[i].path && !ents[i].is_dir && k-- == 0) return ents[i].path; return NULL; }
void env_put(const char* p, const void* d, uint64_t n) { p = norm(p, 0); Ent* e = lookup(p); if (!e) e = add(p, 0); e->ino->size = 0; put(e->ino, 0, d, n); e->ino->dirty = 0; }
void env_mkdir(const char* p) { p = norm(p, 0); if (!lookup(p)) add(p, 1); }
int env_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fds[i].used; return n; }

// clock
int model_gettimeofday(struct timeval* tv, void* tz) { tv->tv_sec = env_time_us / 1000000; tv->tv_usec = env_time_us % 1000000; return 0; }
int model_clock_gettime(clockid_t c, struct timespec* ts) { ts->tv_sec = env_time_us / 1000000; ts->tv_nsec = (env_time_us % 1000000) * 1000; return 0; }
time_t model_time(time_t* t) { time_t r = env_time_us / 1000000; if (t) *t = r; return r; }
int model_usleep(unsigned u) { env_time_us += u; mse_pause(); return 0; }
int model_nanosleep(const struct timespec* a, struct timespec* b) { mse_pause(); return 0; }
pid_t model_getpid(void) { return 77; }
uid_t model_getuid(void) { return 1000; }

// threads
typedef struct { int owner; } Mx;
int model_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { ((Mx*)m)->owner = 0; return 0; }
int model_pthread_mutex_destroy(pthread_mutex_t* m) { if (((Mx*)m)->owner) mse_fail("threads: destroying a locked mutex"); return 0; }
static void mx_lock(Mx* m) { int me = mse_self() + 1; if (m->owner == me) mse_fail("threads: self-deadlock, lock is already held by this thread"); while (m->owner) mse_block((uint64_t)m); m->owner = me; }
static void mx_unlock(Mx* m) { int me = mse_self() + 1; if (m->owner != me) mse_fail("threads: unlock of a lock this thread does not hold"); m->owner = 0; mse_wake((uint64_t)m); }
int model_pthread_mutex_lock(pthread_mutex_t* m) { mse_preempt(); mx_lock((Mx*)m); return 0; }
int model_pthread_mutex_unlock(pthread_mutex_t* m) { mx_unlock((Mx*)m); mse_preempt(); return 0; }
int env_mutex_held(void* m) { return ((Mx*)m)->owner; }
int model_pthread_spin_init(pthread_spinlock_t* m, int s) { *(volatile int*)m = 0; return 0; }
int model_pthread_spin_destroy(pthread_spinlock_t* m) { return 0; }
int model_pthread_spin_lock(pthread_spinlock_t* m) { mse_preempt(); mx_lock((Mx*)m); return 0; }
int model_pthread_spin_unlock(pthread_spinlock_t* m) { mx_unlock((Mx*)m); mse_preempt(); return 0; }
int model_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return 0; }
int model_pthread_cond_destroy(pthread_cond_t* c) { return 0; }
int model_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	int me = mse_self();
	if (me >= 16) mse_fail("model: too many threads");
	cw[me] = c;
	mx_unlock((Mx*)m);
	while (cw[me]) mse_block((uint64_t)c);
	mx_lock((Mx*)m);
	return 0;
}
int model_pthread_cond_broadcast(pthread_cond_t* c) { for (int i = 0; i < 16; i++) if (cw[i] == c) cw[i] = NULL; mse_wake((uint64_t)c); return 0; }
int model_pthread_cond_signal(pthread_cond_t* c)
{
	int w[16], n = 0;
	for (int i = 0; i < 16; i++) if (cw[i] == c) w[n++] = i;
	if (n) { cw[w[n > 1 ? mse_choose(n, "signalled") : 0]] = NULL; mse_wake((uint64_t)c); }
	return 0;
}
typedef struct { int writer; int readers; } Rw;
int model_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { ((Rw*)m)->writer = 0; ((Rw*)m)->readers = 0; return 0; }
int model_pthread_rwlock_destroy(pthread_rwlock_t* m) { return 0; }
int model_pthread_rwlock_rdlock(pthread_rwlock_t* mm) { Rw* m = (Rw*)mm; mse_preempt(); while (m->writer) mse_block((uint64_t)m); m->readers++; return 0; }
int model_pthread_rwlock_wrlock(pthread_rwlock_t* mm) { Rw* m = (Rw*)mm; mse_preempt(); while (m->writer || m->readers) mse_block((uint64_t)m); m->writer = mse_self() + 1; return 0; }
int model_pthread_rwlock_unlock(pthread_rwlock_t* mm) { Rw* m = (Rw*)mm; if (m->writer) { if (m->writer != mse_self() + 1) mse_fail("threads: unlock of a lock this thread does not hold"); m->writer = 0; } else { if (m->readers <= 0) mse_fail("threads: unlock of a free lock"); m->readers--; } mse_wake((uint64_t)m); mse_preempt(); return 0; }
int model_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) { *t = (pthread_t)(mse_thread((void*)fn, arg)) + 0x1000; mse_preempt(); return 0; }
int model_pthread_join(pthread_t t, void** r) { uint64_t i = (uint64_t)t - 0x1000; while (!mse_thread_done(i)) mse_block(MSE_JOIN + i); return 0; }
pthread_t model_pthread_self(void) { return (pthread_t)mse_self() + 0x1000; }
int model_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int model_pthread_setname_np(pthread_t t, const char* n) { return 0; }

#pragma once
// Environment model: in-memory file system with crash points and faults,
// threads, clock.  The same source runs under the symbolic executor and in
// native replay.
#include "mse.h"
#include <setjmp.h>
extern uint64_t env_time_us;             // clock
// fault / crash control.  Every state-changing system call is one step.
extern uint64_t env_step;                // steps so far
extern uint64_t env_crash_at;            // step at which the process dies (may be symbolic), ~0 = never
extern uint64_t env_fault_at;            // step at which the call fails (may be symbolic), ~0 = never
extern uint64_t env_fault2_at;           // a second failing step after the first
extern int      env_faults;              // how many further consecutive calls fail after the first one (0)
extern int      env_rfaults;             // reads and opens are steps too
extern int      env_torn;                // a dying/failing write may have written a prefix: 0 no, 1 {0,half,all-1}, 2 every prefix
extern int      env_powerloss;           // on crash, data not synced may be lost
extern int      env_armed;               // steps are only counted while armed
extern int      env_crashed;
extern jmp_buf  env_crash_jmp;
extern uint64_t env_syncs, env_writes;
void env_reboot(void);                   // after a crash or close: drop descriptors, apply power loss
int  env_exists(const char* path);
int64_t env_size(const char* path);
uint8_t* env_data(const char* path);
int  env_files(void);                    // number of existing regular files
const char* env_file(int n);             // path of n-th existing regular file
void env_put(const char* path, const void* data, uint64_t size);
void env_mkdir(const char* path);
int  env_open_fds(void);
uint64_t env_live(void);                 // heap blocks in use, without those of the model
int  env_mutex_held(void* m);
#define ENV_CRASHABLE(body) do { env_crashed = 0; if (setjmp(env_crash_jmp) == 0) { body } } while (0)
extern uint64_t env_maps;                // memory mappings in use
extern int      env_map_fail;            // how many further mmap calls fail
extern int model_fmt_exact;

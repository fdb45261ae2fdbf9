#pragma once
// Internal functions called directly, inside an environment that is not open.
#include "db.h"
#define TRY(body) ({ Exception e_; if (enter(&e_)) { body; } !leave(&e_); })
static void lib_init(void) { db = monotone_init(); mse_assert(db != NULL, "environment can be created"); model_fmt_exact = 1; }
static void lib_free(void) { monotone_free(db); db = NULL; }
static Main* lib_main(void) { struct o { int type; Main main; }; return &((struct o*)db)->main; }
static int bytes_same(const void* a, const void* b, uint64_t n) { uint64_t ne = 0; for (uint64_t i = 0; i < n; i++) ne |= ((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i]; return ne == 0; }

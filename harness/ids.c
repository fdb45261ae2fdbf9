// Identifiers as text.
//   UUID: any three adjacent hex digits of an identifier, printed and parsed
//   TEXT: a valid text with any byte at any position (and its neighbour), cut, or extended
//   NAME: file names of partitions, all states, ids in windows over the 64-bit range
#include "lib.h"
#ifdef NAME
#define engine_recover h_engine_recover
#include "engine/engine_recover.c"
#undef engine_recover
#endif
static const uint64_t bases[] = { 0, 90, 256, 99900, 0xfffff000ull, 9999999990ull, 0x7ffffffffffffff0ull, 9999999999999999990ull, 10000000000000000000ull, 0xffffffffffffff00ull };
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void mse_main(void)
{
	lib_init();
#ifdef UUID
	Uuid u, v; memset(&v, 0x5a, sizeof(v));
	static const uint64_t fill[] = { 0, 0x0123456789abcdefull, ~0ull };
	u.a = fill[mse_choose(3, "fill")]; u.b = ~u.a ^ 0x1111;
	int at = mse_choose(30, "window");
	uint64_t w = mse_in(0, 0xfff, "digits");
	for (int i = 0; i < 3; i++) { int d = at + i; uint64_t* x = d < 16 ? &u.a : &u.b; int s = 4 * (d & 15); *x = (*x & ~(15ull << s)) | ((w >> (4 * i)) & 15) << s; }
	char t[UUID_SZ + 8]; memset(t, 0x7e, sizeof(t));
	uuid_to_string(&u, t, UUID_SZ);
	mse_assert(t[UUID_SZ - 1] == 0, "terminated");
	for (int i = UUID_SZ; i < UUID_SZ + 8; i++) mse_assert(t[i] == 0x7e, "within its size");
	Str s; str_set(&s, t, UUID_SZ - 1);
	mse_assert(TRY(uuid_from_string(&v, &s)), "printed text is accepted");
	mse_assert((v.a == u.a) & (v.b == u.b), "printing and parsing gives the same identifier");
	mse_reach("printed");
#elif defined(TEXT)
	static const char good[] = "0123abcd-89EF-fF00-9aA5-0a1b2c3d4e5f";
	char t[40]; int n = 36;
	int mode = mse_choose(3, "mode");
	if (mode == 1) n = mse_choose(36, "cut"); else if (mode == 2) n = 37 + mse_choose(2, "extra");
	char* x = malloc(n); for (int i = 0; i < n; i++) x[i] = i < 36 ? good[i] : '0';
	int ok = n == 36;
	if (mode == 0) {
		int at = mse_choose(36, "at"), two = at < 35 && mse_choose(2, "two");
		for (int i = at; i <= at + two; i++) {
			x[i] = mse_u8("byte");
			int dash = i == 8 || i == 13 || i == 18 || i == 23;
			ok &= dash ? x[i] == '-' : hex((uint8_t)x[i]) >= 0;
		}
	} else if (mode == 2) x[36] = mse_u8("byte");
	Str s; str_set(&s, x, n);
	Uuid u, v;
	int r = TRY(uuid_from_string(&u, &s));
	mse_assert(r == ok, "exactly the well-formed texts are accepted");
	if (r) {
		uuid_to_string(&u, t, UUID_SZ); str_set(&s, t, 36);
		for (int i = 0; i < 36; i++) mse_assert(hex((uint8_t)t[i]) == hex((uint8_t)x[i]), "a parsed text is printed with the same digits");
		mse_reach("accepted");
	} else mse_reach("refused");
	free(x);
#elif defined(NAME)
	static const int states[] = { ID, ID_INCOMPLETE, ID_COMPLETE, ID_CLOUD, ID_CLOUD_INCOMPLETE };
	Id id; id.max = ~0ull; id.min = bases[mse_choose(10, "base")] + mse_in(0, 255, "id");
	int state = states[mse_choose(5, "state")];
	var_string_set_raw(&config()->directory, "/db", 3);
	Source* src = source_allocate();
	if (mse_choose(2, "path")) { Str p; str_set_cstr(&p, "/else"); source_set_path(src, &p); }
	char path[PATH_MAX]; id_path(&id, src, state, path);
	char* name = strrchr(path, '/') + 1;
	uint64_t got; int st = engine_recover_id(name, &got);
	mse_assert(st == state, "a file name gives its state");
	mse_assert(got == id.min, "a file name gives its id");
	source_free(src);
	mse_reach("named");
#endif
	lib_free();
}

// Internal encoding: what is written is read back, and only as what it is.
#include "lib.h"
// a buffer that holds exactly what was encoded
static Buf v; static uint8_t* x; static uint64_t xn;
static void exact(void) { xn = buf_size(&v); x = malloc(xn ? xn : 1); memcpy(x, v.start, xn); buf_reset(&v); }
static void done(uint8_t* p) { mse_assert(p == x + xn, "reading consumes exactly what was written"); p = x; data_skip(&p); mse_assert(p == x + xn, "skipping consumes exactly what was written"); free(x); }
enum { NUL, BOOL, REAL, INT, ARR, MAP, STR, TYPES };
static int is(int t, uint8_t* p) { switch (t) { case NUL: return data_is_null(p); case BOOL: return data_is_bool(p); case REAL: return data_is_real(p); case INT: return data_is_integer(p); case ARR: return data_is_array(p); case MAP: return data_is_map(p); default: return data_is_string(p); } }
static void read_as(int t, uint8_t** p)
{
	int64_t i; double r; bool b; int n; char* s;
	switch (t) { case NUL: data_read_null(p); break; case BOOL: data_read_bool(p, &b); break; case REAL: data_read_real(p, &r); break; case INT: data_read_integer(p, &i); break;
	case ARR: data_read_array(p, &n); break; case MAP: data_read_map(p, &n); break; default: data_read_raw(p, &s, &n); break; }
}
// the value in x is of type t and of no other
static void typed(int t)
{
	for (int k = 0; k < TYPES; k++) {
		mse_assert(is(k, x) == (k == t), "a value has exactly its own type");
		uint8_t* p = x;
		mse_assert(TRY(read_as(k, &p)) == (k == t), "a value can be read as its own type and as no other");
	}
}
#ifndef MAXN
#define MAXN 3
#endif
#ifndef PICK
#define PICK 1
#endif
static void put(Buf* b, int what)
{
	switch (what) {
	case 0: encode_integer(b, mse_in(0, 200, "integer")); break;
	case 1: encode_bool(b, mse_choose(2, "bool")); break;
	case 2: { char c[3]; mse_sym(c, 3, "text"); encode_raw(b, c, mse_choose(4, "length")); break; }
	case 3: encode_real(b, mse_choose(2, "real") ? 1.5 : -0.1); break;
	case 4: encode_null(b); break;
	case 5: encode_array(b, 2); encode_integer(b, 1000000); encode_array(b, 0); break;
	case 6: encode_map(b, 1); encode_cstr(b, "k"); encode_map(b, 0); break;
	}
}
void mse_main(void)
{
	lib_init();
	buf_init(&v);
#if defined(INTS)
	uint64_t n = mse_in(0, ~0ull, "value");
	encode_integer(&v, n);
	mse_assert(data_size_integer(n) == buf_size(&v), "an integer takes its stated size");
	exact(); typed(INT);
	int64_t r; uint8_t* p = x; data_read_integer(&p, &r);
	mse_assert((uint64_t)r == n, "an integer is read back");
	mse_assert((uint64_t)data_read_integer_at(x) == n, "an integer is read back");
	done(p); mse_reach("read");
#elif defined(COUNTS)
	// headers of arrays, maps and long strings, for every count
	uint64_t n = mse_in(0, INT32_MAX, "count"); int r; uint8_t* p; int wide = mse_choose(2, "fixed size");
	int t = mse_choose(3, "what");
	if (t == 0) { if (wide) encode_array32(&v, n); else encode_array(&v, n); }
	if (t == 1) { if (wide) encode_map32(&v, n); else encode_map(&v, n); }
	if (t == 2) encode_string32(&v, n);
	if (t < 2) mse_assert(buf_size(&v) == (wide ? 5 : t ? data_size_map(n) : data_size_array(n)), "a count takes its stated size");
	exact(); p = x;
	if (t == 0) { mse_assert(data_is_array(x) && !data_is_map(x) && !data_is_string(x), "a value has exactly its own type"); data_read_array(&p, &r); mse_assert(data_read_array_at(x) == r, "a count is read back"); }
	if (t == 1) { mse_assert(data_is_map(x) && !data_is_array(x) && !data_is_string(x), "a value has exactly its own type"); data_read_map(&p, &r); mse_assert(data_read_map_at(x) == r, "a count is read back"); }
	if (t == 2) { char* s; data_read_raw(&p, &s, &r); mse_assert(s == (char*)x + 5, "a string follows its size"); p = (uint8_t*)s; }
	mse_assert((uint64_t)r == n && p == x + xn, "a count is read back");
	free(x); mse_reach("read");
#elif defined(STRINGS)
	static const int sizes[] = { 0, 1, 2, 30, 31, 32, 33, 126, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65536 };
	int n = sizes[mse_choose(sizeof(sizes) / sizeof(*sizes), "size")], m = n < 4 ? n : 4, how = mse_choose(3, "how");
	char* s = malloc(n ? n : 1); memset(s, 'x', n); mse_sym(s, m, "text"); if (n > 8) mse_sym(s + n - 2, 2, "text");
	Str str; str_init(&str); str_set(&str, s, n);
	if (how == 0) encode_raw(&v, s, n);
	else if (how == 1) encode_string(&v, &str);
	else { Buf b; buf_init(&b); buf_write(&b, s, n); encode_buf(&v, &b); buf_free(&b); }
	mse_assert(data_size_string(n) == buf_size(&v), "a string takes its stated size");
	exact(); typed(STR);
	uint8_t* p = x; Str r; str_init(&r); data_read_string(&p, &r);
	mse_assert(str_size(&r) == n && bytes_same(str_of(&r), s, n), "a string is read back");
	uint8_t* q = x; Str c; str_init(&c); data_read_string_copy(&q, &c);
	mse_assert(q == p && str_size(&c) == n && bytes_same(str_of(&c), s, n), "a copy of a string is read back");
	str_free(&c); done(p); free(s); mse_reach("read");
#elif defined(REALS)
	static const double rs[] = { 0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1e7, 1e300, -1e300, 1e-300, 5e-324, 3.4028234663852886e38, 3.4028234663852890e38, 1.1754943508222875e-38, 1.1754943508222870e-38, 16777217.0, 123456789.123456789, 2147483648.5 };
	double d = rs[mse_choose(sizeof(rs) / sizeof(*rs), "real")], r;
	encode_real(&v, d);
	mse_assert(data_size_real(d) == buf_size(&v), "a real takes its stated size");
	exact(); typed(REAL);
	uint8_t* p = x; data_read_real(&p, &r);
	mse_assert(r == d && data_read_real_at(x) == d, "a real is read back");
	done(p); mse_reach("read");
#elif defined(TYPE)
	// any first byte, followed by zeroes
	x = calloc(1, 9); mse_sym(x, 1, "type"); xn = 9;
	int types = 0;
	for (int k = 0; k < TYPES; k++) types += is(k, x);
	mse_assert(types <= 1, "a value has one type");
	for (int k = 0; k < TYPES; k++) { uint8_t* p = x; mse_assert(TRY(read_as(k, &p)) == is(k, x), "a value can be read as its own type and as no other"); }
	if (types == 0) { uint8_t* p = x; mse_assert(!TRY(data_skip(&p)), "an unknown type is an error"); mse_reach("refused"); }
	else mse_reach("read");
	free(x);
#elif defined(FIND)
	// elements of arrays and maps
	int n = mse_choose(MAXN + 1, "elements"), map = mse_choose(2, "map"), at[4]; char keys[4][2]; int kl[4];
	if (map) encode_map(&v, n); else encode_array(&v, n);
	for (int i = 0; i < n; i++) {
		if (map) { mse_sym(keys[i], 2, "key"); kl[i] = 1 + mse_choose(2, "key length"); encode_raw(&v, keys[i], kl[i]); }
		at[i] = buf_size(&v);
		put(&v, (i * 3 + mse_choose(PICK, "kind")) % 7);
	}
	exact();
	uint8_t* p = x;
	if (!map) {
		int want = mse_choose(5, "position");
		mse_assert(array_find(&p, want) == (want < n), "exactly the elements of an array are found");
		if (want < n) mse_assert(p == x + at[want], "the element at its position is found");
		mse_assert(array_has(x, want) == (want < n), "exactly the elements of an array are found");
	} else {
		char k[2]; mse_sym(k, 2, "wanted"); int l = 1 + mse_choose(2, "wanted length"), expect = -1;
		for (int i = n - 1; i >= 0; i--) if (kl[i] == l && bytes_same(keys[i], k, l)) expect = i;
		mse_assert(map_find(&p, k, l) == (expect >= 0), "exactly the keys of a map are found");
		if (expect >= 0) { mse_assert(p == x + at[expect], "the value of the key is found"); mse_reach("found"); }
	}
	p = x; data_skip(&p); mse_assert(p == x + xn, "skipping consumes exactly what was written");
	free(x); mse_reach("read");
#elif defined(PATH)
	// nested maps by path
	encode_map(&v, 2); encode_cstr(&v, "a"); encode_map(&v, 2); encode_cstr(&v, "b"); encode_integer(&v, 1); encode_cstr(&v, "cc"); encode_integer(&v, 2); encode_cstr(&v, "bb"); encode_integer(&v, 3);
	exact();
	static const char* const paths[] = { "a.b", "a.cc", "bb", "a", "a.c", "b", "cc", "a.bb" }; static const int found[] = { 1, 2, 3, -1, 0, 0, 0, 0 };
	int k = mse_choose(8, "path"); Str s; str_init(&s); str_set_cstr(&s, paths[k]);
	uint8_t* p = x;
	mse_assert(map_find_path(&p, &s) == (found[k] != 0), "exactly the existing paths are found");
	if (found[k] > 0) mse_assert(data_read_integer_at(p) == found[k], "the value at the path is found");
	mse_assert(map_has(x, &s) == (found[k] != 0), "exactly the existing paths are found");
	free(x); mse_reach("read");
#elif defined(DECODE)
	// fields of a map, in any order, with one missing, unknown or of a wrong type
	Str s; str_init(&s); str_strndup(&s, "old", 3); int64_t i = -7; bool b = false; double r = 0; int order = mse_choose(6, "order"), flaw = mse_choose(4, "flaw"), at = flaw ? mse_choose(3, "where") : 0, kind = flaw > 1 ? mse_choose(TYPES, "kind") : 0;
	static const int perm[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0} };
	static const char* const names[] = { "text", "number", "flag" };
	uint64_t n = mse_in(0, ~0ull, "number"); char c[3]; mse_sym(c, 3, "text"); int flag = mse_choose(2, "flag");
	encode_map(&v, 3 + (flaw == 2) - (flaw == 1));
	for (int k = 0; k < 3; k++) {
		int f = perm[order][k];
		if (flaw == 1 && f == at) continue;
		if (flaw == 2 && k == at) { encode_cstr(&v, "extra"); put(&v, (int)kind); }
		encode_cstr(&v, names[f]);
		if (flaw == 3 && f == at) { int t = kind; if (t == NUL) encode_null(&v); if (t == BOOL) encode_bool(&v, 1); if (t == REAL) encode_real(&v, 0.5); if (t == INT) encode_integer(&v, 5); if (t == ARR) encode_array(&v, 0); if (t == MAP) encode_map(&v, 0); if (t == STR) encode_cstr(&v, "str"); continue; }
		if (f == 0) encode_raw(&v, c, 3);
		if (f == 1) encode_integer(&v, n);
		if (f == 2) encode_bool(&v, flag);
	}
	static const int type[] = { STR, INT, BOOL };
	if (flaw == 3) mse_assume(kind != type[at]);
	exact();
	Decode d[] = { { DECODE_STRING, "text", &s }, { DECODE_INT, "number", &i }, { DECODE_BOOL, "flag", &b }, { 0, NULL, NULL } };
	uint8_t* p = x;
	int ok = TRY(decode_map(d, &p));
	mse_assert(ok == (flaw == 0 || flaw == 2), "a map is decoded if every field is there with its type");
	if (ok) {
		mse_assert(p == x + xn, "reading consumes exactly what was written");
		mse_assert(str_size(&s) == 3 && bytes_same(str_of(&s), c, 3) && (uint64_t)i == n && b == flag, "every field is decoded");
		mse_reach("read");
	} else mse_reach("refused");
	(void)r; str_free(&s); free(x);
#elif defined(DECODE2)
	// real and null fields
	double r = 0; int kind = mse_choose(TYPES, "kind"), null = mse_choose(2, "null");
	encode_map(&v, 1); encode_cstr(&v, "f");
	switch (kind) { case NUL: encode_null(&v); break; case BOOL: encode_bool(&v, 1); break; case REAL: encode_real(&v, 0.1); break; case INT: encode_integer(&v, 5); break; case ARR: encode_array(&v, 0); break; case MAP: encode_map(&v, 0); break; default: encode_cstr(&v, "s"); }
	exact();
	Decode d[] = { { null ? DECODE_NULL : DECODE_REAL, "f", &r }, { 0, NULL, NULL } };
	uint8_t* p = x;
	int ok = TRY(decode_map(d, &p));
	mse_assert(ok == (kind == (null ? NUL : REAL)), "a map is decoded if every field is there with its type");
	if (ok) { mse_assert(p == x + xn, "reading consumes exactly what was written"); if (!null) mse_assert(r == 0.1, "a real is read back"); mse_reach("read"); } else mse_reach("refused");
	free(x);
#endif
	buf_free(&v);
	lib_free();
}

// Json: any text is parsed or refused without reading outside it; what is
// exported is read back as it was.
#include "lib.h"
#ifndef N
#define N 4
#endif
static Json js;
static int text_parse(const char* p, uint64_t n)
{
	char* text = malloc(n ? n : 1); memcpy(text, p, n);   // exactly n bytes
	Str s; str_init(&s); str_set(&s, text, n);
	json_reset(&js);
	int ok = TRY(json_parse(&js, &s));
	free(text);
	if (ok) {
		mse_assert(buf_size(&js.buf) > 0, "a parsed text has a value");
		uint8_t* e = js.buf.start; data_skip(&e);
		mse_assert(e == js.buf.position, "a parsed text is one value");
	}
	return ok;
}
static int same_buf(Buf* a, Buf* b) { if (buf_size(a) != buf_size(b)) return 0; uint64_t ne = 0; for (int i = 0; i < buf_size(a); i++) ne |= a->start[i] ^ b->start[i]; return ne == 0; }
// same value; sizes of arrays and maps may be written in different ways
static void same_value(uint8_t** a, uint8_t** b)
{
	if (data_is_array(*a) || data_is_map(*a)) {
		int n, m, map = data_is_map(*a);
		mse_assert(map ? data_is_map(*b) : data_is_array(*b), "a value keeps its type");
		if (map) { data_read_map(a, &n); data_read_map(b, &m); } else { data_read_array(a, &n); data_read_array(b, &m); }
		mse_assert(n == m, "an array keeps its size");
		for (int i = 0; i < n * (1 + map); i++) same_value(a, b);
		return;
	}
	uint8_t* e = *a; data_skip(&e);
	if (data_is_string(*a)) {
		char *x, *y; int n, m;
		mse_assert(data_is_string(*b), "a value keeps its type");
		data_read_raw(a, &x, &n); data_read_raw(b, &y, &m);
		mse_assert(n == m, "a string keeps its size");
		uint64_t ne = 0; for (int i = 0; i < n; i++) ne |= x[i] ^ y[i];
		mse_assert(ne == 0, "a string keeps its content");
	} else if (data_is_real(*a)) {
		double x, y; mse_assert(data_is_real(*b), "a value keeps its type");
		data_read_real(a, &x); data_read_real(b, &y); mse_assert(x == y, "a number keeps its value");
	} else if (data_is_integer(*a)) {
		int64_t x, y; mse_assert(data_is_integer(*b), "a value keeps its type");
		data_read_integer(a, &x); data_read_integer(b, &y); mse_assert(x == y, "a number keeps its value");
	} else { mse_assert(**a == **b, "a value keeps its type"); ++*a; ++*b; }
}
static void round_trip(Buf* v)
{
	for (int pretty = 0; pretty < 2; pretty++) {
		Buf t; buf_init(&t);
		uint8_t* p = v->start;
		if (pretty) json_export_pretty(&t, &p); else json_export(&t, &p);
		mse_assert(p == v->position, "an export consumes the value");
		mse_assert(text_parse((char*)t.start, buf_size(&t)), "an exported value can be parsed");
		uint8_t *a = v->start, *b = js.buf.start;
		same_value(&a, &b);
		buf_free(&t);
	}
	mse_reach("round trip");
}
static void leaf(Buf* v)
{
	switch (mse_choose(5, "leaf")) {
	case 0: { int64_t x = (int64_t)mse_in(0, 12, "integer") - 4; encode_integer(v, x); break; }
	case 1: encode_bool(v, mse_choose(2, "bool")); break;
	case 2: encode_null(v); break;
	case 3: { char c[1]; mse_sym(c, 1, "text"); encode_raw(v, c, mse_choose(2, "length")); break; }
	case 4: encode_array(v, 0); break;
	}
}
void mse_main(void)
{
	lib_init();
	json_init(&js);
	Buf v; buf_init(&v);
#if defined(PARSE)
	// any bytes after a fixed beginning
	static char t[256]; int n = strlen(PARSE);
	memcpy(t, PARSE, n);
	int len = mse_choose(N + 1, "length");
	mse_sym(t + n, len, "text");
	if (text_parse(t, n + len)) {
		mse_reach("parsed");
#ifdef RT
		buf_write(&v, js.buf.start, buf_size(&js.buf));
		round_trip(&v);
#endif
	} else mse_reach("refused");
#elif defined(STRING)
	static char t[256]; memset(t, 'x', sizeof(t));
	int len = mse_choose(N + 1, "length"); mse_sym(t + (STRING), len, "text");
	encode_raw(&v, t, STRING + len);
	round_trip(&v);
#elif defined(TREE)
	switch (mse_choose(4, "shape")) {
	case 0: leaf(&v); break;
	case 1: encode_array(&v, 2); leaf(&v); leaf(&v); break;
	case 2: encode_map(&v, 1); encode_cstr(&v, "k"); encode_array(&v, 1); leaf(&v); break;
	case 3: encode_map(&v, 2); encode_cstr(&v, "a"); leaf(&v); encode_raw(&v, "b\"", 2); encode_map(&v, 0); break;
	}
	round_trip(&v);
#elif defined(REALS)
	static const double r[] = { 0.0, 1.0, -1.0, 0.1, -0.1, 1.5, 1e-7, 1e7, 1e300, -1e300, 1e-300, 3.4028234663852886e38, 1.1754943508222875e-38, 123456789.123456789, 0.30000000000000004, 4503599627370497.0 };
	encode_real(&v, r[mse_choose(sizeof(r) / sizeof(*r), "real")]);
	round_trip(&v);
#elif defined(INTS)
	// the integers at the edges of every size
	static const int64_t r[] = { 0, 31, 127, 128, 32767, 32768, 2147483647, 2147483648ll, INT64_MAX - 3, INT64_MIN, -1, -32, -128, -32769, -2147483649ll, 1000000000000000000ll };
	int64_t x = r[mse_choose(sizeof(r) / sizeof(*r), "around")];
	encode_integer(&v, x + (int64_t)mse_choose(4, "plus"));
	round_trip(&v);
#endif
	buf_free(&v); json_free(&js);
	lib_free();
}

// Numbers in commands: every digit string, suffix and separator.
#include "lib.h"
static int number(const char* p, int n, uint64_t* out, int* rest)
{
	char* text = malloc(n + 1); memcpy(text, p, n); text[n] = 0;
	Str s; str_init(&s); str_set(&s, text, n);
	Lex lex; lex_init(&lex); lex_start(&lex, &s);
	Token tk, more; token_init(&tk);
	int ok = TRY(lex_next(&lex, &tk));
	if (ok) {
		mse_assert(tk.id == KINT, "digits are an integer");
		*out = tk.integer;
		token_init(&more);
		int ok2 = TRY(lex_next(&lex, &more));
		*rest = ok2 ? more.id : -1;
	}
	free(text);
	return ok;
}
static const struct { const char* name; uint64_t unit; } units[] = {
	{ "", 1 },
	{ "us", 1 }, { "microsecond", 1 }, { "microseconds", 1 }, { "ms", 1000 }, { "millisecond", 1000 }, { "milliseconds", 1000 },
	{ "sec", 1000000 }, { "second", 1000000 }, { "seconds", 1000000 }, { "min", 60000000 }, { "minute", 60000000 }, { "minutes", 60000000 },
	{ "hr", 3600000000ull }, { "hour", 3600000000ull }, { "hours", 3600000000ull }, { "day", 86400000000ull }, { "days", 86400000000ull },
	{ "week", 604800000000ull }, { "weeks", 604800000000ull }, { "month", 2592000000000ull }, { "months", 2592000000000ull }, { "year", 31536000000000ull }, { "years", 31536000000000ull },
	{ "kb", 1000 }, { "kib", 1024 }, { "k", 1024 }, { "mb", 1000000 }, { "mib", 1048576 }, { "m", 1048576 }, { "gb", 1000000000 }, { "gib", 1073741824 }, { "g", 1073741824 },
	{ "tb", 1000000000000ull }, { "tib", 1099511627776ull }, { "t", 1099511627776ull },
};
#define UNITS (sizeof(units) / sizeof(*units))
static void check(const char* digits, int n, int u, const char* sep)
{
	char t[64]; int k = n;
	memcpy(t, digits, n);
	for (const char* p = sep; *p; p++) t[k++] = *p;
	for (const char* p = units[u].name; *p; p++) t[k++] = *p;
	// exact value, and whether it is above the largest one (compared digit by digit)
	uint64_t v = 0, got; int rest = 0; for (int i = 0; i < n; i++) v = v * 10 + (t[i] - '0');
	uint64_t m = ~0ull / units[u].unit, gt = 0, eq = 1;
	for (int i = 0; i < 20; i++) {
		uint64_t d = 1; for (int j = i; j < 19; j++) d *= 10;
		uint64_t a = i < 20 - n ? 0 : t[i - (20 - n)] - '0', b = m / d % 10;
		gt |= eq & (a > b); eq &= a == b;
	}
	int big = gt != 0; uint64_t expect = v * units[u].unit;
	if (number(t, k, &got, &rest)) {
		mse_assert(!big, "a number that does not fit is refused");
		mse_assert(got == expect, "a number is read exactly");
		mse_assert(rest == KEOF, "a number is read whole");
		mse_reach("read");
	} else { mse_assert(big, "a number that fits is read"); mse_reach("refused"); }
}
static void check_big(const char* digits, int n, int unit)
{
	char t[64]; memcpy(t, digits, n); if (unit) { t[n++] = 'k'; t[n++] = 'b'; }
	uint64_t got; int rest;
	mse_assert(!number(t, n, &got, &rest), "a number that does not fit is refused"); mse_reach("refused");
}
static void digits(char* t, int n) { for (int i = 0; i < n; i++) { uint8_t d; mse_sym(&d, 1, "digit"); d &= 15; mse_assume(d <= 9); t[i] = '0' + d; } }
void mse_main(void)
{
	lib_init();
#if defined(ANY)
	// any digits
	char t[32]; int n = 1 + mse_choose(ANY, "digits");
	digits(t, n); check(t, n, 0, "");
#elif defined(EDGE)
	// the largest number that fits in every unit, and its neighbours
	int u = mse_choose(UNITS, "unit"), sep = mse_choose(3, "separator");
	char t[32]; int n = 0; uint64_t m = ~0ull / units[u].unit, d = 1;
	while (m / d >= 10) d *= 10;
	for (; d; d /= 10) t[n++] = '0' + m / d % 10;
	digits(t + n - EDGE, EDGE);
	check(t, n, u, sep == 0 ? "" : sep == 1 ? " " : " # note\n");
#elif defined(LONG)
	// more digits than any number has
	char t[40]; int n = 20 + mse_choose(LONG, "digits");
	digits(t, n); mse_assume(t[0] >= '2'); check_big(t, n, mse_choose(2, "unit"));
#elif defined(JSON)
	// the same in json, where a number has a sign and 63 bits
	char t[40]; int n = 0, neg = mse_choose(2, "sign"); t[0] = '['; if (neg) t[1] = '-'; char* d = t + 1 + neg;
	const char* top = "9223372036854775807";
	int how = mse_choose(3, "how"), len = how == 0 ? 1 + mse_choose(JSON, "digits") : how == 1 ? 19 : 20;
	if (how == 0) digits(d, len); else { memcpy(d, top, 19); d[19] = '0'; digits(d + len - 2, 2); }
	n = 1 + neg + len; t[n++] = ']';
	uint64_t v = 0, gt = 0, eq = 1; for (int i = 0; i < len; i++) v = v * 10 + (d[i] - '0');
	uint64_t m = (uint64_t)INT64_MAX + neg;
	for (int i = 0; i < 20; i++) { uint64_t p = 1; for (int j = i; j < 19; j++) p *= 10; uint64_t a = i < 20 - len ? 0 : d[i - (20 - len)] - '0', b = m / p % 10; gt |= eq & (a > b); eq &= a == b; }
	Json js; json_init(&js); Str s; str_init(&s); str_set(&s, t, n);
	if (TRY(json_parse(&js, &s))) {
		mse_assert(!gt, "a number that does not fit is refused");
		uint8_t* p = js.buf.start; int count; data_read_array(&p, &count);
		int64_t x; data_read_integer(&p, &x);
		mse_assert((uint64_t)x == (neg ? 0 - v : v), "a number is read exactly");
		mse_reach("read");
	} else { mse_assert(gt != 0, "a number that fits is read"); mse_reach("refused"); }
	json_free(&js);
#elif defined(SMALL)
	int u = mse_choose(UNITS, "unit"); char t[32]; int n = 1 + mse_choose(SMALL, "digits");
	digits(t, n); check(t, n, u, mse_choose(2, "separator") ? "\t" : "");
#elif defined(CASE)
	// units in any case, and names that are no unit
	int u = 1 + mse_choose(UNITS - 1, "unit"); char t[32] = "7"; const char* name = units[u].name; int n = strlen(name), up = mse_choose(n < 4 ? n : 4, "upper");
	for (int i = 0; i < n; i++) t[1 + i] = i == up ? name[i] - 32 : name[i];
	uint64_t got; int rest;
	mse_assert(number(t, n + 1, &got, &rest) && got == 7 * units[u].unit && rest == KEOF, "units are read in any case");
	mse_reach("read");
#elif defined(OTHER)
	// any other text after a number leaves it as it is
	char t[8] = "12"; int n = 1 + mse_choose(OTHER, "length"); mse_sym(t + 2, n, "text");
	for (int i = 0; i < n; i++) mse_assume(i == 0 ? (t[2] >= 'a' && t[2] <= 'z' && t[2] != 'e') : (t[2 + i] >= 'a' && t[2 + i] <= 'z'));
	uint64_t unit = 1; int is = 0;
	for (int u = 1; u < (int)UNITS; u++) if ((int)strlen(units[u].name) == n && bytes_same(units[u].name, t + 2, n)) { unit = units[u].unit; is = 1; }
	uint64_t got; int rest;
	mse_assert(number(t, 2 + n, &got, &rest), "a number that fits is read");
	mse_assert(got == 12 * unit, "only a unit changes a number");
	mse_assert((rest == KEOF) == is, "what follows a number is read on its own");
	mse_reach(is ? "unit" : "read");
#elif defined(COMMAND)
	// where numbers of commands go
	char t[256]; char num[4]; num[3] = 0; digits(num, 3); int what = mse_choose(6, "command");
	uint64_t v = 0; for (int i = 0; i < 3; i++) v = v * 10 + (num[i] - '0');
	static const char* const before[] = { "drop partition ", "refresh partition ", "create partition 5 ", "create partition ", "drop partitions between 7 and ", "move partitions between 7 and " };
	static const char* const after[] = { " on storage", "", "", " 1000000sec", "", " into main" };
	unsigned k = 0; for (const char* p = before[what]; *p; p++) t[k++] = *p;
	for (int i = 0; i < 3; i++) t[k++] = num[i];
	uint64_t unit = mse_choose(2, "unit") ? 1000 : 1; if (unit > 1) { t[k++] = 'k'; t[k++] = 'b'; }
	for (const char* p = after[what]; *p; p++) t[k++] = *p;
	t[k] = 0;
	Str s; str_init(&s); str_set(&s, t, k);
	Lex lex; lex_init(&lex); lex_start(&lex, &s);
	Cmd* cmd = NULL; int ok = TRY(cmd = parse(&lex));
	mse_assert(ok && cmd, "a command with a number is read");
	uint64_t min = 0, max = 0;
	switch (what) {
	case 0: min = v * unit; mse_assert(((CmdPartition*)cmd)->min == min, "a number of a command is read exactly"); break;
	case 1: min = v * unit; mse_assert(((CmdPartition*)cmd)->min == min, "a number of a command is read exactly"); break;
	case 2: max = v * unit; mse_assert(((CmdPartition*)cmd)->min == 5 && ((CmdPartition*)cmd)->max == max, "a number of a command is read exactly"); break;
	case 3: min = v * unit; mse_assert(((CmdPartition*)cmd)->min == min && ((CmdPartition*)cmd)->max == 1000000000000ull, "a number of a command is read exactly"); break;
	case 4: case 5: max = v * unit; mse_assert(((CmdPartition*)cmd)->min == 7 && ((CmdPartition*)cmd)->max == max, "a number of a command is read exactly"); break;
	}
	cmd_free(cmd); mse_reach("read");
#endif
	lib_free();
}

// libc models used only under symbolic execution (native replay uses glibc).
#include "mse.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <sys/types.h>
#include "ctype_tab.h"
static const unsigned short* ctype_ptr = ctype_tab + 128;
const unsigned short** model___ctype_b_loc(void) { return (const unsigned short**)&ctype_ptr; }
static int errno_model;
int* model___errno_location(void) { return &errno_model; }
int model_strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)*(unsigned char*)a - (int)*(unsigned char*)b; }
static int lc(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int model_strncasecmp(const char* a, const char* b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		int x = lc((unsigned char)a[i]), y = lc((unsigned char)b[i]);
		if (x != y) return x - y;
		if (!x) return 0;
	}
	return 0;
}
int model_strncmp(const char* a, const char* b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		int x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x != y) return x - y;
		if (!x) return 0;
	}
	return 0;
}
char* model_strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* model_strcat(char* d, const char* s) { model_strcpy(d + strlen(d), s); return d; }
char* model_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
size_t model_strspn(const char* s, const char* a) { size_t n = 0; for (; s[n] && model_strchr(a, s[n]); n++) ; return n; }
char* model_strrchr(const char* s, int c) { const char* r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* model_memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return NULL; }
char* model_strstr(const char* h, const char* n) { size_t k = strlen(n); for (; *h; h++) if (!model_strncmp(h, n, k)) return (char*)h; return k ? NULL : (char*)h; }
static char* strerror_text = "error";
char* model_strerror(int e) { return strerror_text; }
double model_strtod(const char* s, char** end)
{
	// concretise the characters a number may consist of, then convert
	char buf[64]; int n = 0;
	while (n < 63) {
		unsigned char c = s[n];
		uint64_t num = ((c >= '0') & (c <= '9')) | (c == '.') | (c == '-') | (c == '+') | (c == 'e') | (c == 'E');
		if (!num) break;
		c = mse_concretize(c);
		if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')) break;
		buf[n++] = c;
	}
	buf[n] = 0;
	char* e; double d = mse_strtod(buf, &e);
	if (end) *end = (char*)s + (e - buf);
	return d;
}
extern int model_fmt_exact;
static int put(char* o, uint64_t size, uint64_t* pos, char c) { if (*pos + 1 < size) o[*pos] = c; (*pos)++; return 0; }
int model_vsnprintf(char* o, size_t size, const char* f, va_list ap)
{
	uint64_t pos = 0;
	for (; *f; f++) {
		if (*f != '%') { put(o, size, &pos, *f); continue; }
		f++;
		int zero = 0, width = 0, prec = -1, left = 0, lng = 0;
		for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+' || *f == ' ' || *f == '#') ; else break; }
		if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h') { if (*f == 'l' || *f == 'z' || *f == 'j') lng = 1; f++; }
		switch (*f) {
		case '%': put(o, size, &pos, '%'); break;
		case 'c': put(o, size, &pos, (char)va_arg(ap, int)); break;
		case 's': {
			const char* s = va_arg(ap, const char*);
			if (!s) s = "(null)";
			int n = 0;
			if (prec >= 0) prec = (int)mse_concretize(prec);
			while ((prec < 0 || n < prec) && s[n]) n++;
			if (!left) for (int i = n; i < width; i++) put(o, size, &pos, ' ');
			for (int i = 0; i < n; i++) put(o, size, &pos, s[i]);
			if (left) for (int i = n; i < width; i++) put(o, size, &pos, ' ');
			break; }
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
			uint64_t v; int neg = 0; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
			if (*f == 'd' || *f == 'i') { int64_t s = lng ? va_arg(ap, int64_t) : va_arg(ap, int); 
				if (mse_is_sym(s) && !model_fmt_exact) { put(o, size, &pos, '#'); break; }
				neg = s < 0; v = neg ? 0 - (uint64_t)s : (uint64_t)s; }
			else if (*f == 'p') v = (uint64_t)va_arg(ap, void*);
			else v = lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
			if (mse_is_sym(v) && !model_fmt_exact) { put(o, size, &pos, '#'); break; }
			char t[32]; int n = 0;
			do { unsigned d = (unsigned)(v % base); t[n++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
			if (neg && !zero) t[n++] = '-';
			int tot = n + (neg && zero);
			if (neg && zero) put(o, size, &pos, '-');
			if (!left) for (int i = tot; i < width; i++) put(o, size, &pos, zero ? '0' : ' ');
			while (n) put(o, size, &pos, t[--n]);
			if (left) for (int i = tot; i < width; i++) put(o, size, &pos, ' ');
			break; }
		case 'f': case 'g': case 'e': {
			char t[400]; int n = mse_fmt_double(t, sizeof(t), (prec < 0 ? 6 : prec) | *f << 8, va_arg(ap, double));
			for (int i = 0; i < n; i++) put(o, size, &pos, t[i]);
			break; }
		default: mse_fail("model: unsupported printf conversion");
		}
	}
	if (size) o[pos < size ? pos : size - 1] = 0;
	return (int)pos;
}
int model_snprintf(char* o, size_t size, const char* f, ...) { va_list ap; va_start(ap, f); int r = model_vsnprintf(o, size, f, ap); va_end(ap); return r; }
int model_fprintf(FILE* s, const char* f, ...) { return 0; }
int model_printf(const char* f, ...) { return 0; }
int model_puts(const char* f) { return 0; }
int model_putchar(int c) { return 0; }
int model_fflush(FILE* s) { return 0; }
int model_fputs(const char* s, FILE* f) { return 0; }
size_t model_fwrite(const void* p, size_t a, size_t b, FILE* f) { return b; }
int model_fputc(int c, FILE* f) { return c; }
static unsigned rand_state = 12345;
int model_rand(void) { rand_state = rand_state * 1103515245u + 12345u; return (rand_state >> 16) & 0x7fff; }
void model_srand(unsigned s) { rand_state = s; }
static struct tm tm_zero;
struct tm* model_localtime(const time_t* t) { return &tm_zero; }
struct tm* model_gmtime(const time_t* t) { return &tm_zero; }
size_t model_strftime(char* s, size_t max, const char* f, const struct tm* tm) { if (max) s[0] = 0; return 0; }

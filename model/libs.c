// Models of the third-party libraries (LZ4 frame, ZSTD, OpenSSL, curl): the
// documented buffer contracts with a trivial transformation.
#include "mse.h"
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <lz4frame.h>
#include <zstd.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>

int libs_expand = 0;      // zstd model: bytes of growth per frame beyond the input (incompressible data)
#define LZKIND 0x4c5a3446u
#define ZSKIND 0x5a535444u
typedef struct { unsigned kind; int started; } LC;
typedef struct { unsigned kind; int st; unsigned blk; unsigned hdr; int nhdr; int nmagic; } LD;
#define LERR(n) ((size_t)-(n))
unsigned model_LZ4F_isError(size_t c) { return c > LERR(100); }
const char* model_LZ4F_getErrorName(size_t c) { return "lz4 error"; }
size_t model_LZ4F_createCompressionContext(LZ4F_cctx** c, unsigned v) { LC* x = malloc(sizeof(LC)); x->kind = LZKIND; x->started = 0; *c = (LZ4F_cctx*)x; return 0; }
size_t model_LZ4F_freeCompressionContext(LZ4F_cctx* c) { if (((LC*)c)->kind != LZKIND) mse_fail("lz4: wrong context type"); free(c); return 0; }
size_t model_LZ4F_createDecompressionContext(LZ4F_dctx** c, unsigned v) { LD* x = calloc(1, sizeof(LD)); x->kind = LZKIND; *c = (LZ4F_dctx*)x; return 0; }
size_t model_LZ4F_freeDecompressionContext(LZ4F_dctx* c) { if (((LD*)c)->kind != LZKIND) mse_fail("lz4: wrong context type"); free(c); return 0; }
void model_LZ4F_resetDecompressionContext(LZ4F_dctx* c) { LD* d = (LD*)c; if (d->kind != LZKIND) mse_fail("lz4: wrong context type"); d->st = 0; d->blk = 0; d->nhdr = 0; d->hdr = 0; d->nmagic = 0; }
size_t model_LZ4F_compressBound(size_t n, const LZ4F_preferences_t* p) { return n + 8; }
size_t model_LZ4F_compressBegin(LZ4F_cctx* c, void* d, size_t n, const LZ4F_preferences_t* p) { LC* x = (LC*)c; if (x->kind != LZKIND) mse_fail("lz4: wrong context type"); if (n < LZ4F_HEADER_SIZE_MAX) return LERR(11); x->started = 1; memset(d, 0x41, 7); return 7; }
size_t model_LZ4F_compressUpdate(LZ4F_cctx* c, void* d, size_t dn, const void* s, size_t n, const LZ4F_compressOptions_t* o)
{
	LC* x = (LC*)c; if (!x->started) return LERR(2);
	if (dn < n + 8) return LERR(11);
	if (!n) return 0;
	uint8_t* p = d; for (int i = 0; i < 4; i++) p[i] = (uint8_t)(n >> (8 * i));
	for (size_t i = 0; i < n; i++) p[4 + i] = ((const uint8_t*)s)[i] ^ 0x5a;
	return n + 4;
}
size_t model_LZ4F_compressEnd(LZ4F_cctx* c, void* d, size_t n, const LZ4F_compressOptions_t* o) { LC* x = (LC*)c; if (!x->started) return LERR(2); if (n < 4) return LERR(11); memset(d, 0, 4); x->started = 0; return 4; }
size_t model_LZ4F_decompress(LZ4F_dctx* c, void* dst, size_t* dn, const void* src, size_t* sn, const LZ4F_decompressOptions_t* o)
{
	LD* d = (LD*)c; if (d->kind != LZKIND) mse_fail("lz4: wrong context type");
	size_t ip = 0, op = 0; const uint8_t* s = src; uint8_t* q = dst;
	while (ip < *sn) {
		if (d->nmagic < 7) { if (s[ip] != 0x41) return LERR(13); ip++; d->nmagic++; continue; }
		if (d->st == 2) break;
		if (d->blk) { if (op == *dn) break; q[op++] = s[ip++] ^ 0x5a; d->blk--; continue; }
		d->hdr |= (unsigned)s[ip++] << (8 * d->nhdr++);
		if (d->nhdr == 4) { if (!d->hdr) d->st = 2; d->blk = d->hdr; d->hdr = 0; d->nhdr = 0; }
	}
	*sn = ip; *dn = op;
	return d->st == 2 ? 0 : 1;
}
// zstd: frame = [4 magic][4 size at end..]: streaming output, returns bytes still to flush
typedef struct { unsigned kind; uint8_t* pend; size_t n, pos, cap; int level; size_t total; int ended; } ZC;
ZSTD_CCtx* model_ZSTD_createCCtx(void) { ZC* z = calloc(1, sizeof(ZC)); z->kind = ZSKIND; return (ZSTD_CCtx*)z; }
size_t model_ZSTD_freeCCtx(ZSTD_CCtx* c) { ZC* z = (ZC*)c; if (z->kind != ZSKIND) mse_fail("zstd: wrong context type"); free(z->pend); free(z); return 0; }
size_t model_ZSTD_CCtx_reset(ZSTD_CCtx* c, ZSTD_ResetDirective r) { ZC* z = (ZC*)c; if (z->kind != ZSKIND) mse_fail("zstd: wrong context type"); z->n = z->pos = 0; z->total = 0; z->ended = 0; return 0; }
size_t model_ZSTD_CCtx_setParameter(ZSTD_CCtx* c, ZSTD_cParameter p, int v) { return 0; }
unsigned model_ZSTD_isError(size_t c) { return c > LERR(200); }
size_t model_ZSTD_compressBound(size_t n) { return n + 16; }
static void zput(ZC* z, uint8_t b) { if (z->n == z->cap) { z->cap = z->cap ? z->cap * 2 : 64; z->pend = realloc(z->pend, z->cap); } z->pend[z->n++] = b; }
size_t model_ZSTD_compressStream2(ZSTD_CCtx* c, ZSTD_outBuffer* out, ZSTD_inBuffer* in, ZSTD_EndDirective e)
{
	ZC* z = (ZC*)c; if (z->kind != ZSKIND) mse_fail("zstd: wrong context type");
	if (!z->ended && z->n == 0) for (int i = 0; i < 4; i++) zput(z, 0x28 + i);
	// input is buffered internally and emitted at the end of the frame
	for (; in->pos < in->size; in->pos++) { zput(z, ((const uint8_t*)in->src)[in->pos] ^ 0x33); z->total++; }
	if (e == ZSTD_e_continue) return 0;
	if (!z->ended) { z->ended = 1; for (int i = 0; i < 4 + libs_expand; i++) zput(z, (uint8_t)(i < 4 ? z->total >> (8 * i) : 0x77)); }
	size_t k = z->n - z->pos; if (k > out->size - out->pos) k = out->size - out->pos;
	if (k) memcpy((uint8_t*)out->dst + out->pos, z->pend + z->pos, k);
	out->pos += k; z->pos += k;
	return z->n - z->pos;
}
size_t model_ZSTD_decompress(void* d, size_t dn, const void* s, size_t n)
{
	const uint8_t* p = s;
	if (n < 8 + (size_t)libs_expand) return LERR(20);
	for (int i = 0; i < 4; i++) if (p[i] != 0x28 + i) return LERR(20);
	size_t m = n - 8 - libs_expand, t = 0; for (int i = 0; i < 4; i++) t |= (size_t)p[4 + m + i] << (8 * i);
	if (t != m) return LERR(20);
	if (m > dn) return LERR(70);
	for (size_t i = 0; i < m; i++) ((uint8_t*)d)[i] = p[4 + i] ^ 0x33;
	return m;
}
// OpenSSL: stream xor with the key, additive tag over ciphertext, key and iv
typedef struct { unsigned kind; uint8_t key[32], iv[16], tag[16]; int enc; uint32_t sum, pos; int have; } EC;
EVP_CIPHER_CTX* model_EVP_CIPHER_CTX_new(void) { EC* e = calloc(1, sizeof(EC)); e->kind = 0xEC; return (EVP_CIPHER_CTX*)e; }
void model_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { if (((EC*)c)->kind != 0xEC) mse_fail("evp: wrong context type"); free(c); }
const EVP_CIPHER* model_EVP_aes_256_gcm(void) { return (const EVP_CIPHER*)"aes"; }
int model_EVP_CipherInit_ex2(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* key, const unsigned char* iv, int enc, const OSSL_PARAM* p)
{
	EC* e = (EC*)c; if (e->kind != 0xEC) mse_fail("evp: wrong context type");
	e->enc = enc; e->sum = 0; e->pos = 0;
	if (key) memcpy(e->key, key, 32);
	if (iv) memcpy(e->iv, iv, 12);
	if (key && iv) { e->have = 1; for (int i = 0; i < 32; i++) e->sum += (uint32_t)e->key[i] * 7; for (int i = 0; i < 12; i++) e->sum += (uint32_t)e->iv[i] * 13; }
	return 1;
}
int model_EVP_CipherUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* on, const unsigned char* in, int n)
{
	EC* e = (EC*)c; if (!e->have || n < 0) return 0;
	for (int i = 0; i < n; i++) { uint8_t x = in[i], y = x ^ e->key[e->pos++ % 32]; e->sum += e->enc ? y : x; o[i] = y; }
	*on = n; return 1;
}
int model_EVP_CipherFinal_ex(EVP_CIPHER_CTX* c, unsigned char* o, int* on)
{
	EC* e = (EC*)c; *on = 0;
	if (e->enc) { memset(e->tag, 0, 16); memcpy(e->tag, &e->sum, 4); return 1; }
	uint32_t t; memcpy(&t, e->tag, 4);
	return t == e->sum;
}
int model_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* c, int type, int n, void* p) { EC* e = (EC*)c; if (type == EVP_CTRL_GCM_GET_TAG) memcpy(p, e->tag, n); else if (type == EVP_CTRL_GCM_SET_TAG) memcpy(e->tag, p, n); return 1; }
const EVP_MD* model_EVP_sha1(void) { return NULL; }
unsigned char* model_HMAC(const EVP_MD* m, const void* k, int kn, const unsigned char* d, size_t n, unsigned char* md, unsigned int* mn) { for (int i = 0; i < 20; i++) md[i] = (unsigned char)(i * 11 + n); if (mn) *mn = 20; return md; }

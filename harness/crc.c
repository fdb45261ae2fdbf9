// The checksum against CRC-32C (reflected polynomial, no inversions) computed bit by bit.
#include "lib.h"
#ifndef MAXLEN
#define MAXLEN 20
#endif
#ifdef PLAIN
#define SAME(a, b) ((a) == (b))
#else
#define SAME(a, b) mse_lin_same(a, b)
#endif
static uint32_t ref(uint32_t c, const uint8_t* p, int n)
{
	while (n--) {
		c ^= *p++;
		for (int i = 0; i < 8; i++) c = (c >> 1) ^ (uint32_t)mse_ite(c & 1, 0x82F63B78u, 0);
	}
	return c;
}
void mse_main(void)
{
	int align = mse_choose(8, "align");
#ifdef LEN
	int len = LEN + mse_choose(8, "len");
#else
	int len = mse_choose(MAXLEN + 1, "len");
#endif
	uint8_t* b = malloc(align + len); // exact size: a byte read past the end is an invalid access
	for (int i = 0; i < align; i++) b[i] = 0xa5;
	mse_sym(b + align, len, "data");
	uint32_t seed = mse_u32("seed");
	uint32_t r = ref(seed, b + align, len);
	mse_assert(SAME(crc32(seed, b + align, len), r), "the checksum is CRC-32C of the bytes");
	mse_reach("whole");
#ifdef SPLIT
	int at = mse_choose(len + 1, "split");
	mse_assert(SAME(crc32(crc32(seed, b + align, at), b + align + at, len - at), r), "continuing a checksum gives that of the whole");
	mse_reach("split");
#endif
	free(b);
}

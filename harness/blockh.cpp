// C18: entry contexts for the block helpers
#include "vx.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
extern "C" void h_trans() {
	size_t r = vx_param("r"), c = vx_param("c"), sk = vx_param("skew");
	uint8_t *in = (uint8_t *)vx_buf(r * c / 8, sk), *out = (uint8_t *)vx_buf(r * c / 8, sk);
	vx_fill(in, r * c / 8, "m");
	sse_trans(out, in, r, c);
	vx_out("t", 0, out, r * c / 8);
	vx_out("i", 0, in, r * c / 8);
}
static bool bit(const void *p, int i) { return (((const uint8_t *)p)[i / 8] >> (i % 8)) & 1; }
extern "C" void h_small() {
	block a, w; vx_fill(&a, 16, "a");
	vx_check(getLSB(a) == bit(&a, 0), "getLSB");
	for (int i = 0; i < 128; ++i) {
		block s = set_bit(a, i); w = a; ((uint8_t *)&w)[i / 8] |= (uint8_t)(1u << (i % 8));
		vx_check_eq(&s, &w, 16, "set_bit");
	}
	uint64_t hi = vx_sym("hi", 0, 64), lo = vx_sym("lo", 0, 64);
	block m = makeBlock(hi, lo);
	vx_check_eq(&m, &lo, 8, "makeBlock low half"); vx_check_eq((char *)&m + 8, &hi, 8, "makeBlock high half");
	block s = sigma(a);
	uint64_t *p = (uint64_t *)&a, want[2] = {p[1], p[0] ^ p[1]};
	vx_check_eq(&s, want, 16, "sigma");
	uint64_t z[2] = {0, 0}, o[2] = {~0ULL, ~0ULL};
	vx_check_eq(&zero_block, z, 16, "zero_block"); vx_check_eq(&all_one_block, o, 16, "all_one_block");
	vx_check_eq(&select_mask[0], z, 16, "select_mask[0]"); vx_check_eq(&select_mask[1], o, 16, "select_mask[1]");
}
static void same(const block *a, const uint8_t *x, const uint8_t *y, size_t n, const char *l) {
	for (size_t i = 0; i < 16 * n; ++i) { uint8_t w = x[i] ^ y[i]; vx_check_eq((uint8_t *)a + i, &w, 1, l); }
}
extern "C" void h_xorarr() {
	int n = (int)vx_param("n");
	block *x = (block *)vx_buf(16 * n, 0), *y = (block *)vx_buf(16 * n, 0), *o = (block *)vx_buf(16 * n, 0);
	uint8_t *cx = (uint8_t *)vx_buf(16 * n, 0), *cy = (uint8_t *)vx_buf(16 * n, 0);
	vx_fill(x, 16 * n, "x"); vx_fill(y, 16 * n, "y"); vx_fill(cx, 16 * n, "x"); vx_fill(cy, 16 * n, "y");
	xorBlocks_arr(o, x, y, n); same(o, cx, cy, n, "xorBlocks_arr");
	vx_check_eq(x, cx, 16 * n, "first operand unchanged"); vx_check_eq(y, cy, 16 * n, "second operand unchanged");
	xorBlocks_arr(x, x, y, n); same(x, cx, cy, n, "xorBlocks_arr over its first operand");
	vx_fill(x, 16 * n, "x");
	xorBlocks_arr(y, x, y, n); same(y, cx, cy, n, "xorBlocks_arr over its second operand");
	block b; vx_fill(&b, 16, "b");
	uint8_t *cb = (uint8_t *)vx_buf(16 * n, 0);
	for (int i = 0; i < n; ++i) memcpy(cb + 16 * i, &b, 16);
	xorBlocks_arr(o, x, b, n); same(o, cx, cb, n, "xorBlocks_arr with one block");
	xorBlocks_arr(x, x, b, n); same(x, cx, cb, n, "xorBlocks_arr with one block, in place");
	vx_check(true, "done");
}
extern "C" void h_cmp() {
	int n = (int)vx_param("n");
	block *x = (block *)vx_buf(16 * n, 0), *y = (block *)vx_buf(16 * n, 0);
	vx_fill2(x, y, 16 * n, "x", "y");
	bool want = true;
	for (int i = 0; i < 16 * n; ++i) want = want & (((uint8_t *)x)[i] == ((uint8_t *)y)[i]);
	vx_check(cmpBlock(x, y, n) == want, "cmpBlock");
	vx_check(cmpBlock(x, x, n), "cmpBlock of the same array");
}

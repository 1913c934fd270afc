// C17: entry contexts for GF(2^128) arithmetic; the definitions are in checks/C17.py
#include "vx.h"
#include "emp-tool/emp-tool.h"
using namespace emp;

extern "C" void h_gfmul() {
	block a, b, r, lo, hi;
	vx_fill(&a, 16, "a"); vx_fill(&b, 16, "b");
	mul128(a, b, &lo, &hi);
	vx_out("lo", 0, &lo, 16); vx_out("hi", 0, &hi, 16);
	gfmul(a, b, &r);
	vx_out("mul", 0, &r, 16);
	gfmul_reflect(a, b, &r);
	vx_out("rmul", 0, &r, 16);
	// in place
	r = a; gfmul(r, b, &r); vx_out("mul", 1, &r, 16);
	r = b; gfmul(a, r, &r); vx_out("mul", 2, &r, 16);
	r = a; gfmul_reflect(r, b, &r); vx_out("rmul", 1, &r, 16);
	// reductions of arbitrary 256-bit values
	vx_fill(&lo, 16, "lo"); vx_fill(&hi, 16, "hi");
	r = reduce(lo, hi); vx_out("red", 0, &r, 16);
	r = reduce_reflect(lo, hi); vx_out("rred", 0, &r, 16);
}

template<int N> static void fixed(const block *a, const block *b) {
	block *r = (block *)vx_buf(16, 0);
	vector_inn_prdt_sum_red<N>(r, a, b); vx_out("ip", N, r, 16);
	block *r2 = (block *)vx_buf(32, 0);
	vector_inn_prdt_sum_no_red<N>(r2, a, b); vx_out("ipn", N, r2, 32);
}
extern "C" void h_inner() {
	int n = (int)vx_param("n");
	block *a = (block *)vx_buf(16 * n, 0), *b = (block *)vx_buf(16 * n, 0);
	vx_fill(a, 16 * n, "a"); vx_fill(b, 16 * n, "b");
	block *r = (block *)vx_buf(16, 0), *r2 = (block *)vx_buf(32, 0);
	vector_inn_prdt_sum_red(r, a, b, n);
	vx_out("ip", n, r, 16);
	vector_inn_prdt_sum_no_red(r2, a, b, n);
	vx_out("ipn", n, r2, 32);
	switch (n) {
	case 1: fixed<1>(a, b); break;
	case 2: fixed<2>(a, b); break;
	case 5: fixed<5>(a, b); break;
	}
	// output over the first operand
	if (n > 0) { vector_inn_prdt_sum_red(a, a, b, n); vx_out("ip", n, a, 16); }
}

extern "C" void h_powers() {
	int n = (int)vx_param("n");
	block seed;
	vx_fill(&seed, 16, "seed");
	block *c = (block *)vx_buf(n > 0 ? 16 * (size_t)n : 0, 0);
	uni_hash_coeff_gen(c, seed, n);
	for (int i = 0; i < n; ++i) vx_out("pow", i, c + i, 16);
	if (n == 7) { uni_hash_coeff_gen<7>(c, seed); for (int i = 0; i < n; ++i) vx_out("pow", i, c + i, 16); }
	vx_check(true, "powers within bounds");
}

extern "C" void h_packing() {
	GaloisFieldPacking pack;
	block *v = (block *)vx_buf(16 * 128, 0);
	vx_fill(v, 16 * 128, "v");
	block *r = (block *)vx_buf(16, 0);
	pack.packing(r, v);
	vx_out("pack", 0, r, 16);
}

extern "C" void h_xor() {
	int n = (int)vx_param("n");
	block *v = (block *)vx_buf(n > 0 ? 16 * n : 0, 0);
	vx_fill(v, n > 0 ? 16 * n : 0, "v");
	block *r = (block *)vx_buf(16, 0);
	vector_self_xor(r, v, n);
	vx_out("xor", n, r, 16);
	if (n == 6) { vector_self_xor<6>(r, v); vx_out("xor", n, r, 16); }
}

// C26: operations of the circuit library and the hash functions release what they acquire
#include "circ.h"
#define REL(what, ...) { vx_heap_mark(); { __VA_ARGS__ } vx_heap_same(what); }
extern "C" void h_rel_int() {
	net_setup();
	int w = (int)vx_param("w");
	Integer a = inI("a", w), b = inI("b", w); Bit s = inB("s", 0);
	switch (vx_param("op")) {
	case 0: REL("addition and subtraction", Integer r = a + b; r = r - a; r = -r;) break;
	case 1: REL("multiplication", Integer r = a * b;) break;
	case 2: REL("division", Integer r = a / b;) break;
	case 3: REL("remainder", Integer r = a % b;) break;
	case 4: REL("absolute value, comparison, selection", Integer r = a.abs(); Bit c = r > b; c = c | (r == b); r = r.select(c, a); r = r.If(c, b);) break;
	case 5: REL("shifts", Integer r = a << 3; r = r >> 1; r = r << b; r = r >> b;) break;
	case 6: REL("counting", Integer r = a.hamming_weight(); r = a.leading_zeros();) break;
	case 7: REL("resizing", Integer r = a; r.resize(w + 9, true); r.resize(w / 2 + 1, false);) break;
	case 8: REL("modular exponentiation", Integer r = a.modExp(b, b);) break;
	case 9: REL("sorting", Integer t[5] = {a, b, a, b, a}; Integer u[5] = {b, b, b, b, b}; sort(t, 5); sort(t, 5, u);) break;
	case 10: REL("conditional swap", Integer x = a, y = b; swap(s, x, y);) break;
	case 11: REL("integers from numbers", Integer x(w, (int64_t)vx_sym("v", 0, 64), ALICE); Integer y(w, 5, PUBLIC); Integer z; uint64_t q[4]; vx_fill(q, 32, "q"); Integer u(w, q, BOB);) break;
	case 12: REL("revealed numbers", int64_t x = a.reveal<int64_t>(PUBLIC); uint32_t y = a.reveal<uint32_t>(ALICE); (void)x; (void)y;) break;
	case 13: REL("revealed memory", uint64_t q[8]; a.reveal(q, BOB);) break;
	case 14: REL("bits", Bit c(true, ALICE); c = c & s; c = !c; bool r = c.reveal<bool>(PUBLIC); (void)r;) break;
	}
}
extern "C" void h_rel_hash() {
	int n = (int)vx_param("n");
	block *x = (block *)vx_buf(16 * n, 0), *o = (block *)vx_buf(16 * n, 0);
	vx_fill(x, 16 * n, "x");
	switch (vx_param("op")) {
	case 0: REL("CRH", CRH h; h.Hn(o, x, n);) break;
	case 1: REL("CCRH", CCRH h; h.Hn(o, x, n);) break;
	case 2: REL("TCCRH", TCCRH h; h.Hn(o, x, 7, n);) break;
	case 3: REL("PRP", PRP h; h.permute_block(x, n);) break;
	}
}
extern "C" void h_rel_plain() {
	REL("plaintext backend", setup_plain_prot(false, ""); Bit c(true, ALICE); c = c & c; finalize_plain_prot();)
}

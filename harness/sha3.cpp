// C28: SHA3-256 outside and inside circuits
#include "circ.h"
#include "emp-tool/circuits/sha3_256.h"
extern "C" {
void vx_digest(void *out, const char *alg, const void *p, size_t n);
void vx_noleak(const char *label);
}
// stand-in for the Keccak-f circuit: output j = wire 3j+5 AND wire 7j+11; the code under analysis only routes wires to it
#include "keccak_circuit.inc"
template <typename T> static void host(size_t n) {
	size_t nb = n * sizeof(T);
	unsigned char *in = (unsigned char *)vx_buf(nb, 0), *orig = (unsigned char *)vx_buf(nb, 0), *out = (unsigned char *)vx_buf(32, 1), want[32];
	vx_fill(in, nb, "data"); memcpy(orig, in, nb);
	vx_digest(want, "sha3_256", in, nb);
	int r = n == 1 && vx_param("def") ? sha3_256<T>(out, (T *)in) : sha3_256<T>(out, (T *)in, n);
	vx_check(r == 0, "returns 0"); vx_check_eq(out, want, 32, "SHA3-256 of all bytes of the array"); vx_check_eq(in, orig, nb, "input is unchanged");
	vx_noleak("digest context is released");
}
extern "C" void h_host() {
	size_t n = vx_param("n");
	switch (vx_param("t")) { case 1: host<unsigned char>(n); break; case 2: host<uint16_t>(n); break; case 4: host<int>(n); break; case 8: host<uint64_t>(n); break; case 16: host<block>(n); break; }
}
extern "C" void h_host_fail() {
	unsigned char *d = (unsigned char *)vx_buf(40, 0), *o = (unsigned char *)vx_buf(32, 0); vx_fill(d, 40, "data"); vx_fill(o, 32, "old");
	int r = sha3_256(o, d, 40);
	vx_note("ret", 0, (uint64_t)(int64_t)r);
	vx_noleak("digest context is released");
}
extern "C" void h_host_big() {
	size_t n = vx_param("n"); unsigned char out[32], want[32];
	vx_digest(want, "sha3_256", (void *)0x7000000000000000ULL, n);
	int r = vx_param("t") == 1 ? sha3_256(out, (unsigned char *)0x7000000000000000ULL, n) : sha3_256(out, (uint64_t *)0x7000000000000000ULL, n / 8);
	vx_check(r == 0, "returns 0"); vx_check_eq(out, want, 32, "SHA3-256 of all bytes of the array"); vx_noleak("digest context is released");
}
// in circuit: form 0 block** , 1 Integer[], 2 block[], 3..5 the same with an Integer as output
static void one(SHA3_256_Calculator *c, int form, int parts, const size_t *sz, int first, const char *nm, const char *tag, const char *back) {
	block *out = (block *)vx_buf(16 * 256, 0); Integer oi; if (vx_param("outw")) oi = inI("oldout", (int)vx_param("outw"));
	if (form % 3 == 1) {
		std::vector<Integer> in; int at = 0;
		for (int p = 0; p < parts; ++p) { std::vector<Bit> v; for (size_t i = 0; i < sz[p]; ++i) { block l; vx_input(&l, nm, at++); v.push_back(Bit(l)); } in.push_back(Integer(v)); }
		if (form == 1) { if (parts == 1) c->sha3_256(out, in.data()); else c->sha3_256(out, in.data(), parts); }
		else { if (parts == 1) c->sha3_256(&oi, in.data()); else c->sha3_256(&oi, in.data(), parts); }
		at = 0; for (int p = 0; p < parts; ++p) for (size_t i = 0; i < sz[p]; ++i) vx_wire(back, at++, &in[p].bits[i].bit);
	} else {
		const block **ar = (const block **)vx_buf(8 * parts, 0); size_t *ss = (size_t *)vx_buf(8 * parts, 0); int at = 0;
		for (int p = 0; p < parts; ++p) { block *b = (block *)vx_buf(16 * sz[p], 0); for (size_t i = 0; i < sz[p]; ++i) vx_input(&b[i], nm, at++); ar[p] = b; ss[p] = sz[p]; }
		if (form == 0) { if (parts == 1) c->sha3_256(out, ar, ss); else c->sha3_256(out, ar, ss, parts); }
		else if (form == 3) { if (parts == 1) c->sha3_256(&oi, ar, ss); else c->sha3_256(&oi, ar, ss, parts); }
		else if (form == 2) c->sha3_256(out, ar[0], ss[0]);
		else c->sha3_256(&oi, ar[0], ss[0]);
		at = 0; for (int p = 0; p < parts; ++p) for (size_t i = 0; i < sz[p]; ++i) vx_wire(back, at++, &ar[p][i]);
	}
	if (form < 3) for (int i = 0; i < 256; ++i) vx_wire(tag, i, &out[i]);
	else for (size_t i = 0; i < oi.bits.size(); ++i) vx_wire(tag, (int)i, &oi.bits[i].bit);
}
extern "C" void h_circ() {
	net_setup();
	SHA3_256_Calculator *c = new SHA3_256_Calculator;
	int rounds = (int)vx_param("rounds");
	for (int r = 0; r < rounds; ++r) {
		char nf[3] = {'f', char('0' + r), 0}, np[3] = {'p', char('0' + r), 0}, ni[3] = {'m', char('0' + r), 0}, no[3] = {'o', char('0' + r), 0}, nb[3] = {'b', char('0' + r), 0};
		size_t sz[4]; int parts = (int)vx_param(np);
		for (int p = 0; p < parts; ++p) { char ns[4] = {'s', char('0' + r), char('0' + p), 0}; sz[p] = vx_param(ns); }
		one(c, (int)vx_param(nf), parts, sz, 0, ni, no, nb);
	}
	delete c;
	vx_noleak("digest context is released");
}

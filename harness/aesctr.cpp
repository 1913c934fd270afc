// C25 C08: counter mode outside and inside circuits
#include "circ.h"
extern "C" {
void vx_ctr(void *out, const void *key, const void *iv, uint64_t firstbyte, uint64_t n, const void *plus);
void vx_noleak(const char *label);
// stand-in for the shipped circuit: output j = key wire (3j+5) AND block wire (5j+7); the code under analysis only routes wires to it
}
#include "aesctr_circuit.inc"
static inline __m128i ld(const void *p) { __m128i r; memcpy(&r, p, 16); return r; }
static __attribute__((noinline)) void constant_iv(unsigned char *iv) {
	int ones = (int)vx_param("ones");    // number of low-order 0xff bytes; -1: unknown IV
	for (int i = 0; i < 16; ++i) iv[i] = (15 - i) < ones ? 0xff : (unsigned char)(17 * i + 3);
}
template <typename T> static void host(size_t n) {
	size_t nb = n * sizeof(T);
	unsigned char key[16], iv[16]; uint64_t start;
	vx_fill(key, 16, "key");
	if (vx_param("symstart")) { unsigned char lo[8]; vx_fill2(iv + 8, lo, 8, "iv", "start"); vx_fill(iv, 8, "ivhi");
		start = 0; for (int i = 0; i < 8; ++i) start |= (uint64_t)lo[i] << (8 * (7 - i)); }
	else { vx_fill(iv, 16, "iv"); start = vx_param("start"); }
	unsigned char plus[8]; memcpy(plus, &start, 8);
	int mode = (int)vx_param("mode");
	unsigned char *in = (unsigned char *)vx_buf(nb, 0), *out = (unsigned char *)vx_buf(nb, 1), *want = (unsigned char *)vx_buf(nb, 0), *orig = (unsigned char *)vx_buf(nb, 0);
	vx_fill(in, nb, "data"); memcpy(orig, in, nb); vx_fill(out, nb, "old");
	vx_ctr(want, key, iv, 0, nb, plus);
	if (mode != 2) for (size_t i = 0; i < nb; ++i) want[i] ^= orig[i];
	int r;
	if (mode == 0) { r = aes_128_ctr<T>(ld(key), ld(iv), (T *)in, out, n, start); vx_check_eq(out, want, nb, "output is the data XOR the keystream"); vx_check_eq(in, orig, nb, "input is unchanged"); }
	else if (mode == 1) { r = aes_128_ctr<T>(ld(key), ld(iv), (T *)in, nullptr, n, start); vx_check_eq(in, want, nb, "in-place result is the data XOR the keystream"); }
	else if (mode == 2) { r = aes_128_ctr<T>(ld(key), ld(iv), (T *)nullptr, out, nb, start); vx_check_eq(out, want, nb, "blind is the keystream"); }
	else if (mode == 3) { r = aes_128_ctr<T>(ld(key), ld(iv), (T *)in, (unsigned char *)in, n, start); vx_check_eq(in, want, nb, "in-place result is the data XOR the keystream"); }
	vx_check(r == 0, "returns 0"); vx_noleak("cipher context is released");
}
extern "C" void h_host() {
	size_t n = vx_param("n");
	switch (vx_param("t")) { case 1: host<unsigned char>(n); break; case 4: host<uint32_t>(n); break; case 8: host<uint64_t>(n); break; case 16: host<block>(n); break; }
}
extern "C" void h_host_part() {
	// the tail from chunk c equals encrypting from start chunk c; defaults
	unsigned char key[16], iv[16], a[80], b[80]; vx_fill(key, 16, "key"); vx_fill(iv, 16, "iv"); vx_fill(a, 80, "data"); memcpy(b, a, 80);
	uint64_t c = vx_param("c");
	aes_128_ctr(ld(key), ld(iv), a, nullptr, 80); aes_128_ctr(ld(key), ld(iv), b + 16 * c, nullptr, 80 - 16 * c, c);
	vx_check_eq(a + 16 * c, b + 16 * c, 80 - 16 * c, "encrypting from a chunk offset equals the part of the whole");
	unsigned char x[2], y; vx_fill(x, 2, "x"); y = x[1]; unsigned char ks, p8[8] = {0}; vx_ctr(&ks, key, iv, 0, 1, p8); unsigned char w = x[0] ^ ks;
	aes_128_ctr(ld(key), ld(iv), x); vx_check_eq(&w, x, 1, "default length is one element"); vx_check_eq(&y, x + 1, 1, "nothing beyond the length is written");
}
extern "C" void h_host_null() {
	unsigned char key[16], iv[16]; vx_fill(key, 16, "key"); vx_fill(iv, 16, "iv");
	int r = aes_128_ctr(ld(key), ld(iv), (unsigned char *)nullptr, (unsigned char *)nullptr, vx_param("n"), 0);
	vx_check(r != 0, "refuses two null pointers"); vx_noleak("cipher context is released");
}
extern "C" void h_host_fail() {
	unsigned char key[16], iv[16], d[40]; vx_fill(key, 16, "key"); vx_fill(iv, 16, "iv"); vx_fill(d, 40, "data");
	int r = aes_128_ctr(ld(key), ld(iv), d, nullptr, 40, 3);
	vx_note("ret", 0, (uint64_t)(int64_t)r);
	vx_noleak("cipher context is released");
}
extern "C" void h_host_big() {
	unsigned char key[16], iv[16]; vx_fill(key, 16, "key"); vx_fill(iv, 16, "iv");
	size_t n = vx_param("n");
	int r;
	if (vx_param("t") == 1) r = aes_128_ctr(ld(key), ld(iv), (unsigned char *)0x7000000000000000ULL, (unsigned char *)(vx_param("inplace") ? 0 : 0x7100000000000000ULL), n, 5);
	else r = aes_128_ctr(ld(key), ld(iv), (uint64_t *)0x7000000000000000ULL, (unsigned char *)(vx_param("inplace") ? 0 : 0x7100000000000000ULL), n / 8, 5);
	vx_check(r == 0, "returns 0"); vx_noleak("cipher context is released");
}
// in circuit.  which: 0 key and IV wires, 1 key wires, 2 neither.  mode: 0 separate output, 1 in place, 2 blind, 3 output == input
struct Run { block *in, *out, *orig; size_t n; };
static void fillw(block *b, size_t n, const char *nm) { for (size_t i = 0; i < n; ++i) vx_input(&b[i], nm, (int)i); }
static int one(AES_128_CTR_Calculator *c, int which, bool key, int mode, size_t n, int party, uint64_t start, int round, const char *tag) {
	block *k = (block *)vx_buf(16 * 128, 0), *v = (block *)vx_buf(16 * 128, 0);
	unsigned char hk[16], hv[16];
	fillw(k, 128, key ? "k1" : "k0"); fillw(v, 128, round ? "v1" : "v0"); vx_fill(hk, 16, "hostkey");
	if (which == 1 && vx_param("ones") == 99) vx_fill(hv, 16, "hostiv"); else if (which == 2) vx_fill(hv, 16, "hostiv"); else constant_iv(hv);
	block *in = (block *)vx_buf(16 * n, 0), *out = (block *)vx_buf(16 * n, 0);
	fillw(in, n, round ? "d1" : "d0"); fillw(out, n, "old");
	block *pi = mode == 2 ? nullptr : in, *po = mode == 1 ? nullptr : mode == 3 ? in : out;
	bool usekey = vx_param("round1key") || !round;
	int r;
	if (vx_param("dflt")) { // lengths, owner and first chunk left out
		if (which == 0) r = mode == 1 ? c->aes_128_ctr(usekey ? k : nullptr, v, pi) : c->aes_128_ctr(usekey ? k : nullptr, v, pi, po);
		else if (which == 1) r = mode == 1 ? c->aes_128_ctr(usekey ? k : nullptr, ld(hv), pi) : c->aes_128_ctr(usekey ? k : nullptr, ld(hv), pi, po);
		else r = mode == 1 ? c->aes_128_ctr(ld(hk), ld(hv), pi) : c->aes_128_ctr(ld(hk), ld(hv), pi, po);
	}
	else if (which == 0) r = c->aes_128_ctr(usekey ? k : nullptr, v, pi, po, n, party, start);
	else if (which == 1) r = c->aes_128_ctr(usekey ? k : nullptr, ld(hv), pi, po, n, party, start);
	else r = c->aes_128_ctr(ld(hk), ld(hv), pi, po, n, party, start);
	vx_check(r == 0, "returns 0");
	block *res = mode == 1 || mode == 3 ? in : out;
	for (size_t i = 0; i < n; ++i) vx_wire(tag, (int)i, &res[i]);
	if (mode == 0) for (size_t i = 0; i < n; ++i) vx_wire(round ? "i1" : "i0", (int)i, &in[i]);
	return r;
}
extern "C" void h_circ() {
	net_setup();
	{
		AES_128_CTR_Calculator *c = new AES_128_CTR_Calculator;
		int rounds = (int)vx_param("rounds");
		for (int r = 0; r < rounds; ++r)
			one(c, (int)vx_param(r ? "which1" : "which0"), r && vx_param("round1key"), (int)vx_param(r ? "mode1" : "mode0"), vx_param(r ? "n1" : "n0"), (int)vx_param("party"), vx_param(r ? "start1" : "start0"), r, r ? "o1" : "o0");
		delete c;
	}
	vx_noleak("cipher context is released");
}
extern "C" void h_circ_null() {
	net_setup();
	AES_128_CTR_Calculator c; block k[128], v[128]; fillw(k, 128, "k0"); fillw(v, 128, "v0"); unsigned char z[16]; vx_fill(z, 16, "hostiv");
	int w = (int)vx_param("which"), r;
	if (w == 0) r = c.aes_128_ctr(k, v, nullptr, nullptr, 128); else if (w == 1) r = c.aes_128_ctr(k, ld(z), nullptr, nullptr, 128); else r = c.aes_128_ctr(ld(z), ld(z), nullptr, nullptr, 128);
	vx_check(r != 0, "refuses two null pointers"); vx_noleak("cipher context is released");
}

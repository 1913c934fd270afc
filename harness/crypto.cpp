// C03 C13 C14 C15 C16: entry contexts for AES and what is built on it
#include "vx.h"
#include <vector>
#include "emp-tool/emp-tool.h"
using namespace emp;
static block in(const char *n) { block b; vx_fill(&b, 16, n); return b; }
static block aes(block k, block x) { block r; vx_aes(&r, &k, &x); return r; }
static void eq(block got, block want, const char *l) { vx_check_eq(&got, &want, 16, l); }
static block blk(uint64_t hi, uint64_t lo) { block r; ((uint64_t *)&r)[0] = lo; ((uint64_t *)&r)[1] = hi; return r; }

// ---------------------------------------------------------------- C13
extern "C" void h_aes() {
	unsigned n = (unsigned)vx_param("n");
	block key = in("k");
	AES_KEY ek, dk, dk2;
	AES_set_encrypt_key(key, &ek);
	block ks[11];
	vx_aes_keys(ks, &key);
	for (int i = 0; i < 11; ++i) eq(ek.rd_key[i], ks[i], "key schedule of AES_set_encrypt_key");
	block *x = (block *)vx_buf(16 * (n + 2), 0), *o = (block *)vx_buf(16 * (n + 2), 0);
	vx_fill(x, 16 * (n + 2), "x");
	for (unsigned i = 0; i < n + 2; ++i) o[i] = x[i];
	AES_ecb_encrypt_blks(x + 1, n, &ek);
	for (unsigned i = 1; i <= n; ++i) eq(x[i], aes(key, o[i]), "AES_ecb_encrypt_blks");
	eq(x[0], o[0], "block before the range"); eq(x[n + 1], o[n + 1], "block after the range");
	AES_set_decrypt_key(key, &dk);
	AES_set_decrypt_key_fast(&dk2, &ek);
	block *y = (block *)vx_buf(16 * (n + 2), 0);
	for (unsigned i = 0; i < n + 2; ++i) y[i] = x[i];
	AES_ecb_decrypt_blks(x + 1, n, &dk);
	AES_ecb_decrypt_blks(y + 1, n, &dk2);
	for (unsigned i = 0; i < n + 2; ++i) { eq(x[i], o[i], "decrypt(encrypt(x)), AES_set_decrypt_key"); eq(y[i], o[i], "decrypt(encrypt(x)), AES_set_decrypt_key_fast"); }
}
template<int N> static void fixed_enc() {
	block key = in("k"); AES_KEY ek; AES_set_encrypt_key(key, &ek);
	block *x = (block *)vx_buf(16 * N, 0), o[N];
	vx_fill(x, 16 * N, "x");
	for (int i = 0; i < N; ++i) o[i] = x[i];
	AES_ecb_encrypt_blks<N>(x, &ek);
	for (int i = 0; i < N; ++i) eq(x[i], aes(key, o[i]), "AES_ecb_encrypt_blks<N>");
}
extern "C" void h_aes_fixed() { fixed_enc<1>(); fixed_enc<2>(); fixed_enc<3>(); fixed_enc<4>(); fixed_enc<7>(); fixed_enc<8>(); fixed_enc<9>(); fixed_enc<16>(); }
template<int NK, int NE> static void para() {
	block *k = (block *)vx_buf(16 * NK, 0); vx_fill(k, 16 * NK, "k");
	AES_KEY *s = (AES_KEY *)vx_buf(sizeof(AES_KEY) * NK, 0);
	AES_opt_key_schedule<NK>(k, s);
	for (int i = 0; i < NK; ++i) {
		block ks[11]; vx_aes_keys(ks, k + i);
		for (int r = 0; r < 11; ++r) eq(s[i].rd_key[r], ks[r], "batched key schedule");
		block one[2]; one[0] = one[1] = in("p"); block ref = aes(k[i], one[0]);
		AES_ecb_encrypt_blks(one, 1, s + i);
		eq(one[0], ref, "single-key encryption with a batched schedule");
	}
	block *x = (block *)vx_buf(16 * NK * NE, 0), o[NK * NE];
	vx_fill(x, 16 * NK * NE, "x");
	for (int i = 0; i < NK * NE; ++i) o[i] = x[i];
	ParaEnc<NK, NE>(x, s);
	for (int i = 0; i < NK; ++i) for (int j = 0; j < NE; ++j) eq(x[i * NE + j], aes(k[i], o[i * NE + j]), "ParaEnc");
}
extern "C" void h_para() {
	switch (vx_param("s")) {
	case 0: para<1, 1>(); para<1, 2>(); para<1, 3>(); para<1, 4>(); break;
	case 1: para<2, 1>(); para<2, 2>(); para<2, 3>(); break;
	case 2: para<4, 1>(); para<4, 2>(); break;
	case 3: para<8, 1>(); para<3, 2>(); break;
	case 4: para<8, 2>(); break;
	case 5: para<5, 1>(); para<1, 8>(); break;
	case 6: para<16, 1>(); para<8, 4>(); break;
	}
}

// ---------------------------------------------------------------- C16
template<class P> static void permute(P &p, block key, int n, const char *lab) {
	block *x = (block *)vx_buf(16 * (n + 2), 0), *o = (block *)vx_buf(16 * (n + 2), 0);
	vx_fill(x, 16 * (n + 2), "x");
	for (int i = 0; i < n + 2; ++i) o[i] = x[i];
	p.permute_block(x + 1, n);
	for (int i = 1; i <= n; ++i) eq(x[i], aes(key, o[i]), lab);
	eq(x[0], o[0], "block before the range"); eq(x[n + 1], o[n + 1], "block after the range");
}
extern "C" void h_prp() {
	int n = (int)vx_param("n");
	block key = in("k");
	char *kc = (char *)vx_buf(16, vx_param("skew")); memcpy(kc, &key, 16);
	PRP a, b(key), c(kc);
	permute(a, zero_block, n, "PRP()"); permute(b, key, n, "PRP(block)"); permute(c, key, n, "PRP(const char *)");
	a.aes_set_key(key); permute(a, key, n, "PRP::aes_set_key");
	CRH h; permute(h, zero_block, n, "CRH permute"); CCRH h2(key); permute(h2, key, n, "CCRH permute"); TCCRH h3; permute(h3, zero_block, n, "TCCRH permute");
}
static block sg(block a) { uint64_t *p = (uint64_t *)&a; return blk(p[0] ^ p[1], p[1]); }  // (H,L) -> (H^L, H)
static block f_crh(block k, block x, uint64_t) { return aes(k, x) ^ x; }
static block f_ccrh(block k, block x, uint64_t) { return aes(k, sg(x)) ^ sg(x); }
static block f_tccrh(block k, block x, uint64_t i) { block p = aes(k, x); return aes(k, p ^ blk(0, i)) ^ p; }
template<class H> struct call { static block one(H &h, block x, uint64_t) { return h.H(x); }
	template<int n> static void fix(H &h, block *o, block *x, uint64_t) { h.template H<n>(o, x); }
	static void var(H &h, block *o, block *x, uint64_t, int n, block *s) { h.Hn(o, x, n, s); } };
template<> struct call<TCCRH> { static block one(TCCRH &h, block x, uint64_t i) { return h.H(x, i); }
	template<int n> static void fix(TCCRH &h, block *o, block *x, uint64_t i) { h.H<n>(o, x, i); }
	static void var(TCCRH &h, block *o, block *x, uint64_t i, int n, block *s) { h.Hn(o, x, i, n, s); } };
template<class H, int N> static void fixd(H &h, block k, uint64_t id, block (*f)(block, block, uint64_t)) {
	block *x = (block *)vx_buf(16 * N, 0), *o = (block *)vx_buf(16 * N, 0), w[N];
	vx_fill(x, 16 * N, "x");
	for (int i = 0; i < N; ++i) w[i] = f(k, x[i], id + i);
	call<H>::template fix<N>(h, o, x, id);
	for (int i = 0; i < N; ++i) eq(o[i], w[i], "H<n>");
	call<H>::template fix<N>(h, x, x, id);
	for (int i = 0; i < N; ++i) eq(x[i], w[i], "H<n> in place");
}
template<class H> static void hashes(block (*f)(block, block, uint64_t)) {
	int n = (int)vx_param("n");
	block k = vx_param("defkey") ? zero_block : in("k");
	uint64_t id = vx_param("symid") ? vx_sym("id", 0, 64) : vx_param("id");
	H *hp = vx_param("defkey") ? new H() : new H(k);
	H &h = *hp;
	block x0 = in("x");
	eq(call<H>::one(h, x0, id), f(k, x0, id), "H, single block");
	if (vx_param("symid")) { delete hp; return; }
	for (int variant = 0; variant < 4; ++variant) {
		block *x = (block *)vx_buf(16 * n, 0), *o = variant & 1 ? x : (block *)vx_buf(16 * n, 0), *s = variant & 2 ? (block *)vx_buf(16 * n, 0) : nullptr;
		vx_fill(x, 16 * n, "x");
		block *w = new block[n];
		for (int i = 0; i < n; ++i) w[i] = f(k, x[i], id + i);
		vx_heap_mark();
		call<H>::var(h, o, x, id, n, s);
		vx_heap_same("scratch space is released");
		for (int i = 0; i < n; ++i) eq(o[i], w[i], variant & 1 ? (variant & 2 ? "Hn in place, scratch" : "Hn in place") : (variant & 2 ? "Hn, scratch" : "Hn"));
		delete[] w;
	}
	switch (n) {
	case 1: fixd<H, 1>(h, k, id, f); break; case 2: fixd<H, 2>(h, k, id, f); break; case 3: fixd<H, 3>(h, k, id, f); break;
	case 7: fixd<H, 7>(h, k, id, f); break; case 8: fixd<H, 8>(h, k, id, f); break; case 9: fixd<H, 9>(h, k, id, f); break; case 16: fixd<H, 16>(h, k, id, f); break;
	case 17: fixd<H, 17>(h, k, id, f); break;
	}
	delete hp;
}
extern "C" void h_crh() { hashes<CRH>(f_crh); }
extern "C" void h_ccrh() { hashes<CCRH>(f_ccrh); }
extern "C" void h_tccrh() { hashes<TCCRH>(f_tccrh); }

// ---------------------------------------------------------------- C03
static uint64_t next_index;     // index the specification gives to the next group
static int left;                // keys left in the prepared batch
template<int B, int K, int H> static void mit(MITCCRH<B> &h, block start, bool cir, bool skips) {
	block *x = (block *)vx_buf(16 * K * H, 0), o[K * H];
	static int serial = 0;
	char nm[2] = {(char)('a' + serial++ % 26), 0};
	vx_fill(x, 16 * K * H, nm);
	for (int i = 0; i < K * H; ++i) o[i] = cir ? sg(x[i]) : x[i];
	if (left < K) { next_index += left; left = B; }
	if (cir) h.template hash_cir<K, H>(x); else h.template hash<K, H>(x);
	for (int k = 0; k < K; ++k) {
		block key = start ^ blk(next_index, 0);
		for (int j = 0; j < H; ++j) eq(x[k * H + j], aes(key, o[k * H + j]) ^ o[k * H + j], cir ? "hash_cir" : "hash");
		++next_index; --left;
	}
}
template<int B> static void mitseq() {
	MITCCRH<B> h;
	block s = in("s");
	h.setS(s);
	uint64_t g = vx_param("gid");
	next_index = 0; left = 0;
	if (vx_param("setgid")) { h.renew_ks(g); next_index = g; left = B; }
	uint64_t prog = vx_param("prog");
	for (int step = 0; step < 12 && prog; ++step, prog /= 16) {
		switch (prog % 16) {
		case 1: mit<B, 1, 1>(h, s, false, true); break;
		case 2: mit<B, 2, 1>(h, s, false, true); break;
		case 3: mit<B, 2, 2>(h, s, false, true); break;
		case 4: mit<B, 1, 2>(h, s, true, true); break;
		case 5: mit<B, 2, 1>(h, s, true, true); break;
		case 6: mit<B, B, 1>(h, s, false, true); break;
		case 7: mit<B, B / 2, 2>(h, s, true, true); break;
		case 8: h.renew_ks(g + 1000); next_index = g + 1000; left = B; break;
		case 9: s = in("t"); h.setS(s); left = 0; h.renew_ks(next_index + 77); next_index += 77; left = B; break;
		case 10: h.renew_ks(); next_index += left; left = B; break;
		}
	}
}
extern "C" void h_mit() {
	switch (vx_param("B")) { case 8: mitseq<8>(); break; case 2: mitseq<2>(); break; case 4: mitseq<4>(); break; case 16: mitseq<16>(); break; }
}

// ---------------------------------------------------------------- C14
template<class P> static auto setctr(P *p, uint64_t v, int) -> decltype((void)(p->counter = v), true) { p->counter = v; return true; }
template<class P> static bool setctr(P *, uint64_t, long) { return false; }
// outputs are matched with the stream in checks/C14.py
extern "C" void h_prg() {
	block seed = in("seed");
	uint64_t id = vx_param("id");
	char *sp = (char *)vx_buf(16, vx_param("sskew"));
	memcpy(sp, &seed, 16);
	PRG *p;
	if (vx_param("ctor") == 2) p = new PRG(sp); else if (vx_param("ctor")) p = new PRG(sp, (int)id);
	else { block other = in("other"); p = new PRG(&other);
		switch (vx_param("before")) {   // what was requested before the reseed must not matter
		case 1: (*p)(); break;
		case 2: { block t[3]; p->random_block(t, 3); for (int i = 0; i < 5; ++i) (*p)(); break; }
		case 3: { bool b[7]; p->random_bool(b, 7); char d[37]; p->random_data(d, 37); break; }
		case 4: { for (int i = 0; i < 32; ++i) (*p)(); break; }
		case 5: { for (int i = 0; i < 33; ++i) (*p)(); break; } }
		if (vx_param("dflt")) p->reseed((block *)sp); else p->reseed((block *)sp, id); }
	if (vx_param("jump")) { if (!setctr(p, vx_param("ctr"), 0)) { vx_check(true, "no counter to move"); return; } }
	unsigned char *pre = (unsigned char *)vx_buf(16, 0);
	vx_fill(pre, 16, "pre");
	uint64_t prog = vx_param("prog"), sizes = vx_param("sizes");
	size_t skew = vx_param("skew");
	for (; prog; prog /= 16, sizes /= 512) {
		size_t n = sizes % 512;
		unsigned char *d;
		switch (prog % 16) {
		case 1: d = (unsigned char *)vx_buf(16 * n, skew); p->random_block((block *)d, (int)n); vx_out("block", (int)n, d, 16 * n); break;
		case 2: d = (unsigned char *)vx_buf(n, skew); p->random_data(d, (int)n); vx_out("data", (int)n, d, n); break;
		case 3: d = (unsigned char *)vx_buf(n + 8, (skew + 60) % 64); memcpy(d, pre, 4); memcpy(d + n + 4, pre, 4);
			p->random_data_unaligned(d + 4, (int)n);
			vx_check_eq(d, pre, 4, "bytes before the request"); vx_check_eq(d + n + 4, pre, 4, "bytes after the request");
			vx_out("unaligned", (int)n, d + 4, n);
			break;
		case 4: { d = (unsigned char *)vx_buf(n + 8, (skew + 60) % 64); memcpy(d, pre, 4); memcpy(d + n + 4, pre, 4);
			p->random_bool((bool *)d + 4, (int)n);
			vx_check_eq(d, pre, 4, "bytes before the request"); vx_check_eq(d + n + 4, pre, 4, "bytes after the request");
			vx_out("bool", (int)n, d + 4, n); break; }
		case 5: for (size_t i = 0; i < n; ++i) { uint64_t v = (*p)(); vx_out("word", 0, &v, 8); } break;
		case 7: d = (unsigned char *)vx_buf(16, skew); p->random_block((block *)d); vx_out("block", 1, d, 16); break;
		case 6: p->reseed((block *)sp, id + 5); vx_note("reseed", 5, 0); break;
		}
	}
	block t; p->random_block(&t, 1);
	vx_out("block", 1, &t, 16);
	delete p;
	vx_check(true, "requests complete");
}

// ---------------------------------------------------------------- C15
extern "C" void h_seed() {
	int id = (int)vx_param("id");
	PRG a(nullptr, id), b;
	block x, y;
	vx_note("mark", 0, 0);
	a.random_block(&x, 1); b.random_block(&y, 1);
	vx_out("a", id, &x, 16); vx_out("b", 0, &y, 16);
	PRG c;
	c.random_block(&x, 1); vx_out("b", 1, &x, 16);
}

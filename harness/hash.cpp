// C22: streaming hash
#include "vx.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
extern "C" {
void vx_digest(void *out, const char *alg, const void *p, size_t n);
void vx_digest_range(void *out, const char *alg, const void *pre, size_t npre, uint64_t base, uint64_t n);
void vx_noleak(const char *label);
void vx_heap_mark();
void vx_heap_same(const char *label);
void vx_tok(void *p, size_t n, int stream, uint64_t pos);
void vx_tokcheck(const void *p, size_t n, int stream, uint64_t pos, const char *label);
void vx_scramble(void *p, size_t n);
}
// steps: kind 0 put, 1 put_block, 2 digest, 3 reset, 4 hash_once, 5 hash_for_block
extern "C" void h_hash() {
	int nop = (int)vx_param("nop");
	vx_heap_mark();
	{
		Hash *h = new Hash;
		size_t cap = vx_param("total");
		unsigned char *all = (unsigned char *)vx_buf(cap, 0);
		size_t start = 0, pos = 0;
		for (int i = 0; i < nop; ++i) {
			char nm[8] = {'o', 'p', char('0' + i % 10), 0};
			if (i >= 10) { nm[2] = '0' + i / 10; nm[3] = '0' + i % 10; nm[4] = 0; }
			uint64_t op = vx_param(nm); size_t n = op >> 8;
			unsigned char d[32], want[32];
			switch (op & 255) {
			case 0: case 1: {
				if ((op & 255) == 1) n *= 16;
				unsigned char *p = (unsigned char *)vx_buf(n, (op & 255) == 1 ? 0 : i % 8);
				vx_tok(p, n, 0, pos); vx_tok(all + pos, n, 0, pos);
				if ((op & 255) == 1) { if (n == 16) h->put_block((block *)p); else h->put_block((block *)p, (int)(n / 16)); } else h->put(p, n);
				vx_tokcheck(p, n, 0, pos, "hashed data is left unchanged"); vx_scramble(p, n);
				pos += n; break; }
			case 2: { unsigned char *o = (unsigned char *)vx_buf(32, i % 16); h->digest(o); vx_digest(want, "sha256", all + start, pos - start); vx_check_eq(o, want, 32, "digest is SHA-256 of everything put"); start = pos; break; }
			case 3: h->reset(); start = pos; break;
			case 4: { unsigned char *p = (unsigned char *)vx_buf(n, i % 8); vx_tok(p, n, 1, i * 1000); Hash::hash_once(d, p, n); vx_digest(want, "sha256", p, n); vx_check_eq(d, want, 32, "hash_once is SHA-256"); break; }
			case 5: { unsigned char *p = (unsigned char *)vx_buf(n, i % 8); vx_tok(p, n, 1, i * 1000); block b = Hash::hash_for_block(p, n); vx_digest(want, "sha256", p, n); vx_check_eq(&b, want, 16, "hash_for_block is the first half of SHA-256"); break; }
			}
		}
		delete h;
	}
	vx_noleak("digest contexts are released"); vx_heap_same("memory is released");
}
static const uint64_t BIGBASE = 0x7000000000000000ULL;
extern "C" void h_hash_big() {
	Hash h; unsigned char pre[40]; size_t np = vx_param("pre"); vx_tok(pre, 40, 0, 0); h.put(pre, np);
	int nb = (int)vx_param("blocks");
	h.put_block((block *)BIGBASE, nb);
	unsigned char d[32], w[32]; h.digest(d); vx_digest_range(w, "sha256", pre, np, BIGBASE, 16ull * nb); vx_check_eq(d, w, 32, "digest of a huge chunk");
}

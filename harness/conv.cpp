// C09: host data in and out of circuits
#include "circ.h"
static uint64_t bit_of(const void *p, int i) { return (((const unsigned char *)p)[i / 8] >> (i % 8)) & 1; }
template<class T> static T symv(const char *n, int idx) { if (vx_param("conc")) { uint64_t v = vx_param("val"); return (T)v; } return (T)vx_sym(n, idx, (int)sizeof(T) * 8); }
// ---- plain conversions
template<class T> static void conv() {
	const int W = (int)sizeof(T) * 8;
	T x = symv<T>("x", 0);
	int len = (int)vx_param("len");
	bool *b = (bool *)vx_buf(len, 0);
	int_to_bool<T>(b, x, len);
	for (int i = 0; i < len; ++i) {
		unsigned char want = i < W ? (unsigned char)(((uint64_t)x >> i) & 1) : (unsigned char)((T)-1 < (T)0 ? ((uint64_t)x >> (W - 1)) & 1 : 0);
		vx_check_eq(&b[i], &want, 1, "int_to_bool, bit by bit");
	}
	unsigned char *full = (unsigned char *)vx_buf(W, 0);
	for (int i = 0; i < W; ++i) full[i] = (unsigned char)((vx_sym("y", 0, W) >> i) & 1);
	T y = bool_to_int<T>((bool *)full), wy = (T)vx_sym("y", 0, W);
	vx_check_eq(&y, &wy, sizeof(T), "bool_to_int");
	bool *b2 = (bool *)vx_buf(W, 0);
	int_to_bool<T>(b2, x, W); T z = bool_to_int<T>(b2); vx_check_eq(&z, &x, sizeof(T), "bool_to_int(int_to_bool(x)) == x");
}
extern "C" void h_conv() { switch (vx_param("ty")) { case 0: conv<uint64_t>(); break; case 1: conv<int64_t>(); break; case 2: conv<uint32_t>(); break; case 3: conv<int32_t>(); break;
	case 4: conv<uint16_t>(); break; case 5: conv<uint8_t>(); break; case 6: conv<int8_t>(); break; case 7: conv<int16_t>(); break; } }
template<class T> static void mem() {
	int len = (int)vx_param("len"); bool rev = vx_param("rev") != 0; int skew = (int)vx_param("skew");
	int nb = (len + 7) / 8;
	unsigned char *in = (unsigned char *)vx_buf(nb, skew); vx_fill(in, nb, "m");
	unsigned char *keep = (unsigned char *)vx_buf(nb, 0); memcpy(keep, in, nb);
	bool *b = (bool *)vx_buf(len, 0);
	to_bool<T>(b, (const T *)in, len, rev);
	for (int i = 0; i < len; ++i) { unsigned char w = (unsigned char)bit_of(keep, i); vx_check_eq(&b[rev ? len - 1 - i : i], &w, 1, "to_bool, bit by bit"); }
	vx_check_eq(in, keep, nb, "to_bool leaves its input alone");
	unsigned char *out = (unsigned char *)vx_buf(nb, skew); vx_fill(out, nb, "old");
	unsigned char *was = (unsigned char *)vx_buf(nb, 0); memcpy(was, out, nb);
	unsigned char *d = (unsigned char *)vx_buf(len, 0); for (int i = 0; i < len; ++i) d[i] = (unsigned char)vx_sym("d", i, 1);
	from_bool<T>((const bool *)d, (T *)out, len, rev);
	for (int i = 0; i < nb; ++i) {
		unsigned char w = 0;
		for (int j = 0; j < 8; ++j) { int k = 8 * i + j; w |= (unsigned char)((k < len ? d[rev ? len - 1 - k : k] : (was[i] >> j & 1)) << j); }
		vx_check_eq(&out[i], &w, 1, "from_bool writes exactly the requested bits");
	}
	for (int i = 0; i < len; ++i) { unsigned char w = (unsigned char)vx_sym("d", i, 1); vx_check_eq(&d[i], &w, 1, "from_bool leaves its input alone"); }
}
extern "C" void h_mem() { switch (vx_param("ty")) { case 0: mem<uint64_t>(); break; case 1: mem<uint8_t>(); break; case 2: mem<block>(); break; case 3: mem<char>(); break; } }
extern "C" void h_block() {
	block x; vx_fill(&x, 16, "x");
	bool *b = (bool *)vx_buf(128, 0);
	block_to_bool(b, x);
	for (int i = 0; i < 128; ++i) { unsigned char w = (unsigned char)bit_of(&x, i); vx_check_eq(&b[i], &w, 1, "block_to_bool, bit by bit"); }
	block y = bool_to_block(b); vx_check_eq(&y, &x, 16, "bool_to_block(block_to_bool(x)) == x");
}
// ---- circuits
extern "C" void vx_float(float *f);
enum { BITB, BITS, INUM, IPTR, IPTR1, FLT, FLTS, DFLT, IINIT, DPARTY };
extern "C" void h_feed() {
	net_setup();
	int op = (int)vx_param("op"), len = (int)vx_param("len"), party = (int)vx_param("party"), back = (int)vx_param("back");
	switch (op) {
	case BITB: { unsigned char v = (unsigned char)symv<uint8_t>("x", 0) & 1; Bit b(*(bool *)&v, party); bool r = b.reveal<bool>(back); vx_check_eq(&r, &v, 1, "bit"); break; }
	case BITB + 1000: { unsigned char v = (unsigned char)symv<uint8_t>("x", 0) & 1; bool *b = (bool *)vx_buf(1, 0); Bit::bool_data(b, *(bool *)&v); vx_check(Bit::bool_size() == 1 && Bit::bool_size(v) == 1, "a bit is one bool"); vx_check_eq(b, &v, 1, "bool of a bit"); break; }
	case BITS: { bool v = vx_param("val") & 1; Bit b(v, party); string s = b.reveal<string>(back); vx_check(s == (v ? "true" : "false"), "bit as text"); break; }
	case INUM: {
		int64_t x = symv<int64_t>("x", 0);
		Integer a(len, x, party);
		vx_check((int)a.size() == len, "width of the integer");
		unsigned char *want = (unsigned char *)vx_buf(len, 0);
		for (int i = 0; i < len; ++i) want[i] = (unsigned char)(((uint64_t)x >> (i < 64 ? i : 63)) & 1);
		bool *b = (bool *)vx_buf(len, 0); a.revealBools(b, back); vx_check_eq(b, want, len, "integer fed from a number, revealed as bools");
		uint64_t lo = 0; uint32_t lo32 = 0; for (int i = 0; i < len; ++i) { if (i < 64) lo |= (uint64_t)want[i] << i; if (i < 32) lo32 |= (uint32_t)want[i] << i; }
		uint64_t r = a.reveal<uint64_t>(back); vx_check_eq(&r, &lo, 8, "revealed as uint64_t");
		uint32_t r3 = a.reveal<uint32_t>(back); vx_check_eq(&r3, &lo32, 4, "revealed as uint32_t");
		if (len >= 64) { int64_t q = a.reveal<int64_t>(back); vx_check_eq(&q, &lo, 8, "revealed as int64_t"); }
		if (len >= 32) { int32_t q = a.reveal<int32_t>(back); vx_check_eq(&q, &lo32, 4, "revealed as int32_t"); }
		int nb = (len + 7) / 8; unsigned char *o = (unsigned char *)vx_buf(nb, 1); vx_fill(o, nb, "old");
		unsigned char *e = (unsigned char *)vx_buf(nb, 0); memcpy(e, o, nb);
		for (int i = 0; i < len; ++i) e[i / 8] = (unsigned char)((e[i / 8] & ~(1 << (i % 8))) | (want[i] << (i % 8)));
		a.reveal(o, back); vx_check_eq(o, e, nb, "revealed into memory");
		if (vx_param("conc")) { string s = a.reveal<string>(back); vx_check((int)s.size() == len, "length of the bit string"); for (int i = 0; i < len; ++i) vx_check(s[i] == (want[i] ? '1' : '0'), "revealed as bit string"); }
		break; }
	case IPTR: {
		int nb = (len + 7) / 8; unsigned char *in = (unsigned char *)vx_buf(nb, 1);
		if (vx_param("conc")) for (int i = 0; i < nb; ++i) in[i] = (unsigned char)(vx_param("val") >> (i % 8 * 8)) ^ (unsigned char)(i / 8 * 37); else vx_fill(in, nb, "m");
		Integer a(len, in, party);
		vx_check((int)a.size() == len, "width of the integer");
		bool *b = (bool *)vx_buf(len, 0); a.revealBools(b, back);
		for (int i = 0; i < len; ++i) { unsigned char w = (unsigned char)bit_of(in, i); vx_check_eq(&b[i], &w, 1, "integer fed from memory"); }
		break; }
	case IPTR1: { uint32_t v = symv<uint32_t>("x", 0); Integer a(&v, party); vx_check(a.size() == 32, "width of the integer"); uint32_t r = a.reveal<uint32_t>(back); vx_check_eq(&r, &v, 4, "integer fed from an object");
		uint64_t v2 = symv<uint64_t>("z", 0); Integer c(&v2, party); vx_check(c.size() == 64, "width of the integer"); uint64_t r2 = c.reveal<uint64_t>(back); vx_check_eq(&r2, &v2, 8, "integer fed from an object"); break; }
	case FLT: { uint32_t u = symv<uint32_t>("x", 0); float f; memcpy(&f, &u, 4); Float a(f, party);
		bool b[32]; for (int i = 0; i < 32; ++i) { b[i] = a[i].reveal<bool>(back); unsigned char w = (unsigned char)bit_of(&u, i); vx_check_eq(&b[i], &w, 1, "float, bit by bit"); }
		double d = a.reveal<double>(back), e = (double)f; vx_check_eq(&d, &e, 8, "float revealed as double"); break; }
	case DPARTY: { // every default owner and receiver is PUBLIC
		Integer a(40, (int64_t)0x123456789); vx_check(a.reveal<uint64_t>() == 0x123456789, "integer with default owner and receiver");
		unsigned char m[2] = {0x5a, 0xc3}, o[2] = {0, 0}; Integer c(16, m); c.reveal(o); vx_check_eq(o, m, 2, "integer from memory with default owner and receiver");
		bool bb[16]; c.revealBools(bb); for (int i = 0; i < 16; ++i) vx_check(bb[i] == (bool)bit_of(m, i), "bools with default receiver");
		uint32_t w = 0x80000001u; Integer d(&w); vx_check(d.size() == 32 && d.reveal<uint32_t>() == w, "integer from an object with default owner");
		Bit t(true); vx_check(t.reveal<bool>(), "bit with default owner and receiver"); vx_check(t.reveal<string>() == "true", "bit as text with default receiver"); vx_check(d.reveal<string>().size() == 32, "integer as text with default receiver");
		Float f(1.5f); vx_check(f.reveal<double>() == 1.5, "float with default owner and receiver"); break; }
	case FLTS: { uint32_t u = symv<uint32_t>("x", 0); float f; memcpy(&f, &u, 4); Float a(f, party); string s = a.reveal<string>(back); break; }
	case DFLT: { Float a; bool b[32]; for (int i = 0; i < 32; ++i) { bool v = a[i].reveal<bool>(back); vx_check(!v, "default float is 0"); } Bit c; bool v = c.reveal<bool>(back); vx_check(!v, "default bit is 0"); break; }
	case IINIT: { Integer a; unsigned char *b = (unsigned char *)vx_buf(len, 0); for (int i = 0; i < len; ++i) b[i] = vx_param("conc") ? (unsigned char)(vx_param("val") >> (i % 64) & 1) : (unsigned char)vx_sym("d", i, 1);
		a.init((bool *)b, len, party); vx_check((int)a.size() == len, "width of the integer"); bool *r = (bool *)vx_buf(len, 0); a.revealBools(r, back); vx_check_eq(r, b, len, "integer from bools"); break; }
	}
}

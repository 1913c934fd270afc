// C06 C07 C08: integers, bits, sorting
#include "circ.h"
static Integer constI(int w, uint64_t lo) { Integer r; for (int i = 0; i < w; ++i) r.bits.push_back(Bit(i < 64 ? (lo >> i) & 1 : 0, PUBLIC)); return r; }
enum { ADD, SUB, MUL, DIV, MOD, NEG, ABS, AND_, OR_, XOR_, XORA, SHLP, SHRP, SHLS, SHRS, HAM, LZ, RESIZE, MODEXP,
	ADDSELF, ADDIN, SUBIN, MULSQ, DIVSELF, CHAIN, SHLIN, IDX };
extern "C" void h_int() {
	net_setup();
	int w = (int)vx_param("w");
	Integer a = inI("a", w), r;
	switch ((int)vx_param("op")) {
	case ADD: r = a + inI("b", w); break;
	case SUB: r = a - inI("b", w); break;
	case MUL: r = a * inI("b", w); break;
	case DIV: r = a / inI("b", w); break;
	case MOD: r = a % inI("b", w); break;
	case NEG: r = -a; break;
	case ABS: r = a.abs(); break;
	case AND_: r = a & inI("b", w); break;
	case OR_: r = a | inI("b", w); break;
	case XOR_: r = a ^ inI("b", w); break;
	case XORA: { Integer b = inI("b", w), c = a; Integer d = (c ^= b); outI("d", d); r = c; break; }
	case SHLP: r = a << (size_t)vx_param("n"); break;
	case SHRP: r = a >> (size_t)vx_param("n"); break;
	case SHLS: r = a << inI("s", (int)vx_param("ws")); break;
	case SHRS: r = a >> inI("s", (int)vx_param("ws")); break;
	case HAM: r = a.hamming_weight(); break;
	case LZ: r = a.leading_zeros(); break;
	case RESIZE: { Integer c = a; Integer &d = vx_param("sg") == 2 ? c.resize((size_t)vx_param("n")) : c.resize((size_t)vx_param("n"), vx_param("sg") != 0); vx_check(&d == &c, "resize returns its object"); r = c; break; }
	case MODEXP: { Integer p = inI("p", (int)vx_param("ws")), q = inI("q", w); r = a.modExp(p, q); break; }
	case ADDSELF: r = a + a; break;
	case ADDIN: r = a; r = r + inI("b", w); r = r + r; break;
	case SUBIN: { Integer b = inI("b", w); r = b; r = a - r; r = r - b; break; }
	case MULSQ: r = a * a; break;
	case DIVSELF: r = a / a; break;
	case CHAIN: { Integer b = inI("b", w); r = (a + b) - (a ^ b); break; }
	case SHLIN: r = a; r = r << (size_t)vx_param("n"); r = r >> (size_t)vx_param("n"); break;
	case IDX: { const Integer &c = a; r = a; for (int i = 0; i < w; ++i) r[i] = c[w - 1 - i]; break; }
	}
	outI("r", r);
	outI("a", a);      // operands are left alone
}
enum { GE, LT, LE, GT, EQ, NE, SEL, IF, SWAP, BSEL, BIF, BOPS, SWAPB };
extern "C" void h_cmp() {
	net_setup();
	int w = (int)vx_param("w"), op = (int)vx_param("op");
	if (op == BSEL || op == BIF || op == BOPS || op == SWAPB) {
		Bit a = inB("a", 0), b = inB("b", 0), c = inB("c", 0);
		if (op == BSEL) outB("r", 0, a.select(c, b));
		else if (op == BIF) outB("r", 0, If(c, a, b));
		else if (op == SWAPB) { swap(c, a, b); outB("r", 0, a); outB("s", 0, b); }
		else { Bit d = a; Bit e = (d ^= b);
			Bit r[] = {a & b, a | b, a ^ b, !a, a == b, a != b, d, e, Bit(true), Bit(false), Bit(), Bit(true, PUBLIC)}; for (int i = 0; i < 12; ++i) outB("r", i, r[i]); }
		return;
	}
	Integer a = inI("a", w), b = inI("b", w);
	switch (op) {
	case GE: outB("r", 0, a >= b); break;
	case LT: outB("r", 0, a < b); break;
	case LE: outB("r", 0, a <= b); break;
	case GT: outB("r", 0, a > b); break;
	case EQ: outB("r", 0, a == b); break;
	case NE: outB("r", 0, a != b); break;
	case SEL: outI("r", a.select(inB("c", 0), b)); break;
	case IF: outI("r", If(inB("c", 0), a, b)); break;
	case SWAP: swap(inB("c", 0), a, b); outI("r", a); outI("s", b); return;
	}
	outI("a", a); outI("b", b);
}
static void name(char *nm, char c, int i) { nm[0] = c; nm[1] = (char)('0' + i / 10); nm[2] = (char)('0' + i % 10); nm[3] = 0; }
extern "C" void h_sort() {
	net_setup();
	int n = (int)vx_param("n"), w = (int)vx_param("w"), dir = (int)vx_param("dir"), data = (int)vx_param("data");
	Integer *k = new Integer[n], *d = new Integer[n]; Bit *db = new Bit[n];
	char nm[4];
	for (int i = 0; i < n; ++i) {
		name(nm, 'k', i); k[i] = inI(nm, w);
		d[i] = constI(8, i);
		name(nm, 'e', i); if (data == 2) db[i] = inB(nm, 0);
	}
	if (dir == 2) { if (data == 0) sort(k, n); else if (data == 1) sort(k, n, d); else sort(k, n, db); }
	else { Bit acc = dir == 3 ? inB("acc", 0) : Bit(dir == 1, PUBLIC); if (data == 0) sort(k, n, (Bit *)nullptr, acc); else if (data == 1) sort(k, n, d, acc); else sort(k, n, db, acc); }
	for (int i = 0; i < n; ++i) {
		name(nm, 'o', i); outI(nm, k[i]);
		if (data == 1) { name(nm, 'x', i); outI(nm, d[i]); }
		if (data == 2) { name(nm, 'y', i); outB(nm, 0, db[i]); }
	}
}

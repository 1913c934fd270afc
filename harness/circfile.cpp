// C05 C12: circuit files and the plaintext backend
#include "circ.h"
#include "emp-tool/execution/plain_circ.h"
#include "emp-tool/execution/plain_prot.h"
static void io(const char *tag, int round, int n, block *b) {
	char nm[8]; int k = 0; while (tag[k]) { nm[k] = tag[k]; ++k; } nm[k++] = (char)('0' + round); nm[k] = 0;
	for (int i = 0; i < n; ++i) vx_input(&b[i], nm, i);
}
static void oo(const char *tag, int round, int n, block *b) {
	char nm[8]; int k = 0; while (tag[k]) { nm[k] = tag[k]; ++k; } nm[k++] = (char)('0' + round); nm[k] = 0;
	for (int i = 0; i < n; ++i) vx_wire(nm, i, &b[i]);
}
// how: 0 by name, 1 by FILE, 2 load another first, 3 export table
extern "C" void h_format() {
	net_setup();
	int how = (int)vx_param("how"), n1 = (int)vx_param("n1"), n2 = (int)vx_param("n2"), n3 = (int)vx_param("n3"), rounds = (int)vx_param("rounds");
	block *i1 = (block *)vx_buf(16 * n1, 0), *i2 = (block *)vx_buf(16 * n2, 0), *o = (block *)vx_buf(16 * n3, 0);
	BristolFormat *c;
	if (how == 1) { FILE *f = fopen("circ", "r"); c = new BristolFormat(f); fclose(f); }
	else if (how == 2) { c = new BristolFormat("other");
		if (vx_param("use")) { block *x = new block[256], *y = new block[256], *z = new block[256]; io("u", 0, c->n1, x); io("v", 0, c->n2, y); c->compute(z, x, y); }
		c->from_file("circ"); }
	else c = new BristolFormat("circ");
	vx_check(c->n1 == n1 && c->n2 == n2 && c->n3 == n3, "input and output counts are those of the header");
	if (how == 3) {
		c->to_file("table", "pre");
		int *tab = new int[c->num_gate * 4];
		for (int i = 0; i < c->num_gate * 4; ++i) tab[i] = c->gates[i];
		BristolFormat *d = new BristolFormat(c->num_gate, c->num_wire, c->n1, c->n2, c->n3, tab);
		delete[] tab; delete c; c = d;
	}
	for (int r = 0; r < rounds; ++r) {
		io("p", r, n1, i1); io("q", r, n2, i2);
		if (vx_param("bits")) c->compute((Bit *)o, (const Bit *)i1, (const Bit *)i2); else c->compute(o, i1, i2);
		oo("o", r, n3, o);
	}
	delete c;
}
// table: the analyser parsed the exported text and passes it back
extern "C" int vx_table(int *gates, int n);
extern "C" void h_table() {
	net_setup();
	int ng = (int)vx_param("ng"), n1 = (int)vx_param("n1"), n2 = (int)vx_param("n2"), n3 = (int)vx_param("n3");
	int *tab = (int *)vx_buf(16 * ng, 0);
	vx_table(tab, 4 * ng);
	BristolFormat c(ng, (int)vx_param("nw"), n1, n2, n3, tab);
	block *i1 = (block *)vx_buf(16 * n1, 0), *i2 = (block *)vx_buf(16 * n2, 0), *o = (block *)vx_buf(16 * n3, 0);
	io("p", 0, n1, i1); io("q", 0, n2, i2);
	c.compute(o, i1, i2);
	oo("o", 0, n3, o);
}
extern "C" void h_fashion() {
	net_setup();
	int how = (int)vx_param("how"), n1 = (int)vx_param("n1"), n3 = (int)vx_param("n3"), rounds = (int)vx_param("rounds");
	block *i1 = (block *)vx_buf(16 * n1, 0), *o = (block *)vx_buf(16 * n3, 0);
	BristolFashion *c;
	if (how == 1) { FILE *f = fopen("circ", "r"); c = new BristolFashion(f); fclose(f); }
	else if (how == 2) { c = new BristolFashion("other");
		if (vx_param("use")) { block *x = new block[256], *z = new block[256]; io("u", 0, c->num_input, x); c->compute(z, x); }
		c->from_file("circ"); }
	else c = new BristolFashion("circ");
	vx_check(c->num_input == n1 && c->num_output == n3, "input and output counts are those of the header");
	for (int r = 0; r < rounds; ++r) {
		io("p", r, n1, i1);
		if (vx_param("bits")) c->compute((Bit *)o, (const Bit *)i1); else c->compute(o, i1);
		oo("o", r, n3, o);
	}
	delete c;
}
extern "C" uint64_t vx_prog(int i);
// C05: a program over bits in the plaintext backend
#define JUMP(f) template<class P> static auto jump_##f(P *p, uint64_t v, int) -> decltype((void)(p->f += v), true) { p->f += v; return true; } template<class P> static bool jump_##f(P *, uint64_t, long) { return false; }
JUMP(gid) JUMP(gates) JUMP(ands)
extern "C" void h_plain() {
	bool rec = vx_param("rec") != 0;
	setup_plain_prot(rec, "rec");
	int n = (int)vx_param("len"), nw = 0, no = 0;
	Bit *w = new Bit[n + 8];
	CircuitExecution *ce = CircuitExecution::circ_exec;
	ProtocolExecution *pe = ProtocolExecution::prot_exec;
	for (int i = 0; i < n; ++i) {
		uint64_t c = vx_prog(i); int op = c & 15, x = (c >> 8) & 0xfff, y = (c >> 20) & 0xfff; 
		switch (op) {
		case 0: { bool b = vx_sym("in", i, 1) != 0; w[nw++] = Bit(b, x); break; }
		case 1: w[nw++] = Bit(x != 0, PUBLIC); break;
		case 2: w[nw].bit = ce->and_gate(w[x].bit, w[y].bit); ++nw; break;
		case 3: w[nw].bit = ce->xor_gate(w[x].bit, w[y].bit); ++nw; break;
		case 4: w[nw].bit = ce->not_gate(w[x].bit); ++nw; break;
		case 5: { bool b = w[x].reveal<bool>(y); vx_note("rv", no, b); ++no; break; }
		case 6: w[nw] = w[x] | w[y]; ++nw; break;
		case 7: w[nw] = w[x].select(w[y], w[(c >> 32) & 0xfff]); ++nw; break;
		case 8: { bool b = (c >> 9) & 1; pe->feed(&w[nw].bit, PUBLIC, &b, 1); ++nw; break; }
		case 9: { bool b[3]; for (int j = 0; j < 3; ++j) b[j] = vx_sym("in", 1000 + 3 * i + j, 1) != 0; block l[3]; pe->feed(l, x, b, 3); for (int j = 0; j < 3; ++j) w[nw++].bit = l[j]; break; }
		case 10: { block l[3] = {w[x].bit, w[y].bit, w[x].bit}; bool b[3]; pe->reveal(b, (c >> 32) & 0xfff, l, 3); for (int j = 0; j < 3; ++j) vx_note("rv", no++, b[j]); break; }
		case 11: w[nw] = w[x]; w[nw] ^= w[y]; ++nw; break;
		case 12: { PlainCircExec *q = (PlainCircExec *)ce; uint64_t by = vx_param("jump"); if (!jump_gid(q, by, 0) || !jump_gates(q, by, 0) || !jump_ands(q, by, 0)) { vx_note("nojump", 0, 1); } break; }
		}
	}
	for (int i = 0; i < nw; ++i) {
		bool v = ((PlainCircExec *)ce)->get_value(w[i].bit);
		vx_note("val", i, v);
		vx_note("pub", i, ((PlainCircExec *)ce)->is_public(w[i].bit, PUBLIC));
	}
	vx_note("ands", 0, ce->num_and());
	delete[] w;
	finalize_plain_prot();
}

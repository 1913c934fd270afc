// C27: which backend do gates reach, per thread
#include "vx.h"
#include "emp-tool/emp-tool.h"
#include FLOATS_ALL
using namespace emp;
extern "C" {
void vx_thread(int k);                                   // the following code runs in thread k
void vx_expect(int id);                                  // gates, feeds and reveals must reach backend id
void vx_bgate(int id, void *out, int op, const void *a, const void *b);
void vx_bpub(int id, void *out, bool b);
void vx_bfeed(int id, void *labels, int party, const bool *b, int n);
void vx_breveal(int id, bool *b, int party, const void *labels, int n);
void vx_bwire(const void *l);
void vx_shared(int phase);                               // snapshot / compare state shared between threads
}
struct BExec : public CircuitExecution {
	int id; BExec(int i) : id(i) {}
	block and_gate(const block &a, const block &b) override { block r; vx_bgate(id, &r, '&', &a, &b); return r; }
	block xor_gate(const block &a, const block &b) override { block r; vx_bgate(id, &r, '^', &a, &b); return r; }
	block not_gate(const block &a) override { block r; vx_bgate(id, &r, '!', &a, &a); return r; }
	block public_label(bool b) override { block r; vx_bpub(id, &r, b); return r; }
};
struct BProt : public ProtocolExecution {
	int id; BProt(int i) : id(i) {}
	void feed(block *l, int party, const bool *b, int n) override { vx_bfeed(id, l, party, b, n); }
	void reveal(bool *b, int party, const block *l, int n) override { vx_breveal(id, b, party, l, n); }
};
static void install(int id) { CircuitExecution::circ_exec = new BExec(id); ProtocolExecution::prot_exec = new BProt(id); }
static void o(const Bit &b) { vx_bwire(&b.bit); }
static void o(const Integer &x) { for (size_t i = 0; i < x.bits.size(); ++i) o(x.bits[i]); }
static void o(const Float &x) { for (int i = 0; i < 32; ++i) o(x[i]); }
static void work(int id, int what) {
	vx_expect(id);
	Bit p(true, ALICE), q(false, BOB), z; 
	switch (what) {
	case 0: o(p & q); o(p | q); o(p ^ q); o(!p); o(p == q); o(p != q); o(p.select(q, z)); o(Bit(true)); o(If(p, q, z)); { Bit r = p; r ^= q; o(r); swap(p, q, r); o(q); o(r); } p.reveal<bool>(PUBLIC); q.reveal<string>(ALICE); break;
	case 1: { Integer a(8, 77, ALICE), b(8, 5, BOB), c(8, 3, PUBLIC);
		o(a + b); o(a - c); o(a * b); o(a / b); o(a % c); o(-a); o(a.abs()); o(a & b); o(a | b); o(a ^ b); o(a << 3); o(a >> 2); o(a << b); o(a >> b); o(a.hamming_weight()); o(a.leading_zeros()); o(a >= b); o(a == b); o(a < b); o(a.select(p, b)); o(a.modExp(b, c)); Integer d = a; d.resize(12); o(d);
		a.reveal<uint32_t>(PUBLIC); a.reveal<string>(BOB); Integer e(&id, ALICE); o(e); break; }
	case 2: { Integer k[5]; Integer d[5]; for (int i = 0; i < 5; ++i) { k[i] = Integer(6, i * 7 % 5, ALICE); d[i] = Integer(4, i, BOB); } sort(k, 5, d); for (int i = 0; i < 5; ++i) { o(k[i]); o(d[i]); } sort(k, 4, (Bit *)nullptr, p); for (int i = 0; i < 4; ++i) o(k[i]); break; }
	case 3: { Float a(1.5, ALICE), b(2.25, BOB), c; o(a + b); o(a - b); o(a * b); o(a.equal(b)); o(a.less_than(b)); o(a.less_equal(b)); o(-a); o(a.abs()); o(a ^ b); o(a & b); o(a.If(p, b)); a.reveal<double>(PUBLIC); break; }
	case 4: { Float a(1.5, ALICE), b(2.25, BOB); o(a / b); o(a.sqr()); o(a.sqrt()); break; }
	case 5: { Float a(1.5, ALICE); o(a.sin()); o(a.cos()); break; }
	case 6: { Float a(1.5, ALICE); o(a.exp()); o(a.exp2()); break; }
	case 7: { Float a(1.5, ALICE); o(a.ln()); o(a.log2()); break; }
	case 8: { static const char *dummy = 0; (void)dummy; int tab[] = {0, 1, 3, AND_GATE, 2, 3, 4, XOR_GATE, 4, 0, 5, NOT_GATE}; BristolFormat f(3, 6, 2, 1, 1, tab); block in1[2] = {p.bit, q.bit}, in2[1] = {z.bit}, out[1]; f.compute(out, in1, in2); vx_bwire(&out[0]); break; }
	}
}
// one thread, backends replaced while running
extern "C" void h_switch() {
	int what = (int)vx_param("what"), w2 = (int)vx_param("what2");
	install(0); work(0, what); install(1); work(1, w2); install(2); work(2, what);
}
// two threads, interleaved
extern "C" void h_threads() {
	int what = (int)vx_param("what"), w2 = (int)vx_param("what2");
	vx_thread(0); install(0); work(0, what);
	vx_thread(1); vx_check(CircuitExecution::circ_exec == nullptr && ProtocolExecution::prot_exec == nullptr, "a new thread has no backend yet");
	install(1); work(1, w2);
	vx_thread(0); work(0, w2);
	vx_thread(2); install(2); work(2, what); work(2, w2);
	vx_thread(1); work(1, what);
	vx_shared(0);
	vx_thread(0); work(0, what); install(3); work(3, w2);
	vx_thread(1); work(1, w2); work(1, what); vx_thread(2); work(2, w2);
	vx_shared(1);
}
// setup and teardown in one thread leave the others alone
extern "C" void h_plain_threads() {
	vx_thread(0); install(0); work(0, 0);
	vx_thread(1); setup_plain_prot(false, ""); { Bit a(true, ALICE), b(false, BOB); bool r = (a & b).reveal<bool>(PUBLIC); vx_check(!r, "plaintext backend works in its thread"); }
	vx_thread(0); work(0, 1);
	vx_thread(1); { Bit a(true, ALICE), b(true, BOB); bool r = (a & b).reveal<bool>(PUBLIC); vx_check(r, "plaintext backend works in its thread"); } finalize_plain_prot();
	vx_thread(0); work(0, 0);
}

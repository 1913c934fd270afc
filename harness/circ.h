// gate-list extraction: a backend with opaque labels
#pragma once
#include "vx.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
extern "C" {
void vx_input(void *label, const char *name, int idx);
void vx_gate(void *out, int op, const void *a, const void *b);
void vx_pub(void *out, bool b);
void vx_feed(void *labels, int party, const bool *b, int n);
void vx_reveal(bool *b, int party, const void *labels, int n);
void vx_wire(const char *tag, int idx, const void *label);
}
struct NetExec : public CircuitExecution {
	block and_gate(const block &a, const block &b) override { block r; vx_gate(&r, '&', &a, &b); return r; }
	block xor_gate(const block &a, const block &b) override { block r; vx_gate(&r, '^', &a, &b); return r; }
	block not_gate(const block &a) override { block r; vx_gate(&r, '!', &a, &a); return r; }
	block public_label(bool b) override { block r; vx_pub(&r, b); return r; }
};
struct NetProt : public ProtocolExecution {
	void feed(block *l, int party, const bool *b, int n) override { vx_feed(l, party, b, n); }
	void reveal(bool *b, int party, const block *l, int n) override { vx_reveal(b, party, l, n); }
};
static inline void net_setup() { CircuitExecution::circ_exec = new NetExec; ProtocolExecution::prot_exec = new NetProt; }
static inline Integer inI(const char *name, int w) {
	vector<Bit> v;
	for (int i = 0; i < w; ++i) { block l; vx_input(&l, name, i); v.push_back(Bit(l)); }
	return Integer(v);
}
static inline Bit inB(const char *name, int i) { block l; vx_input(&l, name, i); return Bit(l); }
static inline void outI(const char *tag, const Integer &x) { for (size_t i = 0; i < x.bits.size(); ++i) vx_wire(tag, (int)i, &x.bits[i].bit); }
static inline void outB(const char *tag, int i, const Bit &x) { vx_wire(tag, i, &x.bit); }

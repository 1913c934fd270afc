// C01 C02 C04: garbling and evaluation over a faithful channel
#include "vx.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
// bytes go in at one end and come out at the other
struct Wire { unsigned char *buf; size_t sent, got; };
static Wire W;
class Chan : public IOChannel<Chan> { public:
	void send_data_internal(const void *d, size_t n) { vx_check(W.sent + n <= 65536, "harness channel size"); memcpy(W.buf + W.sent, d, n); W.sent += n; }
	void recv_data_internal(void *d, size_t n) { vx_check(W.got + n <= W.sent, "evaluator reads more than the generator sent"); memcpy(d, W.buf + W.got, n); W.got += n; }
	void flush() {}
	void sync() {}
};
static block fresh(const char *name, int i, bool lsb, bool force) {
	char nm[32]; int k = 0;
	while (name[k]) { nm[k] = name[k]; ++k; }
	nm[k++] = (char)('A' + i / 26 % 26); nm[k++] = (char)('A' + i % 26); nm[k++] = (char)('0' + i / 676); nm[k] = 0;
	block b; vx_fill(&b, 16, nm);
	if (force) { ((unsigned char *)&b)[0] &= 0xfe; if (lsb) ((unsigned char *)&b)[0] |= 1; }
	return b;
}
// start from a later gate index, where the scheme has one
template<class X> static auto at(X *x, uint64_t v, int) -> decltype((void)(x->gid = v), true) { x->gid = v; return true; }
template<class X> static auto at(X *x, uint64_t v, long) -> decltype((void)x->mitccrh.renew_ks(v), true) { x->mitccrh.renew_ks(v); return true; }
template<class X> static bool at(X *, uint64_t, ...) { return false; }
template<class X> static auto cnt(X *x, uint64_t v, int) -> decltype((void)(x->ands = v)) { x->ands = v; }
template<class X> static void cnt(X *, uint64_t, long) {}
template<class G, class E, bool PF> static void run() {
	W.buf = (unsigned char *)vx_buf(65536, 0); W.sent = W.got = 0;
	Chan cg, ce;
	G *g = new G(&cg);
	E *e = new E(&ce);
	vx_check(W.sent == W.got, "setup: bytes sent are bytes read");
	if (vx_param("redelta")) {
		block d; vx_fill(&d, 16, "newdelta");
		g->set_delta(d); e->set_delta();
		vx_check(W.sent == W.got, "set_delta: bytes sent are bytes read");
	}
	bool moved = vx_param("at") != 0 && at(g, vx_param("at"), 0);
	if (moved) at(e, vx_param("at"), 0);
	CircuitExecution *gg = g, *ee = e;
	if (moved) { cnt(g, vx_param("at"), 0); cnt(e, vx_param("at"), 0); }
	uint64_t base = gg->num_and(); vx_check(ee->num_and() == base, "both parties count alike"); if (!moved) vx_check(base == 0, "no AND gate yet");
	block delta = g->delta;
	vx_check(getLSB(delta), "lowest bit of the offset");
	if (vx_param("redelta")) { block d; vx_fill(&d, 16, "newdelta"); vx_check_eq((char *)&d + 1, (char *)&delta + 1, 15, "offset is the one given, with the lowest bit set"); }
	enum { N = 24 };
	block zero[N], act[N]; bool val[N];
	uint64_t vals = vx_param("vals"), prog = vx_param("seed");
	int steps = (int)vx_param("steps");
	for (int i = 0; i < N; ++i) {
		if (i < 2) { val[i] = i; zero[i] = gg->public_label(i); act[i] = ee->public_label(i); }
		else { val[i] = (vals >> i) & 1; zero[i] = fresh("L", i, false, PF); act[i] = val[i] ? (zero[i] ^ delta) : zero[i]; }
		block w = val[i] ? (zero[i] ^ delta) : zero[i];
		vx_check_eq(&act[i], &w, 16, i < 2 ? "label of a public constant" : "harness input");
		if (PF) vx_check(getLSB(act[i]) == val[i], "lowest bit of an active label is the value");
	}
	vx_check(W.sent == W.got && W.sent == W.got, "constants move no bytes");
	uint64_t ands = 0;
	for (int s = 0; s < steps; ++s) {
		prog = prog * 6364136223846793005ULL + 1442695040888963407ULL;
		int op = (int)(prog >> 60) % 8, x = (int)((prog >> 40) % N), y = (int)((prog >> 20) % N), z = 2 + (int)((prog >> 8) % (N - 2));
		if (vx_param("onlyand")) op = 0;
		size_t before = W.sent; uint64_t cb = cg.counter;
		block rg, re; bool v; const char *lab;
		if (op < 4) { rg = gg->and_gate(zero[x], zero[y]); re = ee->and_gate(act[x], act[y]); v = val[x] && val[y]; ++ands; lab = "AND gate";
			vx_check(W.sent == W.got, "AND gate: bytes sent are bytes read"); vx_check(W.sent > before, "AND gate sends its table"); }
		else if (op < 6) { rg = gg->xor_gate(zero[x], zero[y]); re = ee->xor_gate(act[x], act[y]); v = val[x] != val[y]; lab = "XOR gate"; }
		else if (op < 7) { rg = gg->not_gate(zero[x]); re = ee->not_gate(act[x]); v = !val[x]; lab = "NOT gate"; }
		else { v = (prog >> 16) & 1; rg = gg->public_label(v); re = ee->public_label(v); lab = "public constant"; }
		if (op >= 4) vx_check(W.sent == before && W.got == before && cg.counter == cb, "XOR, NOT and constants move no bytes");
		block w = v ? (rg ^ delta) : rg;
		vx_check_eq(&re, &w, 16, lab);
		if (PF) vx_check(getLSB(re) == v, "lowest bit of an active label is the value");
		vx_check(gg->num_and() - base == ands, "generator's AND counter"); vx_check(ee->num_and() - base == ands, "evaluator's AND counter");
		// cut: the relation holds for this wire, go on with an arbitrary label that satisfies it
		val[z] = v;
		if (op < 4) { zero[z] = fresh("M", s, false, PF); act[z] = v ? (zero[z] ^ delta) : zero[z]; }
		else { zero[z] = rg; act[z] = re; }
	}
	delete g; delete e;
}
extern "C" void h_half() { run<HalfGateGen<Chan>, HalfGateEva<Chan>, false>(); }
extern "C" void h_pf() { run<PrivacyFreeGen<Chan>, PrivacyFreeEva<Chan>, true>(); }

// no cut: outputs feed later gates as they are (few gates)
template<class G, class E, bool PF> static void chain() {
	W.buf = (unsigned char *)vx_buf(65536, 0); W.sent = W.got = 0;
	Chan cg, ce; G g(&cg); E e(&ce);
	CircuitExecution *gg = &g, *ee = &e;
	block delta = g.delta;
	int v = (int)vx_param("vals");
	block a0 = fresh("L", 0, false, PF), b0 = fresh("L", 1, false, PF);
	bool a = v & 1, b = v >> 1 & 1;
	block aa = a ? (a0 ^ delta) : a0, bb = b ? (b0 ^ delta) : b0;
	// (a & b) xor !a, then & b
	block g1 = gg->and_gate(a0, b0), e1 = ee->and_gate(aa, bb);
	block g2 = gg->xor_gate(g1, gg->not_gate(a0)), e2 = ee->xor_gate(e1, ee->not_gate(aa));
	bool v2 = (a && b) != !a;
	block w = v2 ? (g2 ^ delta) : g2;
	vx_check_eq(&e2, &w, 16, "label after AND, NOT, XOR");
}
extern "C" void h_half_chain() { chain<HalfGateGen<Chan>, HalfGateEva<Chan>, false>(); }
extern "C" void h_pf_chain() { chain<PrivacyFreeGen<Chan>, PrivacyFreeEva<Chan>, true>(); }

// what the evaluator sees (C02): active labels are the symbols, LSBs fixed per context
template<class G, bool PF> static void view() {
	W.buf = (unsigned char *)vx_buf(65536, 0); W.sent = W.got = 0;
	Chan cg; G *g = new G(&cg); CircuitExecution *gg = g;
	vx_out("setup", 0, W.buf, W.sent);
	size_t pos = W.sent;
	if (vx_param("redelta")) { block d; vx_fill(&d, 16, "rnd:newdelta"); g->set_delta(d); vx_out("setup", 1, W.buf + pos, W.sent - pos); pos = W.sent; }
	if (vx_param("at")) at(g, vx_param("at"), 0);
	block delta = g->delta;
	vx_out("delta", 0, &delta, 16);
	uint64_t vals = vx_param("vals"), lsb = vx_param("lsb");
	enum { N = 5 };
	block z[N + 5]; bool v[N + 5];
	for (int i = 0; i < N; ++i) {
		v[i] = (vals >> i) & 1;
		block a = fresh("A", i, PF ? v[i] : (lsb >> i) & 1, true);
		vx_out("active", i, &a, 16);
		z[i] = v[i] ? (a ^ delta) : a;
	}
	z[N] = gg->xor_gate(z[0], z[1]); v[N] = v[0] != v[1];
	z[N + 1] = gg->not_gate(z[1]); v[N + 1] = !v[1];
	z[N + 2] = gg->xor_gate(z[N], z[2]); v[N + 2] = v[N] != v[2];
	z[N + 3] = gg->public_label(true); v[N + 3] = true;
	z[N + 4] = gg->public_label(false); v[N + 4] = false;
	int kind = (int)vx_param("kind"), steps = (int)vx_param("steps");
	for (int s = 0; s < steps; ++s) {
		int x, y;
		if (s == steps / 2 && vx_param("jump")) at(g, vx_param("at") + vx_param("jump"), 0);   // as if that many gates had been garbled
		switch (kind) {
		case 0: x = 0; y = 1; break;                       // the same gate again and again
		case 1: x = s % N; y = (s + 1 + s / N) % N; break; // shared inputs
		case 2: x = (s * 3) % (N + 3); y = (s * 5 + 1) % (N + 3); break;
		case 3: x = s % 2; y = x; break;                   // a & a
		case 4: x = s % 3; y = N + 3 + s % 2; break;       // with constants
		case 5: x = N + 3 + s % 2; y = s % 3; break;
		default: x = 0; y = s % 2 ? 1 : N + 1; break;      // b and !b
		}
		block r = gg->and_gate(z[x], z[y]);
		vx_out("table", s, W.buf + pos, W.sent - pos); pos = W.sent;
		bool rv = v[x] && v[y];
		block act = rv ? (r ^ delta) : r;
		vx_out("out", s, &act, 16);
	}
	delete g;
}
extern "C" void h_half_view() { view<HalfGateGen<Chan>, false>(); }
extern "C" void h_pf_view() { view<PrivacyFreeGen<Chan>, true>(); }

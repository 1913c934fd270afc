import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make
H = '#include "emp-tool/emp-tool.h"\n#include <cstdio>\n#include <vector>\nusing namespace emp;\n'
make("shift-log-floor", "C06", [["emp-tool/circuits/integer.hpp", "for(size_t i = 0; i <min(size_t(ceil(log2(size()))) , shamt.size()-1); ++i)\n		res = res.select(shamt[i], res>>", "for(size_t i = 0; i <min(size_t(log2(size())) , shamt.size()-1); ++i)\n		res = res.select(shamt[i], res>>"]],
H + r'''int main(){ setup_plain_prot(false, ""); for (int w = 2; w <= 40; ++w) for (int s = 0; s < w && s < 32; ++s) { Integer a(w, 0x5a96c3e1f, ALICE), b(w < 8 ? 8 : w, s, BOB); uint64_t x = 0x5a96c3e1fULL & ((1ULL << w) - 1);
 if ((a >> b).reveal<uint64_t>() != x >> s) { printf("width %d >> %d\n", w, s); return 1; } } return 0; }''',
"right shift by a secret amount at a width that is no power of two, amount at least the largest power of two below the width", "the top bit of the shift amount is ignored")
make("sort-merge-half", "C07", [["emp-tool/circuits/number.h", "for (int i = lo; i < lo + n - m; i++)", "for (int i = lo; i < lo + n / 2 && i + m < lo + n; i++)"], ["emp-tool/circuits/number.h", "	while (k < n)\n		k = k << 1;\n	return k >> 1;", "	while (2 * k <= n)\n		k = k << 1;\n	return k == n ? n >> 1 : k - (n - k > 2);"]],
H + r'''int main(){ setup_plain_prot(false, ""); for (int n = 1; n < 24; ++n) for (int t = 0; t < 6; ++t) { std::vector<Integer> v; std::vector<int> p; unsigned s = 77 * n + t; for (int i = 0; i < n; ++i) { s = s * 1103515245u + 12345u; int x = (int)(s >> 16) % 200 - 100; p.push_back(x); v.push_back(Integer(16, x, ALICE)); }
 sort(v.data(), n); std::sort(p.begin(), p.end()); for (int i = 0; i < n; ++i) if ((int16_t)v[i].reveal<uint32_t>() != p[i]) { printf("n=%d\n", n); return 1; } } return 0; }''',
"sorting a number of keys that is no power of two", "the network for such sizes is not a sorting network")
make("int-to-bool-unsigned", "C09", [["emp-tool/utils/utils.hpp", "	for (int i = 0; i < len; ++i) {\n		data[i] = (input & 1)==1;\n		input >>= 1;\n	}", "	uint64_t v = (uint64_t)input;\n	for (int i = 0; i < len; ++i) {\n		data[i] = (v & 1)==1;\n		v >>= 1;\n	}"]],
H + r'''int main(){ setup_plain_prot(false, ""); Integer a(100, -5, ALICE); std::string s = a.reveal<std::string>(); for (int i = 3; i < 100; ++i) if (s[i] != '1') { puts(s.c_str()); return 1; } return 0; }''',
"a negative host value in an integer wider than 64 bits", "the bits above 63 are zero instead of the sign")
make("fashion-wires-shrink", "C12", [["emp-tool/circuits/circuit_file.h", "			num_output += tmp;\n		}\n\n		char str[10];\n		gates.resize(num_gate*4);\n		wires.resize(num_wire);", "			num_output += tmp;\n		}\n\n		char str[10];\n		gates.resize(num_gate*4);\n		if ((int)wires.size() < num_wire)\n			wires.resize(num_wire);"],
 ["emp-tool/circuits/circuit_file.h", "memcpy(out, wires.data()+(num_wire-num_output), num_output*sizeof(block));", "memcpy(out, wires.data()+(wires.size()-num_output), num_output*sizeof(block));"]],
H + r'''int main(){ setup_plain_prot(false, ""); const char *big = "3 5\n1 2\n1 1\n\n2 1 0 1 2 AND\n1 1 2 3 INV\n2 1 3 0 4 XOR\n", *small = "1 3\n1 2\n1 1\n\n2 1 0 1 2 AND\n";
 FILE *f = fmemopen((void *)big, strlen(big), "r"); BristolFashion c(f); fclose(f); Bit in[2] = {Bit(true, ALICE), Bit(true, BOB)}, out; c.compute(&out, in); if (!out.reveal<bool>()) { /* 1^!(1)=1 */ puts("first"); return 1; }
 f = fmemopen((void *)small, strlen(small), "r"); c.from_file(f); fclose(f); in[1] = Bit(false, BOB); c.compute(&out, in); if (out.reveal<bool>()) { puts("stale output"); return 1; } in[0] = Bit(true, ALICE); in[1] = Bit(true, BOB); Bit o2; c.compute(&o2, in); if (!o2.reveal<bool>()) return 1; return 0; }''',
"a smaller circuit loaded into an object that held a larger one", "outputs are read from wires of the earlier circuit")
make("plain-is-public-one", "C05", [["emp-tool/execution/plain_circ.h", "return arr[0] == P0 or arr[0] == P1;", "return arr[0] == P0 or arr[0] == P1 + 1;"]],
H + r'''int main(){ setup_plain_prot(true, "rec.txt"); { Bit a(false, ALICE), b(true, BOB), one(true, PUBLIC); Bit c = a & b; c.reveal<bool>(); one.reveal<bool>(); } finalize_plain_prot();
 setup_plain_prot(false, ""); BristolFormat bf("rec.txt"); Bit a(false, ALICE), b(true, BOB), o[2]; bf.compute(o, &a, &b); if (o[0].reveal<bool>() || !o[1].reveal<bool>()) { puts("recorded circuit differs"); return 1; } return 0; }''',
"revealing a public constant one while recording", "the recorded circuit outputs the first input wire instead of 1")
make("float-leq-negative", "C10", [["emp-tool/circuits/float32_leq.cpp", "465, 467, 468, 0, ", "465, 467, 468, 1, "]],
H + r'''static void run(float x, float y) { Float a(x, ALICE), b(y, BOB); if (a.less_equal(b).reveal<bool>() != (x <= y)) { printf("%g <= %g\n", x, y); exit(1); } }
int main(){ setup_plain_prot(false, ""); float v[] = {0.f, -0.f, 1.f, -1.f, 2.5f, -2.5f, 1e30f, -1e30f, 1e-30f, -1e-30f, 123.f, -123.f, INFINITY, -INFINITY}; for (float x : v) for (float y : v) run(x, y); return 0; }''',
"comparing two equal negative floats (or similar)", "less-or-equal is wrong", srcs=["emp-tool/emp-tool.cpp", "emp-tool/circuits/float32_leq.cpp"])
make("float-mul-rounding", "C11", [["emp-tool/circuits/float32_mul.cpp", "\n3246, 3249, 3250, 0, ", "\n3246, 3249, 3250, 1, "]],
H + r'''int main(){ setup_plain_prot(false, ""); unsigned s = 1; for (int i = 0; i < 60000; ++i) { s = s * 1664525u + 1013904223u; uint32_t u = (s & 0x807fffff) | (120 + (s >> 23 & 15)) << 23; s = s * 1664525u + 1013904223u; uint32_t w = (s & 0x807fffff) | (120 + (s >> 23 & 15)) << 23; float x, y; memcpy(&x, &u, 4); memcpy(&y, &w, 4);
 Float a(x, ALICE), b(y, BOB); float r = (float)(a * b).reveal<double>(); volatile float m = x * y; float mm = m; if (memcmp(&r, &mm, 4)) { printf("%a * %a\n", x, y); return 1; } }
 uint32_t u = 0xdecd0c97, w = 0xdb154ae6; float x, y; memcpy(&x, &u, 4); memcpy(&y, &w, 4); Float a(x, ALICE), b(y, BOB); float r = (float)(a * b).reveal<double>(); volatile float m = x * y; return r != m; }''',
"operands whose product hits one particular carry pattern (about one in 4000)", "the product is one unit in the last place off", srcs=["emp-tool/emp-tool.cpp", "emp-tool/circuits/float32_mul.cpp"])

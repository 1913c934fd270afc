import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make
H = '#include "emp-tool/emp-tool.h"\n#include <cstdio>\n#include <vector>\nusing namespace emp;\n'
make("privacyfree-tweak-32", "C04", [["emp-tool/gc/privacy_free_eva.h", "const block &table, uint64_t idx, ", "const block &table, uint32_t idx, "]],
H + r'''#include "emp-tool/gc/privacy_free_gen.h"
#include "emp-tool/gc/privacy_free_eva.h"
int main(){ PRP prp; PRG g; for (int sh = 0; sh < 62; ++sh) for (int v = 0; v < 4; ++v) { block x[3]; g.random_block(x, 3); block d = set_bit(x[0], 0), a = x[1], b = x[2], t; *(char *)&a &= 0xfe; *(char *)&b &= 0xfe;
 uint64_t id = (1ULL << sh) + 5; block o = privacy_free_garble(a, a ^ d, b, b ^ d, d, &t, id, &prp.aes); block ea = (v & 1) ? a ^ d : a, eb = (v & 2) ? b ^ d : b; block e = privacy_free_eval(ea, eb, t, id, &prp.aes); block w = v == 3 ? o ^ d : o; if (!cmpBlock(&e, &w, 1)) { printf("gate %llu values %d\n", (unsigned long long)id, v); return 1; } } return 0; }''',
"more than 2^31 AND gates in one execution", "the evaluator's tweak wraps and its labels no longer match the generator's")
make("prg-leftover-repeat", "C14", [["emp-tool/utils/prg.h", "            while (remaining_bytes > 0) {\n                block tmp;\n                random_block(&tmp, 1);\n", "            block tmp;\n            if (remaining_bytes > 0)\n                random_block(&tmp, 1);\n            while (remaining_bytes > 0) {\n"]],
H + r'''int main(){ alignas(16) static unsigned char buf[4096]; block s = makeBlock(3, 4); for (int off = 0; off < 16; ++off) for (int n = 1; n < 200; ++n) { PRG g(&s); memset(buf, 0xa5, sizeof buf); g.random_data_unaligned(buf + off, n); for (int i = 0; i + 16 <= n; ++i) for (int j = i + 8; j + 8 <= n; ++j) if (!memcmp(buf + off + i, buf + off + j, 8)) { printf("off %d n %d: bytes %d and %d repeat\n", off, n, i, j); return 1; } } return 0; }''',
"an unaligned destination that leaves more than 16 bytes behind the aligned middle", "the last bytes repeat a block already handed out")
make("rdseed-second-unchecked", "C15", [["emp-tool/utils/prg.h", "			for(i = 0; i < 10; ++i)\n				if((_rdseed64_step(&r1) == 1) && (r1 != ULLONG_MAX) && (r1 != 0)) break;\n			if(i == 10)error(\"RDSEED FAILURE\");\n", "			r1 = r0;\n			for(i = 0; i < 10; ++i)\n				if((_rdseed64_step(&r1) == 1) && (r1 != ULLONG_MAX) && (r1 != 0)) break;\n"]],
r'''#include <immintrin.h>
#include <x86intrin.h>
#include <cstdio>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
static int script = 0, calls = 0;
static int my_rdseed(unsigned long long *p) { ++calls; if (script >= 0 && calls > script) return 0; *p = 0x1234567890abcdefULL * (unsigned)calls + 77; return 1; }
#define _rdseed64_step my_rdseed
#define ENABLE_RDSEED
#include "emp-tool/utils/prg.h"
int main(){ for (int s = 0; s < 3; ++s) { pid_t p = fork(); if (!p) { script = s; emp::PRG g; _exit(s == 2 ? 0 : 7); } int st = 0; waitpid(p, &st, 0); int e = WIFEXITED(st) ? WEXITSTATUS(st) : 99; if (s == 2 ? e != 0 : (e == 7 || e == 0)) { printf("entropy source gave %d values: exit %d\n", s, e); return 1; } } return 0; }''',
"a hardware entropy source that fails for the second half of the seed", "the generator goes on with a 64-bit seed")
make("selfxor-tail", "C17", [["emp-tool/utils/f2k.h", "	for(int i = (sz/4)*4, j = 0; i < sz; ++i, ++j)\n		res[j] = data[i] ^ res[j];\n", "	int rem = sz % 4;\n	if(rem > 0)\n		res[0] = data[sz - 1] ^ res[0];\n	if(rem > 1)\n		res[1] = data[sz - 2] ^ res[1];\n	if(rem > 2)\n		res[2] = data[sz - 2] ^ res[2];\n"]],
H + """int main(){ PRG g; block d[64]; g.random_block(d, 64); for (int n = 0; n < 64; ++n) { block r, s = zero_block; vector_self_xor(&r, d, n); for (int i = 0; i < n; ++i) s = s ^ d[i]; if (!cmpBlock(&r, &s, 1)) { printf("n=%d\\n", n); return 1; } } return 0; }""",
"a vector whose length is 3 modulo 4", "two of the last three entries are left out of the sum")
make("transpose-narrow-tail", "C18", [["emp-tool/utils/block.h", "    for (cc = 0; cc + 16 <= ncols; cc += 16) {\n      for (i = 0; i < 8; ++i) {\n        tmp.b[i] = h = *(uint16_t const *)&INP(rr + i, cc);\n        tmp.b[i + 8] = h >> 8;", "    for (cc = 0; cc + 16 <= ncols; cc += 16) {\n      for (i = 0; i < 8; ++i) {\n        tmp.b[i] = h = *(uint16_t const *)(&inp[rr * ncols / 8] + i * (uint8_t)(ncols / 8) + cc / 8);\n        tmp.b[i + 8] = h >> 8;"]],
H + r'''int main(){ int rs[] = {8, 16, 24, 40}, cs[] = {8, 16, 24, 40, 128, 136, 1024, 2040, 2048, 2056, 2064, 4096}; for (int r : rs) for (int c : cs) { std::vector<uint8_t> in(r * c / 8), out(r * c / 8); unsigned s = r * 31 + c; for (auto &x : in) { s = s * 1664525u + 1013904223u; x = s >> 24; }
 sse_trans(out.data(), in.data(), r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { int a = in[(i * c + j) / 8] >> ((i * c + j) % 8) & 1, b = out[(j * r + i) / 8] >> ((j * r + i) % 8) & 1; if (a != b) { printf("%dx%d at %d,%d\n", r, c, i, j); return 1; } } } return 0; }''',
"a row count that is no multiple of 16 and at least 2048 columns", "the last eight rows are read from the wrong place")
make("point-batch-size", "C19", [["emp-tool/io/io_channel.h", "		for(size_t i = 0; i < num_pts; ++i) {\n			size_t len = A[i].size();\n			A[i].group->resize_scratch(len);", "		if (num_pts == 0) return;\n		size_t len = A[0].size();\n		for(size_t i = 0; i < num_pts; ++i) {\n			A[i].group->resize_scratch(len);"]],
H + r'''int main(){ Group G; Point g = G.get_generator(), n = g.inv(), inf = g.add(n), two = g.add(g); Point a[4] = {g, inf, two, inf}, b[4]; MemIO io; io.send_pt(a, 4); char mark = 7; io.send_data(&mark, 1); io.recv_pt(&G, b, 4); char m = 0; io.recv_data(&m, 1); if (m != 7) return 2; for (int i = 0; i < 4; ++i) if (!(a[i] == b[i])) return 3; return 0; }''',
"a batch of points that holds a finite point first and the point at infinity later", "the encoding announces the wrong length for the point at infinity")
make("memio-growth", "C20", [["emp-tool/io/mem_io_channel.h", "			char * new_buffer = new char[2*(cap+len)];\n", "			char * new_buffer = new char[2*cap];\n"], ["emp-tool/io/mem_io_channel.h", "			cap = 2*(cap + len);", "			cap = 2*cap;"]],
H + r'''int main(){ for (int cap = 1; cap < 40; ++cap) for (int l = 1; l < 90; ++l) { MemIO io(cap); std::vector<char> v; for (int k = 0; k < 6; ++k) { std::vector<char> d(l + k); for (auto &x : d) x = (char)(v.size() * 7 + k); io.send_data(d.data(), d.size()); v.insert(v.end(), d.begin(), d.end()); if (io.size > io.cap) return 2; } std::vector<char> r(v.size()); io.recv_data(r.data(), r.size()); if (r != v) return 3; } return 0; }''',
"a message larger than the room that doubling the buffer gives", "the bytes are written behind the buffer", flags="-fsanitize=address")
make("highspeed-empty-recv", "C21", [["emp-tool/io/highspeed_net_io_channel.h", "		if (FSM == 2) {\n			schannel->flush();\n		}", "		if (FSM == 2 && len > 0) {\n			schannel->flush();\n		}"]],
H + r"""#include <sys/wait.h>
#include <unistd.h>
#include "emp-tool/io/highspeed_net_io_channel.h"
int main(){ int port = 20000 + getpid() % 20000; pid_t p = fork(); if (!p) { alarm(60); HighSpeedNetIO io("127.0.0.1", port, port + 1); char c = 0; io.recv_data(&c, 1); c += 1; io.send_data(&c, 1); io.recv_data(&c, 1); _exit(0); }
 alarm(20); HighSpeedNetIO io(nullptr, port, port + 1); char c = 5; io.send_data(&c, 1); io.recv_data(&c, 0); io.recv_data(&c, 1); return c != 6; }""",
"a zero-length receive between a send and the receive of the answer", "the message stays in the buffer and both parties wait for ever")
make("kdf-short-id", "C22", [["emp-tool/utils/hash.h", "		memcpy(tmp+len, &id, 8);", "		memset(tmp+len, 0, 8);\n		memcpy(tmp+len, &id, (id >> 32) == 0 ? 8 : 4);"]],
H + r'''int main(){ Group G; Point g = G.get_generator(); uint64_t ids[] = {0, 1, 0xffffffffULL, 0x100000000ULL, 0x1234567890ULL, ~0ULL}; for (uint64_t id : ids) { unsigned char b[200]; size_t n = g.size(); g.to_bin(b, n); memcpy(b + n, &id, 8); block e = Hash::hash_for_block(b, n + 8), k = Hash::KDF(g, id); if (!cmpBlock(&e, &k, 1)) { printf("id %llx\n", (unsigned long long)id); return 1; } } return 0; }''',
"a key-derivation id of 2^32 or more", "ids that differ only in their upper half give the same key")
make("pool-drop-backlog", "C23", [["emp-tool/utils/ThreadPool.h", "        std::unique_lock<std::mutex> lock(queue_mutex);\n        stop = true;\n    }\n    condition.notify_all();", "        std::unique_lock<std::mutex> lock(queue_mutex);\n        stop = true;\n        if(workers.size() == 1)\n            condition.notify_one();\n        else\n            condition.notify_all();\n    }"], ["emp-tool/utils/ThreadPool.h", "                        if(this->stop && this->tasks.empty())\n                            return;", "                        if(this->stop && this->tasks.size() < 2)\n                            return;"]],
H + r'''#include <atomic>
#include <unistd.h>
int main(){ for (int w = 1; w < 4; ++w) for (int n = 0; n < 12; ++n) { std::atomic<int> c(0); { ThreadPool p(w); for (int i = 0; i < n; ++i) p.enqueue([&c] { usleep(2000); ++c; }); } if (c != n) { printf("%d workers, %d tasks, %d run\n", w, n, (int)c); return 1; } } return 0; }''',
"destroying the pool while a task is still queued", "a task accepted before the shutdown never runs")
make("frombin-leak", "C24", [["emp-tool/utils/group_openssl.h", "	if (point == nullptr) {\n		group = g;\n		point = EC_POINT_new(group->ec_group);\n	}", "	if (point == nullptr || group != g) {\n		group = g;\n		point = EC_POINT_new(group->ec_group);\n	}"]],
r'''#include <openssl/crypto.h>
#include <cstdlib>
static long live = 0;
static void *m(size_t n, const char *, int) { void *p = malloc(n); if (p) ++live; return p; }
static void *r(void *p, size_t n, const char *, int) { if (!p) ++live; return realloc(p, n); }
static void f(void *p, const char *, int) { if (p) --live; free(p); }
#include "emp-tool/emp-tool.h"
#include <cstdio>
using namespace emp;
int main(){ if (!CRYPTO_set_mem_functions(m, r, f)) return 5; Group G, H; unsigned char b[200]; size_t n; { Point g = G.get_generator(); n = g.size(); g.to_bin(b, n); } long first = 0; for (int k = 0; k < 6; ++k) { { Point p = G.get_generator(); p.from_bin(&H, b, n); Point q = H.get_generator(); if (!(p == q)) return 3; } if (k == 2) first = live; } if (live != first) { printf("%ld blocks leaked\n", live - first); return 1; } return 0; }''',
"decoding into a point that already belongs to another group object", "the point it held is never freed")
make("listener-leak", "C26", [["emp-tool/io/highspeed_net_io_channel.h", "		int sock = accept(mysocket, (struct sockaddr *)&dest, &socksize);\n		close(mysocket);\n		return sock;", "		int sock = accept(mysocket, (struct sockaddr *)&dest, &socksize);\n		if (not quiet) close(mysocket);\n		return sock;"]],
H + r'''#include <dirent.h>
#include <sys/wait.h>
#include <unistd.h>
#include "emp-tool/io/highspeed_net_io_channel.h"
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
int main(){ int port = 20000 + getpid() % 20000; pid_t p = fork(); if (!p) { alarm(60); HighSpeedNetIO io("127.0.0.1", port, port + 1); _exit(0); } alarm(60); int a = fds(); { HighSpeedNetIO io(nullptr, port, port + 1); } int b = fds(); int st; waitpid(p, &st, 0); if (a != b) printf("%d descriptors before, %d after\n", a, b); return a != b; }''',
"a listening dual-socket channel in quiet mode", "both listening sockets stay open")
make("backend-shared", "C27", [["emp-tool/execution/circuit_execution.h", "#else\n	static __thread CircuitExecution * circ_exec;", "#elif defined(__APPLE__)\n	static __thread CircuitExecution * circ_exec;\n#else\n	static CircuitExecution * circ_exec;"], ["emp-tool/emp-tool.cpp", "__thread emp::CircuitExecution* emp::CircuitExecution::circ_exec = nullptr;", "#ifdef __APPLE__\n__thread\n#endif\nemp::CircuitExecution* emp::CircuitExecution::circ_exec = nullptr;"]],
"#define THREADING\n" + H + r'''#include <thread>
int main(){ setup_plain_prot(false, ""); CircuitExecution *mine = CircuitExecution::circ_exec; ProtocolExecution *pr = ProtocolExecution::prot_exec; bool other = true, other2 = true; std::thread t([&] { other = CircuitExecution::circ_exec == nullptr; other2 = ProtocolExecution::prot_exec == nullptr; setup_plain_prot(false, ""); Integer a(8, 3, ALICE); }); t.join(); return !(other && other2 && CircuitExecution::circ_exec == mine && ProtocolExecution::prot_exec == pr); }''',
"a build with THREADING and two threads with a backend each", "one thread's gates go to another thread's backend", flags="-DTHREADING")
make("connect-gives-up", "C30", [["emp-tool/io/net_io_channel.h", "			while(1) {\n				consocket = socket(AF_INET, SOCK_STREAM, 0);", "			for(int attempt = 0; attempt < 2000; ++attempt) {\n				consocket = socket(AF_INET, SOCK_STREAM, 0);"]],
H + r'''#include <sys/wait.h>
#include <unistd.h>
int main(){ int port = 20000 + getpid() % 20000; pid_t p = fork(); if (!p) { alarm(60); NetIO io("127.0.0.1", port, true); char c = 3; io.send_data(&c, 1); io.flush(); _exit(0); }
 int st = 0; for (int i = 0; i < 60; ++i) { usleep(100000); if (waitpid(p, &st, WNOHANG) == p) { puts("client ended before the server was up"); return 1; } } alarm(40); NetIO io(nullptr, port, true); char c = 0; io.recv_data(&c, 1); waitpid(p, &st, 0); return c != 3 || st != 0; }''',
"a peer that starts more than about two seconds later", "the client stops trying and uses a closed socket")
make("sha3-full-block", "C28", [["emp-tool/circuits/sha3_256.h", "				for (j = 0; j < input_sizes[i]; ++j) {\n					blocks[keccak_address_translator(index)] =\n						CircuitExecution::circ_exec->xor_gate(blocks[keccak_address_translator(index)],\n								inputs[i][j]);\n					++index;\n					if (index == 1088) {\n						keccak_f->compute(blocks, blocks);\n						index = 0;\n					}\n				}", "				for (j = 0; j < input_sizes[i]; ++j) {\n					if (index == 1088) {\n						keccak_f->compute(blocks, blocks);\n						index = 0;\n					}\n					blocks[keccak_address_translator(index)] =\n						CircuitExecution::circ_exec->xor_gate(blocks[keccak_address_translator(index)],\n								inputs[i][j]);\n					++index;\n				}"]],
H + r"""static char text[1 << 20]; unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[1 << 20]; unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len;
#include "emp-tool/circuits/sha3_256.h"
static size_t T(size_t i) { return 8 * (199 - i / 8) + i % 8; }
static void perm(std::vector<int> &s) { std::vector<int> o(1600); for (int i = 0; i < 1600; ++i) o[i] = s[i] ^ s[(i + 301) % 1600]; s = o; }
int main(){ int n = sprintf(text, "1600 3200\n1 1600\n1 1600\n\n"); for (int i = 0; i < 1600; ++i) n += sprintf(text + n, "2 1 %d %d %d XOR\n", i, (i + 301) % 1600, 1600 + i); memcpy(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt, text, n); emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = n;
 setup_plain_prot(false, ""); SHA3_256_Calculator c; size_t ns[] = {0, 1, 135, 136, 137, 271, 272}; for (size_t by : ns) { size_t m = 8 * by; std::vector<int> bits(m + 1); std::vector<block> in(m + 1); for (size_t i = 0; i < m; ++i) { bits[i] = (i * 2654435761u >> 13) & 1; in[i] = Bit(bits[i], PUBLIC).bit; }
 std::vector<int> st(1600, 0); size_t k = 0; for (size_t i = 0; i < m; ++i) { st[T(k)] ^= bits[i]; if (++k == 1088) { perm(st); k = 0; } } st[T(k + 1)] ^= 1; st[T(k + 2)] ^= 1; st[T(1087)] ^= 1; perm(st);
 std::vector<block> o(256); c.sha3_256(o.data(), in.data(), m); for (int i = 0; i < 256; ++i) { Bit b; b.bit = o[i]; if (b.reveal<bool>() != (bool)st[T(i)]) { printf("%d bytes\n", (int)by); return 1; } } } return 0; }""",
"a message of exactly a multiple of 136 bytes given as wires", "the padding lands outside the rate part of the block")
make("tccrh-id-32", "C16", [["emp-tool/utils/tccrh.h", "void Hn(block*out, block* in, uint64_t id, int length, block * scratch = nullptr) {", "void Hn(block*out, block* in, unsigned id, int length, block * scratch = nullptr) {"]],
H + """int main(){ TCCRH h; block in[4], o[4]; PRG().random_block(in, 4); uint64_t ids[] = {0, 7, 0xfffffffeULL, 0x100000000ULL, 0x7fffffffffffff00ULL}; for (uint64_t id : ids) { h.Hn(o, in, id, 4); for (int i = 0; i < 4; ++i) { block e = h.H(in[i], id + i); if (!cmpBlock(&e, &o[i], 1)) { printf("id %llx + %d\\n", (unsigned long long)id, i); return 1; } } } return 0; }""",
"tweaks of 2^32 and more in the array form", "the array form uses another tweak than the single form and repeats tweaks")
make("ctr-chunk-signed", "C25", [["emp-tool/circuits/aes_128_ctr.h", "				uint64_t start_chunks[2];\n				start_chunks[1] = 0;\n				start_chunks[0] = start_chunk;\n				this->counter = this->counter + emp::Integer(128, start_chunks, party);", "				this->counter = this->counter + emp::Integer(128, (int64_t) start_chunk, party);"]],
H + """unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[4 << 20]; unsigned int emp_tool_circuits_files_bristol_fashion_aes_128_txt_len;
#include "emp-tool/circuits/aes_128_ctr.h"
int main(){ FILE *f = fopen(SRC "/emp-tool/circuits/files/bristol_fashion/aes_128.txt", "r"); if (!f) return 9; emp_tool_circuits_files_bristol_fashion_aes_128_txt_len = fread(emp_tool_circuits_files_bristol_fashion_aes_128_txt, 1, 4 << 20, f); fclose(f); setup_plain_prot(false, ""); AES_128_CTR_Calculator c; block k = makeBlock(0x1122334455667788ULL, 0x99aabbccddeeff00ULL), v = makeBlock(5, 6); Integer ki(128, &k, ALICE), vi(128, &v, ALICE); uint64_t cs[] = {0, 1, 1000, 1ULL << 40, 1ULL << 63, ~0ULL - 5}; for (uint64_t s : cs) { uint8_t h[32], g[32] = {0}; aes_128_ctr<uint8_t>(k, v, nullptr, h, 32, s); std::vector<block> o(256); c.aes_128_ctr(&ki.bits[0].bit, &vi.bits[0].bit, nullptr, o.data(), 256, PUBLIC, s); for (int i = 0; i < 256; ++i) { Bit b; b.bit = o[i]; g[i / 8] |= (uint8_t)b.reveal<bool>() << (i % 8); } if (memcmp(h, g, 32)) { printf("chunk %llx\\n", (unsigned long long)s); return 1; } } return 0; }""",
"a chunk number of 2^63 or more with key and IV inside the circuit", "the key stream is taken from another counter value", flags="""-DSRC='"'$PWD'"'""")
make("aes-decrypt-pairs", "C13", [["emp-tool/utils/aes.h", "    for (i = 0; i < nblks; ++i)\n        blks[i] = _mm_aesdeclast_si128(blks[i], key->rd_key[j]);", "    for (i = 0; i + 4 <= nblks; i += 4) {\n        blks[i] = _mm_aesdeclast_si128(blks[i], key->rd_key[j]);\n        blks[i+1] = _mm_aesdeclast_si128(blks[i+1], key->rd_key[j]);\n        blks[i+2] = _mm_aesdeclast_si128(blks[i+2], key->rd_key[j]);\n        blks[i+3] = _mm_aesdeclast_si128(blks[i+3], key->rd_key[j]);\n    }\n    if (nblks & 2) {\n        blks[i] = _mm_aesdeclast_si128(blks[i], key->rd_key[j]);\n        blks[i+1] = _mm_aesdeclast_si128(blks[i+1], key->rd_key[j]);\n    }\n    if (nblks & 1)\n        blks[i] = _mm_aesdeclast_si128(blks[i], key->rd_key[j]);"]],
H + """int main(){ block k; PRG().random_block(&k, 1); AES_KEY e, d; AES_set_encrypt_key(k, &e); AES_set_decrypt_key(k, &d); for (int n = 0; n < 40; ++n) { std::vector<block> a(n + 1), b; PRG().random_block(a.data(), n + 1); b = a; AES_ecb_encrypt_blks(b.data(), n, &e); AES_ecb_decrypt_blks(b.data(), n, &d); if (!cmpBlock(a.data(), b.data(), n + 1)) { printf("n=%d\\n", n); return 1; } } return 0; }""",
"decrypting a number of blocks that is 3 modulo 4", "one block gets the last round twice, another not at all")

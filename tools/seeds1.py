import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make
H = '#include "emp-tool/emp-tool.h"\n#include <cstdio>\n#include <vector>\nusing namespace emp;\n'
make("mitccrh-index-32", "C03", [["emp-tool/utils/mitccrh.h", "start_point ^ makeBlock(gid++, 0)", "start_point ^ makeBlock((uint32_t)gid++, 0)"]],
H + r'''int main(){ MITCCRH<8> a, b; block s = makeBlock(7, 9); a.setS(s); b.setS(s); a.renew_ks(0); b.renew_ks(1ULL << 32);
 block x[2] = {makeBlock(1, 1), makeBlock(2, 2)}, y[2] = {x[0], x[1]}; a.hash<2, 1>(x); b.hash<2, 1>(y); if (cmpBlock(x, y, 2)) { puts("key index reused after 2^32 groups"); return 1; } return 0; }''',
"more than 2^32 groups hashed under one start point (or a start index above 2^32)", "key indices repeat after 2^32 groups")
make("halfgate-offset-reuse", "C02", [["emp-tool/gc/halfgate_gen.h", "		PRG().random_block(tmp, 2);\n		set_delta(tmp[0]);", "		PRG().random_block(tmp, 1);\n		tmp[1] = tmp[0];\n		set_delta(tmp[0]);"]],
H + r'''struct C : IOChannel<C> { std::vector<unsigned char> v; void send_data_internal(const void *d, size_t n) { v.insert(v.end(), (const unsigned char *)d, (const unsigned char *)d + n); } void recv_data_internal(void *, size_t) {} };
int main(){ C c; HalfGateGen<C> g(&c); for (size_t k = 0; k + 16 <= c.v.size(); k += 16) { block b; memcpy(&b, c.v.data() + k, 16); b = b ^ g.delta; uint64_t *p = (uint64_t *)&b; if (p[0] < 2 && p[1] == 0) { puts("offset sent to the evaluator"); return 1; } } return 0; }''',
"looking at the setup messages of the generator", "the hash start point sent to the evaluator reveals the global offset")

// C30: endpoints of socket channels
#include "vx.h"
#include "emp-tool/emp-tool.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
using namespace emp;
extern "C" {
void vx_run2(const char *a, const char *b);
void vx_released(const char *label);
void vx_heap_mark();
void vx_heap_same(const char *label);
void vx_tok(void *p, size_t n, int stream, uint64_t pos);
void vx_tokcheck(const void *p, size_t n, int stream, uint64_t pos, const char *label);
}
static const char *const ADDR[] = {"127.0.0.1", "10.1.2.3", "192.168.255.1", "255.0.254.7"};
static const char *addr() { return ADDR[vx_param("addr")]; }
template<class IO> static void talk(IO &io, int me) {
	char d[9];
	for (int r = 0; r < 2; ++r) {
		int from = r;
		if (me == from) { vx_tok(d, 9, from, 0); io.send_data(d, 9); io.flush(); }
		else { io.recv_data(d, 9); vx_tokcheck(d, 9, from, 0, "the two ends are connected to each other"); }
	}
}
extern "C" void cn_a() { NetIO io(nullptr, (int)vx_param("port"), vx_param("quiet")); talk(io, 0); vx_check(io.is_server, "the side without an address is the server"); }
extern "C" void cn_b() { NetIO io(addr(), (int)vx_param("port"), vx_param("quiet")); talk(io, 1); vx_check(!io.is_server, "the side with an address is the client"); }
extern "C" void ch_a() { HighSpeedNetIO io(nullptr, (int)vx_param("port"), (int)vx_param("port2"), vx_param("quiet")); talk(io, 0); }
extern "C" void ch_b() { HighSpeedNetIO io(addr(), (int)vx_param("port"), (int)vx_param("port2"), vx_param("quiet")); talk(io, 1); }
extern "C" void h_conn() {
	vx_heap_mark();
	if (vx_param("first") == 0) vx_run2("cn_a", "cn_b"); else vx_run2("cn_b", "cn_a");
	vx_released("everything is released"); vx_heap_same("memory is released");
}
extern "C" void h_conn_hs() {
	vx_heap_mark();
	if (vx_param("first") == 0) vx_run2("ch_a", "ch_b"); else vx_run2("ch_b", "ch_a");
	vx_released("everything is released"); vx_heap_same("memory is released");
}
// a port outside 0..65535 is refused
extern "C" void h_refuse() {
	const char *a = vx_param("client") ? addr() : nullptr;
	int p = (int)vx_param("port"), q = (int)vx_param("port2"), refused = 0;
	vx_heap_mark();
	if (vx_param("hs")) { try { HighSpeedNetIO io(a, p, q, true); } catch (std::exception &) { refused = 1; } }
	else { try { NetIO io(a, p, true); } catch (std::exception &) { refused = 1; } }
	vx_check(refused, "an invalid port is refused by an exception");
	vx_released("nothing stays acquired"); vx_heap_same("no memory stays acquired");
}
extern "C" void h_server() { if (vx_param("hs")) HighSpeedNetIO io(nullptr, 12345, 12346, true); else NetIO io(nullptr, 12345, true); }

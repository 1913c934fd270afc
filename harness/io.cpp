// C20 C21 C26: entry contexts for the channels
#include "vx.h"
#include "emp-tool/emp-tool.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
using namespace emp;
extern "C" {
void vx_run2(const char *a, const char *b);      // analyse two entry functions as communicating parties
void vx_released(const char *label);             // every stream and descriptor is closed
void vx_heap_mark();
void vx_heap_same(const char *label);
void vx_tok(void *p, size_t n, int stream, uint64_t pos);                     // the bytes pos.. of a stream of unknowns
void vx_tokcheck(const void *p, size_t n, int stream, uint64_t pos, const char *label);
void vx_accepted(int stream, uint64_t pos);      // the channel accepted everything before pos
void vx_giant_begin(uint64_t base, uint64_t len, int kind);
void vx_giant_end(const char *label);
uint64_t vx_pushed(int party);
void vx_scramble(void *p, size_t n);
}
enum { SEND_A, SEND_B, SYNC, FLUSH, FLUSH_A, FLUSH_B, OPTS };
static int reached[2];

template<class IO> static void script(IO &io, int me) {
	int nop = (int)vx_param("nop");
	uint64_t pos[2] = {0, 0};
	for (int i = 0; i < nop; ++i) {
		char nm[8] = {'o', 'p', 0};
		int d = 2;
		if (i >= 100) nm[d++] = '0' + i / 100;
		if (i >= 10) nm[d++] = '0' + i / 10 % 10;
		nm[d++] = '0' + i % 10; nm[d] = 0;
		uint64_t op = vx_param(nm);
		int kind = op & 255; size_t n = op >> 8;
		if (kind == SEND_A || kind == SEND_B) {
			int from = kind == SEND_A ? 0 : 1;
			size_t skew = (i * 5 + me) % 16;
			char *p = (char *)vx_buf(n, skew);
			if (me == from) {
				vx_tok(p, n, from, pos[from]);
				uint64_t c = io.counter;
				io.send_data(p, n);
				vx_check(io.counter == c + n, "byte counter");
				vx_tokcheck(p, n, from, pos[from], "data to send is left unchanged");
				vx_scramble(p, n);
				vx_accepted(from, pos[from] + n);
			} else {
				io.recv_data(p, n);
				vx_tokcheck(p, n, from, pos[from], "received bytes are the next bytes sent");
			}
			pos[from] += n;
		} else if (kind == SYNC) {
			++reached[me];
			int mine = reached[me];
			io.sync();
			if (vx_param("syncs")) vx_check(reached[1 - me] >= mine, "sync returns only after the peer reached it");
		} else if (kind == FLUSH) io.flush();
		else if (kind == FLUSH_A) { if (me == 0) io.flush(); }
		else if (kind == FLUSH_B) { if (me == 1) io.flush(); }
	}
}
extern "C" void net_a() { NetIO *io = new NetIO(nullptr, 12345, vx_param("quiet")); script(*io, 0); if (vx_param("delay")) { io->set_delay(); io->set_nodelay(); } delete io; }
extern "C" void net_b() { NetIO *io = new NetIO("127.0.0.1", 12345, vx_param("quiet")); script(*io, 1); delete io; }
extern "C" void hs_a() { HighSpeedNetIO *io = new HighSpeedNetIO(nullptr, 12345, 12346, vx_param("quiet")); script(*io, 0); delete io; }
extern "C" void hs_b() { HighSpeedNetIO *io = new HighSpeedNetIO("127.0.0.1", 12345, 12346, vx_param("quiet")); script(*io, 1); delete io; }
extern "C" void h_net() {
	vx_heap_mark();
	if (vx_param("first") == 0) vx_run2("net_a", "net_b"); else vx_run2("net_b", "net_a");
	vx_released("sockets and streams are closed when both channels are gone");
	vx_heap_same("buffers are released when both channels are gone");
}
extern "C" void h_hs() {
	vx_heap_mark();
	if (vx_param("first") == 0) vx_run2("hs_a", "hs_b"); else vx_run2("hs_b", "hs_a");
	vx_released("sockets and streams are closed when both channels are gone");
	vx_heap_same("buffers are released when both channels are gone");
}
// one sync: exactly one byte in each direction
extern "C" void sync_a() { NetIO io(nullptr, 12345, true); io.sync(); io.flush(); vx_check(vx_pushed(0) == 1, "sync sends one byte"); }
extern "C" void sync_b() { NetIO io("127.0.0.1", 12345, true); io.sync(); vx_check(vx_pushed(1) == 1, "sync sends one byte and flushes it"); }
extern "C" void h_sync() { if (vx_param("first") == 0) vx_run2("sync_a", "sync_b"); else vx_run2("sync_b", "sync_a"); }

// the peer is gone: one side only, the other end accepts / delivers a limited number of bytes
extern "C" void lone_a() {
	NetIO *io = new NetIO(nullptr, 12345, true);
	size_t n = vx_param("n"); char *p = (char *)vx_buf(n, 1); vx_tok(p, n, 0, 0);
	if (vx_param("recv")) io->recv_data(p, n); else { io->send_data(p, n); io->flush(); }
}
extern "C" void lone_b() { NetIO *io = new NetIO("127.0.0.1", 12345, true); if (vx_param("some")) { char x[100]; vx_tok(x, 100, 1, 0); io->send_data(x, vx_param("some")); } delete io; }
extern "C" void h_gone() { vx_run2("lone_a", "lone_b"); }
extern "C" void lhs_a() {
	HighSpeedNetIO *io = new HighSpeedNetIO(nullptr, 12345, 12346, true);
	size_t n = vx_param("n"); char *p = (char *)vx_buf(n, 1); vx_tok(p, n, 0, 0);
	if (vx_param("recv")) io->recv_data(p, n); else { io->send_data(p, n); io->flush(); }
}
extern "C" void lhs_b() { HighSpeedNetIO *io = new HighSpeedNetIO("127.0.0.1", 12345, 12346, true); if (vx_param("some")) { char x[100]; vx_tok(x, 100, 1, 0); io->send_data(x, vx_param("some")); } delete io; }
extern "C" void h_hsgone() { vx_run2("lhs_a", "lhs_b"); }

// ------------------------------------------------------------------ files
extern "C" void h_file() {
	int k = (int)vx_param("k");
	size_t sz[8]; static const char *nm[8] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7"};
	size_t total = 0;
	for (int i = 0; i < k; ++i) { sz[i] = vx_param(nm[i]); total += sz[i]; }
	vx_heap_mark();
	{
		FileIO w("data.bin", false);
		uint64_t pos = 0;
		for (int i = 0; i < k; ++i) {
			char *p = (char *)vx_buf(sz[i], i % 8);
			vx_tok(p, sz[i], 0, pos);
			w.send_data(p, sz[i]);
			vx_tokcheck(p, sz[i], 0, pos, "data to send is left unchanged");
			vx_scramble(p, sz[i]);
			pos += sz[i];
			if (vx_param("flush") && i == k / 2) w.flush();
		}
		if (vx_param("same")) {
			w.flush(); w.reset();
			pos = 0;
			for (int i = k - 1; i >= 0; --i) { char *p = (char *)vx_buf(sz[i], i % 8); w.recv_data(p, sz[i]); vx_tokcheck(p, sz[i], 0, pos, "bytes read back are the bytes written"); pos += sz[i]; }
		}
	}
	vx_released("the file is closed when the channel is gone");
	vx_heap_same("the buffer is released when the channel is gone");
	{
		FileIO r("data.bin", true);
		for (int pass = 0; pass < 2; ++pass) {
			uint64_t pos = 0;
			for (int i = k - 1; i >= 0; --i) { char *p = (char *)vx_buf(sz[i], i % 8); r.recv_data(p, sz[i]); vx_tokcheck(p, sz[i], 0, pos, "bytes read back are the bytes written"); pos += sz[i]; }
			if (vx_param("over")) { char *p = (char *)vx_buf(vx_param("over"), 0); r.recv_data(p, vx_param("over")); }
			r.reset();
		}
	}
	vx_released("the file is closed when the channel is gone");
	vx_heap_same("the buffer is released when the channel is gone");
}

// ------------------------------------------------------------------ memory
extern "C" void h_mem() {
	int nop = (int)vx_param("nop");
	vx_heap_mark();
	{
		MemIO io(vx_param("cap"));
		uint64_t w = 0, r = 0, base = 0;
		for (int i = 0; i < nop; ++i) {
			char nm[5] = {'o', 'p', char('0' + i % 10), 0, 0};
			if (i >= 10) { nm[2] = '0' + i / 10; nm[3] = '0' + i % 10; }
			uint64_t op = vx_param(nm);
			size_t n = op >> 8;
			char *p = (char *)vx_buf(n, i % 8);
			if ((op & 255) == 0) {
				vx_tok(p, n, 0, base + w); io.send_data(p, n); vx_tokcheck(p, n, 0, base + w, "data to send is left unchanged"); vx_scramble(p, n); w += n;
			} else if ((op & 255) == 1) {
				io.recv_data(p, n); vx_tokcheck(p, n, 0, base + r, "bytes received are the next bytes sent"); r += n;
			} else { io.clear(); base += w; w = r = 0; }
		}
	}
	vx_heap_same("the buffer is released when the channel is gone");
}
extern "C" void h_load() {
	size_t n = vx_param("n"), m = vx_param("m");
	vx_heap_mark();
	{
		FileIO *f = new FileIO("data.bin", false);
		char *p = (char *)vx_buf(n, 0); vx_tok(p, n, 0, 0); f->send_data(p, n); delete f;
	}
	{
		FileIO f("data.bin", true);
		MemIO io(vx_param("cap"));
		{ char z[8]; vx_tok(z, 8, 1, 0); io.send_data(z, 8); io.recv_data(z, 3); }
		io.load_from_file(&f, m);
		char *p = (char *)vx_buf(m, 3); io.recv_data(p, m); vx_tokcheck(p, m, 0, 0, "loaded bytes are the bytes of the file");
		char *q = (char *)vx_buf(20, 1); vx_tok(q, 20, 2, 0); io.send_data(q, 20); char *r = (char *)vx_buf(20, 5); io.recv_data(r, 20); vx_tokcheck(r, 20, 2, 0, "bytes sent after loading");
		io.recv_data(r, vx_param("over"));
	}
	vx_released("the file is closed when the channel is gone");
	vx_heap_same("the buffers are released when the channels are gone");
}

// ------------------------------------------------------------------ huge transfers: only the ranges are followed
static const uint64_t BIGBASE = 0x7000000000000000ULL;
template<class IO> static void big(IO &io) {
	uint64_t n = vx_param("n");
	vx_giant_begin(BIGBASE, n, (int)vx_param("recv"));
	if (vx_param("blk")) {
		if (vx_param("recv")) io.recv_block((block *)BIGBASE, n / 16); else { uint64_t c = io.counter; io.send_block((block *)BIGBASE, n / 16); vx_check(io.counter == c + n, "byte counter"); }
	} else if (vx_param("recv")) io.recv_data((char *)BIGBASE, n); else { uint64_t c = io.counter; io.send_data((char *)BIGBASE, n); vx_check(io.counter == c + n, "byte counter"); }
	vx_giant_end("the whole range is transferred once, in order");
}
extern "C" void big_a() { NetIO io(nullptr, 12345, true); big(io); }
extern "C" void big_b() { NetIO io("127.0.0.1", 12345, true); }
extern "C" void h_big_net() { vx_run2("big_a", "big_b"); }
extern "C" void bighs_a() { HighSpeedNetIO io(nullptr, 12345, 12346, true); big(io); }
extern "C" void bighs_b() { HighSpeedNetIO io("127.0.0.1", 12345, 12346, true); }
extern "C" void h_big_hs() { vx_run2("bighs_a", "bighs_b"); }
extern "C" void h_big_file() { FileIO w("data.bin", false); big(w); }
extern "C" void h_big_mem() { MemIO io(64); char c[10]; vx_tok(c, 10, 0, 0); io.send_data(c, 10); big(io); }

// huge contents of a memory channel: sent (or loaded from a file), then received in two pieces
extern "C" void h_big_mem_recv() {
	uint64_t n = vx_param("n"), k = vx_param("k"), sk = vx_param("sk");
	MemIO io(64);
	vx_giant_begin(BIGBASE, n, 0);
	if (vx_param("load")) {
		FileIO f("data.bin", false);
		io.load_from_file(&f, n);
		if (sk) {
			vx_giant_begin(BIGBASE + n, sk, 0);
			io.send_data((char *)BIGBASE + n, sk);
			vx_giant_end("the bytes sent after loading are stored");
			n += sk;
		}
	} else {
		if (sk) io.send_data((char *)BIGBASE, sk);
		io.send_data((char *)BIGBASE + sk, n - sk);
		vx_giant_end("the whole range is stored once, in order");
	}
	vx_giant_begin(BIGBASE, n, 1);
	if (k) io.recv_data((char *)BIGBASE, k);
	io.recv_data((char *)BIGBASE + k, n - k);
	vx_giant_end("the whole range is delivered once, in order");
	if (vx_param("over")) io.recv_data((char *)BIGBASE, vx_param("over"));
}

// ------------------------------------------------------------------ failures while connecting
extern "C" void h_hash_release() {
	vx_heap_mark();
	{ Hash h; char d[32]; h.put("abc", 3); h.digest(d); h.reset(); Hash::hash_once(d, "abc", 3); }
	{ block b = Hash::hash_for_block("abc", 3); (void)b; }
	{ PRG p; PRG q(&p); }
	vx_released("contexts");
	vx_heap_same("library contexts and buffers are released");
}

// C31: error reporting and host helpers
#include "vx.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
extern "C" {
std::ostream &vx_ostream();
void vx_clock(uint64_t ns);
void vx_released(const char *label);
void vx_heap_mark();
void vx_heap_same(const char *label);
uint64_t vx_has(int which);
}
extern "C" void h_error() {
	size_t n = vx_param("n");
	char *m = (char *)vx_buf(n + 1, 3), *f = (char *)vx_buf(vx_param("nf") + 1, 1);
	vx_fill(m, n, "msg"); m[n] = 0;
	vx_fill(f, vx_param("nf"), "file"); f[vx_param("nf")] = 0;
	switch (vx_param("form")) {
	case 0: error(m); break;
	case 1: error(m, (int)vx_param("line")); break;
	case 2: error(m, (int)vx_param("line"), f); break;
	}
	vx_check(false, "error does not return");
}
extern "C" void h_exists() {
	std::string a = vx_param("long") ? "some/rather/long/directory/name/of/a/file.txt" : "here.txt";
	vx_heap_mark();
	bool r = file_exists(a);
	vx_heap_same("memory is released");
	vx_check(r == (vx_param("there") != 0), "file_exists tells whether the file can be read");
	vx_released("nothing stays open");
	vx_check(file_exists("other.bin") == (vx_param("other") != 0), "file_exists tells whether the file can be read (literal name)");
	vx_check(file_exists(a) == (vx_param("there") != 0), "asking does not change the answer");
	vx_released("nothing stays open");
}
static const char *const ARG[] = {"1", "2", "12345", "0", "65535", "3", "10", "7"};
extern "C" void h_args() {
	char p0[] = "prog", x[16] = {}, y[16] = {}, z[] = "99";
	int i = (int)vx_param("i"), j = (int)vx_param("j");
	strcpy(x, ARG[i]); strcpy(y, ARG[j]);
	char *argv[] = {p0, x, y, z, nullptr};
	int buf[4] = {-5, -6, -7, -8};
	parse_party_and_port(argv, buf + 1, buf + 2);
	vx_check(buf[1] == (int)vx_param("vi"), "party");
	vx_check(buf[2] == (int)vx_param("vj"), "port");
	vx_check(buf[0] == -5 && buf[3] == -8, "nothing else is written");
	vx_check(strcmp(x, ARG[i]) == 0 && strcmp(y, ARG[j]) == 0 && argv[1] == x && argv[2] == y, "the arguments are left alone");
}
static uint64_t seen[6]; static int calls;
static void target(int a, uint64_t b, void *c, bool d, unsigned char e) { seen[0] = (uint32_t)a; seen[1] = b; seen[2] = (uint64_t)c; seen[3] = d; seen[4] = e; ++calls; }
static void target0() { ++calls; }
static void target1(block b) { memcpy(seen, &b, 16); ++calls; }
extern "C" void h_run() {
	int a = (int)vx_sym("a", 0, 32); uint64_t b = vx_sym("b", 0, 64); unsigned char e = (unsigned char)vx_sym("e", 0, 8); bool d = vx_sym("d", 0, 1);
	calls = 0;
	run_function((void *)target, a, b, (void *)&calls, d, e);
	vx_check(calls == 1, "called once");
	uint64_t w[5] = {(uint32_t)a, b, (uint64_t)&calls, d, e};
	vx_check_eq(seen, w, 40, "run_function passes its arguments");
	run_function((void *)target0);
	vx_check(calls == 2, "called once");
	block v; vx_fill(&v, 16, "v");
	run_function((void *)target1, v);
	vx_check(calls == 3, "called once"); vx_check_eq(seen, &v, 16, "run_function passes a block");
}
extern "C" void h_delete() {
	vx_heap_mark();
	delete_array_null((int *)nullptr);
	int *p = new int[5]; delete_array_null(p);
	block *q = new block[3]; delete_array_null(q);
	vx_heap_same("arrays are released");
}
extern "C" void h_time() {
	vx_clock(vx_param("t0"));
	time_point<high_resolution_clock> s = clock_start();
	vx_clock(vx_param("t1"));
	double d = time_from(s);
	vx_check(d == (double)(int64_t)vx_param("us"), "elapsed microseconds");
	vx_clock(vx_param("t1") + 5000);
	vx_check(time_from(s) == (double)(int64_t)(vx_param("us") + 5), "elapsed microseconds since the same start");
}
extern "C" void h_print() {
	block b, c; vx_fill(&b, 16, "b"); vx_fill(&c, 16, "c");
	block b0 = b;
	std::ostream &o = vx_ostream();
	std::ostream &r = (o << b);
	vx_check(&r == &o, "the stream is returned");
	if (vx_param("n") > 1) o << "," << c;
	vx_check_eq(&b, &b0, 16, "the printed block is left alone");
	o << "|" << 1234;
}

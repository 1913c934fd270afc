// C19 C24: curve points, big integers, typed messages
#include "vx.h"
#include <vector>
#include "emp-tool/emp-tool.h"
using namespace emp;
extern "C" {
void vx_pt_atom(void *p, int i);
void vx_bn_atom(void *b, int i);
void vx_pt_is(const void *p, const char *term);
void vx_bn_is(const void *b, const char *term);
void vx_noleak(const char *label);
void vx_heap_mark();
void vx_heap_same(const char *label);
void vx_digest(void *out, const char *alg, const void *p, size_t n);
}
static void ownership(Group &g) {
	Point a(&g), b(&g), none;
	vx_pt_atom(a.point, 0); vx_pt_atom(b.point, 1);
	Point c(a), d(none), e = b;
	vx_pt_is(c.point, "P0"); vx_pt_is(e.point, "P1");
	vx_check(d.point == nullptr && none.point == nullptr, "copy of an unset point is unset");
	vx_check(c.point != a.point && e.point != b.point, "copies own their point");
	c = b; vx_pt_is(c.point, "P1"); vx_check(c.point != b.point, "assignment owns its point");
	c = c; vx_pt_is(c.point, "P1");
	Point &cr = c; c = cr; vx_pt_is(c.point, "P1");
	none = a; vx_pt_is(none.point, "P0"); vx_check(none.point != a.point, "assignment owns its point");
	Point un; none = un; vx_check(none.point == nullptr, "assigning an unset point");
	d = a.add(b); vx_pt_is(d.point, "+(P0,P1)"); vx_pt_is(a.point, "P0"); vx_pt_is(b.point, "P1");
	d = d.add(d); vx_pt_is(d.point, "+(+(P0,P1),+(P0,P1))");
	BigInt k, l; vx_bn_atom(k.n, 5); vx_bn_atom(l.n, 6);
	d = a.mul(k); vx_pt_is(d.point, "*(k5,P0)"); vx_pt_is(a.point, "P0"); vx_bn_is(k.n, "k5");
	d = d.mul(l).add(b); vx_pt_is(d.point, "+(*(k6,*(k5,P0)),P1)");
	e = a.inv(); vx_pt_is(e.point, "-(P0)"); vx_pt_is(a.point, "P0");
	Point z = e.add(a); vx_pt_is(z.point, "O");
	Point gen = g.get_generator(); vx_pt_is(gen.point, "G");
	gen = gen.inv(); Point gen2 = g.get_generator(); vx_pt_is(gen2.point, "G"); vx_pt_is(gen.point, "-(G)");
	Point gm = g.mul_gen(k); vx_pt_is(gm.point, "*(k5,G)");
	vx_check(a == a, "equality of a point with itself"); vx_check(!(a == b), "different points"); Point a2(a); vx_check(a == a2, "equality of copies");
	std::vector<Point> v; for (int i = 0; i < 5; ++i) v.push_back(i & 1 ? a : b);
	v.erase(v.begin() + 1); v.resize(7); v[6] = v[0];
	vx_pt_is(v[0].point, "P1"); vx_pt_is(v[1].point, "P1"); vx_pt_is(v[2].point, "P0"); vx_pt_is(v[6].point, "P1");
	Point *arr = new Point[3]; arr[0] = a; arr[2] = arr[0]; vx_pt_is(arr[2].point, "P0"); delete[] arr;
	// encoding
	size_t n = a.size(); vx_check(n == 65, "size of an encoding");
	unsigned char *buf = (unsigned char *)vx_buf(n, 3); a.to_bin(buf, n);
	Point f; f.from_bin(&g, buf, n); vx_pt_is(f.point, "P0");
	f.from_bin(&g, buf, n); vx_pt_is(f.point, "P0");
	Point h(b); h.from_bin(&g, buf, n); vx_pt_is(h.point, "P0"); vx_pt_is(b.point, "P1");
	size_t zn = z.size(); unsigned char *zb = (unsigned char *)vx_buf(zn, 0); z.to_bin(zb, zn); Point z2; z2.from_bin(&g, zb, zn); vx_pt_is(z2.point, "O");
	vx_check(f.group == &g && h.group == &g && d.group == &g && z.group == &g && gen.group == &g && gm.group == &g, "points know their group");
}
static void integers(Group &g) {
	BigInt a, b, m; vx_bn_atom(a.n, 0 + 1); vx_bn_atom(b.n, 2); vx_bn_atom(m.n, 3);
	BigInt c(a), d = b; vx_bn_is(c.n, "k1"); vx_bn_is(d.n, "k2"); vx_check(c.n != a.n && d.n != b.n, "copies own their integer");
	c = b; vx_bn_is(c.n, "k2"); vx_check(c.n != b.n, "assignment owns its integer"); c = c; vx_bn_is(c.n, "k2"); vx_bn_is(b.n, "k2");
	c = a.add(b); vx_bn_is(c.n, "BN_add(k1,k2)"); vx_bn_is(a.n, "k1");
	c = a.mul(b, g.bn_ctx); vx_bn_is(c.n, "BN_mul(k1,k2)");
	c = a.mod(m, g.bn_ctx); vx_bn_is(c.n, "BN_mod(k1,k3)");
	c = a.add_mod(b, m, g.bn_ctx); vx_bn_is(c.n, "BN_mod_add(k1,k2,k3)");
	c = a.mul_mod(b, m, g.bn_ctx); vx_bn_is(c.n, "BN_mod_mul(k1,k2,k3)");
	c = c.mul_mod(c, m, g.bn_ctx); vx_bn_is(c.n, "BN_mod_mul(BN_mod_mul(k1,k2,k3),BN_mod_mul(k1,k2,k3),k3)");
	int n = a.size(); vx_check(n == (int)((vx_param("bn_bits") + 7) / 8), "size of an integer in bytes");
	unsigned char *p = (unsigned char *)vx_buf(n, 1); a.to_bin(p); BigInt e; e.from_bin(p, n); vx_bn_is(e.n, "k1"); e.from_bin(p, n); vx_bn_is(e.n, "k1");
	BigInt r; g.get_rand_bn(r); BigInt r2; g.get_rand_bn(r2); vx_check(r.n != r2.n, "random integers");
	std::vector<BigInt> v(3, a); v.push_back(b); v.erase(v.begin()); vx_bn_is(v[2].n, "k2");
	vx_bn_is(g.order.n, "order");
}
static void scratch(Group &g) {
	static const size_t sz[] = {10, 0, 1, 73, 250, 255, 256, 257, 258, 262, 264, 265, 300, 2048, 2049, 5000, 4000, 5001, 10};
	for (size_t k = 0; k < sizeof(sz) / sizeof(sz[0]); ++k) { g.resize_scratch(sz[k]); if (sz[k]) g.scratch[sz[k] - 1] = 1; }
}
// points that move between group objects
static void twogroups(Group &g) {
	Group g2;
	Point a(&g), b(&g2); vx_pt_atom(a.point, 0); vx_pt_atom(b.point, 1);
	size_t n = a.size(); unsigned char *buf = (unsigned char *)vx_buf(n, 1); a.to_bin(buf, n);
	Point c(b); c.from_bin(&g, buf, n); vx_pt_is(c.point, "P0"); vx_pt_is(b.point, "P1"); c.from_bin(&g2, buf, n); vx_pt_is(c.point, "P0");
	Point d(&g); d.from_bin(&g2, buf, n); vx_pt_is(d.point, "P0");
	a = b; vx_pt_is(a.point, "P1"); vx_check(a.group == &g2 && a.point != b.point, "assignment takes the group along");
	Point e(b); e = d; vx_pt_is(e.point, "P0"); Point un; e = un; e.from_bin(&g2, buf, n); vx_pt_is(e.point, "P0");
	{ Group g3; Point f = g3.get_generator(); size_t m = f.size(); unsigned char *fb = (unsigned char *)vx_buf(m, 0); f.to_bin(fb, m); Point h; h.from_bin(&g, fb, m); e = h; }
	vx_pt_is(e.point, "G");
	std::vector<Point> v; v.push_back(a); v.push_back(d); v.push_back(e); v[0].from_bin(&g, buf, n); v[1].from_bin(&g2, buf, n); v[2].from_bin(&g, buf, n);
	for (int i = 0; i < 3; ++i) vx_pt_is(v[i].point, "P0");
}
extern "C" void h_own() {
	vx_heap_mark();
	{ Group g; switch (vx_param("s")) { case 0: ownership(g); break; case 1: integers(g); break; case 2: scratch(g); break; case 3: twogroups(g); break; } }
	vx_noleak("library objects are released"); vx_heap_same("memory is released");
}
// every single failing operation must stop the program
extern "C" void h_fail() {
	Group g;
	Point a(&g), b(&g); vx_pt_atom(a.point, 0); vx_pt_atom(b.point, 1);
	BigInt k; vx_bn_atom(k.n, 5);
	switch (vx_param("s")) {
	case 0: { Point c(a); break; }
	case 1: { Point c; c = a; break; }
	case 2: { Point c = a.add(b); break; }
	case 3: { Point c = a.mul(k); break; }
	case 4: { Point c = a.inv(); break; }
	case 5: { Point c = g.get_generator(); break; }
	case 6: { Point c = g.mul_gen(k); break; }
	case 7: { bool e = a == b; if (e) vx_note("equal", 0, 0); break; }
	case 8: { size_t n = a.size(); vx_note("size", 0, n); break; }
	case 9: { unsigned char *p = (unsigned char *)vx_buf(65, 0); a.to_bin(p, 65); break; }
	case 10: { unsigned char *p = (unsigned char *)vx_buf(65, 0); a.to_bin(p, 65); Point c; c.from_bin(&g, p, 65); break; }
	case 11: { unsigned char *p = (unsigned char *)vx_buf(65, 0); vx_fill(p, 65, "x"); p[0] = 4; Point c; c.from_bin(&g, p, 65); break; }      // not a point
	case 12: { unsigned char *p = (unsigned char *)vx_buf(64, 0); a.to_bin(p, 64); break; }                                                    // too small
	case 13: { unsigned char *p = (unsigned char *)vx_buf(65, 0); a.to_bin(p, 65); Point c; c.from_bin(&g, p, 64); break; }                     // truncated
	case 14: { std::vector<Point> v(3, a); v.push_back(b); break; }
	case 15: { block d = Hash::KDF(a, 1); vx_out("d", 0, &d, 16); break; }
	}
}

// ------------------------------------------------------------------ C19
class Rec : public IOChannel<Rec> { public:
	std::vector<unsigned char> q; size_t rp = 0; uint64_t handed = 0;
	void send_data_internal(const void *d, size_t n) { const unsigned char *p = (const unsigned char *)d; for (size_t i = 0; i < n; ++i) q.push_back(p[i]); handed += n; }
	void recv_data_internal(void *d, size_t n) { unsigned char *p = (unsigned char *)d; vx_check(rp + n <= q.size(), "receiver asks only for bytes that were sent"); for (size_t i = 0; i < n; ++i) p[i] = q[rp++]; }
	void flush() {}
};
static void bools(void *p, size_t n, const char *nm) { for (size_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = vx_sym(nm, (int)i, 1); }
extern "C" void h_bools() {
	size_t n = vx_param("n"), s = vx_param("s"), r = vx_param("r");
	int mode = (int)vx_param("mode");
	Rec io;
	bool *x = (bool *)vx_buf(n, s), *y = (bool *)vx_buf(n, r), *c = (bool *)vx_buf(n, 0);
	bools(x, n, "b"); bools(c, n, "b");
	uint64_t before = io.counter;
	if (mode & 1) io.send_bool(x, n); else io.send_bool_aligned(x, n);
	vx_check(io.counter - before == io.handed, "byte counter");
	vx_check_eq(x, c, n, "data to send is left unchanged");
	// something else follows
	unsigned char tail[3]; vx_fill(tail, 3, "tail"); io.send_data(tail, 3);
	if (mode & 2) io.recv_bool(y, n); else io.recv_bool_aligned(y, n);
	vx_check_eq(y, c, n, "received bools");
	unsigned char t2[3]; io.recv_data(t2, 3); vx_check_eq(t2, tail, 3, "what follows the bools");
	vx_check(io.rp == io.q.size(), "everything sent is consumed");
	vx_check(io.counter == io.handed, "byte counter");
}
extern "C" void h_blocks() {
	size_t n = vx_param("n");
	Rec io;
	block *x = (block *)vx_buf(16 * n, 0), *y = (block *)vx_buf(16 * n, 16), *c = (block *)vx_buf(16 * n, 0);
	vx_fill(x, 16 * n, "b"); vx_fill(c, 16 * n, "b");
	io.send_block(x, n); vx_check(io.counter == 16 * n && io.handed == 16 * n, "byte counter");
	vx_check_eq(x, c, 16 * n, "data to send is left unchanged");
	io.recv_block(y, n); vx_check_eq(y, c, 16 * n, "received blocks"); vx_check(io.rp == io.q.size(), "everything sent is consumed");
	unsigned char *d = (unsigned char *)vx_buf(n, 1), *e = (unsigned char *)vx_buf(n, 2); vx_fill(d, n, "d"); io.send_data(d, n); io.recv_data(e, n); vx_check_eq(d, e, n, "received data");
	vx_check(io.counter == 17 * n, "byte counter");
}
static const char *PT[6] = {"P0", "P1", "O", "P3", "-(P0)", "G"};
extern "C" void h_points() {
	int n = (int)vx_param("n");
	vx_heap_mark();
	{
		Group g, g2; Rec io;
		std::vector<Point> a;
		for (int i = 0; i < n; ++i) { Point p(&g); vx_pt_atom(p.point, i); if (i == 2) p = Point(&g); if (i == 4) { vx_pt_atom(p.point, 0); p = p.inv(); } if (i == 5) p = g.get_generator(); a.push_back(p); }
		io.send_pt(a.data(), n);
		vx_check(io.counter == io.handed, "byte counter");
		for (int i = 0; i < n; ++i) vx_pt_is(a[i].point, PT[i]);
		unsigned char tail[3]; vx_fill(tail, 3, "tail"); io.send_data(tail, 3);
		std::vector<Point> b(n);
		if (vx_param("preset")) for (int i = 0; i < n; ++i) b[i] = Point(&g2);
		io.recv_pt(&g2, b.data(), n);
		for (int i = 0; i < n; ++i) { vx_pt_is(b[i].point, PT[i]); vx_check(b[i].group == &g2, "received points belong to the receiver's group"); }
		unsigned char t2[3]; io.recv_data(t2, 3); vx_check_eq(t2, tail, 3, "what follows the points");
		vx_check(io.rp == io.q.size(), "everything sent is consumed"); vx_check(io.counter == io.handed, "byte counter");
		if (n) { Point one; io.send_pt(&a[0]); io.recv_pt(&g2, &one); vx_pt_is(one.point, PT[0]); }
	}
	vx_noleak("library objects are released"); vx_heap_same("memory is released");
}
extern "C" void h_badpoint() {
	Group g; Rec io;
	uint64_t len = vx_param("len");
	uint32_t l4 = (uint32_t)len;
	io.send_data(&l4, 4);
	size_t n = len < 6000 ? len : 6000;
	unsigned char *p = (unsigned char *)vx_buf(n, 0); vx_fill(p, n, "x"); if (n) p[0] = 4;
	io.send_data(p, n);
	Point q; io.recv_pt(&g, &q);
}
extern "C" void h_badsecond() {
	Group g; Rec io; Point a(&g); vx_pt_atom(a.point, 0); io.send_pt(&a);
	uint32_t l4 = (uint32_t)vx_param("len"); io.send_data(&l4, 4);
	unsigned char *p = (unsigned char *)vx_buf(4000, 0); vx_fill(p, 4000, "x"); p[0] = 4; io.send_data(p, 4000);
	Point q[2]; io.recv_pt(&g, q, 2);
}
extern "C" void h_kdf() {
	Group g; Point a(&g); vx_pt_atom(a.point, 0);
	for (int rep = 0; rep < 2; ++rep) for (uint64_t id = 0; id < 8; ++id) {
		static const uint64_t big[] = {0x0123456789abcdefULL, 0xffffffffULL, 0x100000000ULL, 0x80000000ULL, 0x8000000000000000ULL, ~0ULL};
		uint64_t x = id >= 2 ? big[id - 2] : id;
		block k = id == 1 && rep == 0 ? Hash::KDF(a) : Hash::KDF(a, x);
		unsigned char buf[73]; a.to_bin(buf, 65); for (int i = 0; i < 8; ++i) buf[65 + i] = (unsigned char)(x >> (8 * i));
		unsigned char d[32]; vx_digest(d, "sha256", buf, 73); vx_check_eq(&k, d, 16, "key derived from a point is the first 128 bits of SHA-256(point || id)");
	}
}

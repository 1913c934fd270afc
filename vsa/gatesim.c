/* Compares pairs of outputs of one gate list on many inputs.
   usage: gatesim FILE mode threads seconds ; mode 1: every value of the first operand (second 0), mode 2: structured operand pairs.
   FILE: int32 nop, nslot, nout; nop x (op,dst,a,b); nout x (slotA, slotB, flip).  op: 0..3 AND with operand a (bit 0) / b (bit 1) inverted, 4 XOR, 5 input number a.
   Prints "DIFF a b" or "EQUAL" (mode 1) or "NONE vectors" (mode 2). */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <pthread.h>
#include <time.h>
typedef uint64_t V __attribute__((vector_size(64)));
static int32_t *P, nop, nslot, nout, mode, NT;
static double limit;
static volatile int stop, late;
static volatile uint64_t fa, fb; static volatile int found;
static uint64_t total[256];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static V eval(V *w, const V *in) {
	const int32_t *p = P;
	for (int i = 0; i < nop; ++i, p += 4) switch (p[0]) {
		case 0: w[p[1]] = w[p[2]] & w[p[3]]; break;
		case 1: w[p[1]] = ~w[p[2]] & w[p[3]]; break;
		case 2: w[p[1]] = w[p[2]] & ~w[p[3]]; break;
		case 3: w[p[1]] = ~(w[p[2]] | w[p[3]]); break;
		case 4: w[p[1]] = w[p[2]] ^ w[p[3]]; break;
		case 5: w[p[1]] = in[p[2]]; break;
		default: w[p[1]] = p[2] ? ~(V){} : (V){};
	}
	V d = {};
	for (int i = 0; i < nout; ++i, p += 3) { V x = w[p[0]] ^ w[p[1]]; d |= p[2] ? ~x : x; }
	return d;
}
static int any(V d) { for (int i = 0; i < 8; ++i) if (d[i]) return 1; return 0; }
static void report(V d, const V *in) {
	for (int i = 0; i < 8; ++i) if (d[i]) {
		int k = __builtin_ctzll(d[i]); uint64_t a = 0, b = 0;
		for (int j = 0; j < 32; ++j) { a |= (in[j][i] >> k & 1) << j; b |= (in[32 + j][i] >> k & 1) << j; }
		pthread_mutex_lock(&mu); if (!found) { fa = a; fb = b; found = 1; stop = 1; } pthread_mutex_unlock(&mu); return; }
}
static uint64_t rs(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ULL); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }
typedef struct { V s; } Rng;
static V rv(Rng *r) { V z = (r->s += 0x9e3779b97f4a7c15ULL); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }
static V cst(int b) { return b ? ~(V){} : (V){}; }
static void setexp(V *p, int e) { for (int j = 0; j < 8; ++j) p[23 + j] = cst(e >> j & 1); }
static void mant(V *p, const V *o, uint64_t *s, Rng *r) {
	int k = rs(s) % 24, l = rs(s) % 24, m = rs(s) % 12;
	for (int j = 0; j < 23; ++j) {
		V x = rv(r);
		switch (m) {
		case 0: case 1: case 2: break;
		case 3: x &= rv(r) & rv(r); break;                   /* few ones */
		case 4: x |= rv(r) | rv(r); break;                   /* few zeros */
		case 5: if (j < k) x = cst(0); break;                /* short */
		case 6: if (j < k) x = cst(1); break;
		case 7: if (j >= k) x = cst(0); break;               /* close above a power of two */
		case 8: if (j >= k) x = cst(1); break;
		case 9: x = o ? o[j] ^ (rv(r) & rv(r) & rv(r) & rv(r)) : x; break;   /* close to the other operand */
		case 10: if (j >= k && j < l) x = cst(l & 1); break; /* a run */
		case 11: x = o && j >= k ? o[j] : x; break;
		}
		p[j] = x;
	}
}
static void *work(void *q) {
	int t = (int)(intptr_t)q;
	V *w = aligned_alloc(64, sizeof(V) * (nslot + 1)), in[64];
	uint64_t n = 0;
	double t0 = now();
	if (mode == 1) {
		static const uint64_t pat[6] = {0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL};
		for (int j = 0; j < 64; ++j) in[j] = (V){};
		for (int j = 0; j < 6; ++j) in[j] = (V){} + pat[j];
		for (int j = 0; j < 3; ++j) for (int i = 0; i < 8; ++i) in[6 + j][i] = i >> j & 1 ? ~0ULL : 0;
		for (uint32_t c0 = t; c0 < 1u << 23 && !stop; c0 += NT) {
			uint32_t c = (c0 * 2654435761u) & ((1u << 23) - 1);   /* odd multiplier: visits every value once, spread out */
			for (int j = 0; j < 23; ++j) in[9 + j] = cst(c >> j & 1);
			if ((n & 255) == 0 && now() - t0 > limit) { late = 1; break; }
			V d = eval(w, in); ++n; if (any(d)) { report(d, in); break; }
		}
	} else {
		uint64_t s = 12345 + t * 7919; Rng r; for (int i = 0; i < 8; ++i) r.s[i] = rs(&s);
		while (!stop) {
			if ((n & 255) == 0 && now() - t0 > limit) break;
			mant(in, 0, &s, &r); mant(in + 32, in, &s, &r);
			for (int j = 23; j < 32; ++j) { in[j] = rv(&r); in[32 + j] = rv(&r); }
			int e = (int)(rs(&s) % 256), f = e + (int)(rs(&s) % 60) - 30; f = f < 0 ? 0 : f > 255 ? 255 : f;
			switch (rs(&s) % 8) {
			case 0: break;
			case 1: setexp(in, e); break;
			case 2: setexp(in + 32, e); break;
			case 3: case 4: setexp(in, e); setexp(in + 32, f); break;
			case 5: e = 64 + e / 2; f = 64 + (int)(rs(&s) % 128); setexp(in, e); setexp(in + 32, f); break;
			case 6: for (int j = 23; j < 31; ++j) in[32 + j] = in[j] ^ (j < 26 ? rv(&r) : (V){}); break;
			case 7: f = (int)(rs(&s) % 2 ? 381 : 127) - e + (int)(rs(&s) % 5) - 2; f = f < 0 ? 0 : f > 255 ? 255 : f; setexp(in, e); setexp(in + 32, f); break; /* range ends of products and quotients */
			}
			V d = eval(w, in); ++n; if (any(d)) report(d, in);
		}
	}
	total[t] = n; free(w); return 0;
}
int main(int c, char **v) {
	FILE *f = fopen(v[1], "rb"); int32_t h[3]; if (!f || fread(h, 4, 3, f) != 3) return 2;
	nop = h[0]; nslot = h[1]; nout = h[2]; size_t m = 4 * (size_t)nop + 3 * (size_t)nout;
	P = malloc(4 * m); if (fread(P, 4, m, f) != m) return 2; fclose(f);
	mode = atoi(v[2]); NT = atoi(v[3]); limit = atof(v[4]); if (NT > 256) NT = 256;
	pthread_t th[256];
	for (intptr_t i = 0; i < NT; ++i) pthread_create(&th[i], 0, work, (void *)i);
	uint64_t n = 0; for (int i = 0; i < NT; ++i) { pthread_join(th[i], 0); n += total[i]; }
	if (found) printf("DIFF %llu %llu\n", (unsigned long long)fa, (unsigned long long)fb);
	else printf(mode == 1 && !late ? "EQUAL %llu\n" : "NONE %llu\n", (unsigned long long)n * 512);
	return 0;
}

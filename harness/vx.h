#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vx_param(const char *name);                       // context parameter (constant)
uint64_t vx_sym(const char *name, int index, int width);   // named unknown word
void vx_fill(void *p, size_t n, const char *name);         // named unknown bytes
void vx_fill2(void *p, void *q, size_t n, const char *a, const char *b);
void vx_check_eq(const void *p, const void *q, size_t n, const char *label);
void vx_check(bool c, const char *label);
void vx_assume(bool c);
void vx_out(const char *tag, int index, const void *p, size_t n);
void vx_note(const char *tag, int index, uint64_t v);
void vx_aes(void *out, const void *key, const void *in);   // FIPS-197 reference
void vx_aes_keys(void *out, const void *key);
void vx_heap_mark();
void vx_heap_same(const char *label);                      // no allocation made since the mark is left
void *vx_buf(size_t n, size_t skew);                       // exactly n bytes, address = skew mod 64
}

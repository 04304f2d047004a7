// Harness API. The same harness source runs (a) as LLVM IR inside the symbolic executor and (b) natively,
// with the inputs of one path read from a file, to replay counterexamples and to validate the encoding.
#pragma once
#include <assert.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif
void vp_symbolic(void *p, size_t n, const char *name);
unsigned vp_choose(unsigned n, const char *name);  // eager case split 0..n-1
unsigned vp_shard(unsigned n, const char *name);   // eager case split, distributed over parallel runs
void vp_assume(int c);
void vp_assert(int c, const char *label);
void vp_fail(const char *label);
void vp_reach(const char *label);
void vp_observe(const char *label, uint64_t v);
void vp_observe_buf(const char *label, const void *p, size_t n);
uint64_t vp_concretize(uint64_t v);
void vp_allow_abort(int on);  // 1: assert()/abort end the path quietly; 2: exit() as well
int vp_is_engine(void);
void vp_debug(const char *label, uint64_t v);
// standard output capture
void vp_out_begin(void);
const char *vp_out_end(size_t *len);
// scratch file system (in memory in the engine, a scratch directory natively)
void vp_fs_put(const char *name, const void *data, size_t n);
long vp_fs_get(const char *name, void *buf, size_t cap);
void vp_stdin_put(const void *data, size_t n);

static inline int64_t vp_i64(const char *name) { int64_t v; vp_symbolic(&v, 8, name); return v; }
static inline uint64_t vp_u64(const char *name) { uint64_t v; vp_symbolic(&v, 8, name); return v; }
static inline int32_t vp_i32(const char *name) { int32_t v; vp_symbolic(&v, 4, name); return v; }
static inline uint8_t vp_u8(const char *name) { uint8_t v; vp_symbolic(&v, 1, name); return v; }
static inline double vp_f64(const char *name) { double v; vp_symbolic(&v, 8, name); return v; }
static inline float vp_f32(const char *name) { float v; vp_symbolic(&v, 4, name); return v; }
static inline int64_t vp_range(int64_t lo, int64_t hi, const char *name) { int64_t v = vp_i64(name); vp_assume((v >= lo) & (v <= hi)); return v; }
static inline uint64_t vp_bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
#ifdef __cplusplus
}
#endif

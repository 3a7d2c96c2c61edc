// Harness interface. Under symbolic execution these are intrinsics of /verif/sym/exec.py;
// with VH_NATIVE they read the solver's assignment from a file and report failing assertions.
#pragma once
#include <stdint.h>
#include <stddef.h>

extern "C" {
float vh_f32(const char *name);
double vh_f64(const char *name);
uint8_t vh_u8(const char *name);
uint16_t vh_u16(const char *name);
uint32_t vh_u32(const char *name);
uint64_t vh_u64(const char *name);
int32_t vh_i32(const char *name);
bool vh_bool(const char *name);
void vh_havoc(void *p, const char *type, const char *name);
void vh_assume(bool c);
void vh_assert(bool c, const char *label);
void vh_assert_eq(float a, float b, double tol, const char *label);
void vh_assert_eqd(double a, double b, double tol, const char *label);
void vh_cover(const char *label);
}

#ifdef VH_NATIVE
struct vh_reg { vh_reg(const char *n, void (*f)(int, int)); };
#define HARNESS(name) extern "C" void name(int a0, int a1); static vh_reg vh_reg_##name(#name, name); extern "C" void name(int a0, int a1)
#else
#define HARNESS(name) extern "C" __attribute__((noinline)) void name(int a0, int a1)
#endif

static inline float vh_range(const char *n, float lo, float hi) { float v = vh_f32(n); vh_assume(v >= lo && v <= hi); return v; }
static inline double vh_ranged(const char *n, double lo, double hi) { double v = vh_f64(n); vh_assume(v >= lo && v <= hi); return v; }
// a rational constant: exact in the algebraic encoding, its nearest float otherwise; n must be "name@a/b"
static inline float vh_frac(const char *n, int a, int b)
{
	float v = vh_f32(n), c = (float)((double)a / (double)b), e = (c < 0 ? -c : c) * 1e-6f;
	vh_assume(v >= c - e && v <= c + e);
	return v;
}
static inline void vh_assume_unit(float a, float b, float c, float d)
{
	vh_assume(__builtin_fabs((double)a * a + (double)b * b + (double)c * c + (double)d * d - 1.0) <= 1.5e-6);
}
static inline bool vh_finite(float v) { return v >= -3.402823466e+38f && v <= 3.402823466e+38f; }
// equal values, or both NaN
static inline bool vh_same(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static inline bool vh_same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }

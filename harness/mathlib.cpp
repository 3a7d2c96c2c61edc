// mathlib: min, max, constrain, unit conversion; EKF/utils: integer power, compensated summation
#include "vh.h"
#include <mathlib/mathlib.h>
#include <EKF/utils.hpp>
#include <AlphaFilter/AlphaFilter.hpp>

template<typename T> static inline void limits_for(T v, T lo, T hi)
{
	vh_cover("values");
	const T m = math::min(v, lo), M = math::max(v, lo);
	vh_assert(m <= v && m <= lo && (m == v || m == lo), "min is the smaller argument");
	vh_assert(M >= v && M >= lo && (M == v || M == lo), "max is the larger argument");
	vh_assume(lo <= hi);
	const T c = math::constrain(v, lo, hi);
	vh_assert(c >= lo && c <= hi, "constrain stays within the limits");
	vh_assert((v < lo && c == lo) || (v > hi && c == hi) || (v >= lo && v <= hi && c == v), "constrain keeps values inside the limits and saturates outside");
}
HARNESS(math_limits)
{
	switch (a0) {
	case 0: { const float a = vh_f32("v"), b = vh_f32("lo"), c = vh_f32("hi"); vh_assume(a == a && b == b && c == c); limits_for<float>(a, b, c); } break;
	case 1: { const double a = vh_f64("v"), b = vh_f64("lo"), c = vh_f64("hi"); vh_assume(a == a && b == b && c == c); limits_for<double>(a, b, c); } break;
	case 2: limits_for<int32_t>(vh_i32("v"), vh_i32("lo"), vh_i32("hi")); break;
	case 3: limits_for<uint64_t>(vh_u64("v"), vh_u64("lo"), vh_u64("hi")); break;
	case 4: limits_for<uint8_t>(vh_u8("v"), vh_u8("lo"), vh_u8("hi")); break;
	}
}
HARNESS(math_angles)
{
	if (a0 == 0) {
		const float x = vh_range("x", -1e6f, 1e6f);
		vh_cover("angle");
		vh_assert_eq(math::radians(x), x * 0.01745329252f, 3e-7, "radians(x) = x pi/180");
		vh_assert_eq(math::degrees(x), x * 57.2957795131f, 3e-7, "degrees(x) = x 180/pi");
		vh_assert_eq(math::degrees(math::radians(x)), x, 3e-6, "degrees inverts radians");

	} else {
		const double x = vh_ranged("x", -1e6, 1e6);
		vh_cover("angle");
		vh_assert_eqd(math::radians(x), x * 0.017453292519943295, 1e-12, "radians(x) = x pi/180 (double)");
		vh_assert_eqd(math::degrees(x), x * 57.29577951308232, 1e-12, "degrees(x) = x 180/pi (double)");
		vh_assert_eqd(math::degrees(math::radians(x)), x, 1e-12, "degrees inverts radians (double)");
	}
}
// a0 = exponent + 8
HARNESS(pow_int)
{
	const int n = a0 - 8;
	const float x = vh_range("x", -8.f, 8.f);
	if (n < 0) { vh_assume(x > 0.25f || x < -0.25f); }
	vh_cover("power");
	float ref = 1.f;
	for (int i = 0; i < (n < 0 ? -n : n); i++) { ref = ref * x; }
	const float y = ecl::powf(x, n);
	vh_assert_eq(n < 0 ? y * ref : y, n < 0 ? 1.f : ref, 1e-5, "integer power");
}
// compensated summation loses nothing: what the rounded sum misses is carried in the accumulator, bit exact
// a0: exponent gap between the running sum (in [1,2)) and the increment
HARNESS(kahan_exact)
{
	const float sum = vh_range("sum", 1.f, 2.f);
	float in = vh_f32("in");
	const float hi = a0 == 0 ? 1.f : a0 == 1 ? 0.001f : 1e-6f, lo = a0 == 0 ? 0.5f : a0 == 1 ? 0.0005f : 5e-7f;
	vh_assume((in >= lo && in <= hi) || (in <= -lo && in >= -hi));
	float acc = 0.f;
	vh_cover("sum");
	const float t = kahanSummation(sum, in, acc);
	vh_assert((double)t - (double)acc == (double)sum + (double)in, "sum minus accumulator is the exact total");
}
// over the reals the accumulator contribution is subtracted from the next increment exactly once
HARNESS(kahan_carry)
{
	const float sum = vh_range("sum", -1e3f, 1e3f), in = vh_range("in", -1.f, 1.f), acc0 = vh_range("acc", -1e-3f, 1e-3f);
	float acc = acc0;
	vh_cover("sum");
	const float t = kahanSummation(sum, in, acc);
	vh_assert_eq(t - acc, sum + in - acc0, 1e-5, "carried error is taken into account once");
}

// ---------------------------------------------------------------- low pass filter
HARNESS(alpha_step)
{
	const float alpha = vh_range("alpha", 0.f, 1.f);
	const float x0 = vh_range("x0", -1e4f, 1e4f), x1 = vh_range("x1", -1e4f, 1e4f);
	AlphaFilter<float> f(a0 ? 0.5f : alpha);
	if (a0) { f.setAlpha(alpha); }
	f.reset(x0);
	vh_assert(f.getState() == x0, "reset sets the state");
	const float lo = x0 < x1 ? x0 : x1, hi = x0 < x1 ? x1 : x0;
	const float y = f.update(x1);
	vh_cover("step");
	vh_assert(y == f.getState(), "update returns the new state");
	vh_assert_eq(y, (1.f - alpha) * x0 + alpha * x1, 1e-5, "new state is the alpha weighted mean of old state and sample");
	vh_assert(y >= lo - 1e-2f && y <= hi + 1e-2f, "state stays between old state and sample");
	vh_assert_eq(f.update(y), y, 1e-5, "a constant input at the state leaves it unchanged");
}
HARNESS(alpha_params)
{
	const float dt = vh_range("dt", 0.f, 1e3f), tau = vh_range("tau", 0.f, 1e3f), prev = vh_range("prev", 0.f, 1.f);
	const float x0 = vh_range("x0", -1e2f, 1e2f), x1 = vh_range("x1", -1e2f, 1e2f);
	AlphaFilter<float> f(prev);
	f.setParameters(dt, tau);
	f.reset(x0);
	const float y = f.update(x1);
	vh_cover("parameters");

	if (dt + tau > 2e-7f) {
		// a first order lag: (dt + tau) (y - x0) = dt (x1 - x0)
		vh_assert_eq((y - x0) * (dt + tau), dt * (x1 - x0), 2e-4, "weight is dt/(dt+tau)");

	} else if (dt + tau < 1e-7f) {
		vh_assert_eq(y, (1.f - prev) * x0 + prev * x1, 1e-4, "degenerate parameters keep the previous weight");
	}
}
HARNESS(alpha_vector)
{
	// the template is used for vectors as well: every component is filtered with the same weight
	const float alpha = vh_range("alpha", 0.f, 1.f);
	matrix::Vector3f x0, x1;
	for (int i = 0; i < 3; i++) { x0(i) = vh_range("x0", -1e3f, 1e3f); x1(i) = vh_range("x1", -1e3f, 1e3f); }
	AlphaFilter<matrix::Vector3f> f(alpha);
	vh_assert(f.getState()(0) == 0.f && f.getState()(1) == 0.f && f.getState()(2) == 0.f, "state starts at zero");
	f.reset(x0);
	f.update(x1);
	vh_cover("vector");
	for (int i = 0; i < 3; i++) { vh_assert_eq(f.getState()(i), (1.f - alpha) * x0(i) + alpha * x1(i), 1e-5, "component weighted mean"); }
}
HARNESS(alpha_converge)
{
	// constant input: the distance to it shrinks by (1-alpha) every step, for any number of steps by induction; 6 unrolled
	const float alpha = vh_range("alpha", 0.f, 1.f), x0 = vh_range("x0", -100.f, 100.f), u = vh_range("u", -100.f, 100.f);
	AlphaFilter<float> f(alpha);
	f.reset(x0);
	float d = x0 - u;
	vh_cover("constant input");
	for (int k = 0; k < 6; k++) {
		d = d * (1.f - alpha);
		vh_assert_eq(f.update(u) - u, d, 1e-3, "geometric convergence to a constant input");
	}
}

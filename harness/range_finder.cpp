// EKF/sensor_range_finder: validity, regularity, tilt and stuck checks
#include "vh.h"
#include <EKF/common.h>
#include <EKF/sensor_range_finder.hpp>
using namespace estimator;
using namespace estimator::sensor;

static inline matrix::Dcmf sym_R()
{
	matrix::Dcmf R;
	static const char *const n[9] = {"R00", "R01", "R02", "R10", "R11", "R12", "R20", "R21", "R22"};
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { R(i, j) = vh_range(n[3 * i + j], -1.f, 1.f); }
	return R;
}

// one update from an arbitrary internal state
HARNESS(rf_step)
{
	SensorRangeFinder s;
	vh_havoc(&s, "class.estimator::sensor::SensorRangeFinder", "s");
	const uint64_t now = vh_u64("now");
	vh_assume(now < (1ull << 61) && s._sample.time_us <= now && s._time_bad_quality_us <= now && s._time_last_valid_us <= now && s._quality_hyst_us < (1ull << 61));
	vh_assume(s._dt_data_lpf >= 0.f && s._dt_data_lpf <= 4e6f && s._sample.rng == s._sample.rng);
	vh_assume(s._sin_pitch_offset >= -1.f && s._sin_pitch_offset <= 1.f && s._cos_pitch_offset >= -1.f && s._cos_pitch_offset <= 1.f);
	const matrix::Dcmf R = sym_R();
	const SensorRangeFinder o = s;
	s.runChecks(now, R);
	vh_cover("checked");
	const uint64_t age = now - o._sample.time_us;
	vh_assert(!(age > 400000) || (!s.isHealthy() && !s.isDataHealthy() && !s.isRegularlySendingData()), "a sample older than two maximum intervals is unhealthy and irregular");
	vh_assert(s._dt_data_lpf < 2e6f || (!s.isHealthy() && !s.isDataHealthy() && !s.isRegularlySendingData()), "a slow sensor is unhealthy and irregular");
	vh_assert(age > 400000 || !(s._dt_data_lpf < 2e6f) || s.isRegularlySendingData(), "recent data at a sufficient rate is regular");
	vh_assert(s._dt_data_lpf >= 0.f && s._dt_data_lpf <= 4e6f, "arrival interval filter is bounded");
	vh_assert(s._is_sample_ready == o._is_sample_ready && s.getRange() == o.getRange() && s._sample.time_us == o._sample.time_us, "checking does not alter the sample");
	if (!o._is_sample_ready) {
		vh_assert(!s.isDataHealthy(), "no new sample is never reported as usable data");
		if (s.isRegularlySendingData()) { vh_assert(s.isHealthy() == o.isHealthy(), "without a new sample the verdict is kept"); }
	}
	if (o._is_sample_ready && s.isRegularlySendingData()) {
		if (o._sample.quality == 0) { vh_assert(s._time_bad_quality_us == now && !s.isHealthy(), "zero quality is rejected and starts the hysteresis"); }
		else { vh_assert(s._time_bad_quality_us == o._time_bad_quality_us, "hysteresis start only moves on bad quality"); }
		const bool hyst = now - o._time_bad_quality_us > o._quality_hyst_us;
		const bool tilt = s.getCosTilt() > o._range_cos_max_tilt;
		const bool inrange = o._sample.rng >= o._rng_valid_min_val && o._sample.rng <= o._rng_valid_max_val;
		const bool base = o._sample.quality != 0 && hyst && tilt && inrange;
		vh_assert(base || !s.isHealthy(), "healthy requires quality for the hysteresis time, tilt and range limits");
		vh_assert(!base || s._is_stuck || s.isHealthy(), "a good, moving sample is accepted");
		vh_assert(!s.isHealthy() || (!s._is_stuck && s._time_last_valid_us == o._sample.time_us), "accepting a sample records its time");
		vh_assert(s.isHealthy() || s._time_last_valid_us == o._time_last_valid_us, "a rejected sample does not refresh the last valid time");
		vh_assert(o._sample.time_us < o._time_last_valid_us || o._sample.time_us - o._time_last_valid_us > 10000000ull || !base || s._is_stuck == o._is_stuck, "the stuck verdict only changes after 10 s without valid data");
	}
}
HARNESS(rf_filter)
{
	SensorRangeFinder s;
	const float lpf = vh_range("lpf", 0.f, 4e6f);
	const uint64_t age = vh_u64("age"), t0 = vh_u64("t0");
	vh_assume(t0 < 1000000000ull && age < 1000000000ull);
	s._dt_data_lpf = lpf;
	s._sample.time_us = t0;
	s.runChecks(t0 + age, matrix::eye<float, 3>());
	vh_cover("filtered");
	const float want = lpf + 0.005f * ((float)age - lpf);
	if (want > 4e6f + 1.f) { vh_assert_eq(s._dt_data_lpf, 4e6f, 1e-6, "spike protection"); }
	else if (want < 4e6f - 1.f) { vh_assert_eq(s._dt_data_lpf, want, 1e-5, "arrival interval is filtered with a 2 second constant"); }
}
// geometry: beam direction and height above ground
HARNESS(rf_tilt)
{
	SensorRangeFinder s;
	const float po = vh_range("pitch_offset", -3.1f, 3.1f), rng = vh_range("rng", 0.f, 500.f);
	const matrix::Dcmf R = sym_R();
	s.setPitchOffset(po);
	s.setRange(rng);
	s.runChecks(1000000, R);
	vh_cover("tilt");
	const float c = R(2, 0) * sinf(po) + R(2, 2) * cosf(po);
	vh_assert_eq(s.getCosTilt(), c, 1e-5, "cosine of the beam tilt is the vertical component of the rotated beam axis");
	vh_assert_eq(s.getDistBottom(), rng * c, 1e-5, "height is range times beam tilt cosine");
	const float po2 = vh_range("pitch_offset2", -3.1f, 3.1f);
	vh_assume(po2 - po > 0.001f || po2 - po < -0.001f);
	s.setPitchOffset(po2);
	s.runChecks(1000000, R);
	vh_assert_eq(s.getCosTilt(), R(2, 0) * sinf(po2) + R(2, 2) * cosf(po2), 1e-5, "changing the mounting angle changes the beam");
}
HARNESS(rf_settings)
{
	SensorRangeFinder s;
	const float mn = vh_range("min", 0.f, 10.f), mx = vh_range("max", 0.f, 500.f), ct = vh_range("cosmax", 0.f, 1.f), h = vh_range("hyst", 0.f, 100.f);
	s.setLimits(mn, mx); s.setCosMaxTilt(ct); s.setQualityHysteresis(h);
	vh_cover("set");
	vh_assert(s.getValidMinVal() == mn && s.getValidMaxVal() == mx && s._range_cos_max_tilt == ct, "limits are taken as given");
	vh_assert(s._quality_hyst_us <= (uint64_t)(h * 1e6f) + 1 && s._quality_hyst_us + 1 >= (uint64_t)(h * 1e6f), "hysteresis is taken in seconds");
}
// a sensor that resumes after a long outage is accepted only once its readings have moved; a0 readings
HARNESS(rf_stuck)
{
	SensorRangeFinder s;
	s.setLimits(0.2f, 100.f);
	s.setPitchOffset(0.f);
	s._dt_data_lpf = 20000.f;
	uint64_t t = 20000000;
	float lo = 1e9f, hi = -1e9f;
	bool accepted = false;
	static const char *const nm[6] = {"r0", "r1", "r2", "r3", "r4", "r5"};
	for (int k = 0; k < a0; k++) {
		rangeSample r{};
		r.time_us = t; r.rng = vh_range(nm[k], 0.2f, 100.f); r.quality = 100;
		s.setSample(r);
		s.runChecks(t + 5000, matrix::eye<float, 3>());
		vh_cover("reading");
		if (accepted) { vh_assert(s.isHealthy(), "once accepted, good readings stay accepted"); }
		else {
			const bool moved = hi - lo > 0.1f && k > 0;
			vh_assert(s.isHealthy() == moved, "after an outage readings are accepted only when the previous ones have varied by more than 0.1 m");
			if (moved) { accepted = true; }
			lo = r.rng < lo ? r.rng : lo;
			hi = r.rng > hi ? r.rng : hi;
		}
		t += 20000;
	}
}

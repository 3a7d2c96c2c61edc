// EKF/imu_down_sampler: time accounting, delta velocity rotation, delta angle accumulation
#include "vh.h"
#include <EKF/common.h>
#include <EKF/imu_down_sampler.hpp>
using namespace estimator;

static const char *const DA[4] = {"da_dt0", "da_dt1", "da_dt2", "da_dt3"};
static const char *const DV[4] = {"dv_dt0", "dv_dt1", "dv_dt2", "dv_dt3"};
static const char *const TS[4] = {"t0", "t1", "t2", "t3"};
static const char *const CL[12] = {"c00", "c01", "c02", "c10", "c11", "c12", "c20", "c21", "c22", "c30", "c31", "c32"};
static const char *const AN[12] = {"a00", "a01", "a02", "a10", "a11", "a12", "a20", "a21", "a22", "a30", "a31", "a32"};
static const char *const VE[12] = {"v00", "v01", "v02", "v10", "v11", "v12", "v20", "v21", "v22", "v30", "v31", "v32"};

static inline imuSample sample(int k)
{
	imuSample s{};
	s.time_us = vh_u64(TS[k]);
	s.delta_ang_dt = vh_range(DA[k], 0.0001f, 0.05f);
	s.delta_vel_dt = vh_range(DV[k], 0.0001f, 0.05f);
	for (int i = 0; i < 3; i++) {
		s.delta_vel_clipping[i] = vh_bool(CL[3 * k + i]);
		s.delta_ang(i) = vh_range(AN[3 * k + i], -1.f, 1.f);
		s.delta_vel(i) = vh_range(VE[3 * k + i], -20.f, 20.f);
	}
	return s;
}
// a0 samples in one accumulation, a1: 1 = after an earlier accumulation was taken
HARNESS(ds_time)
{
	const float target = vh_range("target", 0.002f, 0.02f);
	ImuDownSampler ds(target);
	if (a1) {
		const float adj = vh_range("adj", -0.01f, 0.01f);
		vh_assume(adj >= -0.5f * target && adj <= 0.5f * target);
		ds.update(sample(3));
		ds._imu_collection_time_adj = adj;
		(void)ds.getDownSampledImuAndTriggerReset();
	}
	float tang = 0.f, tvel = 0.f;
	bool clip[3] = {};
	for (int k = 0; k < a0; k++) {
		const imuSample s = sample(k);
		const float adj0 = ds._imu_collection_time_adj;
		tang += s.delta_ang_dt; tvel += s.delta_vel_dt;
		const bool done = ds.update(s);
		vh_cover("sample");
		vh_assert(ds._imu_down_sampled.delta_ang_dt == tang, "gyro integration times add up");
		vh_assert(ds._imu_down_sampled.delta_vel_dt == tvel, "accelerometer integration times add up");
		vh_assert(ds._imu_down_sampled.time_us == s.time_us, "the down-sampled time is that of the newest sample");
		for (int i = 0; i < 3; i++) {
			clip[i] = clip[i] || s.delta_vel_clipping[i];
			vh_assert(ds._imu_down_sampled.delta_vel_clipping[i] == clip[i], "clipping on any sample is reported for the interval");
		}
		vh_assert(done == (tang >= target - adj0), "complete exactly when the target interval is reached");
		if (!done) { vh_assert(ds._imu_collection_time_adj == adj0, "the target only adapts at the end of an interval"); }
	}
}
// the collection time correction, from any state
HARNESS(ds_adapt)
{
	const float target = vh_range("target", 0.002f, 0.02f), adj = vh_range("adj", -0.01f, 0.01f), acc = vh_range("acc", 0.f, 0.05f), dt = vh_range("dt", 0.0001f, 0.05f);
	vh_assume(adj >= -0.5f * target && adj <= 0.5f * target);
	ImuDownSampler ds(target);
	ds._do_reset = false;
	ds._imu_collection_time_adj = adj;
	ds._imu_down_sampled.delta_ang_dt = acc;
	imuSample s{};
	s.delta_ang_dt = dt;
	const bool done = ds.update(s);
	const float sum = acc + dt;
	if (sum > target - adj + 1e-6f) {
		vh_cover("done");
		vh_assert(done, "complete when the target interval is reached");
		float want = adj + 0.01f * (sum - target);
		if (want > 0.5f * target) { want = 0.5f * target; }
		if (want < -0.5f * target) { want = -0.5f * target; }
		vh_assert_eq(ds._imu_collection_time_adj, want, 1e-7, "the average interval is steered to the target by 1 % of the error, limited to half the target");
	}
	if (sum < target - adj - 1e-6f) { vh_assert(!done, "not complete before the target interval"); }
}
// taking the sample hands over exactly what was accumulated and starts again
HARNESS(ds_take)
{
	ImuDownSampler ds(vh_range("target", 0.002f, 0.02f));
	(void)ds.update(sample(0));
	const imuSample in = ds._imu_down_sampled;
	const imuSample out = ds.getDownSampledImuAndTriggerReset();
	vh_cover("taken");
	for (int i = 0; i < 3; i++) { vh_assert(vh_same(out.delta_ang(i), in.delta_ang(i)) && vh_same(out.delta_vel(i), in.delta_vel(i)) && out.delta_vel_clipping[i] == in.delta_vel_clipping[i], "taking returns the accumulated sample"); }
	vh_assert(vh_same(out.delta_ang_dt, in.delta_ang_dt) && vh_same(out.delta_vel_dt, in.delta_vel_dt) && out.time_us == in.time_us, "taking returns the accumulated times");
	ImuDownSampler fresh(0.01f);
	const imuSample s = sample(1);
	(void)fresh.update(s);
	(void)ds.update(s);
	for (int i = 0; i < 3; i++) { vh_assert(vh_same(ds._imu_down_sampled.delta_vel(i), fresh._imu_down_sampled.delta_vel(i)), "the next interval starts from zero velocity"); }
	for (int i = 0; i < 4; i++) { vh_assert(vh_same(ds._delta_angle_accumulated(i), fresh._delta_angle_accumulated(i)), "the next interval starts from zero rotation"); }
}
// delta velocity: v' = R(-da) (v + dv / 2) + dv / 2, R from the axis-angle formula
HARNESS(ds_vel)
{
	ImuDownSampler ds(1.f);
	ds._do_reset = false;
	const float ux = vh_range("ux", -1.f, 1.f), uy = vh_range("uy", -1.f, 1.f), uz = vh_range("uz", -1.f, 1.f);
	const matrix::Vector3f da(ux, uy, uz), v(vh_range("v0", -20.f, 20.f), vh_range("v1", -20.f, 20.f), vh_range("v2", -20.f, 20.f)),
	      dv(vh_range("d0", -20.f, 20.f), vh_range("d1", -20.f, 20.f), vh_range("d2", -20.f, 20.f));
	vh_assume(da.norm() > 0.1f);
	ds._imu_down_sampled.delta_vel = v;
	imuSample s{};
	s.delta_ang = da; s.delta_vel = dv; s.delta_ang_dt = s.delta_vel_dt = 0.001f;
	ds.update(s);
	vh_cover("rotated");
	const float n = sqrtf(ux * ux + uy * uy + uz * uz);
	const float kx = ux / n, ky = uy / n, kz = uz / n, c = cosf(n * 0.5f) * cosf(n * 0.5f) - sinf(n * 0.5f) * sinf(n * 0.5f), sn = -2.f * sinf(n * 0.5f) * cosf(n * 0.5f);
	float w[3];
	for (int i = 0; i < 3; i++) { w[i] = v(i) + 0.5f * dv(i); }
	const float kw = kx * w[0] + ky * w[1] + kz * w[2];
	const float cr[3] = {ky * w[2] - kz * w[1], kz * w[0] - kx * w[2], kx * w[1] - ky * w[0]}, kk[3] = {kx, ky, kz};
	for (int i = 0; i < 3; i++) { vh_assert_eq(ds._imu_down_sampled.delta_vel(i), w[i] * c + cr[i] * sn + kk[i] * kw * (1.f - c) + 0.5f * dv(i), 1e-4, "delta velocity is carried into the newest body frame"); }
}
HARNESS(ds_vel0)
{
	ImuDownSampler ds(1.f);
	imuSample s{};
	for (int k = 0; k < 2; k++) {
		for (int i = 0; i < 3; i++) { s.delta_vel(i) = vh_range(VE[3 * k + i], -20.f, 20.f); }
		ds.update(s);
		vh_cover("summed");
	}
	ImuDownSampler d2(1.f);
	imuSample t{};
	t.delta_vel = s.delta_vel;
	const matrix::Vector3f before = ds._imu_down_sampled.delta_vel;
	ds.update(t);
	for (int i = 0; i < 3; i++) { vh_assert_eq(ds._imu_down_sampled.delta_vel(i), before(i) + s.delta_vel(i), 1e-5, "without rotation delta velocities add up"); }
}
// rotation: the accumulated quaternion is composed on the right with the sample's rotation and stays a unit quaternion
HARNESS(ds_ang)
{
	ImuDownSampler ds(1.f);
	ds._do_reset = false;
	matrix::Quatf q(vh_range("q0", -1.f, 1.f), vh_range("q1", -1.f, 1.f), vh_range("q2", -1.f, 1.f), vh_range("q3", -1.f, 1.f));
	const float ux = vh_range("ux", -1.f, 1.f), uy = vh_range("uy", -1.f, 1.f), uz = vh_range("uz", -1.f, 1.f);
	vh_assume(matrix::Vector3f(ux, uy, uz).norm() > 0.1f && q(0) * q(0) + q(1) * q(1) + q(2) * q(2) + q(3) * q(3) > 0.5f);
	ds._delta_angle_accumulated = q;
	imuSample s{};
	s.delta_ang(0) = ux; s.delta_ang(1) = uy; s.delta_ang(2) = uz; s.delta_ang_dt = s.delta_vel_dt = 0.001f;
	ds.update(s);
	vh_cover("composed");
	const float n = sqrtf(ux * ux + uy * uy + uz * uz), c = cosf(n * 0.5f), m = sinf(n * 0.5f) / n, x = m * ux, y = m * uy, z = m * uz;
	const float r[4] = {q(0) * c - q(1) * x - q(2) * y - q(3) * z, q(0) * x + q(1) * c + q(2) * z - q(3) * y, q(0) * y + q(2) * c + q(3) * x - q(1) * z, q(0) * z + q(3) * c + q(1) * y - q(2) * x};
	const matrix::Quatf g = ds._delta_angle_accumulated;
	// same direction in quaternion space, positive multiple, unit length
	for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) { vh_assert_eq(g(i) * r[j] - g(j) * r[i], 0.f, 1e-5, "rotations compose in order"); }
	vh_assert_eq(g(0) * g(0) + g(1) * g(1) + g(2) * g(2) + g(3) * g(3), 1.f, 1e-5, "accumulated rotation stays a unit quaternion");
}
// a rotation about any axis comes out as the angle it went in with
HARNESS(ds_out)
{
	ImuDownSampler ds(0.002f);
	const matrix::Vector3f da(vh_range("ux", -1.f, 1.f), vh_range("uy", -1.f, 1.f), vh_range("uz", -1.f, 1.f));
	vh_assume(da.norm() > 0.1f && da.norm() < 1.8f);
	imuSample s{};
	s.delta_ang_dt = s.delta_vel_dt = 0.003f;
	s.delta_ang = da;
	const bool done = ds.update(s);
	vh_cover("angle");
	vh_assert(done, "one long sample completes the interval");
	const matrix::Vector3f o = ds.getDownSampledImuAndTriggerReset().delta_ang;
	for (int i = 0; i < 3; i++) { vh_assert_eq(o(i), da(i), 1e-4, "the delta angle is the rotation vector of the accumulated rotation"); }
}

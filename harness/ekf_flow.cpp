// optical flow fusion
#include "ekf_h.hpp"
static const int SUP[7] = {0, 1, 2, 3, 4, 5, 6};

// flow about axis 0: + body-frame velocity y / range, axis 1: - body-frame velocity x / range
static void flow_row(const double *q, const double *v, double range, int axis, Row &H)
{
	const double ex[3] = {1, 0, 0}, ey[3] = {0, 1, 0}, ez[3] = {0, 0, 1};
	const int r = axis == 0 ? 1 : 0;
	const double s = axis == 0 ? 1.0 : -1.0;
	for (int k = 0; k < 4; k++) { H.add(k, s * rot_row_dq(q, r, v, k) / range); }
	H.add(4, s * rot_row(q, r, ex) / range); H.add(5, s * rot_row(q, r, ey) / range); H.add(6, s * rot_row(q, r, ez) / range);
}
static double flow_noise(Ekf &f, bool best)
{
	// quality 0 (worst) or 255 (best) with a threshold of 0
	f._params.flow_noise = vh_range("noise", 0.051f, 1.f);
	f._params.flow_noise_qual_min = vh_range("noise_min", 0.051f, 1.f);
	f._params.flow_qual_min = 0;
	f._flow_sample_delayed.quality = best ? 255 : 0;
	const double n = best ? (double)f._params.flow_noise : (double)f._params.flow_noise_qual_min;
	return n * n;
}
static void flow_flags(Ekf &f)
{
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
}
// a0: observed state of the CROSS family; every attitude, velocity, height and sensor offset
HARNESS(flow_cross)
{
	Ekf &f = ekf_any();
	flow_flags(f);
	cross_cov(f, SUP, 7, a0);
	Snap b;
	snap(f, b);
	vh_assume_unit(f._state.quat_nominal(0), f._state.quat_nominal(1), f._state.quat_nominal(2), f._state.quat_nominal(3));
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	double q[4], v[3];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	for (int i = 0; i < 3; i++) { v[i] = f._state.vel(i); }
	// the sensor sits at the IMU unless a1 is set
	if (!(a1 & 3)) { f._params.flow_pos_body = f._params.imu_pos_body; }
	double w[3], d[3], vb[3];
	f._flow_sample_delayed.dt = vh_range("dt", 0.001f, 1.f);
	for (int i = 0; i < 3; i++) { d[i] = a1 & 3 ? (double)f._params.flow_pos_body(i) - (double)f._params.imu_pos_body(i) : 0.0; w[i] = -(double)f._flow_sample_delayed.gyro_xyz(i) / (double)f._flow_sample_delayed.dt; }
	const double ez[3] = {0, 0, 1};
	const double tilt = rot_row(q, 2, ez);
	const double drop = 2 * (q[1] * q[3] - q[0] * q[2]) * d[0] + 2 * (q[2] * q[3] + q[0] * q[1]) * d[1] + (q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3]) * d[2];
	double hagl = (double)f._terrain_vpos - (double)f._state.pos(2) - drop;
	const float clear = vh_range("clear", 0.1f, 10.f);
	f._params.rng_gnd_clearance = clear;
	const bool low = (a1 & 3) == 2;
	if (low) { vh_assume(hagl <= (double)clear); vh_assume(hagl <= (double)clear - 1e-3); hagl = clear; } else { vh_assume(hagl >= (double)clear); vh_assume(hagl >= (double)clear + 1e-3); }
	vh_assume(tilt >= 0.01 || tilt <= -0.01);
	const double range = hagl / tilt;
	for (int i = 0; i < 3; i++) {
		const int j = (i + 1) % 3, k = (i + 2) % 3;
		vb[i] = rot_row(q, i, v) + (a1 & 3 ? w[j] * d[k] - w[k] * d[j] : 0.0);
	}
	const double R = flow_noise(f, a1 & 4), gate = vh_range("gate", 1.001f, 100.f);
	f._params.flow_innov_gate = (float)gate;
	double innov[2], h[2], hh = 0;
	for (int i = 0; i < 2; i++) {
		Row H{};
		flow_row(q, v, range, i, H);
		h[i] = H.h[a0];
		const double rate = (double)f._flow_compensated_XY_rad(i) / (double)f._flow_sample_delayed.dt + (double)f._flow_gyro_bias(i);
		innov[i] = (i == 0 ? vb[1] / range : -vb[0] / range) - rate;
		vh_assume(innov[i] * innov[i] / (gate * gate * R) <= 0.999);
		for (int k = 0; k < NS; k++) {
			const bool gained = k > 6 && (k < 13 || k > 15);
			const double c = b.P[k][a0], lo = (double)b.P[k][k] - hh / R * c * c, kp = h[i] * h[i] / R * c * c;
			if (!gained) { if (i == 0) { vh_assume(b.P[k][k] >= 0.f && b.P[k][k] <= 0.999f); } continue; }
			vh_assume(kp <= lo);
			vh_assume(1.001 * kp <= lo);
			vh_assume(lo - kp >= VAR_MIN[k]); vh_assume(lo - kp <= 0.999 * VAR_MAX[k]);
		}
		hh += h[i] * h[i];
	}
	f.fuseOptFlow();
	vh_cover("fused");
	vh_assert(!f._fault_status.flags.bad_optflow_X && !f._fault_status.flags.bad_optflow_Y && !f._innov_check_fail_status.flags.reject_optflow_X && !f._innov_check_fail_status.flags.reject_optflow_Y && f._time_last_of_fuse == f._time_last_imu, "reported health");
	for (int i = 0; i < 2; i++) { vh_assert_eqd(f._flow_innov(i), innov[i], 1e-4, "innovation is predicted minus measured flow"); vh_assert_eqd(f._flow_innov_var(i), R, 1e-4, "innovation variance"); }
	for (int k = 0; k < NS; k++) {
		const bool gained = k > 6 && (k < 13 || k > 15);
		double e = b.x[k];
		if (gained) { for (int i = 0; i < 2; i++) { e -= h[i] * innov[i] * (double)b.P[k][a0] / R; } }
		vh_assert_eqd(*state_ptr(f._state, k), e, 1e-4, "state moves by the two Kalman gains times the innovations");
	}
	for (int k = 7; k < 13; k++) {
		const int l = k == 12 ? 22 : k + 1;
		vh_assert_eqd(f.P(k, l), (double)b.P[k][l] - hh * (double)b.P[k][a0] * (double)b.P[l][a0] / R, 1e-4, "covariance is reduced by the two updates");
	}
}
// one axis with full covariance at one generic attitude and velocity at which the other axis does not see velocity s:
// P H' of the other axis is eps at s and zero elsewhere, so that its update only lowers the variance of s
HARNESS(flow_axis)
{
	const int axis = a1 & 1, s = axis == 0 ? 4 : 5;
	Ekf &f = ekf_any();
	flow_flags(f);
	f._state.quat_nominal(0) = vh_frac("q0@1/5", 1, 5); f._state.quat_nominal(1) = vh_frac("q1@2/5", 2, 5); f._state.quat_nominal(2) = vh_frac("q2@2/5", 2, 5);
	if (axis == 0) { f._state.quat_nominal(3) = vh_frac("q3@4/5", 4, 5); } else { f._state.quat_nominal(3) = -vh_frac("q3@4/5", 4, 5); }
	f._state.vel(0) = 2.f; f._state.vel(1) = -3.f; f._state.vel(2) = 0.5f;
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	f._params.flow_pos_body = f._params.imu_pos_body;
	f._params.rng_gnd_clearance = 0.1f;
	f._flow_sample_delayed.dt = 0.125f;
	const double ez[3] = {0, 0, 1};
	double q[4], v[3] = {2, -3, 0.5};
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	const double tilt = rot_row(q, 2, ez);
	const float hgt = vh_range("hgt", 0.5f, 100.f);
	f._state.pos(2) = 0.f; f._terrain_vpos = hgt;
	const double range = (double)hgt / tilt;
	Row H[2] = {};
	for (int i = 0; i < 2; i++) { flow_row(q, v, range, i, H[i]); }
	const double eps = axis == 0 ? vh_range("eps", 0.01f, 0.1f) : vh_range("eps", -0.1f, -0.01f);
	{
		const Row &O = H[1 - axis];
		const double hs = O.h[s];
		for (int i = 0; i < NS; i++) {
			if (i == s) { continue; }
			double a = 0;
			for (int k = 0; k < O.n; k++) { if (O.ix[k] != s) { a += O.h[k] * (double)f.P(i, O.ix[k]); } }
			f.P(i, s) = (float)(-a / hs); f.P(s, i) = f.P(i, s);
		}
		double a = 0;
		for (int k = 0; k < O.n; k++) { if (O.ix[k] != s) { a += O.h[k] * (double)f.P(O.ix[k], s); } }
		f.P(s, s) = (float)((eps - a) / hs);
	}
	for (int i = 0; i < 2; i++) {
		const double vb = rot_row(q, i == 0 ? 1 : 0, v);
		f._flow_gyro_bias(i) = 0.f;
		f._flow_compensated_XY_rad(i) = (float)((i == 0 ? vb / range : -vb / range) * 0.125);
	}
	Snap b;
	snap(f, b);
	assume_within(b);
	const double R = flow_noise(f, a1 & 4);
	f._params.flow_innov_gate = vh_range("gate", 1.001f, 100.f);
	const double So = R + H[1 - axis].h[s] * eps, ko = eps * eps / So, p = b.P[s][s];
	vh_assume(So >= 1.00001 * R); vh_assume(So >= R);
	vh_assume(ko <= p); vh_assume(1.001 * ko <= p); vh_assume(p - ko >= VAR_MIN[s]); vh_assume(p - ko <= 0.999 * VAR_MAX[s]);
	if (axis == 1) { b.P[s][s] = (float)(p - ko); }
	Gain g;
	gain(b, H[axis], R, g);
	vh_assume(g.S >= 1.00001 * R); vh_assume(g.S >= R);
	bool zero[NS] = {};
	for (int i = 13; i < 16; i++) { zero[i] = true; }
	assume_no_limits(b, g, zero);
	if (axis == 0) {
		const double p1 = p - g.K[s] * g.PH[s];
		vh_assume(ko <= p1); vh_assume(1.001 * ko <= p1); vh_assume(p1 - ko >= VAR_MIN[s]); vh_assume(p1 - ko <= 0.999 * VAR_MAX[s]);
	}
	f.fuseOptFlow();
	vh_cover("fused");
	vh_assert_eqd(f._flow_innov_var(axis), g.S, 1e-4, "innovation variance is H P H' + R");
	if (axis == 0) { b.P[s][s] = (float)(p - ko); }
	if (a0 > 0) { check_update(f, b, g, 0.0, a0, zero); return; }
	for (int i = 0; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), b.x[i], 1e-4, "a perfectly predicted measurement moves no state"); }
}

// observation noise between best and worst quality
HARNESS(flow_var)
{
	Ekf &f = ekf_any();
	const double nb = vh_range("noise", 0.f, 10.f), nw = vh_range("noise_min", 0.f, 10.f);
	f._params.flow_noise = (float)nb; f._params.flow_noise_qual_min = (float)nw;
	const double qm = f._params.flow_qual_min = a0, q = f._flow_sample_delayed.quality = (uint8_t)a1;
	const double best = nb > (double)0.05f ? nb : (double)0.05f, worst = nw > (double)0.05f ? nw : (double)0.05f;
	double w = a0 >= 255 ? 0 : (q - qm) / (255.0 - qm);
	w = w < 0 ? 0 : w > 1 ? 1 : w;
	const double n = best * w + worst * (1 - w), v = f.calcOptFlowMeasVar();
	vh_cover("asked");
	vh_assert(v <= n * n + 1e-4 * (1 + n * n) && v >= n * n - 1e-4 * (1 + n * n), "flow noise is interpolated by quality");
}
// a0: rejected axes; every covariance at one generic attitude and velocity
HARNESS(flow_reject)
{
	Ekf &f = ekf_any();
	flow_flags(f);
	f._state.quat_nominal(0) = vh_frac("q0@1/5", 1, 5); f._state.quat_nominal(1) = vh_frac("q1@2/5", 2, 5); f._state.quat_nominal(2) = vh_frac("q2@2/5", 2, 5); f._state.quat_nominal(3) = vh_frac("q3@4/5", 4, 5);
	f._state.vel(0) = 2.f; f._state.vel(1) = -3.f; f._state.vel(2) = 0.5f;
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	f._params.flow_pos_body = f._params.imu_pos_body;
	f._params.rng_gnd_clearance = 0.1f;
	f._flow_sample_delayed.dt = 0.125f;
	const double ez[3] = {0, 0, 1};
	double q[4], v[3] = {2, -3, 0.5};
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	const float hgt = vh_range("hgt", 0.5f, 100.f);
	f._state.pos(2) = 0.f; f._terrain_vpos = hgt;
	const double range = (double)hgt / rot_row(q, 2, ez);
	Snap b;
	snap(f, b);
	const double R = flow_noise(f, true), gate = vh_range("gate", 1.001f, 100.f);
	f._params.flow_innov_gate = (float)gate;
	for (int i = 0; i < 2; i++) {
		Row H{};
		flow_row(q, v, range, i, H);
		Gain g;
		gain(b, H, R, g);
		vh_assume(g.S >= R); vh_assume(g.S >= 1.00001 * R);
		const double vb = rot_row(q, i == 0 ? 1 : 0, v);
		const double d = (i == 0 ? vb / range : -vb / range) - ((double)f._flow_compensated_XY_rad(i) / 0.125 + (double)f._flow_gyro_bias(i)), r = d * d / (gate * gate * g.S);
		if (a0 >> i & 1) { vh_assume(r >= 1.0); vh_assume(r >= 1.001); } else { vh_assume(r <= 1.0); vh_assume(r <= 0.999); }
	}
	Flags old;
	reject_flags(f, old);
	const uint64_t t_old = f._time_last_of_fuse;
	f.fuseOptFlow();
	vh_cover("rejected");
	vh_assert(f._time_last_of_fuse == t_old, "a rejection is no fusion");
	check_rejected(f, b, old, a0 << 11, ~a0 << 11 & 0x1800);
}
// badly conditioned innovation variance of axis a1: nothing is fused
HARNESS(flow_ill)
{
	Ekf &f = ekf_any();
	flow_flags(f);
	rational_quat(f);
	f._state.vel(0) = 2.f; f._state.vel(1) = -3.f; f._state.vel(2) = 0.5f;
	f._params.flow_pos_body = f._params.imu_pos_body;
	f._params.rng_gnd_clearance = 0.1f;
	f._flow_sample_delayed.dt = 0.125f;
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	const double ez[3] = {0, 0, 1};
	double q[4], v[3] = {2, -3, 0.5};
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	const double tilt = rot_row(q, 2, ez);
	const float hgt = vh_range("hgt", 0.5f, 100.f);
	f._state.pos(2) = 0.f; f._terrain_vpos = hgt;
	Snap b;
	snap(f, b);
	const double R = flow_noise(f, a0 & 4);
	for (int i = 0; i <= a1; i++) {
		Row H{};
		flow_row(q, v, (double)hgt / tilt, i, H);
		double S = R;
		for (int k = 0; k < H.n; k++) { for (int l = 0; l < H.n; l++) { S += H.h[k] * H.h[l] * (double)b.P[H.ix[k]][H.ix[l]]; } }
		if (i < a1) { vh_assume(S >= R); vh_assume(S >= 1.00001 * R); } else { vh_assume(S < R); vh_assume(S <= 0.999 * R); }
	}
	const uint64_t t_old = f._time_last_of_fuse;
	Faults fold;
	fault_flags(f, fold);
	f.fuseOptFlow();
	vh_cover("fused");
	vh_assert(f._time_last_of_fuse == t_old, "a refusal is no fusion");
	check_illcond(f, b, fold, 99, false, 0);
}

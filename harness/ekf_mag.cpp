// three-axis magnetometer fusion
#include "ekf_h.hpp"
static const int SUP[10] = {0, 1, 2, 3, 16, 17, 18, 19, 20, 21};

static void mag_row(const double *q, const double *m, int axis, Row &H)
{
	const double ex[3] = {1, 0, 0}, ey[3] = {0, 1, 0}, ez[3] = {0, 0, 1};
	for (int k = 0; k < 4; k++) { H.add(k, rot_row_dq(q, axis, m, k)); }
	H.add(16, rot_row(q, axis, ex)); H.add(17, rot_row(q, axis, ey)); H.add(18, rot_row(q, axis, ez));
	H.add(19 + axis, 1.0);
}
static Ekf &setup(bool all)
{
	Ekf &f = ekf_any();
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
	f._params.mag_noise = vh_range("mag_noise", 0.001f, 1000.f);
	f._params.mag_declination_source = 0;
	f._params.mag_declination_deg = vh_range("decl_deg", -180.f, 180.f);
	f._imu_sample_delayed.time_us = 17000000;
	f._flt_mag_align_start_time = all ? 11000000 : 13000000;
	return f;
}
// the declination limiter has nothing to do for this field estimate
static void decl_ok(Ekf &f, double n, double e)
{
	vh_assume(n * n + e * e >= 0.01);
	vh_assume(sqrt(n * n + e * e) >= 0.1);
	const double a = atan2(e, n), r = (double)math::radians(f._params.mag_declination_deg);
	vh_assume(a - r <= 0.4 && a - r >= -0.4);
}
// P H' = eps at the bias of one axis and zero elsewhere, by construction of the row of that bias: its fusion then only
// lowers the variance of that bias (eps keeps the innovation variance clear of its minimum under rounding)
static void null_axis(Ekf &f, const Row &H, int axis, double eps)
{
	const int s = 19 + axis;
	for (int i = 0; i < NS; i++) {
		if (i == s) { continue; }
		double a = 0;
		for (int k = 0; k < H.n; k++) { if (H.ix[k] != s) { a += H.h[k] * (double)f.P(i, H.ix[k]); } }
		f.P(i, s) = (float)-a; f.P(s, i) = (float)-a;
	}
	double a = 0;
	for (int k = 0; k < H.n; k++) { if (H.ix[k] != s) { a += H.h[k] * (double)f.P(H.ix[k], s); } }
	f.P(s, s) = (float)(eps - a);
}

// one axis at a time with full covariance: a0 part compared, a1 & 3 axis, a1 & 4 all states, a1 & 8 synthetic Z (not fused)
HARNESS(mag_axis)
{
	const int axis = a1 & 3;
	const bool all = a1 & 4, synth = a1 & 8;
	Ekf &f = setup(all);
	rational_quat(f);
	f._state.mag_I(0) = 0.375f; f._state.mag_I(1) = 0.5f; f._state.mag_I(2) = -0.875f;
	f._control_status.flags.synthetic_mag_z = synth;
	double q[4], m[3], pred[3];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	for (int i = 0; i < 3; i++) { m[i] = f._state.mag_I(i); }
	Row H[3];
	for (int i = 0; i < 3; i++) {
		H[i].n = 0;
		mag_row(q, m, i, H[i]);
		pred[i] = rot_row(q, i, m) + (double)f._state.mag_B(i);
		f._mag_sample_delayed.mag(i) = (float)pred[i];
	}
	if (!all && axis == 0) {
		for (int i = 0; i < NS; i++) { for (int j = 0; j < NS; j++) { if ((i < 16 || i > 21 || j < 16 || j > 21) && (i != j || i < 4)) { f.P(i, j) = 0.f; } } }
	}
	const double eps = vh_range("eps", 0.01f, 0.1f);
	for (int i = 0; i < 3; i++) { if (i != axis) { null_axis(f, H[i], i, eps); } }
	decl_ok(f, m[0], m[1]);
	Snap b;
	snap(f, b);
	assume_within(b);
	f._params.mag_innov_gate = vh_range("gate", 1.001f, 100.f);
	const double R = (double)f._params.mag_noise * (double)f._params.mag_noise;
	double p0[3];
	for (int i = 0; i < 3; i++) {
		if (i == axis || (i == 2 && synth)) { continue; }
		const double k = eps * eps / (R + eps), p = b.P[19 + i][19 + i];
		vh_assume(k <= p); vh_assume(p - k >= 0); vh_assume(p - k <= 0.999);
		p0[i] = p;
		b.P[19 + i][19 + i] = (float)(p - k);
	}
	Gain g;
	gain(b, H[axis], R, g);
	for (int i = axis + 1; i < (synth ? 2 : 3); i++) {
		const double kp = g.K[19 + i] * g.PH[19 + i];
		vh_assume(kp <= p0[i]); vh_assume(p0[i] - kp >= 0); vh_assume(p0[i] - kp <= 0.999);
	}
	vh_assume(g.S >= 1.00001 * R);
	vh_assume(g.S >= R);
	bool zero[NS] = {};
	for (int i = 0; i < NS; i++) { zero[i] = all ? i >= 13 && i < 16 : i < 16 || i > 21; }
	assume_no_limits(b, g, zero);
	f.fuseMag();
	vh_cover("fused");
	for (int i = 0; i < 3; i++) { vh_assert_eqd(f._mag_innov_var(i), i == axis ? g.S : R + eps, 1e-4, "innovation variance is H P H' + R"); }
	vh_assert(!f._innov_check_fail_status.flags.reject_mag_x && !f._innov_check_fail_status.flags.reject_mag_y && !f._innov_check_fail_status.flags.reject_mag_z && !f._fault_status.flags.bad_mag_x && !f._fault_status.flags.bad_mag_y && !f._fault_status.flags.bad_mag_z, "not rejected");
	if (a0 > 0) { check_update(f, b, g, 0.0, a0, zero); return; }
	for (int i = 0; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), b.x[i], 1e-4, "a perfectly predicted measurement moves no state"); }
}

// every attitude and field, correlations of one observed state (a0) with all unobserved ones
HARNESS(mag_cross)
{
	const bool all = true, synth = a1;
	Ekf &f = setup(all);
	cross_cov(f, SUP, 10, a0);
	f._control_status.flags.synthetic_mag_z = synth;
	Snap b;
	snap(f, b);
	double q[4], m[3];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	for (int i = 0; i < 3; i++) { m[i] = f._state.mag_I(i); }
	vh_assume_unit(f._state.quat_nominal(0), f._state.quat_nominal(1), f._state.quat_nominal(2), f._state.quat_nominal(3));
	decl_ok(f, m[0], m[1]);
	const double R = (double)f._params.mag_noise * (double)f._params.mag_noise;
	const double gate = vh_range("gate", 1.001f, 100.f);
	f._params.mag_innov_gate = (float)gate;
	double innov[3], h[3], hh = 0;
	for (int i = 0; i < 3; i++) {
		Row H{};
		mag_row(q, m, i, H);
		h[i] = 0;
		for (int k = 0; k < H.n; k++) { if (H.ix[k] == SUP[a0]) { h[i] = H.h[k]; } }
		innov[i] = rot_row(q, i, m) + (double)f._state.mag_B(i) - (double)f._mag_sample_delayed.mag(i);
		if (synth && i == 2) { innov[i] = 0; h[i] = 0; }
		vh_assume(innov[i] * innov[i] / (gate * gate * R) <= 0.999);
		for (int k = 0; k < NS; k++) {
			const bool gained = (k > 3 && k < 13) || k > 21;
			const double c = b.P[k][SUP[a0]], lo = (double)b.P[k][k] - hh / R * c * c, kp = h[i] * h[i] / R * c * c;
			if (!gained) { if (i == 0) { vh_assume(b.P[k][k] >= 0.f && b.P[k][k] <= 1.f); } continue; }
			vh_assume(kp <= lo);
			vh_assume(1.001 * kp <= lo);
			vh_assume(lo - kp >= VAR_MIN[k]); vh_assume(lo - kp <= VAR_MAX[k]);
		}
		hh += h[i] * h[i];
	}
	f.fuseMag();
	vh_cover("fused");
	for (int i = 0; i < 3; i++) { vh_assert_eqd(f._mag_innov(i), innov[i], 1e-4, "innovation is predicted minus measured field"); }
	for (int k = 0; k < NS; k++) {
		const bool gained = (k > 3 && k < 13) || k > 21;
		double e = b.x[k];
		if (gained) { for (int i = 0; i < 3; i++) { e -= h[i] * innov[i] * (double)b.P[k][SUP[a0]] / R; } }
		vh_assert_eqd(*state_ptr(f._state, k), e, 1e-4, "state moves by the three Kalman gains times the innovations");
	}
	for (int k = 4; k < 13; k++) {
		const int l = k == 12 ? 22 : k + 1;
		vh_assert_eqd(f.P(k, l), (double)b.P[k][l] - hh * (double)b.P[k][SUP[a0]] * (double)b.P[l][SUP[a0]] / R, 1e-4, "covariance is reduced by the three updates");
	}
}
// a0: rejected axes; every covariance at one generic attitude and field
HARNESS(mag_reject)
{
	Ekf &f = setup(a1);
	rational_quat(f);
	f._state.mag_I(0) = 0.375f; f._state.mag_I(1) = 0.5f; f._state.mag_I(2) = -0.875f;
	f._control_status.flags.synthetic_mag_z = false;
	double q[4], m[3];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	for (int i = 0; i < 3; i++) { m[i] = f._state.mag_I(i); }
	Snap b;
	snap(f, b);
	const double gate = vh_range("gate", 1.001f, 100.f), R = (double)f._params.mag_noise * (double)f._params.mag_noise;
	f._params.mag_innov_gate = (float)gate;
	for (int i = 0; i < 3; i++) {
		Row H{};
		mag_row(q, m, i, H);
		Gain g;
		gain(b, H, R, g);
		vh_assume(g.S >= R); vh_assume(g.S >= 1.00001 * R);
		const double d = rot_row(q, i, m) + (double)f._state.mag_B(i) - (double)f._mag_sample_delayed.mag(i), r = d * d / (gate * gate * g.S);
		if (a0 >> i & 1) { vh_assume(r >= 1.0); vh_assume(r >= 1.001); } else { vh_assume(r <= 1.0); vh_assume(r <= 0.999); }
	}
	Flags old;
	reject_flags(f, old);
	f.fuseMag();
	vh_cover("rejected");
	check_rejected(f, b, old, a0 << 4, ~a0 << 4 & 0x70);
}
// badly conditioned innovation variance of axis a1: nothing is fused
HARNESS(mag_ill)
{
	const int axis = a1;
	Ekf &f = setup(a0);
	rational_quat(f);
	f._state.mag_I(0) = 0.375f; f._state.mag_I(1) = 0.5f; f._state.mag_I(2) = -0.875f;
	double q[4], m[3];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	for (int i = 0; i < 3; i++) { m[i] = f._state.mag_I(i); }
	Snap b;
	snap(f, b);
	const double R = (double)f._params.mag_noise * (double)f._params.mag_noise;
	for (int i = 0; i <= axis; i++) {
		Row H{};
		mag_row(q, m, i, H);
		double S = R;
		for (int k = 0; k < H.n; k++) { for (int l = 0; l < H.n; l++) { S += H.h[k] * H.h[l] * (double)b.P[H.ix[k]][H.ix[l]]; } }
		if (i < axis) { vh_assume(S >= R); vh_assume(S >= 1.00001 * R); } else { vh_assume(S < R); vh_assume(S <= 0.999 * R); }
	}
	Faults old, now;
	fault_flags(f, old);
	f.fuseMag();
	vh_cover("fused");
	fault_flags(f, now);
	for (int i = 0; i < 15; i++) {
		if (i < 3 && i <= axis) { vh_assert(now.b[i] == (i == axis), "badly conditioned axis is flagged"); } else { vh_assert(now.b[i] == old.b[i], "other faults untouched"); }
	}
	for (int i = 0; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), b.x[i], 1e-4, "badly conditioned measurement leaves the state untouched"); }
	for (int i = 0; i < NS; i++) {
		const bool mi = i < 4 || (i >= 16 && i < 22);
		for (int j = 0; j < i; j++) {
			const bool mj = j < 4 || (j >= 16 && j < 22);
			if (!mi && !mj) { vh_assert_eqd(f.P(i, j), b.P[i][j], 1e-4, "covariance of the other states is kept"); }
			else if (i >= 4) { vh_assert_eqd(f.P(i, j), 0.0, 1e-4, "correlations of attitude and field are reset"); }
		}
		if (!mi) { vh_assert_eqd(f.P(i, i), b.P[i][i], 1e-4, "variance of the other states is kept"); }
	}
}

// heading fusion (321 and 312 rotation sequences): the update itself
#include "ekf_h.hpp"

// yaw of the sequence from the homogeneous quaternion: atan2(A, B) and its gradient
static void yaw_row(const double *q, bool s312, bool formB, double &A, double &B, Row &H)
{
	const double q0 = q[0], q1 = q[1], q2 = q[2], q3 = q[3];
	double dA[4], dB[4];
	if (!s312) {
		A = 2 * (q1 * q2 + q0 * q3); B = q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3;
		dA[0] = 2 * q3; dA[1] = 2 * q2; dA[2] = 2 * q1; dA[3] = 2 * q0;
		dB[0] = 2 * q0; dB[1] = 2 * q1; dB[2] = -2 * q2; dB[3] = -2 * q3;
	} else {
		A = 2 * (q0 * q3 - q1 * q2); B = q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3;
		dA[0] = 2 * q3; dA[1] = -2 * q2; dA[2] = -2 * q1; dA[3] = 2 * q0;
		dB[0] = 2 * q0; dB[1] = -2 * q1; dB[2] = 2 * q2; dB[3] = -2 * q3;
	}
	// the derivative of atan(A / B), or of pi/2 - atan(B / A) which is the same for non-zero A and B
	for (int k = 0; k < 4; k++) { H.add(k, formB ? -(dB[k] / A - B * dA[k] / (A * A)) / (1 + B * B / (A * A)) : (dA[k] / B - A * dB[k] / (B * B)) / (1 + A * A / (B * B))); }
}

// a0 & 15: observed quaternion element of the CROSS family (8: full covariance at one attitude, a0 & 16 covariance compared);
// a1: 1 = 312 sequence, 2 = other branch of the derivative, 4 = zero innovation requested, 8 = wind and field states not in use, 16 = variance below its floor, 32 / 64 = failing innovation on ground (positive / negative), 128 = innovation wraps
HARNESS(yaw_update)
{
	const bool full = a0 & 8, cov = a0 & 16, s312 = a1 & 1, formB = a1 & 2, zinnov = a1 & 4, few = a1 & 8, lowvar = a1 & 16, gpos = a1 & 32, gneg = a1 & 64, wraps = a1 & 128;
	const int only = a0 & 3;
	static const int Q[4] = {0, 1, 2, 3};
	Ekf &f = ekf_any();
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = !few;
	f._control_status.flags.mag_3D = !few;
	if (few) { for (int i = 16; i < NS; i++) { for (int j = 0; j < NS; j++) { f.P(i, j) = 0.f; f.P(j, i) = 0.f; } } }
	if (full) { rational_quat(f); } else { cross_cov(f, Q, 4, only); vh_assume_unit(f._state.quat_nominal(0), f._state.quat_nominal(1), f._state.quat_nominal(2), f._state.quat_nominal(3)); }
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	double q[4], A, B;
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	Row H{};
	yaw_row(q, s312, formB, A, B, H);
	if (!full) {
		vh_assume(A * A > 1.1e-6); vh_assume(B * B > 1.1e-6);
		const double sa = A * A / (B * B) + 1, sb = B * B / (A * A) + 1;
		vh_assume(sa >= 1.0); vh_assume(sb >= 1.0);
		if (formB) { vh_assume(sb - sa >= 1e-3); } else { vh_assume(sa >= sb); vh_assume(sa >= 1.001 * sb); }
	}
	Snap b;
	snap(f, b);
	assume_within(b);
	const float yaw = vh_range("yaw", -3.1f, 3.1f), var = lowvar ? vh_range("var", 0.f, 0.99e-4f) : vh_range("var", 1.001e-4f, 10.f);
	const double R = lowvar ? (double)1e-4f : (double)var;
	const double gate = vh_range("gate", 1.001f, 100.f);
	f._params.heading_innov_gate = (float)gate;
	Gain g;
	gain(b, H, R, g);
	const double lim = a1 & 1024 ? 0.0 : sqrt(gate * gate * g.S);
	vh_assume(lim >= 0);
	const bool ill = a1 & 1024;
	if (ill) { vh_assume(g.S < R); vh_assume(g.S <= 0.999 * R); } else { vh_assume(g.S >= R); vh_assume(g.S >= 1.00001 * R || !full); }
	double innov = atan2(A, B) - (double)yaw;
	if (zinnov) { innov = 0; }
	else if (wraps) { vh_assume(innov >= 3.2); vh_assume(innov <= 6.2); innov -= 2 * (double)(float)M_PI; }
	else { vh_assume(innov >= -3.14); vh_assume(innov < 3.14); }
	const double r = innov * innov / (gate * gate * g.S);
	const bool ground = gpos || gneg;
	if (ill) {} else if (ground) {
		f._control_status.flags.in_air = false;
		f._time_last_imu = 17000000; f._time_last_in_air = 11000000;
		vh_assume(r > 1.0); vh_assume(r >= 1.001);
		if (gpos) { vh_assume(innov - lim >= 1e-3); vh_assume(innov + lim >= 0); innov = lim; }
		else { vh_assume(innov + lim <= -1e-3); vh_assume(innov - lim <= 0); innov = -lim; }
	} else if (a1 & 256) { f._control_status.flags.in_air = true; vh_assume(r >= 1.001); vh_assume(r >= 1.0); }
	else { vh_assume(r <= 1.0); vh_assume(r <= 0.999); }
	bool zero[NS] = {};
	for (int i = 16; i < 22; i++) { zero[i] = true; }
	if (a1 & 512) { assume_unhealthy(b, g, 12, zero); } else if (!(a1 & 256) && !ill) { assume_no_limits(b, g, zero); }
	Faults fold;
	fault_flags(f, fold);
	Flags old;
	reject_flags(f, old);
	const uint64_t t_old = f._time_last_gps_yaw_fuse;
	if (s312) { f.fuseYaw312(yaw, var, zinnov); } else { f.fuseYaw321(yaw, var, zinnov); }
	vh_cover("fused");
	if (ill) { vh_assert(f._time_last_gps_yaw_fuse == t_old, "a refusal is no fusion"); check_illcond(f, b, fold, 3, false, 0); return; }
	if (a1 & 512) { vh_assert(f._time_last_gps_yaw_fuse == t_old, "a refusal is no fusion"); check_unhealthy(f, b, fold, 3, 12); return; }
	if (a1 & 256) { vh_assert(f._time_last_gps_yaw_fuse == t_old, "a rejection is no fusion"); check_rejected(f, b, old, 1 << 7, 0); return; }
	vh_assert(!f._fault_status.flags.bad_hdg && f._innov_check_fail_status.flags.reject_yaw == ground, "reported health");
	vh_assert_eqd(f._heading_innov_var, g.S, 1e-4, "innovation variance is H P H' + R");
	vh_assert_eqd(f._heading_innov, innov, 1e-4, "reported innovation");
	vh_assert_eqd(f._yaw_test_ratio, r, 1e-4, "test ratio is squared innovation over gate squared times variance");
	check_update(f, b, g, innov, cov ? 7 : full ? 0 : 8, zero);
}

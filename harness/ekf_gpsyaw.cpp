// GPS antenna yaw fusion
#include "ekf_h.hpp"

// a0 & 3: observed quaternion element of the CROSS family (8: full covariance at one attitude, a0 & 16 covariance compared);
// a1: 1 = forward component of the antenna vector negative, 32 / 64 = failing innovation on ground (positive / negative), 128 = innovation wraps
HARNESS(gpsyaw_update)
{
	const bool full = a0 & 8, cov = a0 & 16, neg = a1 & 1, gpos = a1 & 32, gneg = a1 & 64, wraps = a1 & 128;
	const int only = a0 & 3;
	static const int Q[4] = {0, 1, 2, 3};
	Ekf &f = ekf_any();
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
	const float off = full ? 0.f : vh_range("offset", -3.1f, 3.1f);
	f._gps_yaw_offset = off;
	if (full) { rational_quat(f); } else { cross_cov(f, Q, 4, only); vh_assume_unit(f._state.quat_nominal(0), f._state.quat_nominal(1), f._state.quat_nominal(2), f._state.quat_nominal(3)); }
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	double q[4], dA[4], dB[4];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	const double q0 = q[0], q1 = q[1], q2 = q[2], q3 = q[3];
	const double c = full ? 1.0 : cos((double)off), s = full ? 0.0 : sin((double)off);
	// antenna vector (c, s, 0) in the earth frame: A east, B north, D down
	const double A = 2 * (q1 * q2 + q0 * q3) * c + (q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3) * s;
	const double B = (q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3) * c + 2 * (q1 * q2 - q0 * q3) * s;
	const double D = 2 * (q1 * q3 - q0 * q2) * c + 2 * (q2 * q3 + q0 * q1) * s;
	dA[0] = 2 * (q3 * c + q0 * s); dA[1] = 2 * (q2 * c - q1 * s); dA[2] = 2 * (q1 * c + q2 * s); dA[3] = 2 * (q0 * c - q3 * s);
	dB[0] = 2 * (q0 * c - q3 * s); dB[1] = 2 * (q1 * c + q2 * s); dB[2] = 2 * (-q2 * c + q1 * s); dB[3] = 2 * (-q3 * c - q0 * s);
	Row H{};
	for (int k = 0; k < 4; k++) { H.add(k, (dA[k] / B - A * dB[k] / (B * B)) / (1 + A * A / (B * B))); }
	if (!full) {
		vh_assume(D <= 0.86); vh_assume(D >= -0.86);
		if (neg) { vh_assume(B <= -0.002); } else { vh_assume(B >= 0.002); }
		vh_assume(1 + A * A / (B * B) >= 1.0);
	}
	Snap b;
	snap(f, b);
	assume_within(b);
	f._params.mag_heading_noise = vh_range("noise", 0.011f, 1.f);
	const double R = (double)f._params.mag_heading_noise * (double)f._params.mag_heading_noise;
	f._gps_sample_delayed.yaw = vh_range("yaw", -3.1f, 3.1f);
	const double meas = (double)f._gps_sample_delayed.yaw + (double)off;
	vh_assume(meas >= -3.1); vh_assume(meas <= 3.1);
	const double gate = vh_range("gate", 1.001f, 100.f);
	f._params.heading_innov_gate = (float)gate;
	Gain g;
	gain(b, H, R, g);
	const double lim = a1 & 1024 ? 0.0 : sqrt(gate * gate * g.S);
	vh_assume(lim >= 0);
	const bool ill = a1 & 1024;
	if (ill) { vh_assume(g.S < R); vh_assume(g.S <= 0.999 * R); } else { vh_assume(g.S >= R); vh_assume(g.S >= 1.00001 * R || !full); }
	double innov = atan2(A, B) - meas;
	if (wraps) { vh_assume(innov >= 3.2); vh_assume(innov <= 6.2); innov -= 2 * (double)(float)M_PI; }
	else { vh_assume(innov >= -3.14); vh_assume(innov < 3.14); }
	const double r = innov * innov / (gate * gate * g.S);
	const bool ground = gpos || gneg;
	if (ill) {} else if (ground) {
		f._control_status.flags.in_air = false;
		vh_assume(r > 1.0); vh_assume(r >= 1.001);
		if (gpos) { vh_assume(innov - lim >= 1e-3); vh_assume(innov + lim >= 0); innov = lim; }
		else { vh_assume(innov + lim <= -1e-3); vh_assume(innov - lim <= 0); innov = -lim; }
	} else if (a1 & 256) { f._control_status.flags.in_air = true; vh_assume(r >= 1.001); vh_assume(r >= 1.0); }
	else { vh_assume(r <= 1.0); vh_assume(r <= 0.999); }
	bool zero[NS] = {};
	for (int i = 13; i < 16; i++) { zero[i] = true; }
	if (a1 & 512) { assume_unhealthy(b, g, 12, zero); } else if (!(a1 & 256) && !ill) { assume_no_limits(b, g, zero); }
	Faults fold;
	fault_flags(f, fold);
	Flags old;
	reject_flags(f, old);
	const uint64_t t_old = f._time_last_gps_yaw_fuse;
	f.fuseGpsYaw();
	vh_cover("fused");
	if (ill) { vh_assert(f._time_last_gps_yaw_fuse == t_old, "a refusal is no fusion"); check_illcond(f, b, fold, 3, false, 0); return; }
	if (a1 & 512) { vh_assert(f._time_last_gps_yaw_fuse == t_old, "a refusal is no fusion"); check_unhealthy(f, b, fold, 3, 12); return; }
	if (a1 & 256) { vh_assert(f._time_last_gps_yaw_fuse == t_old, "a rejection is no fusion"); check_rejected(f, b, old, 1 << 7, 0); return; }
	vh_assert(!f._fault_status.flags.bad_hdg && f._innov_check_fail_status.flags.reject_yaw == ground && f._time_last_gps_yaw_fuse == f._time_last_imu, "reported health");
	vh_assert_eqd(f._heading_innov_var, g.S, 1e-4, "innovation variance is H P H' + R");
	vh_assert_eqd(f._heading_innov, innov, 1e-4, "reported innovation");
	vh_assert_eqd(f._yaw_test_ratio, r, 1e-4, "test ratio is squared innovation over gate squared times variance");
	check_update(f, b, g, innov, cov ? 7 : full ? 0 : 8, zero);
}

// synthetic sideslip fusion
#include "ekf_h.hpp"

// a0: part compared; a1: bit 0 = all states rather than wind only, bit 1 = family, rest = observed state with correlations
HARNESS(beta_update)
{
	Ekf &f = ekf_any();
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
	const bool all = a1 & 1;
	f._is_wind_dead_reckoning = all;
	const int ci[9] = {0, 1, 2, 3, 4, 5, 6, 22, 23};
	if ((a1 >> 1 & 1) == CROSS) {
		cross_cov(f, ci, 9, a1 >> 2);

	} else {
		fixed_quat(f);
		f._state.wind_vel(0) = 3.25f; f._state.wind_vel(1) = -2.5f;
		f._state.vel(0) = -8.75f; f._state.vel(1) = -7.5f; f._state.vel(2) = -4.f;
	}

	Snap b;
	snap(f, b);
	// homogeneous rotation model: rows of the earth to body matrix and their derivatives
	const double q0 = b.x[0], q1 = b.x[1], q2 = b.x[2], q3 = b.x[3];
	const double u = (double)b.x[4] - (double)b.x[22], v = (double)b.x[5] - (double)b.x[23], w = b.x[6];
	const double Tx[3] = {q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3, 2 * (q1 * q2 + q0 * q3), 2 * (q1 * q3 - q0 * q2)};
	const double Ty[3] = {2 * (q1 * q2 - q0 * q3), q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3, 2 * (q2 * q3 + q0 * q1)};
	const double dTx[4][3] = {{q0, q3, -q2}, {q1, q2, q3}, {-q2, q1, -q0}, {-q3, q0, q1}};
	const double dTy[4][3] = {{-q3, q0, q1}, {q2, -q1, q0}, {q1, q2, q3}, {-q0, -q3, q2}};
	const double X = Tx[0] * u + Tx[1] * v + Tx[2] * w, Y = Ty[0] * u + Ty[1] * v + Ty[2] * w;
	const double Z = 2 * (q1 * q3 + q0 * q2) * u + 2 * (q2 * q3 - q0 * q1) * v + (q0 * q0 - q1 * q1 - q2 * q2 + q3 * q3) * w;
	vh_assume(sqrt(X * X + Y * Y + Z * Z) >= 7.01);
	vh_assume(X >= 0.1);
	const double ix = 1.0 / X, t = Y * ix;
	Row H{};
	for (int i = 0; i < 4; i++) {
		const double dx = 2 * (dTx[i][0] * u + dTx[i][1] * v + dTx[i][2] * w), dy = 2 * (dTy[i][0] * u + dTy[i][1] * v + dTy[i][2] * w);
		H.add(i, (dy - t * dx) * ix);
	}
		for (int k = 0; k < 5; k++) {
		const int c = k < 3 ? k : k - 3;
		const double d = (Ty[c] - t * Tx[c]) * ix;
		H.add(ci[k + 4], k < 3 ? d : -d);
	}
	f._params.beta_noise = vh_range("beta_noise", 0.1f, 1000.f);
	const double R = (double)f._params.beta_noise * (double)f._params.beta_noise;
	Gain g;
	gain(b, H, R, g);
	if (a0 == 11) { vh_assume(g.S < R); vh_assume(g.S <= 0.999 * R); } else { vh_assume(g.S >= R); }
	if (a0 != 11 && (a1 >> 1 & 1) == FULL) { vh_assume(g.S >= 1.00001 * R); }
	const double gate = vh_range("gate", 1.001f, 100.f);
	f._params.beta_innov_gate = (float)gate;
	if (a0 == 11) {} else if (a0 == 9) { vh_assume(t * t / (gate * gate * g.S) >= 1.001); vh_assume(t * t / (gate * gate * g.S) >= 1.0); } else { vh_assume(t * t / (gate * gate * g.S) <= 0.999); }
	bool zero[NS] = {};
	for (int i = 0; i < NS; i++) { zero[i] = all ? i >= 13 && i < 16 : i < 22; }
	if (a0 == 9 || a0 == 11) {} else if (a0 == 10) { assume_unhealthy(b, g, 22, zero); } else if ((a1 >> 1 & 1) == CROSS) { assume_no_rejection(b, g, zero); } else { assume_no_limits(b, g, zero); }
	Faults fold;
	fault_flags(f, fold);
	Flags old;
	reject_flags(f, old);
	const uint64_t t_old = f._time_last_beta_fuse;
	f.fuseSideslip();
	vh_cover("fused");
	if (a0 == 11) { vh_assert(f._time_last_beta_fuse == t_old, "a refusal is no fusion"); check_illcond(f, b, fold, 6, true, all ? 0 : 1); return; }
	vh_assert_eqd(f._beta_innov, t, 1e-4, "innovation is the small angle sideslip");
	vh_assert_eqd(f._beta_innov_var, g.S, 1e-4, "innovation variance is H P H' + R");
	if (a0 == 10) { vh_assert(f._time_last_beta_fuse == t_old, "a refusal is no fusion"); check_unhealthy(f, b, fold, 6, 22); return; }
	if (a0 == 9) { vh_assert(f._time_last_beta_fuse == t_old, "a rejection is no fusion"); check_rejected(f, b, old, 1 << 9, 0); return; }
	vh_assert(!f._innov_check_fail_status.flags.reject_sideslip && !f._fault_status.flags.bad_sideslip, "not rejected");
	vh_assert(f._time_last_beta_fuse == f._time_last_imu, "fusion time recorded");
	check_update(f, b, g, t, a0, zero);
}

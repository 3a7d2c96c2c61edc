// covariance prediction
#include "ekf_h.hpp"

static Row F[NS];
static double E[NS][NS];
// a0: rows compared (4 a0 .. 4 a0 + 3), 6: everything; a1: bits 0..2 clipping of an axis, 8 = bias learning inhibited by parameter, 16 = 3-axis field states in use,
// 32 = wind states in use, 64 = position uncertainty above 100 m, 128 = bad vertical acceleration, 256 = bias learning was inhibited before
HARNESS(cov_predict)
{
	Ekf &f = ekf_any();
	sym_cov(f);
	const bool off = a1 & 8, mag = a1 & 16, wind = a1 & 32, far = a1 & 64, bad = a1 & 128, was = a1 & 256;
	f._control_status.flags.mag_3D = mag; f._control_status.flags.wind = wind; f._control_status.flags.in_air = true;
	f._fault_status.flags.bad_acc_vertical = bad;
	f._params.fusion_mode = off ? MASK_INHIBIT_ACC_BIAS : 0;
	f._time_last_imu = 17000000; f._time_acc_bias_check = 16000000;
	f._params.acc_bias_lim = 1e6f; f._params.acc_bias_learn_gyr_lim = 1e9f; f._params.acc_bias_learn_acc_lim = 1e9f;
	f._params.acc_bias_learn_tc = 0.5f;
	f._dt_ekf_avg = 0.01f;
	f._R_to_earth.setIdentity();
	f._ang_rate_magnitude_filt = vh_range("rate_filt", 0.f, 10.f); f._accel_magnitude_filt = vh_range("acc_filt", 0.f, 100.f);
	f._height_rate_lpf = 0.5f; f._state.vel(2) = 0.5f;
	static const char *ND[3] = {"da0", "da1", "da2"}, *NV[3] = {"dv0", "dv1", "dv2"}, *NB[3] = {"b0", "b1", "b2"}, *NQ[4] = {"q0", "q1", "q2", "q3"};
	double d[3], a[3], q[4];
	for (int i = 0; i < 3; i++) {
		f._imu_sample_delayed.delta_ang(i) = vh_range(ND[i], -0.1f, 0.1f); f._imu_sample_delayed.delta_vel(i) = vh_range(NV[i], -1.f, 1.f);
		f._state.delta_vel_bias(i) = vh_range(NB[i], -0.1f, 0.1f);
		f._imu_sample_delayed.delta_vel_clipping[i] = a1 >> i & 1;
		f._accel_bias_inhibit[i] = was;
		d[i] = 0.5 * ((double)f._imu_sample_delayed.delta_ang(i) - (double)f._state.delta_ang_bias(i));
		a[i] = (double)f._imu_sample_delayed.delta_vel(i) - (double)f._state.delta_vel_bias(i);
	}
	for (int i = 0; i < 4; i++) { f._state.quat_nominal(i) = vh_range(NQ[i], -1.f, 1.f); q[i] = f._state.quat_nominal(i); }
	const float gn = f._params.gyro_noise = vh_range("gyro_noise", 0.001f, 0.999f), an = f._params.accel_noise = vh_range("accel_noise", 0.001f, 0.999f);
	f._params.gyro_bias_p_noise = vh_range("gb_noise", 0.f, 0.999f); f._params.accel_bias_p_noise = vh_range("ab_noise", 0.f, 0.999f);
	f._params.mage_p_noise = vh_range("me_noise", 0.f, 0.999f); f._params.magb_p_noise = vh_range("mb_noise", 0.f, 0.999f);
	f._params.wind_vel_p_noise = vh_range("w_noise", 0.f, 0.999f); f._params.wind_vel_p_noise_scaler = vh_range("w_scale", 0.f, 10.f);
	constexpr float period = Ekf::FILTER_UPDATE_PERIOD_S;
	const double dt = (double)period, dt2 = (double)(period * period), ba = (double)((period * BADACC_BIAS_PNOISE) * (period * BADACC_BIAS_PNOISE)); // constants as rounded in binary32
	bool inh[3];
	for (int i = 0; i < 3; i++) {
		inh[i] = off || bad || (a1 >> i & 1);
		f._prev_dvel_bias_var(i) = vh_range(i == 0 ? "pv0" : i == 1 ? "pv1" : "pv2", 1e-7f, 1e-6f);
	}
	Snap b;
	snap(f, b);
	for (int i = 0; i < NS; i++) {
		for (int j = i; j < NS; j++) {
			if (far && i == j && i >= 7 && i <= 8) { continue; }
			vh_assume(b.P[i][j] <= (i == j && i >= 10 && i < 16 ? 1e-6f : (a1 & 512) && i == j && i >= 16 ? 1.f : 0.01f));
			if (i != j) { vh_assume(b.P[i][j] >= -0.01f); }
		}
	}
	// bias variances: stored while inhibited, reinstated afterwards
	double prev[3];
	for (int i = 0; i < 3; i++) {
		prev[i] = was || !inh[i] ? (double)f._prev_dvel_bias_var(i) : (double)b.P[13 + i][13 + i];
		if (was && !inh[i]) { b.P[13 + i][13 + i] = f._prev_dvel_bias_var(i); }
	}
	// transition: attitude q + q (x) (0, d), velocity v + R(q) a, position p + v dt, everything else constant
	const double W[4][4] = {{0, -d[0], -d[1], -d[2]}, {d[0], 0, d[2], -d[1]}, {d[1], -d[2], 0, d[0]}, {d[2], d[1], -d[0], 0}};
	const double B[4][3] = {{-q[1], -q[2], -q[3]}, {q[0], -q[3], q[2]}, {q[3], q[0], -q[1]}, {-q[2], q[1], q[0]}};
	double R[3][3], dR[3][4];
	for (int i = 0; i < 3; i++) {
		double e[3] = {0, 0, 0};
		e[i] = 1;
		for (int j = 0; j < 3; j++) { R[i][j] = rot_row(q, j, e); }
		for (int k = 0; k < 4; k++) { dR[i][k] = 0; for (int j = 0; j < 3; j++) { dR[i][k] += rot_row_dq(q, j, e, k) * a[j]; } }
	}
	for (int i = 0; i < NS; i++) { F[i].n = 0; F[i].add(i, 1); }
	for (int i = 0; i < 4; i++) { for (int k = 0; k < 4; k++) { if (k != i) { F[i].add(k, W[i][k]); } } for (int k = 0; k < 3; k++) { F[i].add(10 + k, -0.5 * B[i][k]); } }
	for (int i = 0; i < 3; i++) { for (int k = 0; k < 4; k++) { F[4 + i].add(k, dR[i][k]); } for (int k = 0; k < 3; k++) { F[4 + i].add(13 + k, -R[i][k]); } F[7 + i].add(4 + i, dt); }
	double gv = (double)gn * dt, av[3];
	gv *= gv;
	for (int i = 0; i < 3; i++) { av[i] = (double)an * dt; av[i] *= av[i]; if (bad || (a1 >> i & 1)) { av[i] = ba; } }
	const bool magok = mag && !(a1 & 512), windok = wind && !(a1 & 512);
	if (mag) { for (int g = 0; g < 2; g++) {
		const double t = (double)b.P[16 + 3 * g][16 + 3 * g] + (double)b.P[17 + 3 * g][17 + 3 * g] + (double)b.P[18 + 3 * g][18 + 3 * g];
		if (magok) { vh_assume(t <= 0.0999); } else { vh_assume(t >= 0.1001); }
	} }
	f._params.initial_wind_uncertainty = vh_range("wind_unc", 0.1f, a1 & 512 ? 1.f : 10.f);
	if (wind) {
		const double t = (double)b.P[22][22] + (double)b.P[23][23], l = (double)f._params.initial_wind_uncertainty * (double)f._params.initial_wind_uncertainty;
		if (windok) { vh_assume(t - l <= -1e-4); } else { vh_assume(t - l >= 1e-4); }
	}
	{
		const double t = (double)b.P[7][7] + (double)b.P[8][8];
		if (far) { vh_assume(t >= 1.001e4); } else { vh_assume(t <= 0.999e4); }
	}
	for (int i = 0; i < NS; i++) {
		for (int j = i; j < NS; j++) {
			double e = 0;
			for (int m = 0; m < F[i].n; m++) { for (int n = 0; n < F[j].n; n++) { e += F[i].h[m] * F[j].h[n] * (double)b.P[F[i].ix[m]][F[j].ix[n]]; } }
			if (i < 4 && j < 4) { for (int k = 0; k < 3; k++) { e += 0.25 * gv * B[i][k] * B[j][k]; } }
			if (i >= 4 && i < 7 && j >= 4 && j < 7) { for (int k = 0; k < 3; k++) { e += av[k] * R[i - 4][k] * R[j - 4][k]; } }
			if (i == j && i >= 10) {
				double s = 0;
				if (i < 13) { s = dt2 * (double)f._params.gyro_bias_p_noise; e -= (double)f._delta_angle_bias_var_accum(i - 10); }
				else if (i < 16) { s = dt2 * (double)f._params.accel_bias_p_noise; e -= (double)f._delta_vel_bias_var_accum(i - 13); }
				else if (i < 22) { s = magok ? dt * (double)(i < 19 ? f._params.mage_p_noise : f._params.magb_p_noise) : 0; }
				else { s = windok ? dt * (double)f._params.wind_vel_p_noise * (1 + (double)f._params.wind_vel_p_noise_scaler * 0.5) : 0; }
				e += s * s;
			}
			if (far && ((i >= 7 && i <= 8) || (j >= 7 && j <= 8))) { e = b.P[i][j]; }
			// states not in use have no correlations
			if ((i >= 13 && i < 16 && inh[i - 13]) || (j >= 13 && j < 16 && inh[j - 13])) { e = i == j ? prev[i - 13] : 0; }
			if (!mag && ((i >= 16 && i < 22) || (j >= 16 && j < 22))) { e = 0; }
			if (!wind && (i >= 22 || j >= 22)) { e = 0; }
			E[i][j] = e;
			if (i == j && !(i >= 13 && i < 16) && !(!mag && i >= 16 && i < 22) && !(!wind && i >= 22)) { vh_assume(e >= 0); vh_assume(e >= 1.001 * (double)VAR_MIN[i]); vh_assume(e <= 0.999 * (double)VAR_MAX[i]); }
		}
	}
	// accelerometer bias variances: first axis in use has the largest one, ratio below 100
	double top = -1;
	for (int i = 0; i < 3; i++) {
		if (inh[i]) { continue; }
		const double e = E[13 + i][13 + i];
		vh_assume(e >= 5.01e-8); vh_assume(e <= 9e-5);
		if (top > 0 || i > 0) {}
		int first = inh[0] ? (inh[1] ? 2 : 1) : 0;
		if (i != first) { const double m = E[13 + first][13 + first]; vh_assume(e - m <= -1e-10); vh_assume(e - 0.01 * m >= 0); vh_assume(e - (double)0.01f * m >= 0); }
		else { vh_assume((double)0.01f * e <= 9e-7); vh_assume((double)0.99f * e >= 0); }
	}
	f.predictCovariance();
	vh_cover("predicted");
	vh_assert(f._fault_status.flags.bad_acc_clipping == ((a1 & 7) != 0), "clipping is reported");
	for (int i = 0; i < NS; i++) {
		if (a0 < 6 && i / 4 != a0) { continue; }
		for (int j = i; j < NS; j++) {
			// correlation of an inhibited bias with later states in use is not specified
			if (i >= 13 && i < 16 && inh[i - 13] && j > i && (j < 16 ? !inh[j - 13] : j < 22 ? mag : wind)) { continue; }
			const double tol = far && i < 9 ? 1e-2 : i == j && i >= 10 && i < 16 ? 1e-10 : 1e-6;
			vh_assert_eqd(f.P(i, j), E[i][j], tol, "predicted covariance is F P F' + Q");
			vh_assert_eqd(f.P(j, i), E[i][j], tol, "predicted covariance is F P F' + Q");
		}
	}
}

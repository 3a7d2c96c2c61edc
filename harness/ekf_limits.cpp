// variance limits, symmetry and unused states
#include "ekf_h.hpp"

static bool dead(const Ekf &f, int i) { return (i >= 16 && i < 22 && !f._control_status.flags.mag_3D) || (i >= 22 && !f._control_status.flags.wind); }
// a0: rows 4 a0 .. 4 a0 + 3 compared; a1: 1 = symmetry forced, 2 = 3-axis field states in use, 4 = wind states in use
static void modes(Ekf &f, int m)
{
	f._control_status.flags.mag_3D = m & 2; f._control_status.flags.wind = m & 4;
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = !(m & 8); }
}
HARNESS(cov_limits)
{
	Ekf &f = ekf_any();
	modes(f, a1);
	float d[NS];
	for (int i = 0; i < NS; i++) { d[i] = f.P(i, i); vh_assume(d[i] == d[i]); }
	f.fixCovarianceErrors(a1 & 1);
	vh_cover("called");
	for (int i = 4 * a0; i < 4 * a0 + 4; i++) {
		const bool acc = i >= 13 && i < 16;
		const float v = f.P(i, i);
		if (dead(f, i)) { vh_assert(v == 0.f, "unused states have no variance"); }
		else if (!acc) { vh_assert(v >= VAR_MIN[i] && v <= VAR_MAX[i], "variance within its limits"); vh_assert(v == d[i] || d[i] < VAR_MIN[i] || d[i] > VAR_MAX[i], "variance within the limits is kept"); }
		for (int j = 0; j < NS; j++) {
			if (j != i && (dead(f, i) || dead(f, j))) { vh_assert(f.P(i, j) == 0.f, "unused states have no correlation"); }
		}
	}
}
// no limit active: symmetry is forced by taking the mean of both triangles, or correlations stay as they are
HARNESS(cov_sym)
{
	Ekf &f = ekf_any();
	modes(f, a1);
	f._time_last_imu = 20000000;
	f._time_acc_bias_check = 15000000;
	f._R_to_earth.setIdentity();
	f._params.acc_bias_lim = 1e6f;
	f._dt_ekf_avg = 0.008f;
	vh_assume(f._state.delta_vel_bias(2) <= 1.f);
	vh_assume(f._state.delta_vel_bias(2) >= -1.f);
	Snap b;
	snap(f, b);
	for (int i = 0; i < NS; i++) { vh_assume(b.P[i][i] >= VAR_MIN[i]); vh_assume(b.P[i][i] <= VAR_MAX[i]); }
	if (a1 & 8) { for (int i = 13; i < 16; i++) { vh_assume(b.P[i][i] >= 2e-5f); vh_assume(b.P[i][i] <= 5e-5f); } for (int i = 13; i < 16; i++) { for (int j = 13; j < 16; j++) { if (j != i) { vh_assume(b.P[i][i] >= 0.011f * b.P[j][j]); } } } }
	f.fixCovarianceErrors(a1 & 1);
	vh_cover("called");
	for (int i = 0; i < NS; i++) {
		for (int j = 0; j < NS; j++) {
			const bool acc = !(a1 & 8) && ((i >= 13 && i < 16) || (j >= 13 && j < 16));
			if (dead(f, i) || dead(f, j)) { continue; }
			const double want = i == j ? (double)b.P[i][i] : (a1 & 1) ? ((double)b.P[i][j] + b.P[j][i]) / 2 : (double)b.P[i][j];
			if (acc && (a1 & 1) && i != j) { vh_assert((double)f.P(i, j) == want || f.P(i, j) == b.P[i][j], "correlation of an inhibited bias"); continue; }
			vh_assert_eqd(f.P(i, j), want, 1e-4 , "symmetric mean of both triangles");
		}
	}
}
// accelerometer bias variances in use, a0: axes inhibited
HARNESS(cov_bias)
{
	Ekf &f = ekf_any();
	f._dt_ekf_avg = 0.008f;
	f._time_last_imu = 20000000;
	f._time_acc_bias_check = 15000000;
	const float lim = (0.1f * CONSTANTS_ONE_G * f._dt_ekf_avg) * (0.1f * CONSTANTS_ONE_G * f._dt_ekf_avg);
	bool reset = false;
	for (int i = 0; i < 3; i++) {
		f._accel_bias_inhibit[i] = a0 >> i & 1;
		vh_assume(f.P(13 + i, 13 + i) <= lim && f.P(13 + i, 13 + i) >= -1.f);
		if (!(a0 >> i & 1)) { reset |= f.P(13 + i, 13 + i) < 0.99e-9f; }
	}
	Snap b;
	snap(f, b);
	f.fixCovarianceErrors(a1);
	vh_cover("called");
	float top = 0.f;
	for (int i = 0; i < 3; i++) { if (!(a0 >> i & 1) && f.P(13 + i, 13 + i) > top) { top = f.P(13 + i, 13 + i); } }
	for (int i = 0; i < 3; i++) {
		const float v = f.P(13 + i, 13 + i);
		if (a0 >> i & 1) { vh_assert(vh_same(v, b.P[13 + i][13 + i]), "inhibited variance kept"); continue; }
		vh_assert(v >= 4.99e-8f && v <= lim * 1.00001f, "bias variance within its limits");
		vh_assert(v >= 0.00999f * top, "bias variances stay within a ratio of 100");
		for (int j = 0; j < NS; j++) { if (j != 13 + i) { vh_assert(!reset || (f.P(13 + i, j) == 0.f && f.P(j, 13 + i) == 0.f), "correlations are reset when a variance collapses"); } }
	}
}
// accelerometer bias contradicting velocity and position innovations for 7 s: correlations are reset once, variances kept
HARNESS(cov_badacc)
{
	Ekf &f = ekf_any();
	f._control_status.flags.mag_3D = true; f._control_status.flags.wind = true;
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = false; }
	f._dt_ekf_avg = 0.008f;
	f._time_last_imu = vh_u64("now"); f._time_acc_bias_check = vh_u64("since");
	vh_assume(f._time_last_imu <= 1000000000000ull && f._time_acc_bias_check <= f._time_last_imu);
	const uint64_t now = f._time_last_imu, since = f._time_acc_bias_check;
	f._R_to_earth.setZero();   // a0: the body axis pointing down
	for (int i = 0; i < 3; i++) { f._R_to_earth(i, (a0 + i + 1) % 3) = 1.f; }
	const float bz = vh_range("bz", -1.f, 1.f);
	f._state.delta_vel_bias.setZero();
	f._state.delta_vel_bias(a0) = bz;
	vh_assume(f._params.acc_bias_lim >= 0.01f && f._params.acc_bias_lim <= 10.f);
	auto any = [&](float &v, const char *n) { v = vh_range(n, -1000.f, 1000.f); };
	any(f._gps_vel_innov(2), "gv"); any(f._ev_vel_innov(2), "ev"); any(f._gps_pos_innov(2), "gp"); any(f._baro_hgt_innov(2), "bp"); any(f._rng_hgt_innov(2), "rp"); any(f._ev_pos_innov(2), "ep");
	for (int i = 13; i < 16; i++) { vh_assume(f.P(i, i) >= 2e-5f && f.P(i, i) <= 5e-5f); }
	for (int i = 13; i < 16; i++) { for (int j = 0; j < NS; j++) { vh_assume(f.P(i, j) == f.P(i, j) && f.P(j, i) == f.P(j, i)); } }
	const auto fl = f._control_status.flags;
	auto opposes = [&](float v, bool used) { return used && bz * v < 0.f; };
	const bool big = fabsf(bz) > 0.9f * f._params.acc_bias_lim * f._dt_ekf_avg;
	const bool vel = opposes(f._gps_vel_innov(2), fl.gps) || opposes(f._ev_vel_innov(2), fl.ev_vel);
	const bool hgt = opposes(f._gps_pos_innov(2), fl.gps_hgt) || opposes(f._baro_hgt_innov(2), fl.baro_hgt) || opposes(f._rng_hgt_innov(2), fl.rng_hgt) || opposes(f._ev_pos_innov(2), fl.ev_hgt);
	const bool bad = big && vel && hgt;
	f._warning_events.flags.invalid_accel_bias_cov_reset = false;
	Snap b;
	snap(f, b);
	f.fixCovarianceErrors(false);
	vh_cover("called");
	const bool reset = bad && now - since > 7000000;
	vh_assert(f._fault_status.flags.bad_acc_bias == (bad && !reset), "bias contradicting velocity and height is flagged");
	vh_assert(f._time_acc_bias_check == (bad && !reset ? since : now), "time of the last healthy check");
	vh_assert(f._warning_events.flags.invalid_accel_bias_cov_reset == reset, "reset is announced");
	for (int i = 13; i < 16; i++) {
		vh_assert(vh_same(f.P(i, i), b.P[i][i]), "variances are preserved");
		for (int j = 0; j < NS; j++) { if (j != i) { vh_assert(reset ? f.P(i, j) == 0.f && f.P(j, i) == 0.f : vh_same(f.P(i, j), b.P[i][j]) && vh_same(f.P(j, i), b.P[j][i]), "correlations are reset after seven seconds only"); } }
	}
}

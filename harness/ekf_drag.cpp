// multi-rotor specific force drag fusion: only the wind is corrected
#include "ekf_h.hpp"

// a0: part compared (FULL), else observed state with correlations; a1: bit 0 = axis fused (the other one is rejected by its
// 5 sigma gate), bit 1 = every attitude and velocity with a few correlations, bit 2 = thin air, bit 3 = sign of the measurement
HARNESS(drag_update)
{
	Ekf &f = ekf_any();
	sym_cov(f);
	const int axis = a1 & 1;
	const bool cross = a1 & 2;
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
	if (cross) {
		// correlations of the observed state with the wind and of the wind itself
		for (int i = 0; i < NS; i++) {
			for (int j = 0; j <= i; j++) {
				const bool keep = i >= 22 && (j >= 22 || j == a0);
				if (!keep && i != j) { f.P(i, j) = 0.f; f.P(j, i) = 0.f; }
			}
		}
		for (int i = 0; i < 4; i++) { f.P(i, i) = 0.f; }
		vh_assume_unit(f._state.quat_nominal(0), f._state.quat_nominal(1), f._state.quat_nominal(2), f._state.quat_nominal(3));

	} else {
		if (axis == 0) { for (int i = 0; i < 7; i++) { for (int j = 0; j < i; j++) { f.P(i, j) = 0.f; f.P(j, i) = 0.f; } } }
		rational_quat(f);
		f._state.wind_vel(0) = 3.25f; f._state.wind_vel(1) = -2.5f;
		const bool fwd = a1 & 8;
		f._state.vel(0) = fwd ? -8.75f : 15.25f; f._state.vel(1) = fwd ? -0.5f : -4.5f; f._state.vel(2) = fwd ? 5.f : -5.f;
	}
	f._air_density = a1 & 4 ? 0.05f : vh_range("rho", 0.11f, 2.f);
	const double rho = a1 & 4 ? (double)0.1f : (double)f._air_density;
	f._params.bcoef_x = vh_range("bx", 1.001f, 200.f); f._params.bcoef_y = vh_range("by", 1.001f, 200.f);
	f._params.drag_noise = a1 & 4 ? 0.25f : vh_range("noise", 0.501f, 10.f);
	const double R = a1 & 4 ? (double)0.5f : (double)f._params.drag_noise;
	f._dt_ekf_avg = vh_range("dt", 0.004f, 0.02f);
	Snap b;
	snap(f, b);
	double q[4], v[3] = {(double)b.x[4] - (double)b.x[22], (double)b.x[5] - (double)b.x[23], b.x[6]};
	for (int i = 0; i < 4; i++) { q[i] = b.x[i]; }
	const double bc[2] = {1.0 / (double)f._params.bcoef_x, 1.0 / (double)f._params.bcoef_y}; // 1 / ballistic coefficient
	const double ex[3] = {1, 0, 0}, ey[3] = {0, 1, 0}, ez[3] = {0, 0, 1};
	Row H[2] = {};
	double innov[2];
	for (int i = 0; i < 2; i++) {
		const double w = rot_row(q, i, v), pred = 0.5 * bc[i] * rho * w * w;
		// the first axis is perfectly predicted when its own fusion is checked: the second one sees the corrected wind
		if (i == 0 && axis == 0) { f._drag_sample_delayed.accelXY(0) = (float)((a1 & 8 ? -pred : pred) + (double)f._state.delta_vel_bias(0) / (double)f._dt_ekf_avg); }
		const double mea = (double)f._drag_sample_delayed.accelXY(i) - (double)f._state.delta_vel_bias(i) / (double)f._dt_ekf_avg;
		const bool neg = (a1 & 8) != 0;
		if (neg) { vh_assume(mea <= 0); vh_assume(mea <= -1e-3); } else { vh_assume(mea >= 0); vh_assume(mea >= 1e-3); }
		const double spd = sqrt(2 * (neg ? -mea : mea) / (bc[i] * rho));
		double k = rho * bc[i] * spd; // slope of drag over airspeed, limited from below
		vh_assume(k >= (double)1e-1f); vh_assume(k >= 0.1001);
		for (int j = 0; j < 4; j++) { H[i].add(j, -k * rot_row_dq(q, i, v, j)); }
		H[i].add(4, -k * rot_row(q, i, ex)); H[i].add(5, -k * rot_row(q, i, ey)); H[i].add(6, -k * rot_row(q, i, ez));
		H[i].add(22, k * rot_row(q, i, ex)); H[i].add(23, k * rot_row(q, i, ey));
		if (neg) { vh_assume(w >= 0); vh_assume(w >= 1e-3); } else { vh_assume(w <= 0); vh_assume(w <= -1e-3); }
		innov[i] = (neg ? -pred : pred) - mea;
	}
	Gain g, o;
	bool zero[NS] = {};
	for (int i = 0; i < 22; i++) { zero[i] = true; }
	gain(b, H[axis], R, g);
	vh_assume(g.S >= R); vh_assume(g.S >= 1.00001 * R);
	vh_assume(innov[axis] * innov[axis] / (25 * g.S) <= 1.0); vh_assume(innov[axis] * innov[axis] / (25 * g.S) <= 0.999);
	if (axis == 1) {
		gain(b, H[0], R, o);
		vh_assume(o.S >= R); vh_assume(o.S >= 1.00001 * R);

	} else {
		Snap u = b;
		o.S = R;
		const Row &h = H[1];
		for (int m = 0; m < h.n; m++) {
			for (int n = 0; n < h.n; n++) {
				const int i = h.ix[m], j = h.ix[n];
				double p = b.P[i][j];
				if (i >= 22 && j >= 22) { p -= g.K[i] * g.PH[j]; } else if (i >= 22) { p -= 0.5 * g.K[i] * g.PH[j]; } else if (j >= 22) { p -= 0.5 * g.K[j] * g.PH[i]; }
				o.S += h.h[m] * h.h[n] * p;
			}
		}
		vh_assume(o.S >= R); vh_assume(o.S >= 1.00001 * R);
	}
	const double ro = innov[1 - axis] * innov[1 - axis] / (25 * o.S);
	vh_assume(ro >= 1.001); vh_assume(ro >= 1.0);
	assume_no_limits(b, g, zero);
	f.fuseDrag();
	vh_cover("fused");
	for (int i = 0; i < 2; i++) {
		vh_assert_eqd(f._drag_innov(i), innov[i], 1e-4, "innovation is predicted minus measured drag");
		vh_assert_eqd(f._drag_innov_var(i), i == axis ? g.S : o.S, 1e-4, "innovation variance is H P H' + R");
	}
	check_update(f, b, g, innov[axis], cross ? 8 : a0, zero);
}
// a ballistic coefficient below 1 disables the fusion
HARNESS(drag_off)
{
	Ekf &f = ekf_any();
	Snap b;
	snap(f, b);
	vh_assume(f._params.bcoef_x < 1.f || f._params.bcoef_y < 1.f);
	f.fuseDrag();
	vh_cover("called");
	for (int i = 0; i < NS; i++) {
		vh_assert(vh_same(*state_ptr(f._state, i), b.x[i]), "state untouched");
		for (int j = 0; j < NS; j++) { vh_assert(vh_same(f.P(i, j), b.P[i][j]), "covariance untouched"); }
	}
}

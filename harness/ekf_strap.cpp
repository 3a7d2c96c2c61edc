// strapdown prediction of the states and the output predictor
#include "ekf_h.hpp"

static void qmul(const double *q, const double *p, double *r)
{
	r[0] = q[0] * p[0] - q[1] * p[1] - q[2] * p[2] - q[3] * p[3];
	r[1] = q[1] * p[0] + q[0] * p[1] - q[3] * p[2] + q[2] * p[3];
	r[2] = q[2] * p[0] + q[3] * p[1] + q[0] * p[2] - q[1] * p[3];
	r[3] = q[3] * p[0] - q[2] * p[1] + q[1] * p[2] + q[0] * p[3];
}
static void rotm(const double *q, double R[3][3])
{
	const double a = q[0], b = q[1], c = q[2], d = q[3];
	R[0][0] = a * a + b * b - c * c - d * d; R[0][1] = 2 * (b * c - a * d); R[0][2] = 2 * (a * c + b * d);
	R[1][0] = 2 * (b * c + a * d); R[1][1] = a * a - b * b + c * c - d * d; R[1][2] = 2 * (c * d - a * b);
	R[2][0] = 2 * (b * d - a * c); R[2][1] = 2 * (a * b + c * d); R[2][2] = a * a - b * b - c * c + d * d;
}
// quaternion of a rotation vector with a positive length
static void qexp(const double *v, double *q)
{
	const double n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
	vh_assume(n2 >= 0);
	const double n = sqrt(n2);
	vh_assume(n >= 1e-10); vh_assume(n >= 1e-8);
	const double m = sin(n / 2);
	q[0] = cos(n / 2);
	for (int i = 0; i < 3; i++) { q[i + 1] = v[i] / n * m; }
}
static void in(float v, float lo, float hi) { vh_assume(v >= lo); vh_assume(v <= hi); }
static void inside(double v, double lim) { vh_assume(v >= -lim); vh_assume(v <= lim); vh_assume(v >= -0.999 * lim); vh_assume(v <= 0.999 * lim); }
static Ekf &setup()
{
	Ekf &f = ekf_any();
	auto &d = f._imu_sample_delayed;
	for (int i = 0; i < 3; i++) {
		in(d.delta_ang(i), -0.5f, 0.5f); in(d.delta_vel(i), -5.f, 5.f); in(f._state.vel(i), -100.f, 100.f); in(f._state.pos(i), -1e4f, 1e4f);
		in(f._state.delta_vel_bias(i), -0.001f, 0.001f); in(f._state.delta_ang_bias(i), -1e-4f, 1e-4f); in(f._state.mag_I(i), -0.9f, 0.9f); in(f._state.mag_B(i), -0.4f, 0.4f);
	}
	in(f._state.wind_vel(0), -90.f, 90.f); in(f._state.wind_vel(1), -90.f, 90.f);
	in(d.delta_ang_dt, 0.006f, 0.015f); in(d.delta_vel_dt, 0.006f, 0.015f);
	in(f._dt_ekf_avg, 0.005f, 0.02f); in(f._params.acc_bias_lim, 0.3f, 1.f);
	return f;
}
// a0: 0 any turn without earth rotation at a generic attitude, 1 every attitude, no turn, 2 earth rotation only (about axis a1)
HARNESS(predict_state)
{
	Ekf &f = setup();
	auto &d = f._imu_sample_delayed;
	if (a0 != 1) { rational_quat(f); }
	double q[4], R[3][3], w[3], dq[4] = {1, 0, 0, 0}, e[4];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	rotm(q, R);
	for (int i = 0; i < 3; i++) {
		if (a0 != 2) { f._earth_rate_NED(i) = 0.f; } else { in(f._earth_rate_NED(i), 0.01f, 20.f); }
		if (a0 == 1) { d.delta_ang(i) = f._state.delta_ang_bias(i); }
		if (a0 == 2) { d.delta_ang(i) = 0.f; f._state.delta_ang_bias(i) = 0.f; }
	}
	if (a0 == 2) { for (int i = 0; i < 3; i++) { if (i != a1) { f._earth_rate_NED(i) = 0.f; } } }
	for (int i = 0; i < 3; i++) {
		w[i] = (double)d.delta_ang(i) - (double)f._state.delta_ang_bias(i);
		for (int j = 0; j < 3; j++) { w[i] -= R[j][i] * (double)f._earth_rate_NED(j) * (double)d.delta_ang_dt; }
	}
	if (a0 != 1) { qexp(w, dq); }
	qmul(q, dq, e);
	const double n2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3];
	vh_assume(n2 >= 0.5);
	vh_assume(sqrt(n2) >= 0.7);
	const double in2 = 1.0 / sqrt(n2);
	for (int i = 0; i < 4; i++) { e[i] *= in2; vh_assume(e[i] <= 1.0); vh_assume(e[i] >= -1.0); }
	rotm(e, R);
	double v0[3], v1[3], p1[3], a[3];
	for (int i = 0; i < 3; i++) {
		a[i] = 0;
		for (int j = 0; j < 3; j++) { a[i] += R[i][j] * ((double)d.delta_vel(j) - (double)f._state.delta_vel_bias(j)); }
		v0[i] = f._state.vel(i);
		v1[i] = v0[i] + a[i] + (i == 2 ? (double)CONSTANTS_ONE_G * (double)d.delta_vel_dt : 0.0);
		p1[i] = (double)f._state.pos(i) + (v0[i] + v1[i]) * 0.5 * (double)d.delta_vel_dt;
		inside(v1[i], 1000); inside(p1[i], 1e6);
	}
	const stateSample s = f._state;
	const double lp[2] = {(double)f._accel_lpf_NE(0) * (1 - (double)d.delta_vel_dt) + a[0], (double)f._accel_lpf_NE(1) * (1 - (double)d.delta_vel_dt) + a[1]};
	const double dt = 0.99 * (double)f._dt_ekf_avg + 0.01 * 0.5 * ((double)d.delta_vel_dt + (double)d.delta_ang_dt);
	f.predictState();
	vh_cover("predicted");
	for (int i = 0; i < 4; i++) { vh_assert_eqd(f._state.quat_nominal(i), e[i], 1e-4, "attitude turns by the corrected delta angle and is normalised"); }
	if (a0 == 2) { return; }
	for (int i = 0; i < 3; i++) {
		vh_assert_eqd(f._state.vel(i), v1[i], 1e-4, "velocity grows by the rotated corrected delta velocity and gravity");
		vh_assert_eqd(f._state.pos(i), p1[i], 1e-4, "position grows by the mean velocity");
		for (int j = 0; j < 3; j++) { vh_assert_eqd(f._R_to_earth(i, j), R[i][j], 1e-4, "rotation matrix follows the attitude"); }
		vh_assert_eqd(f._ang_rate_delayed_raw(i), (double)d.delta_ang(i) / (double)d.delta_ang_dt, 1e-4, "angular rate is uncorrected delta angle over its time");
	}
	for (int i = 0; i < 2; i++) { vh_assert_eqd(f._accel_lpf_NE(i), lp[i], 1e-4, "horizontal acceleration is filtered over one second"); }
	vh_assert_eqd(f._dt_ekf_avg, dt, 1e-4, "average update time follows the sample");
	for (int i = 10; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), *state_ptr(const_cast<stateSample &>(s), i), 1e-4, "biases, fields and wind are constant"); }
}

static imuSample any_imu(Ekf &f)
{
	imuSample u{};
	static const char *an[3] = {"ua0", "ua1", "ua2"}, *vn[3] = {"uv0", "uv1", "uv2"};
	for (int i = 0; i < 3; i++) { u.delta_ang(i) = vh_range(an[i], -0.1f, 0.1f); u.delta_vel(i) = vh_range(vn[i], -1.f, 1.f); }
	u.delta_ang_dt = vh_range("uadt", 0.001f, 0.02f); u.delta_vel_dt = vh_range("uvdt", 0.001f, 0.02f);
	u.time_us = 20000000;
	f._dt_imu_avg = vh_range("dt_imu", 0.001f, 0.02f); f._dt_ekf_avg = vh_range("dt_ekf", 0.005f, 0.02f);
	for (int i = 0; i < 3; i++) { in(f._output_new.vel(i), -100.f, 100.f); in(f._output_new.pos(i), -1e4f, 1e4f); in(f._params.imu_pos_body(i), -5.f, 5.f); in(f._state.delta_vel_bias(i), -0.01f, 0.01f); in(f._state.delta_ang_bias(i), -0.01f, 0.01f); in(f._delta_angle_corr(i), -0.01f, 0.01f); }
	return u;
}
// strapdown integration at the present time; a0: 0 turning, 1 not turning at every attitude
HARNESS(output_ins)
{
	Ekf &f = ekf_any();
	imuSample u = any_imu(f);
	f._imu_updated = false;
	f._state.quat_nominal(0) = 1.f; // unused
	if (a0 == 0) { Quatf s = f._state.quat_nominal; rational_quat(f); f._output_new.quat_nominal = f._state.quat_nominal; f._state.quat_nominal = s; }
	else { for (int i = 0; i < 3; i++) { f._state.delta_ang_bias(i) = 0.f; f._delta_angle_corr(i) = 0.f; u.delta_ang(i) = 0.f; } }
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { in(f._R_to_earth_now(i, j), -1.f, 1.f); } }
	in(f._yaw_delta_ef, -10.f, 10.f); in(f._yaw_rate_lpf_ef, -10.f, 10.f);
	const double sc = (double)f._dt_imu_avg / (double)f._dt_ekf_avg;
	double q[4], R[3][3], w[3], dq[4] = {1, 0, 0, 0}, e[4], spin = 0;
	for (int i = 0; i < 4; i++) { q[i] = f._output_new.quat_nominal(i); }
	for (int i = 0; i < 3; i++) { w[i] = (double)u.delta_ang(i) - (double)f._state.delta_ang_bias(i) * sc + (double)f._delta_angle_corr(i); spin += w[i] * (double)f._R_to_earth_now(2, i); }
	if (a0 == 0) { qexp(w, dq); }
	qmul(q, dq, e);
	const double n2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3];
	vh_assume(n2 >= 0.5);
	vh_assume(sqrt(n2) >= 0.7);
	const double in2 = 1.0 / sqrt(n2);
	for (int i = 0; i < 4; i++) { e[i] *= in2; }
	rotm(e, R);
	const outputSample o = f._output_new;
	const outputVert ov = f._output_vert_new;
	double v[3], p[3], acc[3], dp[3], r[3], rel[3];
	for (int i = 0; i < 3; i++) {
		acc[i] = i == 2 ? (double)CONSTANTS_ONE_G * (double)u.delta_vel_dt : 0.0;
		for (int j = 0; j < 3; j++) { acc[i] += R[i][j] * ((double)u.delta_vel(j) - (double)f._state.delta_vel_bias(j) * sc); }
		v[i] = (double)o.vel(i) + acc[i];
		dp[i] = ((double)o.vel(i) + v[i]) * 0.5 * (double)u.delta_vel_dt;
		p[i] = (double)o.pos(i) + dp[i];
		r[i] = (double)u.delta_ang(i) / (double)u.delta_ang_dt;
	}
	for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; rel[i] = r[j] * (double)f._params.imu_pos_body(k) - r[k] * (double)f._params.imu_pos_body(j); }
	const double yd = (double)f._yaw_delta_ef + spin, yr = 0.95 * (double)f._yaw_rate_lpf_ef + 0.05 * spin / (double)u.delta_ang_dt;
	f.calculateOutputStates(u);
	vh_cover("integrated");
	vh_assert(f._output_new.time_us == 20000000, "time of the sample");
	for (int i = 0; i < 4; i++) { vh_assert_eqd(f._output_new.quat_nominal(i), e[i], 1e-4, "attitude turns by the corrected delta angle and is normalised"); }
	for (int i = 0; i < 3; i++) {
		vh_assert_eqd(f._output_new.vel(i), v[i], 1e-4, "velocity grows by the rotated corrected delta velocity and gravity");
		vh_assert_eqd(f._output_new.pos(i), p[i], 1e-4, "position grows by the mean velocity");
		vh_assert_eqd(f._vel_deriv(i), acc[i] / (double)u.delta_vel_dt, 1e-4, "velocity derivative is the increment over its time");
		double ri = 0;
		for (int j = 0; j < 3; j++) { vh_assert_eqd(f._R_to_earth_now(i, j), R[i][j], 1e-4, "rotation matrix follows the attitude"); ri += R[i][j] * rel[j]; }
		vh_assert_eqd(f._vel_imu_rel_body_ned(i), ri, 1e-4, "velocity of the sensor relative to the body is rate cross position, rotated");
	}
	vh_assert_eqd(f._output_vert_new.vert_vel, (double)ov.vert_vel + acc[2], 1e-4, "vertical velocity observer");
	vh_assert_eqd(f._output_vert_new.vert_vel_integ, (double)ov.vert_vel_integ + dp[2], 1e-4, "vertical position observer");
	vh_assert_eqd(f._output_vert_new.dt, (double)ov.dt + (double)u.delta_vel_dt, 1e-4, "time since the last correction");
	vh_assert_eqd(f._yaw_delta_ef, yd, 1e-4, "yaw change about the vertical");
	vh_assert_eqd(f._yaw_rate_lpf_ef, yr, 1e-4, "filtered yaw rate");
}
// correction of the history; a0: history length; a1: bit 0 negative scalar part, bit 1 short delay, bit 2 time constants below their limits
HARNESS(output_correct)
{
	Ekf &f = ekf_any();
	imuSample u = any_imu(f);
	f._imu_updated = true;
	for (int i = 0; i < 3; i++) { f._state.delta_ang_bias(i) = 0.f; f._delta_angle_corr(i) = 0.f; u.delta_ang(i) = 0.f; f._state.delta_vel_bias(i) = 0.f; }
	f._output_buffer.allocate(a0); f._output_vert_buffer.allocate(a0);
	static const char *nm[6][3] = {{"bv0", "bv1", "bv2"}, {"bw0", "bw1", "bw2"}, {"bx0", "bx1", "bx2"}, {"bp0", "bp1", "bp2"}, {"bq0", "bq1", "bq2"}, {"br0", "br1", "br2"}}, *nv[3][3] = {{"vv0", "vv1", "vv2"}, {"vi0", "vi1", "vi2"}, {"vd0", "vd1", "vd2"}};
	outputSample o[4];
	outputVert ov[4];
	const Quatf dq(vh_frac("d0@1/5", 1, 5), vh_frac("d1@2/5", 2, 5), vh_frac("d2@2/5", 2, 5), vh_frac("d3@4/5", 4, 5));
	for (int k = 0; k < a0; k++) {
		for (int i = 0; i < 3; i++) { o[k].vel(i) = vh_range(nm[i][k], -100.f, 100.f); o[k].pos(i) = vh_range(nm[i + 3][k], -1e4f, 1e4f); }
		ov[k].vert_vel = vh_range(nv[0][k], -100.f, 100.f); ov[k].vert_vel_integ = vh_range(nv[1][k], -1e4f, 1e4f); ov[k].dt = vh_range(nv[2][k], 0.f, 0.1f);
		o[k].time_us = 100 * (k + 1); ov[k].time_us = 0;
		o[k].quat_nominal = dq;
		f._output_buffer.push(o[k]); f._output_vert_buffer.push(ov[k]);
	}
	f._output_new.quat_nominal = Quatf(1.f, 0.f, 0.f, 0.f);
	in(f._output_vert_new.vert_vel, -100.f, 100.f); in(f._output_vert_new.vert_vel_integ, -1e4f, 1e4f); in(f._output_vert_new.dt, 0.f, 0.1f);
	for (int i = 0; i < 3; i++) { in(f._state.vel(i), -100.f, 100.f); in(f._state.pos(i), -1e4f, 1e4f); in(f._vel_err_integ(i), -1e3f, 1e3f); in(f._pos_err_integ(i), -1e3f, 1e3f); }
	const bool lowtau = a1 & 4;
	const double dte = f._dt_ekf_avg, dti = f._dt_imu_avg;
	if (lowtau) { f._params.vel_Tau = 0.001f; f._params.pos_Tau = 0.002f; } else { f._params.vel_Tau = vh_range("vtau", 0.03f, 9.f); f._params.pos_Tau = vh_range("ptau", 0.03f, 9.f); }
	const double gv = lowtau ? 1.0 : dte / (double)f._params.vel_Tau, gp = lowtau ? 1.0 : dte / (double)f._params.pos_Tau;
	f._imu_sample_delayed.time_us = a1 & 2 ? 20000000 : 20000000 - 250000;
	const double delay = a1 & 2 ? dti : 0.25;
	double qs[4], qc[4], qd[4], e[4];
	for (int i = 0; i < 4; i++) { qs[i] = f._state.quat_nominal(i); qc[i] = i ? -qs[i] : qs[i]; qd[i] = o[0].quat_nominal(i); in(f._state.quat_nominal(i), -1.f, 1.f); }
	// inverse of the attitude is its conjugate over its squared length
	const double s2 = qs[0] * qs[0] + qs[1] * qs[1] + qs[2] * qs[2] + qs[3] * qs[3];
	vh_assume(s2 >= 0.5);
	for (int i = 0; i < 4; i++) { qc[i] /= s2; }
	qmul(qc, qd, e);
	const double n2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3];
	vh_assume(n2 >= 0.5);
	vh_assume(sqrt(n2) >= 0.7);
	for (int i = 0; i < 4; i++) { e[i] /= sqrt(n2); }
	if (a1 & 1) { vh_assume(e[0] < 0); vh_assume(e[0] <= -1e-3); } else { vh_assume(e[0] >= 0); vh_assume(e[0] >= 1e-3); }
	const double sg = a1 & 1 ? 2 : -2;
	// the newest sample: integrated at level attitude without turning
	outputSample &n = o[a0];
	outputVert &nn = ov[a0];
	double V[4][3], X[4][3], VV[4], VI[4], DT[4];
	for (int k = 0; k < a0; k++) { for (int i = 0; i < 3; i++) { V[k][i] = o[k].vel(i); X[k][i] = o[k].pos(i); } VV[k] = ov[k].vert_vel; VI[k] = ov[k].vert_vel_integ; DT[k] = ov[k].dt; }
	for (int i = 0; i < 3; i++) {
		const double a = (double)u.delta_vel(i) + (i == 2 ? (double)CONSTANTS_ONE_G * (double)u.delta_vel_dt : 0.0), v0 = f._output_new.vel(i);
		V[a0][i] = v0 + a; X[a0][i] = (double)f._output_new.pos(i) + (v0 + v0 + a) * 0.5 * (double)u.delta_vel_dt;
		if (i == 2) { VV[a0] = (double)f._output_vert_new.vert_vel + a; VI[a0] = (double)f._output_vert_new.vert_vel_integ + (v0 + v0 + a) * 0.5 * (double)u.delta_vel_dt; DT[a0] = (double)f._output_vert_new.dt + (double)u.delta_vel_dt; }
	}
	double cv[3], cp[3], ev[3], ep[3], iv[3], ip[3];
	for (int i = 0; i < 3; i++) {
		ev[i] = (double)f._state.vel(i) - V[1][i]; ep[i] = (double)f._state.pos(i) - X[1][i];
		iv[i] = (double)f._vel_err_integ(i) + ev[i]; ip[i] = (double)f._pos_err_integ(i) + ep[i];
		cv[i] = ev[i] * gv + iv[i] * gv * gv * 0.1; cp[i] = ep[i] * gp + ip[i] * gp * gp * 0.1;
	}
	const double vc = ((double)f._state.pos(2) - VI[1]) * gp + ((double)f._state.vel(2) - VV[1]) * gv * 1.1;
	f.calculateOutputStates(u);
	vh_cover("corrected");
	for (int i = 0; i < 3; i++) {
		vh_assert_eqd(f._delta_angle_corr(i), sg * e[i + 1] * 0.5 * dti / delay, 1e-4, "attitude correction turns towards the delayed attitude");
		vh_assert_eqd(f._vel_err_integ(i), iv[i], 1e-4, "velocity error is accumulated");
		vh_assert_eqd(f._pos_err_integ(i), ip[i], 1e-4, "position error is accumulated");
	}
	const int oi = f._output_buffer.get_oldest_index(), vi = f._output_vert_buffer.get_oldest_index();
	double cvv = VV[1] + vc, civ = VI[1];
	for (int k = 0; k < a0; k++) {
		const outputSample &b = f._output_buffer[(oi + k) % a0];
		for (int i = 0; i < 3; i++) { vh_assert_eqd(b.vel(i), V[k + 1][i] + cv[i], 1e-4, "velocity history shifts by the correction"); vh_assert_eqd(b.pos(i), X[k + 1][i] + cp[i], 1e-4, "position history shifts by the correction"); }
		const outputVert &c = f._output_vert_buffer[(vi + k) % a0];
		if (k) { const double nv = VV[k + 1] + vc; civ += (cvv + nv) * 0.5 * DT[k + 1]; cvv = nv; }
		vh_assert_eqd(c.vert_vel, cvv, 1e-4, "vertical velocity history shifts by the correction");
		vh_assert_eqd(c.vert_vel_integ, civ, 1e-4, "vertical position history integrates the corrected velocity");
	}
	for (int i = 0; i < 3; i++) { vh_assert_eqd(f._output_new.vel(i), V[a0][i] + cv[i], 1e-4, "output velocity is corrected"); vh_assert_eqd(f._output_new.pos(i), X[a0][i] + cp[i], 1e-4, "output position is corrected"); }
	vh_assert_eqd(f._output_vert_new.vert_vel, cvv, 1e-4, "vertical output velocity is corrected");
	vh_assert_eqd(f._output_vert_new.vert_vel_integ, civ, 1e-4, "vertical output position is corrected");
	vh_assert(f._output_vert_new.dt == 0.f, "time restarts");
	(void)n; (void)nn;
}

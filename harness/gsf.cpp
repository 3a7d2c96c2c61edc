// emergency yaw estimator: bank of five attitude and yaw filters on velocity observations
#include "vh.h"
#include <EKF/EKFGSF_yaw.h>
#include <new>
#include <math.h>
using namespace matrix;
alignas(EKFGSF_yaw) static unsigned char mem[sizeof(EKFGSF_yaw)];
static EKFGSF_yaw &fresh() { return *new (mem) EKFGSF_yaw; }
static double ab(double v) { return v < 0 ? -v : v; }
struct Model { double x[3], P[3][3], R[3][3]; };
static void read(EKFGSF_yaw &g, int k, Model &m)
{
	for (int i = 0; i < 3; i++) { m.x[i] = g._ekf_gsf[k].X(i); for (int j = 0; j < 3; j++) { m.P[i][j] = g._ekf_gsf[k].P(i, j); m.R[i][j] = g._ahrs_ekf_gsf[k].R(i, j); } }
}
static const char *PN[5][3][3] = {
#define PM(k) {{"P00" k, "P01" k, "P02" k}, {"P01" k, "P11" k, "P12" k}, {"P02" k, "P12" k, "P22" k}}
	PM("a"), PM("b"), PM("c"), PM("d"), PM("e")
};
static const char *XN[5][3] = {
#define XM(k) {"x0" k, "x1" k, "x2" k}
	XM("a"), XM("b"), XM("c"), XM("d"), XM("e")
};
static void any_model(EKFGSF_yaw &g, int k, bool diag)
{
	for (int i = 0; i < 3; i++) {
		for (int j = i; j < 3; j++) {
			const float v = i == j ? vh_range(PN[k][i][j], 0.01f, 4.f) : diag ? 0.f : vh_range(PN[k][i][j], -4.f, 4.f);
			g._ekf_gsf[k].P(i, j) = v; g._ekf_gsf[k].P(j, i) = v;
		}
	}
	g._ekf_gsf[k].X(0) = vh_range(XN[k][0], -20.f, 20.f); g._ekf_gsf[k].X(1) = vh_range(XN[k][1], -20.f, 20.f); g._ekf_gsf[k].X(2) = vh_range(XN[k][2], -3.f, 3.f);
}
// attitude with rational entries whose yaw is taken from the 312 (a = 1) or 321 (a = 0) sequence
static void rational_R(EKFGSF_yaw &g, int k, int a)
{
	static const int N[2][9] = {{8, -1, 4, 4, 4, -7, -1, 8, 4}, {1, 8, 4, -4, 4, -7, -8, -1, 4}};
	static const char *nm[2][9] = {{"R00@8/9", "R01@-1/9", "R02@4/9", "R10@4/9", "R11@4/9", "R12@-7/9", "R20@-1/9", "R21@8/9", "R22@4/9"},
		{"R00@1/9", "R01@8/9", "R02@4/9", "R10@-4/9", "R11@4/9", "R12@-7/9", "R20@-8/9", "R21@-1/9", "R22@4/9"}};
	for (int i = 0; i < 9; i++) { g._ahrs_ekf_gsf[k].R(i / 3, i % 3) = vh_frac(nm[a][i], N[a][i], 9); }
}
struct Upd { double t, r, K[3][2], PH[3][2], innov[2], R; };
static void oracle(const Model &m, const double *v, double R, Upd &u)
{
	const double a = m.P[0][0] + R, b = m.P[0][1], c = m.P[1][1] + R;
	u.R = R;
	u.t = m.P[0][0] * m.P[1][1] + m.P[0][0] * R + m.P[1][1] * R - b * b + R * R;
	const double inv = 1.0 / u.t, Si[2][2] = {{c * inv, -b * inv}, {-b * inv, a * inv}};
	for (int i = 0; i < 2; i++) { u.innov[i] = m.x[i] - v[i]; }
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 2; j++) { u.PH[i][j] = m.P[i][j]; u.K[i][j] = m.P[i][0] * Si[0][j] + m.P[i][1] * Si[1][j]; } }
	u.r = u.innov[0] * (Si[0][0] * u.innov[0] + Si[0][1] * u.innov[1]) + u.innov[1] * (Si[1][0] * u.innov[0] + Si[1][1] * u.innov[1]);
}

// a0: model; a1: bit 0 spike beyond five sigma, bit 1 accuracy below the minimum
HARNESS(gsf_update)
{
	EKFGSF_yaw &g = fresh();
	any_model(g, a0, false);
	for (int i = 0; i < 9; i++) { g._ahrs_ekf_gsf[a0].R(i / 3, i % 3) = 0.f; }
	static const char *rn[9] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8"};
	for (int i = 0; i < 9; i++) { g._ahrs_ekf_gsf[a0].R(i / 3, i % 3) = vh_range(rn[i], -1.f, 1.f); }
	g._vel_NE(0) = vh_range("vn", -20.f, 20.f); g._vel_NE(1) = vh_range("ve", -20.f, 20.f);
	const float acc = vh_range("acc", 0.f, 10.f);
	if (a1 & 2) { vh_assume(acc < 0.5f); } else { vh_assume(acc > 0.5f); }
	g._vel_accuracy = acc;
	Model o, n;
	read(g, a0, o);
	const double R = a1 & 2 ? 0.25 : (double)acc * acc, v[2] = {g._vel_NE(0), g._vel_NE(1)};
	Upd u;
	oracle(o, v, R, u);
	vh_assume(u.t >= 1e-3);
	vh_assume(o.P[0][0] * o.P[1][1] - o.P[0][1] * o.P[0][1] >= 0.0);
	double Pn[3][3];
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { Pn[i][j] = o.P[i][j] - u.K[i][0] * u.PH[j][0] - u.K[i][1] * u.PH[j][1]; } }
	for (int i = 0; i < 3; i++) { vh_assume(Pn[i][i] >= 1e-5); }
	double sc = 1.0;
	if (a1 & 1) { vh_assume(u.r > 25.001); sc = sqrt(25.0 / u.r); } else { vh_assume(u.r < 24.999); }
	const bool ok = g.updateEKF(a0);
	read(g, a0, n);
	vh_assert(ok, "a well conditioned update succeeds");
	vh_assert_eqd(g._ekf_gsf[a0].innov(0), u.innov[0], 1e-4, "innovation is predicted minus measured velocity");
	vh_assert_eqd(g._ekf_gsf[a0].innov(1), u.innov[1], 1e-4, "innovation is predicted minus measured velocity");
	double d[3];
	for (int i = 0; i < 3; i++) {
		d[i] = (u.K[i][0] * u.innov[0] + u.K[i][1] * u.innov[1]) * sc;
		vh_assert_eqd(n.x[i], o.x[i] - d[i], 1e-3, "state moves by the Kalman gain times the innovation, limited to five sigma");
		for (int j = 0; j < 3; j++) { vh_assert_eqd(n.P[i][j], Pn[i][j], 1e-3, "covariance is reduced by K H P"); }
	}
	const double dy = n.x[2] - o.x[2], c = cos(dy), s = sin(dy);
	for (int j = 0; j < 3; j++) {
		vh_assert_eqd(n.R[0][j], o.R[0][j] * c - o.R[1][j] * s, 1e-3, "attitude is rotated about the vertical by the yaw correction");
		vh_assert_eqd(n.R[1][j], o.R[0][j] * s + o.R[1][j] * c, 1e-3, "attitude is rotated about the vertical by the yaw correction");
		vh_assert_eqd(n.R[2][j], o.R[2][j], 1e-6, "tilt is kept");
	}
	vh_cover("updated");
}

// a degenerate innovation covariance is refused
HARNESS(gsf_refuse)
{
	EKFGSF_yaw &g = fresh();
	any_model(g, 2, false);
	g._vel_accuracy = 0.f;
	g._ekf_gsf[2].P(0, 1) = g._ekf_gsf[2].P(1, 0) = vh_range("p01", 0.f, 4.f);
	Model o, n;
	read(g, 2, o);
	const double t = (o.P[0][0] + 0.25) * (o.P[1][1] + 0.25) - o.P[0][1] * o.P[0][1];
	vh_assume(t < 5e-7); vh_assume(t > -5e-7);
	const bool ok = g.updateEKF(2);
	read(g, 2, n);
	vh_assert(!ok, "a singular update is refused");
	for (int i = 0; i < 3; i++) { vh_assert_eqd(n.x[i], o.x[i], 1e-9, "refused: state kept"); for (int j = 0; j < 3; j++) { vh_assert_eqd(n.P[i][j], o.P[i][j], 1e-9, "refused: covariance kept"); } }
}

static void still(EKFGSF_yaw &g, int k)
{
	g._delta_ang.setZero(); g._delta_ang_dt = 0.0078125f; g._delta_vel_dt = 0.0078125f; g._true_airspeed = 0.f;
	g._ahrs_accel_fusion_gain = 0.f; g._ahrs_ekf_gsf[k].gyro_bias.setZero();
}
// a0: model; a1: 0 321 yaw, 1 312 yaw, 2 fusion not started
HARNESS(gsf_predict)
{
	EKFGSF_yaw &g = fresh();
	any_model(g, a0, false);
	still(g, a0);
	g._ekf_gsf_vel_fuse_started = a1 != 2;
	rational_R(g, a0, a1 == 1);
	g._delta_vel = Vector3f(vh_range("dvx", -0.5f, 0.5f), vh_range("dvy", -0.5f, 0.5f), vh_range("dvz", -0.5f, 0.5f));
	g._delta_ang_dt = vh_range("dt_ang", 0.002f, 0.02f); g._delta_vel_dt = vh_range("dt_vel", 0.002f, 0.02f);
	Model o, n;
	read(g, a0, o);
	const double va = (double)(2.f * g._delta_vel_dt) * (2.f * g._delta_vel_dt), vy = (double)(0.1f * g._delta_ang_dt) * (0.1f * g._delta_ang_dt);
	double dv[3];
	for (int i = 0; i < 3; i++) { dv[i] = 0; for (int j = 0; j < 3; j++) { dv[i] += o.R[i][j] * g._delta_vel(j); } }
	double F[3][3] = {{1, 0, -dv[1]}, {0, 1, dv[0]}, {0, 0, 1}}, Pn[3][3];
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			Pn[i][j] = 0;
			for (int k = 0; k < 3; k++) { for (int l = 0; l < 3; l++) { Pn[i][j] += F[i][k] * o.P[k][l] * F[j][l]; } }
		}
		Pn[i][i] += i < 2 ? va : vy;
		vh_assume(Pn[i][i] >= 1e-5);
	}
	g.predictEKF(a0);
	read(g, a0, n);
	if (a1 == 2) {
		for (int i = 0; i < 3; i++) { vh_assert(vh_same((float)n.x[i], (float)o.x[i]), "not started: state kept"); for (int j = 0; j < 3; j++) { vh_assert(vh_same((float)n.P[i][j], (float)o.P[i][j]), "not started: covariance kept"); } }
		return;
	}
	vh_assert_eqd(n.x[0], o.x[0] + dv[0], 1e-4, "velocity integrates the earth frame delta velocity");
	vh_assert_eqd(n.x[1], o.x[1] + dv[1], 1e-4, "velocity integrates the earth frame delta velocity");
	vh_assert_eqd(n.x[2], a1 == 0 ? atan2(o.R[1][0], o.R[0][0]) : atan2(-o.R[0][1], o.R[1][1]), 1e-4, "yaw follows the attitude of the model");
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { vh_assert_eqd(n.P[i][j], Pn[i][j], 1e-4, "covariance propagates as F P F' plus noise"); } }
}

static imuSample imu()
{
	imuSample s{};
	s.time_us = 1000000;
	s.delta_ang = Vector3f(0.f, 0.f, 0.f); s.delta_vel = Vector3f(0.f, 0.f, -0.0766f); s.delta_ang_dt = 0.0078125f; s.delta_vel_dt = 0.0078125f;
	return s;
}
static void flat(EKFGSF_yaw &g)
{
	g._ahrs_ekf_gsf_tilt_aligned = true;
	for (int k = 0; k < 5; k++) { for (int i = 0; i < 9; i++) { g._ahrs_ekf_gsf[k].R(i / 3, i % 3) = i % 4 == 0 ? 1.f : 0.f; } g._ahrs_ekf_gsf[k].gyro_bias.setZero(); }
	g._ahrs_accel = Vector3f(0.f, 0.f, -9.80665f);
	static const char *wn[5] = {"wa", "wb", "wc", "wd", "we"};
	for (int k = 0; k < 5; k++) { g._model_weights(k) = vh_range(wn[k], 0.f, 1.f); }
}
// composite yaw of the bank; a0: 0 not started, 1 no new velocity
HARNESS(gsf_composite)
{
	EKFGSF_yaw &g = fresh();
	flat(g);
	for (int k = 0; k < 5; k++) { any_model(g, k, true); }
	g._ekf_gsf_vel_fuse_started = a0 == 1;
	g._vel_data_updated = false;
	double w[5], p[5], x[5];
	if (a0 == 1) { for (int k = 0; k < 5; k++) { g._ahrs_ekf_gsf[k].R(0, 0) = 0.75f; g._ahrs_ekf_gsf[k].R(1, 0) = vh_range(XN[k][0], -0.5f, 0.5f); g._ahrs_ekf_gsf[k].R(1, 1) = 0.f; g._ahrs_ekf_gsf[k].R(0, 1) = 0.f; } }
	for (int k = 0; k < 5; k++) { w[k] = g._model_weights(k); p[k] = g._ekf_gsf[k].P(2, 2); x[k] = g._ekf_gsf[k].X(2); }
	g.update(imu(), a0 == 1, 0.f, Vector3f(0.f, 0.f, 0.f));
	double s = 0, c = 0, var = 0;
	for (int k = 0; k < 5; k++) {
		if (a0 == 1) { p[k] = g._ekf_gsf[k].P(2, 2); x[k] = g._ekf_gsf[k].X(2); }
		s += w[k] * sin(x[k]); c += w[k] * cos(x[k]);
		vh_assert_eqd(g._model_weights(k), w[k], 1e-6, "weights are kept without a new observation");
	}
	vh_assert_eqd(g._gsf_yaw, atan2(s, c), 1e-4, "composite yaw is the direction of the weighted sum of the models");
	for (int k = 0; k < 5; k++) { const double dl = wrap_pi((float)(x[k] - g._gsf_yaw)); var += w[k] * (p[k] + dl * dl); }
	vh_assert_eqd(g._gsf_yaw_variance, var, 1e-4, "composite variance is the weighted variance and spread");
	float y = 77.f, v = 77.f;
	const bool have = g.getYawData(&y, &v);
	vh_assert(have == (a0 == 1), "a yaw is available once velocities are fused");
	vh_assert(have ? vh_same(y, g._gsf_yaw) && vh_same(v, g._gsf_yaw_variance) : y == 77.f && v == 77.f, "reported yaw and variance");
}
// a0: bit mask of models whose weight falls below the minimum
HARNESS(gsf_weights)
{
	EKFGSF_yaw &g = fresh();
	flat(g);
	for (int k = 0; k < 5; k++) { any_model(g, k, true); }
	g._ekf_gsf_vel_fuse_started = true;
	const Vector2f v(vh_range("vn", -20.f, 20.f), vh_range("ve", -20.f, 20.f));
	const float acc = vh_range("acc", 0.51f, 10.f);
	g.setVelocity(v, acc);
	vh_assert(g._vel_data_updated, "new velocity is noted");
	double w[5], sum = 0;
	const double var = (double)(2.f * 0.0078125f) * (2.f * 0.0078125f), R = (double)acc * acc;
	for (int k = 0; k < 5; k++) {
		Model m;
		read(g, k, m);
		m.P[0][0] += var + m.P[2][2] * 0.0; m.P[1][1] += var;
		const double vv[2] = {v(0), v(1)};
		Upd u;
		oracle(m, vv, R, u);
		vh_assume(u.t >= 1e-3);
		vh_assume(u.r < 24.999);
		for (int i = 0; i < 2; i++) { vh_assume(m.P[i][i] - u.K[i][0] * u.PH[i][0] - u.K[i][1] * u.PH[i][1] >= 1e-5); }
		w[k] = (double)_m_2pi_inv * sqrt(1.0 / u.t) * exp(-0.5 * u.r) * g._model_weights(k);
		if (a0 >> k & 1) { vh_assume(w[k] < 1e-5f); w[k] = 1e-5f; } else { vh_assume(w[k] >= 1e-5f); }
		sum += w[k];
	}
	g.update(imu(), true, 0.f, Vector3f(0.f, 0.f, 0.f));
	vh_assert(!g._vel_data_updated, "a velocity is used once");
	for (int k = 0; k < 5; k++) {
		if (a0 == 31) { vh_assert_eqd(g._model_weights(k), 0.2f, 1e-6, "all collapsed: equal weights"); vh_assert_eqd(g._ekf_gsf[k].X(0), v(0), 1e-5, "all collapsed: states from the last velocity"); }
		else { vh_assert_eqd(g._model_weights(k), w[k] / sum, 1e-3, "weights are scaled by the likelihood of the innovation and normalised"); }
	}
}
// start and stop of the bank; a0: 0 start, 1 not running, 2 stop, 3 start again without velocity
HARNESS(gsf_start)
{
	EKFGSF_yaw &g = fresh();
	flat(g);
	for (int k = 0; k < 5; k++) { any_model(g, k, true); }
	g._ekf_gsf_vel_fuse_started = a0 == 2;
	const Vector2f v(vh_range("vn", -20.f, 20.f), vh_range("ve", -20.f, 20.f));
	const float acc = vh_range("acc", 0.f, 10.f);
	const Vector3f bias(vh_range("bx", -0.1f, 0.1f), vh_range("by", -0.1f, 0.1f), vh_range("bz", -0.1f, 0.1f));
	if (a0 != 3) { g.setVelocity(v, acc); }
	g.update(imu(), a0 == 0 || a0 == 3, 0.f, bias);
	vh_assert(g._ekf_gsf_vel_fuse_started == (a0 == 0), "fusion runs from the first velocity in flight until landing");
	if (a0 == 0) {
		for (int k = 0; k < 5; k++) {
			const double y = -3.14159265358979 + 3.14159265358979 * (2 * k + 1) / 5;
			vh_assert_eqd(g._ekf_gsf[k].X(2), y, 1e-4, "initial yaws are spread evenly over the circle");
			vh_assert_eqd(g._ekf_gsf[k].X(0), v(0), 1e-5, "initial velocity"); vh_assert_eqd(g._ekf_gsf[k].X(1), v(1), 1e-5, "initial velocity");
			vh_assert_eqd(g._ekf_gsf[k].P(0, 0), (double)acc * acc, 1e-4, "initial velocity variance"); vh_assert_eqd(g._ekf_gsf[k].P(1, 1), (double)acc * acc, 1e-4, "initial velocity variance");
			vh_assert_eqd(g._ekf_gsf[k].P(2, 2), 0.3947841760, 1e-4, "initial yaw variance");
			vh_assert_eqd(g._model_weights(k), 0.2f, 1e-6, "equal initial weights");
			vh_assert(g._ahrs_ekf_gsf[k].aligned, "model aligned");
			const double yk = wrap_pi(g._ekf_gsf[k].X(2)), cy = cos(yk), sy = sin(yk), W[9] = {cy, -sy, 0, sy, cy, 0, 0, 0, 1};
			for (int i = 0; i < 9; i++) { vh_assert_eqd(g._ahrs_ekf_gsf[k].R(i / 3, i % 3), W[i], 1e-3, "attitude is turned to the initial yaw, tilt kept"); }
			for (int i = 0; i < 3; i++) { vh_assert(g._ahrs_ekf_gsf[k].gyro_bias(i) == bias(i), "gyro bias from the main filter"); }
		}
	}
}

static void ahrs_any(EKFGSF_yaw &g, int k)
{
	static const char *rn[9] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8"};
	for (int i = 0; i < 9; i++) { g._ahrs_ekf_gsf[k].R(i / 3, i % 3) = vh_range(rn[i], -1.f, 1.f); }
}
// complementary filter; a0: 0 no accelerometer correction, 1 with, 2 with centripetal compensation; a1: 1 = fast rotation (no bias learning)
HARNESS(gsf_ahrs)
{
	EKFGSF_yaw &g = fresh();
	ahrs_any(g, 3);
	const double dt = 0.0078125;
	g._delta_ang_dt = (float)dt;
	float am = a1 ? 0.02f : 0.0004f;
	g._delta_ang = Vector3f(vh_range("dax", -am, am), vh_range("day", -am, am), vh_range("daz", -am, am));
	const float bl = a1 ? 0.05f : 0.03f;
	g._ahrs_ekf_gsf[3].gyro_bias = Vector3f(vh_range("bx", -bl, bl), vh_range("by", -bl, bl), vh_range("bz", -bl, bl));
	g._ahrs_accel = Vector3f(vh_range("ax", -12.f, 12.f), vh_range("ay", -12.f, 12.f), vh_range("az", -12.f, 12.f));
	g._ahrs_accel_norm = vh_range("an", 5.f, 20.f);
	g._ahrs_accel_fusion_gain = a0 ? vh_range("gain", 0.001f, 0.2f) : 0.f;
	g._true_airspeed = a0 == 2 ? vh_range("tas", 1.f, 40.f) : 0.f;
	double R[3][3], w[3], b[3], tc[3] = {0, 0, 0}, a[3], n2 = 0;
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) { R[i][j] = g._ahrs_ekf_gsf[3].R(i, j); }
		b[i] = g._ahrs_ekf_gsf[3].gyro_bias(i); a[i] = g._ahrs_accel(i);
		w[i] = g._delta_ang(i) / dt - b[i]; n2 += w[i] * w[i];
	}
	vh_assume(n2 >= 0.0);
	const float T = 0.175f;
	if (a1) { vh_assume(sqrt(n2) > T); } else { vh_assume(sqrt(n2) < T); }
	if (a0 == 2) { a[1] -= g._true_airspeed * w[2]; a[2] += g._true_airspeed * w[1]; }
	if (a0) {
		const double k = (double)g._ahrs_accel_fusion_gain / g._ahrs_accel_norm;
		tc[0] = (R[2][1] * a[2] - R[2][2] * a[1]) * k; tc[1] = (R[2][2] * a[0] - R[2][0] * a[2]) * k; tc[2] = (R[2][0] * a[1] - R[2][1] * a[0]) * k;
	}
	if (!a1) { for (int i = 0; i < 3; i++) { b[i] -= tc[i] * (double)(0.04f * (float)dt); vh_assume(b[i] > -0.0499); vh_assume(b[i] < 0.0499); } }
	double d[3], N[3][3];
	for (int i = 0; i < 3; i++) { d[i] = g._delta_ang(i) + (tc[i] - b[i]) * dt; }
	for (int i = 0; i < 3; i++) {
		N[i][0] = R[i][0] + R[i][1] * d[2] - R[i][2] * d[1];
		N[i][1] = R[i][1] + R[i][2] * d[0] - R[i][0] * d[2];
		N[i][2] = R[i][2] + R[i][0] * d[1] - R[i][1] * d[0];
		const double l = N[i][0] * N[i][0] + N[i][1] * N[i][1] + N[i][2] * N[i][2];
		vh_assume(l > 1e-3);
		for (int j = 0; j < 3; j++) { N[i][j] *= 1.5 - 0.5 * l; }
	}
	g.ahrsPredict(3);
	for (int i = 0; i < 3; i++) {
		vh_assert_eqd(g._ahrs_ekf_gsf[3].gyro_bias(i), b[i], 1e-5, a1 ? "bias kept while rotating" : "bias integrates the tilt correction");
		for (int j = 0; j < 3; j++) { vh_assert_eqd(g._ahrs_ekf_gsf[3].R(i, j), N[i][j], 1e-4, "attitude turns by the corrected rate and is renormalised"); }
	}
}
// gyro bias limit
HARNESS(gsf_bias)
{
	EKFGSF_yaw &g = fresh();
	ahrs_any(g, 1);
	still(g, 1);
	g._ahrs_ekf_gsf[1].gyro_bias = Vector3f(vh_range("bx", -0.08f, 0.08f), vh_range("by", -0.08f, 0.08f), vh_range("bz", -0.08f, 0.08f));
	float b[3];
	for (int i = 0; i < 3; i++) { b[i] = g._ahrs_ekf_gsf[1].gyro_bias(i); }
	g.ahrsPredict(1);
	for (int i = 0; i < 3; i++) { const float v = g._ahrs_ekf_gsf[1].gyro_bias(i); vh_assert(v == (b[i] > 0.05f ? 0.05f : b[i] < -0.05f ? -0.05f : b[i]), "gyro bias limited to 0.05 rad/s"); }
}
// weight of the accelerometer in the attitude; a0: 1 = with airspeed
HARNESS(gsf_gain)
{
	EKFGSF_yaw &g = fresh();
	g._ahrs_accel_norm = vh_range("an", 0.f, 40.f);
	g._true_airspeed = a0 ? vh_range("tas", 0.1f, 40.f) : 0.f;
	const double G = 9.80665f, dg = ab((double)g._ahrs_accel_norm - G) / G;
	const bool centri = a0 && (double)g._ahrs_accel_norm > G;
	const double k = centri ? dg : 2 * dg, m = k < 1.0 ? k : 1.0;
	const float r = g.ahrsCalcAccelGain();
	vh_assert_eqd(r, 0.2 * (1 - m) * (1 - m), 1e-4, "gain fades from one g to zero and twice one g");
	vh_assert(r >= 0.f, "gain is not negative"); vh_assert(r <= 0.2001f, "gain is at most the tilt gain");
}
// start of the attitude; a0: 0 within 0.9 .. 1.1 g, 1 above, 2 below
HARNESS(gsf_align)
{
	EKFGSF_yaw &g = fresh();
	imuSample s = imu();
	s.delta_vel = Vector3f(vh_range("dvx", -0.1f, 0.1f), vh_range("dvy", -0.1f, 0.1f), vh_range("dvz", -0.1f, 0.1f));
	const double dt = 0.0078125, ax = s.delta_vel(0) / dt, ay = s.delta_vel(1) / dt, az = s.delta_vel(2) / dt, G = 9.80665f;
	const double k = 10.0 * (0.2f * (float)dt);
	g._ahrs_accel = Vector3f(vh_range("lx", -12.f, 12.f), vh_range("ly", -12.f, 12.f), vh_range("lz", -12.f, 12.f));
	const double l[3] = {g._ahrs_accel(0), g._ahrs_accel(1), g._ahrs_accel(2)}, A[3] = {ax, ay, az};
	const double n = ax * ax + ay * ay + az * az;
	vh_assume(n >= 0.0);
	if (a0 == 0) { vh_assume(n > 0.8101 * G * G); vh_assume(n < 1.2099 * G * G); vh_assume(ay * ay + az * az >= 1.0); }
	else if (a0 == 1) { vh_assume(n > 1.2101 * G * G); }
	else { vh_assume(n < 0.8099 * G * G); }
	g.update(s, false, 0.f, Vector3f(0.f, 0.f, 0.f));
	vh_assert(g._ahrs_ekf_gsf_tilt_aligned == (a0 == 0), "attitude starts between 0.9 and 1.1 g only");
	for (int i = 0; i < 3; i++) { vh_assert_eqd(g._ahrs_accel(i), l[i] * (1 - k) + A[i] * k, 1e-3, "specific force is low pass filtered"); }
	if (a0) { return; }
	for (int q = 0; q < 5; q++) {
		double M[3][3], t[3] = {0, 0, 0};
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { M[i][j] = g._ahrs_ekf_gsf[q].R(i, j); t[i] += M[i][j] * A[j]; } }
		vh_assert_eqd(t[0], 0.0, 1e-2, "specific force points straight up"); vh_assert_eqd(t[1], 0.0, 1e-2, "specific force points straight up");
		vh_assert(t[2] < 0.0, "specific force is up, not down");
		vh_assert_eqd(M[1][0], 0.0, 1e-4, "nose points north"); vh_assert(M[0][0] > 0.0, "nose does not point south");
		for (int i = 0; i < 3; i++) { for (int j = 0; j <= i; j++) { double dot = 0; for (int c = 0; c < 3; c++) { dot += M[i][c] * M[j][c]; } vh_assert_eqd(dot, i == j ? 1.0 : 0.0, 1e-3, "attitude is a rotation"); } }
		vh_assert_eqd(g._model_weights(q), 0.2f, 1e-6, "equal initial weights");
	}
}

// helpers for demonstrations: an estimator with a random covariance, and a numerical Kalman filter to compare with
#include <EKF/ekf.h>
#include <EKF/EKFGSF_yaw.h>
#include <functional>
#include <math.h>
#include <stdio.h>
#include <random>
using namespace estimator; using namespace matrix;
typedef std::function<double(const double *)> Fn;
static std::mt19937 gen(7);
static double rnd(double a, double b) { return std::uniform_real_distribution<double>(a, b)(gen); }
static Ekf *mk(double s = 0.1)
{
	Ekf *e = new Ekf; double A[24][24];
	for (auto &r : A) { for (auto &v : r) { v = rnd(-1, 1) * s; } }
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { double t = 0; for (int k = 0; k < 24; k++) { t += A[i][k] * A[j][k]; } e->P(i, j) = (float)t; } }
	Quatf q(0.8f, 0.2f, -0.3f, 0.4f); q.normalize();
	e->_state.quat_nominal = q; e->_R_to_earth = Dcmf(q);
	e->_state.vel = Vector3f(12, -5, 2); e->_state.pos = Vector3f(3, 4, -20);
	e->_state.mag_I = Vector3f(0.22f, 0.05f, 0.41f); e->_state.mag_B = Vector3f(0.01f, -0.02f, 0.03f);
	e->_state.wind_vel = Vector2f(2, 3);
	e->_time_last_imu = 100000000; e->_imu_sample_delayed.time_us = 100000000; e->_imu_sample_delayed.delta_ang_dt = e->_imu_sample_delayed.delta_vel_dt = 0.01f;
	e->_control_status.flags.in_air = true; e->_control_status.flags.tilt_align = true; e->_control_status.flags.yaw_align = true;
	for (int i = 0; i < 3; i++) { e->_accel_bias_inhibit[i] = false; }
	return e;
}
static void get(const Ekf &e, double *x)
{
	const stateSample &s = e._state;
	for (int i = 0; i < 4; i++) { x[i] = s.quat_nominal(i); }
	for (int i = 0; i < 3; i++) { x[4 + i] = s.vel(i); x[7 + i] = s.pos(i); x[10 + i] = s.delta_ang_bias(i); x[13 + i] = s.delta_vel_bias(i); x[16 + i] = s.mag_I(i); x[19 + i] = s.mag_B(i); }
	x[22] = s.wind_vel(0); x[23] = s.wind_vel(1);
}
static void jac(const Ekf &e, const Fn &h, double *H)
{
	double x[24]; get(e, x);
	for (int i = 0; i < 24; i++) { const double d = 1e-6, o = x[i]; x[i] = o + d; const double a = h(x); x[i] = o - d; const double b = h(x); x[i] = o; H[i] = (a - b) / (2 * d); }
}
static double var(const Ekf &e, const Fn &h, double R)
{
	double H[24], v = R; jac(e, h, H);
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { v += H[i] * e.P(i, j) * H[j]; } }
	return v;
}
static double gain(const Ekf &e, const Fn &h, double R, int k)
{
	double H[24], v = 0; jac(e, h, H);
	for (int j = 0; j < 24; j++) { v += e.P(k, j) * H[j]; }
	return v / var(e, h, R);
}
static bool near(double a, double b, double tol = 2e-3) { if (!(fabs(a - b) <= tol * (1e-3 + fabs(b)))) { printf("got %g want %g\n", a, b); return false; } return true; }
// body to earth rotation, element r,c, without assuming unit length
static double rot(const double *q, int r, int c)
{
	const double R[3][3] = {{q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3], 2 * (q[1] * q[2] - q[0] * q[3]), 2 * (q[1] * q[3] + q[0] * q[2])}, {2 * (q[1] * q[2] + q[0] * q[3]), q[0] * q[0] - q[1] * q[1] + q[2] * q[2] - q[3] * q[3], 2 * (q[2] * q[3] - q[0] * q[1])}, {2 * (q[1] * q[3] - q[0] * q[2]), 2 * (q[2] * q[3] + q[0] * q[1]), q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3]}};
	return R[r][c];
}

// shared helpers for the filter harnesses
#pragma once
#include "vh.h"
#include <EKF/ekf.h>
#include <math.h>
using namespace matrix;
using namespace estimator;
static constexpr int NS = 24;

// filter object with every scalar member symbolic (buffers and pointers left as they are)
alignas(Ekf) static unsigned char ekf_mem[sizeof(Ekf)];
static inline Ekf &ekf_any(const char *name = "ekf")
{
	Ekf &f = *reinterpret_cast<Ekf *>(ekf_mem);
	vh_havoc(&f, "class.Ekf", name);
	return f;
}
static inline void sym_cov(Ekf &f)
{
	for (int i = 0; i < NS; i++) { for (int j = 0; j < i; j++) { f.P(i, j) = f.P(j, i); } }
}
static inline float *state_ptr(stateSample &s, int i)
{
	if (i < 4) { return &s.quat_nominal(i); }
	if (i < 7) { return &s.vel(i - 4); }
	if (i < 10) { return &s.pos(i - 7); }
	if (i < 13) { return &s.delta_ang_bias(i - 10); }
	if (i < 16) { return &s.delta_vel_bias(i - 13); }
	if (i < 19) { return &s.mag_I(i - 16); }
	if (i < 22) { return &s.mag_B(i - 19); }
	return &s.wind_vel(i - 22);
}
struct Snap { float x[NS]; float P[NS][NS]; };
static inline void snap(Ekf &f, Snap &s)
{
	for (int i = 0; i < NS; i++) { s.x[i] = *state_ptr(f._state, i); for (int j = 0; j < NS; j++) { s.P[i][j] = f.P(i, j); } }
}
// two ways to keep the algebra of many-state measurements small:
// FULL: every covariance entry symbolic, states fixed to generic dyadic values (exact in binary32)
// CROSS: every state symbolic, covariance zero within the observed states except for the correlation of one observed state
// with all unobserved ones (so that S = R and each gain is one entry of H times that correlation over R)
enum { FULL = 0, CROSS = 1 };
static inline void cross_cov(Ekf &f, const int *ix, int n, int only)
{
	for (int m = 0; m < n; m++) { if (m != only) { for (int i = 0; i < NS; i++) { f.P(i, ix[m]) = 0.f; f.P(ix[m], i) = 0.f; } } }
	for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { f.P(ix[i], ix[j]) = 0.f; } }
}
static inline void fixed_quat(Ekf &f)
{
	f._state.quat_nominal(0) = 0.125f; f._state.quat_nominal(1) = 0.25f; f._state.quat_nominal(2) = 0.5f; f._state.quat_nominal(3) = 1.25f;
}
// Kalman gain for a sparse observation row with variance R, from the snapshot
struct Row { int n; int ix[NS]; double h[NS]; void add(int i, double v) { ix[n] = i; h[n] = v; n++; } };
struct Gain { double PH[NS]; double S; double K[NS]; };
static inline void gain(const Snap &s, const Row &H, double R, Gain &g)
{
	g.S = R;
	for (int i = 0; i < NS; i++) {
		double a = 0;
		for (int j = 0; j < H.n; j++) { a += (double)s.P[i][H.ix[j]] * H.h[j]; }
		g.PH[i] = a;
	}
	for (int j = 0; j < H.n; j++) { g.S += H.h[j] * g.PH[H.ix[j]]; }
	for (int i = 0; i < NS; i++) { g.K[i] = g.PH[i] / g.S; }
}
static constexpr float VAR_MIN[NS] = {0, 0, 0, 0, 1e-6f, 1e-6f, 1e-6f, 1e-6f, 1e-6f, 1e-6f, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
static constexpr float VAR_MAX[NS] = {1, 1, 1, 1, 1e6, 1e6, 1e6, 1e6, 1e6, 1e6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1e6, 1e6};
static inline void assume_within(const Snap &b)
{
	for (int i = 0; i < NS; i++) { vh_assume(b.P[i][i] >= 0.f); vh_assume(b.P[i][i] >= 1.001f * VAR_MIN[i]); vh_assume(b.P[i][i] <= 0.999f * VAR_MAX[i]); }
}
// no variance limit is reached by the update described by g (used as an assumption before the update)
static inline void assume_no_rejection(const Snap &b, const Gain &g, const bool *zero = nullptr)
{
	for (int i = 0; i < NS; i++) {
		if (zero && zero[i]) { vh_assume(b.P[i][i] >= 0.f); continue; }
		const double kp = g.K[i] * g.PH[i];
		vh_assume(kp <= (double)b.P[i][i]);
		vh_assume(1.001 * kp <= (double)b.P[i][i]);
	}
}
static inline void assume_no_limits(const Snap &b, const Gain &g, const bool *zero = nullptr)
{
	for (int i = 0; i < NS; i++) {
		const double kp = g.K[i] * g.PH[i], e = (double)b.P[i][i] - kp;
		if (zero && zero[i]) { vh_assume((double)b.P[i][i] >= VAR_MIN[i] && (double)b.P[i][i] <= VAR_MAX[i]); continue; }
		vh_assume(kp <= (double)b.P[i][i]);
		vh_assume(1.001 * kp <= (double)b.P[i][i]); // away from the decision by rounding
		vh_assume(e >= VAR_MIN[i]); vh_assume(e <= VAR_MAX[i]);
	}
}
// part 0: states, part 1..6: covariance rows [4(part-1), 4 part), part 7: whole covariance, part 8: everything
static inline void check_update(Ekf &f, const Snap &b, const Gain &g, double innov, int part, const bool *zero = nullptr, double tol = 1e-4)
{
	double K[NS];
	for (int i = 0; i < NS; i++) { K[i] = zero && zero[i] ? 0.0 : g.K[i]; }
	if (part == 0 || part == 8) {
		double q[4], n = 0;
		for (int i = 0; i < 4; i++) { q[i] = (double)b.x[i] - K[i] * innov; n += q[i] * q[i]; }
		n = sqrt(n);
		for (int i = 0; i < 4; i++) { vh_assert_eqd((double)f._state.quat_nominal(i) * n, q[i], tol, "attitude moves by the Kalman gain times the innovation and is normalised"); }
		for (int i = 4; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), (double)b.x[i] - K[i] * innov, tol, "state moves by the Kalman gain times the innovation"); }
		if (part == 0) { return; }
	}
	for (int i = part > 6 ? 0 : 4 * (part - 1); i < (part > 6 ? NS : 4 * part); i++) {
		for (int j = i; j < NS; j++) {
			// the symmetric update, both triangles
			const double e = (double)b.P[i][j] - 0.5 * (K[i] * g.PH[j] + K[j] * g.PH[i]);
			// gains forced to zero make K H P unsymmetric; the mean of both triangles is compared then
			if (zero) { vh_assert_eqd(0.5 * ((double)f.P(i, j) + (double)f.P(j, i)), e, tol, "covariance is reduced by K H P"); continue; }
			vh_assert_eqd(f.P(i, j), e, tol, "covariance is reduced by K H P");
			vh_assert_eqd(f.P(j, i), e, tol, "covariance is reduced by K H P");
		}
	}
}
// earth to body rotation of the (homogeneous) quaternion and its derivative with respect to quaternion element k, applied to a vector
static inline double rot_row(const double *q, int r, const double *v)
{
	const double q0 = q[0], q1 = q[1], q2 = q[2], q3 = q[3];
	if (r == 0) { return (q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3) * v[0] + 2 * (q1 * q2 + q0 * q3) * v[1] + 2 * (q1 * q3 - q0 * q2) * v[2]; }
	if (r == 1) { return 2 * (q1 * q2 - q0 * q3) * v[0] + (q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3) * v[1] + 2 * (q2 * q3 + q0 * q1) * v[2]; }
	return 2 * (q1 * q3 + q0 * q2) * v[0] + 2 * (q2 * q3 - q0 * q1) * v[1] + (q0 * q0 - q1 * q1 - q2 * q2 + q3 * q3) * v[2];
}
// the form is quadratic in q: its derivative along e_k is B(q + e_k) - B(q) - B(e_k)
static inline double rot_row_dq(const double *q, int r, const double *v, int k)
{
	double qp[4] = {q[0], q[1], q[2], q[3]}, e[4] = {0, 0, 0, 0};
	qp[k] += 1.0; e[k] = 1.0;
	return rot_row(qp, r, v) - rot_row(q, r, v) - rot_row(e, r, v);
}
static inline void rational_quat(Ekf &f)
{
	f._state.quat_nominal(0) = vh_frac("q0@2/9", 2, 9); f._state.quat_nominal(1) = vh_frac("q1@4/9", 4, 9);
	f._state.quat_nominal(2) = vh_frac("q2@5/9", 5, 9); f._state.quat_nominal(3) = vh_frac("q3@6/9", 6, 9);
}
// rejected measurements: everything else than the report of the rejection stays as it was
struct Flags { bool b[13]; };
static inline void reject_flags(const Ekf &f, Flags &r)
{
	const auto &s = f._innov_check_fail_status.flags;
	r.b[0] = s.reject_hor_vel; r.b[1] = s.reject_ver_vel; r.b[2] = s.reject_hor_pos; r.b[3] = s.reject_ver_pos;
	r.b[4] = s.reject_mag_x; r.b[5] = s.reject_mag_y; r.b[6] = s.reject_mag_z; r.b[7] = s.reject_yaw;
	r.b[8] = s.reject_airspeed; r.b[9] = s.reject_sideslip; r.b[10] = s.reject_hagl; r.b[11] = s.reject_optflow_X; r.b[12] = s.reject_optflow_Y;
}
// set: flags that must be set, clear: flags that must be clear, the others are as before
static inline void check_rejected(const Ekf &f, const Snap &b, const Flags &old, int set, int clear)
{
	Flags now;
	reject_flags(f, now);
	for (int i = 0; i < 13; i++) {
		if (set >> i & 1) { vh_assert(now.b[i], "the rejected measurement is flagged"); }
		else if (clear >> i & 1) { vh_assert(!now.b[i], "an accepted axis is not flagged"); }
		else { vh_assert(now.b[i] == old.b[i], "flags of other measurements untouched"); }
	}
	Ekf &g = const_cast<Ekf &>(f);
	for (int i = 0; i < NS; i++) { vh_assert_eqd(*state_ptr(g._state, i), b.x[i], 1e-4, "rejected measurement leaves the state untouched"); }
	for (int i = 0; i < NS; i++) { for (int j = 0; j < NS; j++) { vh_assert_eqd(g.P(i, j), b.P[i][j], 1e-4, "rejected measurement leaves the covariance untouched"); } }
}
// a correction that would make the variance of state r negative: refused whole, the state's row is reset
struct Faults { bool b[15]; };
static inline void fault_flags(const Ekf &f, Faults &r)
{
	const auto &s = f._fault_status.flags;
	r.b[0] = s.bad_mag_x; r.b[1] = s.bad_mag_y; r.b[2] = s.bad_mag_z; r.b[3] = s.bad_hdg; r.b[4] = s.bad_mag_decl; r.b[5] = s.bad_airspeed; r.b[6] = s.bad_sideslip;
	r.b[7] = s.bad_optflow_X; r.b[8] = s.bad_optflow_Y; r.b[9] = s.bad_vel_N; r.b[10] = s.bad_vel_E; r.b[11] = s.bad_vel_D; r.b[12] = s.bad_pos_N; r.b[13] = s.bad_pos_E; r.b[14] = s.bad_pos_D;
}
static inline void assume_unhealthy(const Snap &b, const Gain &g, int r, const bool *zero = nullptr)
{
	for (int i = 0; i < NS; i++) {
		const double p = b.P[i][i];
		if (zero && zero[i]) { vh_assume(p >= 0); continue; }
		const double kp = g.K[i] * g.PH[i];
		if (i == r) { vh_assume(kp >= p); vh_assume(kp >= 1.001 * p); vh_assume(kp - p >= 1e-4); } else { vh_assume(kp <= p); vh_assume(1.001 * kp <= p); }
	}
}
// a measurement whose innovation variance is below its own noise is not used: only the wind (if windfree) may be reset;
// cov: 0 = the whole covariance becomes diagonal, 1 = only the wind's rows are reset, 2 = not checked
static inline void check_illcond(Ekf &f, const Snap &b, const Faults &old, int bit, bool windfree, int cov)
{
	Faults now;
	fault_flags(f, now);
	for (int i = 0; i < 15; i++) { if (i == bit) { vh_assert(now.b[i], "badly conditioned measurement is flagged"); } else { vh_assert(now.b[i] == old.b[i], "other faults untouched"); } }
	for (int i = 0; i < NS; i++) { if (!windfree || i < 22) { vh_assert_eqd(*state_ptr(f._state, i), b.x[i], 1e-4, "badly conditioned measurement leaves the state untouched"); } }
	if (cov == 2) { return; }
	for (int i = 0; i < NS; i++) {
		for (int j = 0; j < i; j++) {
			const bool reset = cov == 0 || i >= 22;
			if (cov == 0 ? i < 4 : j >= 22) { continue; } // attitude is an uncertain rotation vector, wind an uncertain speed and heading
			vh_assert_eqd(f.P(i, j), reset ? 0.0 : (double)b.P[i][j], 1e-4, "covariance is reset, not corrected");
		}
		if (cov == 1 && i < 22) { vh_assert_eqd(f.P(i, i), b.P[i][i], 1e-4, "variance is kept"); }
	}
}
static inline void check_unhealthy(Ekf &f, const Snap &b, const Faults &old, int bit, int r)
{
	Faults now;
	fault_flags(f, now);
	for (int i = 0; i < 15; i++) { if (i == bit) { vh_assert(now.b[i], "numerical fault of the measurement is flagged"); } else { vh_assert(now.b[i] == old.b[i], "other faults untouched"); } }
	for (int i = 0; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), b.x[i], 1e-4, "refused correction leaves the state untouched"); }
	for (int i = 0; i < NS; i++) { for (int j = 0; j < NS; j++) { vh_assert_eqd(f.P(i, j), i == r || j == r ? 0.0 : (double)b.P[i][j], 1e-4, "refused correction only clears the unhealthy state's covariance"); } }
}

// wind and airspeed scale estimator
#include "vh.h"
#include <airdata/WindEstimator.hpp>
#include <math.h>
using namespace matrix;
static double dmax(double a, double b) { return a > b ? a : b; }
alignas(WindEstimator) static unsigned char mem[sizeof(WindEstimator)];
static WindEstimator &any()
{
	WindEstimator &w = *reinterpret_cast<WindEstimator *>(mem);
	vh_havoc(&w, "class.WindEstimator", "we");
	for (int i = 0; i < 3; i++) { for (int j = 0; j < i; j++) { w._P(i, j) = w._P(j, i); } }
	return w;
}
struct Old { double x[3], P[3][3]; };
static void snap(WindEstimator &w, Old &o) { for (int i = 0; i < 3; i++) { o.x[i] = w._state(i); for (int j = 0; j < 3; j++) { o.P[i][j] = w._P(i, j); } } }
static void gain(const Old &o, const double *h, double R, double *PH, double *K, double &S)
{
	S = R;
	for (int i = 0; i < 3; i++) { PH[i] = 0; for (int j = 0; j < 3; j++) { PH[i] += o.P[i][j] * h[j]; } }
	for (int i = 0; i < 3; i++) { S += h[i] * PH[i]; }
	for (int i = 0; i < 3; i++) { K[i] = PH[i] / S; }
}
static void ranges(WindEstimator &w)
{
	for (int i = 0; i < 3; i++) { vh_assume(w._P(i, i) >= 1e-5f); vh_assume(w._P(i, i) <= (i < 2 ? 25.f : 0.1f)); for (int j = i + 1; j < 3; j++) { vh_assume(w._P(i, j) >= -1.f); vh_assume(w._P(i, j) <= 1.f); } }
	vh_assume(w._state(0) >= -50.f); vh_assume(w._state(0) <= 50.f); vh_assume(w._state(1) >= -50.f); vh_assume(w._state(1) <= 50.f); vh_assume(w._state(2) >= 0.5f); vh_assume(w._state(2) <= 2.f);
}
static void check(WindEstimator &w, const Old &o, const double *PH, const double *K, double innov, bool learn, double forced)
{
	for (int i = 0; i < 3; i++) {
		const double x = i == 2 && !learn ? forced : o.x[i] + K[i] * innov;
		vh_assert_eqd(w._state(i), x, 1e-3, "state moves by the Kalman gain times the innovation");
		for (int j = 0; j < 3; j++) { vh_assert_eqd(w._P(i, j), o.P[i][j] - K[i] * PH[j], 1e-3, "covariance is reduced by K H P"); }
	}
	vh_assert(w._initialised, "stays initialised");
}
static void limits(const Old &o, const double *PH, const double *K, const double *)
{
	for (int i = 0; i < 3; i++) { const double v = o.P[i][i] - K[i] * PH[i]; vh_assume(v >= 0.0); vh_assume(v <= (i < 2 ? 25.0 : 0.1f)); }
}
static const uint64_t NOW = 50000000;
static Vector3f velocity() { return Vector3f(vh_range("vn", -50.f, 50.f), vh_range("ve", -50.f, 50.f), vh_range("vd", -20.f, 20.f)); }

// a0: 0 fused, 1 rejected, 2 rejected for more than five seconds (reinitialised); a1: 1 = airspeed scale enforced
HARNESS(wind_tas)
{
	WindEstimator &w = any();
	ranges(w);
	w._initialised = true;
	w._time_last_airspeed_fuse = 40000000;
	w._time_rejected_tas = a0 == 2 ? 44000000 : a0 == 1 ? 46000000 : 0;
	if (a0 == 1 && (a1 & 2)) { w._time_rejected_tas = 0; }
	w._tas_var = vh_range("R", 0.1f, 10.f);
	w._tas_gate = 3;
	w._enforced_airspeed_scale = (a1 & 1) ? vh_range("scale", 0.1f, 3.f) : -1.f;
	Old o;
	snap(w, o);
	const Vector3f v = velocity();
	const float tas = vh_range("tas", 0.f, 60.f);
	const double rn = (double)v(0) - o.x[0], re = (double)v(1) - o.x[1], rd = v(2), sq = rn * rn + re * re + rd * rd;
	vh_assume(sq >= 1.0);
	const double len = sqrt(sq);
	// derivative of the predicted airspeed: scale times length of the wind relative velocity
	const double h[3] = {-o.x[2] * rn / len, -o.x[2] * re / len, len};
	double PH[3], K[3], S;
	gain(o, h, w._tas_var, PH, K, S);
	vh_assume(S >= 0.1);
	const double innov = (double)tas - o.x[2] * len;
	if (a0) { vh_assume(innov * innov >= 9.001 * S); vh_assume(innov * innov >= 9.0 * S); } else { vh_assume(innov * innov <= 9.0 * S); vh_assume(innov * innov <= 8.999 * S); }
	limits(o, PH, K, nullptr);
	if (!(a1 & 1)) { vh_assume(o.x[2] + K[2] * innov >= 0.0); }
	if (a0 == 2) { vh_assume((double)v(0) * v(0) + (double)v(1) * v(1) >= 9.1); }
	w._wind_estimator_reset = false;
	w.fuse_airspeed(NOW, tas, v, Vector2f(1.f, 1.f));
	vh_cover("called");
	vh_assert_eqd(w._tas_innov, innov, 1e-3, "innovation is measured minus predicted airspeed");
	vh_assert_eqd(w._tas_innov_var, S, 1e-3, "innovation variance");
	vh_assert(w._time_last_airspeed_fuse == NOW, "time of the attempt");
	if (a0 == 0) { check(w, o, PH, K, innov, !(a1 & 1), w._enforced_airspeed_scale); vh_assert(w._time_rejected_tas == 0, "no rejection running"); vh_assert(!w._wind_estimator_reset, "no reset"); }
	else if (a0 == 1) {
		for (int i = 0; i < 3; i++) { vh_assert_eqd(w._state(i), o.x[i], 1e-4, "rejected: unchanged"); for (int j = 0; j < 3; j++) { vh_assert_eqd(w._P(i, j), o.P[i][j], 1e-4, "rejected: unchanged"); } }
		vh_assert(w._time_rejected_tas == (a1 & 2 ? NOW : 46000000), "time of the first rejection"); vh_assert(!w._wind_estimator_reset && w._initialised, "no reset");
	} else { vh_assert(w._wind_estimator_reset && w._initialised && w._time_rejected_tas == 0, "five seconds of rejection reinitialise"); vh_assert_eqd(w._state(2), 1.0, 1e-4, "scale starts at one"); }
}
// a0, a1 as above; attitude a1 & 4: rational generic, otherwise symbolic
HARNESS(wind_beta)
{
	WindEstimator &w = any();
	ranges(w);
	w._initialised = true;
	w._time_last_beta_fuse = 40000000;
	w._time_rejected_beta = a0 == 2 ? 44000000 : a0 == 1 ? 46000000 : 0;
	if (a0 == 1 && (a1 & 2)) { w._time_rejected_beta = 0; }
	w._beta_var = vh_range("R", 0.1f, 10.f);
	w._beta_gate = 1;
	w._enforced_airspeed_scale = (a1 & 1) ? vh_range("scale", 0.1f, 3.f) : -1.f;
	Old o;
	snap(w, o);
	const Vector3f v = velocity();
	Quatf qa;
	if (a1 & 4) { qa(0) = vh_frac("q0@2/9", 2, 9); qa(1) = vh_frac("q1@4/9", 4, 9); qa(2) = vh_frac("q2@5/9", 5, 9); qa(3) = vh_frac("q3@6/9", 6, 9); }
	else { for (int i = 0; i < 4; i++) { qa(i) = vh_range("q", -1.f, 1.f); } vh_assume_unit(qa(0), qa(1), qa(2), qa(3)); }
	const double q0 = qa(0), q1 = qa(1), q2 = qa(2), q3 = qa(3);
	const double r[3] = {(double)v(0) - o.x[0], (double)v(1) - o.x[1], v(2)};
	const double X[3] = {q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3, 2 * (q1 * q2 + q0 * q3), 2 * (q1 * q3 - q0 * q2)};
	const double Y[3] = {2 * (q1 * q2 - q0 * q3), q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3, 2 * (q2 * q3 + q0 * q1)};
	double x = 0, y = 0;
	for (int i = 0; i < 3; i++) { x += X[i] * r[i]; y += Y[i] * r[i]; }
	vh_assume(x >= 0.2); vh_assume(x >= 0.0);
	// derivative of lateral over forward relative velocity
	const double h[3] = {-(Y[0] / x - y * X[0] / (x * x)), -(Y[1] / x - y * X[1] / (x * x)), 0.0};
	double PH[3], K[3], S;
	gain(o, h, w._beta_var, PH, K, S);
	vh_assume(S >= 0.1);
	const double innov = -y / x;
	if (a0) { vh_assume(innov * innov >= 1.001 * S); vh_assume(innov * innov >= S); } else { vh_assume(innov * innov <= S); vh_assume(innov * innov <= 0.999 * S); }
	limits(o, PH, K, nullptr);
	if (!(a1 & 1)) { vh_assume(o.x[2] + K[2] * innov >= 0.0); }
	if (a0 == 2) { vh_assume((double)v(0) * v(0) + (double)v(1) * v(1) >= 9.1); }
	w._wind_estimator_reset = false;
	w.fuse_beta(NOW, v, qa);
	vh_cover("called");
	vh_assert_eqd(w._beta_innov, innov, 1e-3, "innovation is zero minus predicted sideslip");
	vh_assert_eqd(w._beta_innov_var, S, 1e-3, "innovation variance");
	vh_assert(w._time_last_beta_fuse == NOW, "time of the attempt");
	if (a0 == 0) { check(w, o, PH, K, innov, !(a1 & 1), w._enforced_airspeed_scale); vh_assert(w._time_rejected_beta == 0, "no rejection running"); vh_assert(!w._wind_estimator_reset, "no reset"); }
	else if (a0 == 1) {
		for (int i = 0; i < 3; i++) { vh_assert_eqd(w._state(i), o.x[i], 1e-4, "rejected: unchanged"); for (int j = 0; j < 3; j++) { vh_assert_eqd(w._P(i, j), o.P[i][j], 1e-4, "rejected: unchanged"); } }
		vh_assert(w._time_rejected_beta == (a1 & 2 ? NOW : 46000000), "time of the first rejection"); vh_assert(!w._wind_estimator_reset && w._initialised, "no reset");
	} else { vh_assert(w._wind_estimator_reset && w._initialised && w._time_rejected_beta == 0, "five seconds of rejection reinitialise"); }
}
// a0: 0 fast enough to start, 1 too slow; a1: 0 airspeed, 1 sideslip
HARNESS(wind_init)
{
	WindEstimator &w = any();
	w._initialised = false;
	w._wind_estimator_reset = false;
	Old o;
	snap(w, o);
	const Vector3f v = velocity();
	const double vn = v(0), ve = v(1), sq = vn * vn + ve * ve, sq3 = sq + (double)v(2) * v(2);
	vh_assume(sq >= 0.01);
	const double len = sqrt(sq);
	if (a0) { vh_assume(len <= 2.99); } else { vh_assume(len >= 3.01); vh_assume(len >= 3.0); }
	const float tas = vh_range("tas", 0.f, 60.f);
	const Vector2f var(vh_range("pn", 0.02f, 10.f), vh_range("pe", 0.02f, 10.f));
	double t = tas, p[2] = {var(0), var(1)};
	if (a1 == 0) { w.fuse_airspeed(NOW, tas, v, var); }
	else { Quatf q(1.f, 0.f, 0.f, 0.f); w.fuse_beta(NOW, v, q); t = sqrt(sq3); p[0] = p[1] = 0.1f; }
	vh_cover("called");
	vh_assert(w._initialised == (a0 == 0), "starts with a ground speed of three metres per second");
	vh_assert(w._wind_estimator_reset == (a0 == 0), "reset reported");
	if (a0) { for (int i = 0; i < 3; i++) { vh_assert_eqd(w._state(i), o.x[i], 1e-4, "too slow: unchanged"); for (int j = 0; j < 3; j++) { vh_assert_eqd(w._P(i, j), o.P[i][j], 1e-4, "too slow: unchanged"); } } return; }
	// wind = ground velocity - airspeed along the ground track
	vh_assert_eqd(w._state(0), vn - t * vn / len, 1e-3, "initial wind north"); vh_assert_eqd(w._state(1), ve - t * ve / len, 1e-3, "initial wind east"); vh_assert_eqd(w._state(2), 1.0, 1e-4, "initial scale");
	const double c = t / (sq * len), J[2][2] = {{1 - c * ve * ve, c * vn * ve}, {c * vn * ve, 1 - c * vn * vn}};
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) {
		const double want = i < 2 && j < 2 ? J[i][0] * p[0] * J[j][0] + J[i][1] * p[1] * J[j][1] : i == 2 && j == 2 ? 0.0001f : 0.0;
		vh_assert_eqd(w._P(i, j), want, 1e-3, "initial covariance is the velocity covariance mapped through the initial wind");
	} }
	vh_assert(w._time_rejected_tas == 0 && w._time_rejected_beta == 0, "rejections start anew");
}
// covariance prediction once per second
HARNESS(wind_predict)
{
	WindEstimator &w = any();
	const uint64_t last = a0 == 0 ? 48750000 : a0 == 1 ? 49000001 : 0;
	w._time_last_update = last;
	w._initialised = a0 != 3;
	const bool was = w._wind_estimator_reset;
	vh_assume(w._wind_p_var >= 0.f); vh_assume(w._wind_p_var <= 10.f); vh_assume(w._tas_scale_p_var >= 0.f); vh_assume(w._tas_scale_p_var <= 10.f);
	Old o;
	snap(w, o);
	w.update(NOW);
	vh_cover("called");
	const double dt = a0 == 0 ? 1.25 : 0.0, q = dt * dt * w._wind_p_var, qs = dt * dt * w._tas_scale_p_var;
	for (int i = 0; i < 3; i++) { vh_assert_eqd(w._state(i), o.x[i], 1e-4, "states constant"); for (int j = 0; j < 3; j++) { vh_assert_eqd(w._P(i, j), o.P[i][j] + (i != j ? 0.0 : i < 2 ? q : qs), 1e-4, "independent process noise of wind and scale is added"); } }
	vh_assert(w._time_last_update == (a0 == 0 || a0 == 2 ? NOW : last), "time of the prediction");
	vh_assert(w._wind_estimator_reset == (a0 == 3 ? was : false), "reset is reported for one cycle");
}
// gating, rate limit and sanity checks, bit precise; any history of rejections
HARNESS(wind_gate)
{
	WindEstimator &w = any();
	const uint64_t now = vh_u64("now");
	uint64_t since = vh_u64("since");
	vh_assume(now <= 1000000000000ull && now >= 1 && since <= now);
	const uint64_t was = since;
	const float innov = vh_range("innov", -1e4f, 1e4f), var = vh_range("var", -1e4f, 1e4f);
	const uint8_t gate = a0;
	bool reinit = vh_bool("preset");
	const bool rej = w.check_if_meas_is_rejected(now, innov, var, gate, since, reinit);
	vh_cover("called");
	const bool over = innov * innov > (float)(gate * gate) * var;
	vh_assert(rej == over, "rejected outside the gate");
	vh_assert(since == (over ? (was == 0 ? now : was) : 0), "time of the first rejection in a row");
	vh_assert(reinit == (over && was != 0 && now - was > 5000000), "reinitialise after five seconds of rejection");
}
HARNESS(wind_rate)
{
	WindEstimator &w = any();
	const uint64_t now = 50000000;
	w._initialised = true;
	w._time_last_airspeed_fuse = a0 == 0 ? now - 99999 : 0; w._time_last_beta_fuse = a0 == 1 ? now - 99999 : 0;
	float x[3], P[3][3];
	for (int i = 0; i < 3; i++) { x[i] = w._state(i); for (int j = 0; j < 3; j++) { P[i][j] = w._P(i, j); } }
	const Vector3f v = velocity();
	const uint64_t t0 = w._time_last_airspeed_fuse, t1 = w._time_last_beta_fuse;
	const Vector2f var(vh_range("pn", 0.02f, 10.f), vh_range("pe", 0.02f, 10.f));
	Quatf q(1.f, 0.f, 0.f, 0.f);
	if (a0 == 0) { w.fuse_airspeed(now, vh_range("tas", 0.f, 60.f), v, var); } else { w.fuse_beta(now, v, q); }
	vh_cover("called");
	for (int i = 0; i < 3; i++) { vh_assert(vh_same(w._state(i), x[i]), "faster than ten hertz: ignored"); for (int j = 0; j < 3; j++) { vh_assert(vh_same(w._P(i, j), P[i][j]), "faster than ten hertz: ignored"); } }
	vh_assert(w._time_last_airspeed_fuse == t0 && w._time_last_beta_fuse == t1, "faster than ten hertz: ignored");
}
HARNESS(wind_sane)
{
	WindEstimator &w = any();
	float d[3], x[3];
	bool neg = false, bad = false;
	w._initialised = true;
	for (int i = 0; i < 3; i++) {
		d[i] = w._P(i, i); x[i] = w._state(i); vh_assume(d[i] == d[i]);
		for (int j = 0; j < i; j++) { vh_assume(w._P(i, j) >= -1e6f && w._P(i, j) <= 1e6f); }
		neg |= d[i] < 0.f; bad |= !(x[i] >= -3.4028235e38f && x[i] <= 3.4028235e38f);
	}
	const float enf = w._enforced_airspeed_scale;
	vh_assume(enf == enf);
	w.run_sanity_checks();
	vh_cover("called");
	vh_assert(w._initialised == (!neg && !bad), "negative variance or a state that is not finite ends the estimate");
	if (neg || bad) { return; }
	for (int i = 0; i < 3; i++) {
		const float lim = i < 2 ? 25.f : 0.1f;
		vh_assert(w._P(i, i) == (d[i] > lim ? lim : d[i]), "variance limited");
		for (int j = 0; j < 3; j++) { vh_assert(vh_same(w._P(i, j), w._P(j, i)), "symmetric"); }
	}
	vh_assert(w._state(0) == x[0] && w._state(1) == x[1], "wind kept");
	vh_assert(enf < 0 ? (x[2] > 0 ? w._state(2) == x[2] : w._state(2) == 0.f) : w._state(2) == enf, "scale not negative, or as enforced");
}

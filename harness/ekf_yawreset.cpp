// yaw reset; the replacement of the yaw in a rotation matrix (checked on its own) is replaced by a fixed rotation
#include "ekf_h.hpp"
#include <EKF/utils.hpp>
static Dcmf g_R, g_in;
static float g_yaw;
static int g_calls;
static Dcmf stub(float yaw, const Dcmf &R) { g_calls++; g_yaw = yaw; g_in = R; return g_R; }
Dcmf updateYawInRotMat(float yaw, const Dcmf &R) { return stub(yaw, R); }
Dcmf updateEuler321YawInRotMat(float yaw, const Dcmf &R) { return stub(yaw, R); }
Dcmf updateEuler312YawInRotMat(float yaw, const Dcmf &R) { return stub(yaw, R); }
bool shouldUse321RotationSequence(const Dcmf &R) { return true; }
static void in(float v, float lo, float hi) { vh_assume(v >= lo); vh_assume(v <= hi); }
static void qmul(const double *q, const double *p, double *r)
{
	r[0] = q[0] * p[0] - q[1] * p[1] - q[2] * p[2] - q[3] * p[3];
	r[1] = q[1] * p[0] + q[0] * p[1] - q[3] * p[2] + q[2] * p[3];
	r[2] = q[2] * p[0] + q[3] * p[1] + q[0] * p[2] - q[1] * p[3];
	r[3] = q[3] * p[0] - q[2] * p[1] + q[1] * p[2] + q[0] * p[3];
}
// a0: 0 no variance, 1 small variance, 2 large variance; a1: 1 output history is moved as well
HARNESS(yaw_reset)
{
	Ekf &f = ekf_any();
	sym_cov(f);
	static const char *bn[4][2] = {{"b00", "b01"}, {"b10", "b11"}, {"b20", "b21"}, {"b30", "b31"}};
	f._output_buffer.allocate(2);
	double o[3][4], q[4], qc[4], e[4], p[4], r[4];
	for (int k = 0; k < 2; k++) { for (int i = 0; i < 4; i++) { f._output_buffer[k].quat_nominal(i) = vh_range(bn[i][k], -1.f, 1.f); o[k][i] = f._output_buffer[k].quat_nominal(i); } }
	for (int i = 0; i < 4; i++) { in(f._output_new.quat_nominal(i), -1.f, 1.f); o[2][i] = f._output_new.quat_nominal(i); in(f._state.quat_nominal(i), -1.f, 1.f); q[i] = f._state.quat_nominal(i); qc[i] = i ? -q[i] : q[i]; }
	const float p0 = vh_frac("p0@6/9", 6, 9), p1 = vh_frac("p1@2/9", 2, 9), p2 = vh_frac("p2@5/9", 5, 9), p3 = vh_frac("p3@4/9", 4, 9);
	p[0] = p0; p[1] = p1; p[2] = p2; p[3] = p3;
	g_R = Dcmf(Quatf(p0, p1, p2, p3));
	g_calls = 0;
	const double s2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
	vh_assume(s2 >= 0.9);
	for (int i = 0; i < 4; i++) { qc[i] /= s2; }
	qmul(p, qc, e);
	const double n2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3];
	vh_assume(n2 >= 0.5);
	vh_assume(sqrt(n2) >= 0.7);
	for (int i = 0; i < 4; i++) { e[i] /= sqrt(n2); }
	const float yaw = vh_range("yaw", -3.f, 3.f), var = a0 == 0 ? vh_range("var", -1.f, 0.f) : a0 == 1 ? vh_range("var", 1e-6f, 0.0099f) : vh_range("var", 0.0101f, 10.f);
	const double add = a0 == 0 ? 0.0 : a0 == 1 ? (double)var : (double)1e-2f;
	// the yaw error is a rotation about the earth's vertical
	const double j[4] = {-p[3] / 2, -p[2] / 2, p[1] / 2, p[0] / 2};
	Snap b;
	snap(f, b);
	const unsigned c = f._state_reset_status.quat_counter;
	f.resetQuatStateYaw(yaw, var, a1);
	vh_cover("reset");
	vh_assert(g_calls == 1 && g_yaw == yaw, "the yaw is replaced by the given one");
	const Dcmf Rb(Quatf(b.x[0], b.x[1], b.x[2], b.x[3]));
	for (int i = 0; i < 3; i++) { for (int k = 0; k < 3; k++) { vh_assert_eqd(g_in(i, k), Rb(i, k), 1e-4, "starting from the attitude before the reset"); vh_assert_eqd(f._R_to_earth(i, k), g_R(i, k), 1e-4, "rotation matrix follows"); } }
	for (int i = 0; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), i < 4 ? p[i] : (double)b.x[i], 1e-4, "attitude takes the new yaw, all other states are kept"); }
	for (int i = 0; i < NS; i++) {
		for (int k = 0; k < NS; k++) {
			const double w = i < 4 && k < 4 ? (double)b.P[i][k] + add * j[i] * j[k] : i < 4 || k < 4 ? 0.0 : (double)b.P[i][k];
			vh_assert_eqd(f.P(i, k), w, 1e-4, "attitude is uncorrelated from the rest and gains yaw uncertainty only");
		}
	}
	for (int i = 0; i < 4; i++) { vh_assert_eqd(f._state_reset_status.quat_change(i), e[i], 1e-4, "reported change is the rotation from the old to the new attitude"); }
	vh_assert((uint8_t)f._state_reset_status.quat_counter == (uint8_t)(c + 1), "reset is counted once");
	for (int k = 0; k < 3; k++) {
		const Quatf &n = k < 2 ? f._output_buffer[k].quat_nominal : f._output_new.quat_nominal;
		qmul(e, o[k], r);
		for (int i = 0; i < 4; i++) { vh_assert_eqd(n(i), a1 ? r[i] : o[k][i], 1e-4, "output history turns with the state when asked to"); }
	}
}
// what external vision measures is turned by the difference of the two attitudes
HARNESS(vision_rot)
{
	Ekf &f = ekf_any();
	double q[4], v[4], vc[4], e[4];
	f._ev_sample_delayed.quat(0) = vh_frac("p0@6/9", 6, 9); f._ev_sample_delayed.quat(1) = vh_frac("p1@2/9", 2, 9); f._ev_sample_delayed.quat(2) = vh_frac("p2@5/9", 5, 9); f._ev_sample_delayed.quat(3) = vh_frac("p3@4/9", 4, 9);
	for (int i = 0; i < 4; i++) { in(f._state.quat_nominal(i), -1.f, 1.f); q[i] = f._state.quat_nominal(i); v[i] = f._ev_sample_delayed.quat(i); vc[i] = i ? -v[i] : v[i]; }
	qmul(q, vc, e);
	const double n2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3];
	vh_assume(n2 >= 0.5);
	vh_assume(sqrt(n2) >= 0.7);
	const double a = e[0] / sqrt(n2), b = e[1] / sqrt(n2), c = e[2] / sqrt(n2), d = e[3] / sqrt(n2);
	f.calcExtVisRotMat();
	vh_cover("computed");
	const double R[3][3] = {{a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (a * c + b * d)}, {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)}, {2 * (b * d - a * c), 2 * (a * b + c * d), a * a - b * b - c * c + d * d}};
	for (int i = 0; i < 3; i++) { for (int k = 0; k < 3; k++) { vh_assert_eqd(f._R_ev_to_ekf(i, k), R[i][k], 1e-4, "rotation from vision to filter frame"); } }
}

// EKF/utils: rotation helpers
#include "vh.h"
#include <EKF/utils.hpp>
#include <math.h>
using namespace matrix;

static inline Quatf quat_in()
{
	Quatf q;
	for (int i = 0; i < 4; i++) { q(i) = vh_range("q", -1.f, 1.f); }
	return q;
}
static inline Vector3f rot(const Quatf &q, const Vector3f &v)
{
	// q v q*: body to earth
	const float w = q(0), x = q(1), y = q(2), z = q(3);
	const float tw = -x * v(0) - y * v(1) - z * v(2);
	const float tx = w * v(0) + y * v(2) - z * v(1);
	const float ty = w * v(1) + z * v(0) - x * v(2);
	const float tz = w * v(2) + x * v(1) - y * v(0);
	return Vector3f(-tw * x + tx * w - ty * z + tz * y, -tw * y + ty * w - tz * x + tx * z, -tw * z + tz * w - tx * y + ty * x);
}
HARNESS(inv_rotmat)
{
	const Quatf q = quat_in();
	const Dcmf R = quatToInverseRotMat(q);
	vh_cover("quaternion");
	Quatf qi(q(0), -q(1), -q(2), -q(3));

	for (int j = 0; j < 3; j++) {
		Vector3f e; e(j) = 1.f;
		const Vector3f r = rot(qi, e);
		for (int i = 0; i < 3; i++) { vh_assert_eq(R(i, j), r(i), 2e-6, "matrix of the inverse rotation"); }
	}
}
// 312 sequence: Rz(yaw) Rx(roll) Ry(pitch)
HARNESS(rot312)
{
	const float yaw = vh_range("yaw", -3.14159f, 3.14159f), roll = vh_range("roll", -1.57f, 1.57f), pitch = vh_range("pitch", -3.14159f, 3.14159f);
	const Dcmf R = taitBryan312ToRotMat(Vector3f(yaw, roll, pitch));
	const float sy = sinf(yaw), cy = cosf(yaw), sr = sinf(roll), cr = cosf(roll), sp = sinf(pitch), cp = cosf(pitch);
	const float Z[3][3] = {{cy, -sy, 0}, {sy, cy, 0}, {0, 0, 1}}, X[3][3] = {{1, 0, 0}, {0, cr, -sr}, {0, sr, cr}}, Y[3][3] = {{cp, 0, sp}, {0, 1, 0}, {-sp, 0, cp}};
	vh_cover("angles");
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) {
		float s = 0.f;
		for (int k = 0; k < 3; k++) { for (int l = 0; l < 3; l++) { s += Z[i][k] * X[k][l] * Y[l][j]; } }
		vh_assert_eq(R(i, j), s, 2e-6, "rotation is Rz(yaw) Rx(roll) Ry(pitch)");
	} }
}
// yaw readback. a0 = 0: 321, 1: 312. tan(yaw) consistency: sin(yaw) * cosine term == cos(yaw) * sine term, and same half plane
HARNESS(yaw_read)
{
	Dcmf R;
	Quatf q;
	float s, c, y1;
	if (a1 == 0) {
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { R(i, j) = vh_range("R", -1.f, 1.f); } }
		y1 = a0 ? getEuler312Yaw(R) : getEuler321Yaw(R);
		s = a0 ? -R(0, 1) : R(1, 0);
		c = a0 ? R(1, 1) : R(0, 0);
	} else {
		q = quat_in();
		y1 = a0 ? getEuler312Yaw(q) : getEuler321Yaw(q);
		Vector3f e; e(a0 ? 1 : 0) = 1.f;
		const Vector3f r = rot(q, e);	// forward axis (321), right axis (312) in the earth frame
		s = a0 ? -r(0) : r(1);
		c = a0 ? r(1) : r(0);
	}
	vh_assume(s * s + c * c > 1e-2f);
	vh_cover("yaw");
	const float h = sqrtf(s * s + c * c);
	vh_assert_eq(sinf(y1) * h, s, 1e-5, "yaw is the heading of the body axis (east)");
	vh_assert_eq(cosf(y1) * h, c, 1e-5, "yaw is the heading of the body axis (north)");
	vh_assert(y1 >= -3.1415930f && y1 <= 3.1415930f, "yaw within +-pi");
}
// replacing the yaw keeps the tilt. a0 = 0: 321, 1: 312, 2: automatic; R = Rz Ry Rx (321) or Rz Rx Ry (312) of symbolic angles
static inline Dcmf tilt_rot(bool seq312, float yaw, float roll, float pitch)
{
	const float sy = sinf(yaw), cy = cosf(yaw), sr = sinf(roll), cr = cosf(roll), sp = sinf(pitch), cp = cosf(pitch);
	Dcmf R;
	if (!seq312) {
		R(0, 0) = cp * cy; R(0, 1) = -cr * sy + sr * sp * cy; R(0, 2) = sr * sy + cr * sp * cy;
		R(1, 0) = cp * sy; R(1, 1) = cr * cy + sr * sp * sy; R(1, 2) = -sr * cy + cr * sp * sy;
		R(2, 0) = -sp; R(2, 1) = sr * cp; R(2, 2) = cr * cp;
	} else {
		R(0, 0) = cy * cp - sy * sr * sp; R(0, 1) = -cr * sy; R(0, 2) = cy * sp + sy * sr * cp;
		R(1, 0) = sy * cp + cy * sr * sp; R(1, 1) = cr * cy; R(1, 2) = sy * sp - cy * sr * cp;
		R(2, 0) = -cr * sp; R(2, 1) = sr; R(2, 2) = cr * cp;
	}
	return R;
}
HARNESS(yaw_replace)
{
	// a0 = 0: 321, 1: 312 (explicit functions); 2, 3: the automatic choice for an attitude in that branch
	const bool s312 = a0 & 1;
	const float roll = vh_range("roll", -1.4f, 1.4f), pitch = vh_range("pitch", -1.4f, 1.4f), psi = vh_range("psi", -3.14f, 3.14f), yaw = vh_range("yaw", -3.14f, 3.14f);
	vh_assume(cosf(roll) > 0.1f && cosf(pitch) > 0.1f);
	const Dcmf R = tilt_rot(s312, psi, roll, pitch);
	if (a0 >= 2) { vh_assume(s312 ? !(fabsf(R(2, 0)) < fabsf(R(2, 1))) : fabsf(R(2, 0)) < fabsf(R(2, 1))); }
	const Dcmf N = a0 == 0 ? updateEuler321YawInRotMat(yaw, R) : a0 == 1 ? updateEuler312YawInRotMat(yaw, R) : updateYawInRotMat(yaw, R);
	vh_cover("attitude");
	const Dcmf W = tilt_rot(s312, yaw, roll, pitch);
	vh_assert_eq(N(a1 / 3, a1 % 3), W(a1 / 3, a1 % 3), 2e-5, "same tilt with the new yaw");
}
HARNESS(sequence_choice)
{
	Dcmf R;
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { R(i, j) = vh_range("R", -1.f, 1.f); } }
	vh_cover("attitude");
	// 321 exactly when the nose is closer to the horizon than the wing; 312 then never meets |roll| = 90 deg and vice versa
	const float fwd = fabsf(R(2, 0)), right = fabsf(R(2, 1));
	vh_assert(shouldUse321RotationSequence(R) == (fwd < right), "sequence avoids the larger tilt axis");
}

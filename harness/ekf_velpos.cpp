// velocity and position fusion
#include "ekf_h.hpp"

static double Pd[NS][NS], xd[NS];
// one direct observation of state s with the given gain denominator, sequentially applied to Pd and xd
static void direct_update(int s, double S, double innov)
{
	double K[NS], row[NS], n = 0;
	for (int i = 0; i < NS; i++) {
		row[i] = Pd[i][s];
		K[i] = row[i] / S;
		const double kp = K[i] * row[i], e = Pd[i][i] - kp;
		vh_assume(kp <= Pd[i][i]);
		vh_assume(1.001 * kp <= Pd[i][i]);
		vh_assume(e >= VAR_MIN[i]); vh_assume(e <= VAR_MAX[i]); vh_assume(e <= 0.999 * (double)VAR_MAX[i]);
	}
	for (int i = 0; i < NS; i++) { for (int j = 0; j < NS; j++) { Pd[i][j] -= K[i] * row[j]; } }
	for (int i = 0; i < NS; i++) { xd[i] -= K[i] * innov; }
	for (int i = 0; i < 4; i++) { n += xd[i] * xd[i]; }
	vh_assume(n >= 0.25);
	n = sqrt(n);
	for (int i = 0; i < 4; i++) { xd[i] = xd[i] / n; }
}

// a0: rows compared; a1 & 3: measurement (0 horizontal velocity, 1 vertical velocity, 2 horizontal position, 3 height); a1 & 4: innovation limited after bad vertical acceleration / gate inhibited
HARNESS(velpos_update)
{
	const int kind = a1 & 3;
	const bool force = a1 & 4, horiz = kind == 0 || kind == 2;
	Ekf &f = ekf_any();
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
	Snap b;
	snap(f, b);
	const int s0 = 4 + (kind / 2) * 3 + (horiz ? 0 : 2);
	Vector3f innov, var, ivar;
	Vector2f gate, ratio;
	for (int i = 0; i < 3; i++) { innov(i) = vh_range(i == 0 ? "innov0" : i == 1 ? "innov1" : "innov2", -1e3f, 1e3f); var(i) = vh_range(i == 0 ? "var0" : i == 1 ? "var1" : "var2", 1e-4f, 1e4f); }
	gate(0) = vh_range("gate0", 1.f, 100.f); gate(1) = vh_range("gate1", 1.f, 100.f);
	double S[2], r[2], used[2];
	const int nax = horiz ? 2 : 1;
	const double gt = horiz ? gate(0) : gate(1);
	for (int k = 0; k < nax; k++) {
		const int ax = horiz ? k : 2;
		S[k] = (double)b.P[s0 + k][s0 + k] + (double)var(ax);
		vh_assume(b.P[s0 + k][s0 + k] >= 0.f);
		used[k] = innov(ax);
		r[k] = used[k] * used[k] / (gt * gt * S[k]);
	}
	bool bad = vh_bool("bad_accel");
	f._bad_vert_accel_detected = bad;
	bool inhibit = vh_bool("inhibit_gate");
	const bool rej = a1 & 8;
	if (rej) {
		f._bad_vert_accel_detected = false; inhibit = false;
		for (int k = 0; k < nax; k++) {
			if (nax == 2 && k != (a0 & 1)) { continue; }
			vh_assume(r[k] >= 1.0); vh_assume(r[k] >= 1.001);
			if (nax == 2) { const int o = 1 - k; vh_assume(r[o] >= 0); vh_assume(r[o] <= 0.999); vh_assume(r[k] - r[o] >= 1e-4); }
		}
	} else if (!force) {
		for (int k = 0; k < nax; k++) { vh_assume(r[k] <= 1.0); vh_assume(r[k] <= 0.999); }
		inhibit = kind == 2 && a0 == 0 ? inhibit : false;
		if (kind == 2) { for (int k = 0; k < nax; k++) { vh_assume(r[k] <= 0.999 * 100.0 * 100.0 / gt / gt); } inhibit = false; }
	} else if (!horiz) {
		f._bad_vert_accel_detected = true;
		vh_assume(r[0] >= 1.001); vh_assume(r[0] > 1.0);
		const double lim = gt * sqrt(S[0]);
		if (a0 & 16) { vh_assume(innov(2) >= 0.f); vh_assume((double)innov(2) >= lim); vh_assume((double)innov(2) > lim); used[0] = lim; } else { vh_assume(innov(2) <= 0.f); vh_assume((double)innov(2) < -lim); used[0] = -lim; }
	}
	for (int i = 0; i < NS; i++) { xd[i] = b.x[i]; for (int j = 0; j < NS; j++) { Pd[i][j] = b.P[i][j]; } }
	for (int k = 0; k < nax && !rej; k++) { direct_update(s0 + k, S[k], used[k]); }
	Flags old;
	reject_flags(f, old);
	bool ok;
	if (kind == 0) { ok = f.fuseHorizontalVelocity(innov, gate, var, ivar, ratio); }
	else if (kind == 1) { ok = f.fuseVerticalVelocity(innov, gate, var, ivar, ratio); }
	else if (kind == 2) { ok = f.fuseHorizontalPosition(innov, gate, var, ivar, ratio, inhibit); }
	else { ok = f.fuseVerticalPosition(innov, gate, var, ivar, ratio); }
	vh_cover("fused");
	if (rej) { vh_assert(!ok, "rejection reported"); check_rejected(f, b, old, 1 << (kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 2 : 3), 0); return; }
	vh_assert(ok, "accepted");
	if (a1 & 32) {
		Flags now;
		reject_flags(f, now);
		for (int i = 0; i < 13; i++) { if (i == kind) { vh_assert(!now.b[i], "an accepted measurement is not flagged"); } else { vh_assert(now.b[i] == old.b[i], "flags of other measurements untouched"); } }
		return;
	}
	for (int k = 0; k < nax; k++) { vh_assert_eqd(ivar(horiz ? k : 2), S[k], 1e-4, "innovation variance is state variance plus observation variance"); }
	if (nax == 1) { vh_assert_eqd(ratio(1), r[0], 1e-4, "test ratio is squared innovation over gate squared times variance"); }
	for (int i = 0; i < NS; i++) { vh_assert_eqd(*state_ptr(f._state, i), xd[i], 1e-4, "state moves by the Kalman gain times the innovation"); }
	for (int i = 0; i < NS; i++) { for (int j = i; j < NS; j++) { vh_assert_eqd(f.P(i, j), Pd[i][j], 1e-4, "covariance is reduced by K H P"); vh_assert_eqd(f.P(j, i), Pd[i][j], 1e-4, "covariance is reduced by K H P"); } }
}
// a0: observation (0..2 velocity, 3..5 position): a correction that would make the variance of state a1 negative
HARNESS(velpos_unhealthy)
{
	Ekf &f = ekf_any();
	sym_cov(f);
	Snap b;
	snap(f, b);
	const float innov = vh_range("innov", -1e3f, 1e3f), S = vh_range("S", 1e-3f, 1e4f);
	Gain g;
	for (int i = 0; i < NS; i++) { g.PH[i] = b.P[i][4 + a0]; g.K[i] = g.PH[i] / (double)S; }
	assume_unhealthy(b, g, a1);
	Faults fold;
	fault_flags(f, fold);
	f.fuseVelPosHeight(innov, S, a0);
	vh_cover("refused");
	check_unhealthy(f, b, fold, 9 + a0, a1);
}

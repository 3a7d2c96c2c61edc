// reports to the user: solution status, consistency test ratios, accuracies and control limits
#include "ekf_h.hpp"

HARNESS(soln_status)
{
	Ekf &f = ekf_any();
	for (int i = 0; i < 3; i++) { vh_assume(f._mag_test_ratio(i) == f._mag_test_ratio(i)); }
	vh_assume(f._yaw_test_ratio == f._yaw_test_ratio);
	uint16_t st = vh_u32("preset");
	f.get_ekf_soln_status(&st);
	vh_cover("called");
	const auto c = f._control_status.flags;
	const auto e = f._fault_status.flags;
	const bool fault = e.bad_mag_x || e.bad_mag_y || e.bad_mag_z || e.bad_hdg || e.bad_mag_decl || e.bad_airspeed || e.bad_sideslip || e.bad_optflow_X || e.bad_optflow_Y
		|| e.bad_vel_N || e.bad_vel_E || e.bad_vel_D || e.bad_pos_N || e.bad_pos_E || e.bad_pos_D || e.bad_acc_bias || e.bad_acc_vertical || e.bad_acc_clipping;
	// a fault word that is not made of flags cannot be
	if (!fault) { vh_assume(f._fault_status.value == 0); }
	const bool hor = c.gps || c.opt_flow || c.ev_pos || c.ev_vel || (c.fuse_aspd && c.fuse_beta);
	const bool hgt = c.baro_hgt || c.gps_hgt || c.rng_hgt || c.ev_hgt;
	const bool rel = c.gps || c.ev_pos || c.opt_flow, abs_ = c.gps || c.ev_pos;
	const bool bad_gps = f._gps_vel_test_ratio(0) > 1.f || f._gps_vel_test_ratio(1) > 1.f || f._gps_pos_test_ratio(0) > 1.f;
	const bool good_mag = f._mag_test_ratio(0) < 1.f && f._mag_test_ratio(1) < 1.f && f._mag_test_ratio(2) < 1.f && f._yaw_test_ratio < 1.f;
	const bool want[16] = {c.tilt_align && c.yaw_align && !fault, hor && !fault, hgt && !fault, rel && !fault, abs_ && !fault, hgt && !fault, f._hagl_valid,
		!(hor && !fault), rel && !fault, abs_ && !fault, bad_gps && good_mag, (bool)e.bad_acc_vertical, false, false, false, false};
	for (int i = 0; i < 16; i++) { vh_assert((st >> i & 1) == want[i], "solution status bit"); }
}
HARNESS(test_status)
{
	Ekf &f = ekf_any();
	auto ok = [](float v) { vh_assume(v >= 0.f && v <= 1e6f); };
	ok(f._yaw_test_ratio); ok(f._tas_test_ratio); ok(f._hagl_test_ratio); ok(f._beta_test_ratio); ok(f._baro_hgt_test_ratio(1)); ok(f._rng_hgt_test_ratio(1));
	for (int i = 0; i < 3; i++) { ok(f._mag_test_ratio(i)); }
	for (int i = 0; i < 2; i++) { ok(f._gps_vel_test_ratio(i)); ok(f._ev_vel_test_ratio(i)); ok(f._gps_pos_test_ratio(i)); ok(f._ev_pos_test_ratio(i)); }
	const auto c = f._control_status.flags;
	uint16_t st = 0;
	const float PRE = 12345.f;
	float mag = PRE, vel = PRE, pos = PRE, hgt = PRE, tas = PRE, hagl = PRE, beta = PRE;
	f.get_innovation_test_status(st, mag, vel, pos, hgt, tas, hagl, beta);
	vh_cover("called");
	Flags now;
	reject_flags(f, now);
	vh_assert(st == f._innov_check_fail_status.value, "rejection bit mask");
	for (int i = 0; i < 13; i++) { vh_assert((st >> i & 1) == now.b[i], "rejection bit"); }
	float m = f._yaw_test_ratio;
	for (int i = 0; i < 3; i++) { if (f._mag_test_ratio(i) > m) { m = f._mag_test_ratio(i); } }
	vh_assert(vh_same(mag, sqrtf(m)), "largest magnetometer ratio");
	float g = f._gps_vel_test_ratio(0) > f._gps_vel_test_ratio(1) ? f._gps_vel_test_ratio(0) : f._gps_vel_test_ratio(1);
	float v = f._ev_vel_test_ratio(0) > f._ev_vel_test_ratio(1) ? f._ev_vel_test_ratio(0) : f._ev_vel_test_ratio(1);
	vh_assert((vh_same(vel, sqrtf(g)) || vh_same(vel, sqrtf(v))) && vel >= sqrtf(g) && vel >= sqrtf(v), "largest velocity ratio");
	g = f._gps_pos_test_ratio(0); v = f._ev_pos_test_ratio(0);
	vh_assert((vh_same(pos, sqrtf(g)) || vh_same(pos, sqrtf(v))) && pos >= sqrtf(g) && pos >= sqrtf(v), "largest position ratio");
	vh_assert(vh_same(tas, sqrtf(f._tas_test_ratio)), "airspeed ratio");
	vh_assert(vh_same(hagl, sqrtf(f._hagl_test_ratio)), "terrain ratio");
	vh_assert(vh_same(beta, sqrtf(f._beta_test_ratio)), "sideslip ratio");
	if (c.baro_hgt) { vh_assert(vh_same(hgt, sqrtf(f._baro_hgt_test_ratio(1))), "height ratio of the source in use"); }
	else if (c.gps_hgt) { vh_assert(vh_same(hgt, sqrtf(f._gps_pos_test_ratio(1))), "height ratio of the source in use"); }
	else if (c.rng_hgt) { vh_assert(vh_same(hgt, sqrtf(f._rng_hgt_test_ratio(1))), "height ratio of the source in use"); }
	else if (c.ev_hgt) { vh_assert(vh_same(hgt, sqrtf(f._ev_pos_test_ratio(1))), "height ratio of the source in use"); }
	else { vh_assert(hgt != hgt, "height ratio without a source is reported as not available"); }
}
// flags keep their places: the fault word is cleared by clearing all faults and zero only without faults
HARNESS(fault_word)
{
	Ekf &f = ekf_any();
	uint32_t v = 0;
	v = f.fault_status().value;
	vh_cover("called");
	const auto e = f._fault_status.flags;
	const bool bit[18] = {e.bad_mag_x, e.bad_mag_y, e.bad_mag_z, e.bad_hdg, e.bad_mag_decl, e.bad_airspeed, e.bad_sideslip, e.bad_optflow_X, e.bad_optflow_Y,
		e.bad_vel_N, e.bad_vel_E, e.bad_vel_D, e.bad_pos_N, e.bad_pos_E, e.bad_pos_D, e.bad_acc_bias, e.bad_acc_vertical, e.bad_acc_clipping};
	for (int i = 0; i < 18; i++) { vh_assert((v >> i & 1) == bit[i], "fault bit"); }
}
static double mx(double a, double b) { return a > b ? a : b; }
// a0: 0 global position, 1 local position, 2 velocity; a1: bit 0 dead reckoning (too long), 1 gps, 2 vision position, 3 optical flow, 4 vision velocity
HARNESS(accuracy)
{
	Ekf &f = ekf_any();
	const bool dr = a1 & 1, gps = a1 & 2, evp = a1 & 4, flow = a1 & 8, evv = a1 & 16;
	f._is_dead_reckoning = a0 == 0 ? dr : false;
	f._deadreckon_time_exceeded = a0 == 0 ? false : dr;
	auto &c = f._control_status.flags;
	c.gps = gps; c.ev_pos = evp; c.opt_flow = flow; c.ev_vel = evv;
	const int k = a0 == 2 ? 4 : 7;
	for (int i = k; i < k + 3; i++) { vh_assume(f.P(i, i) >= 1e-6f); vh_assume(f.P(i, i) <= 1e6f); }
	float h = -1.f, v = -1.f;
	double hv = (double)f.P(k, k) + f.P(k + 1, k + 1), vv = f.P(k + 2, k + 2);
	auto hyp = [&](const Vector3f &a) { return sqrt((double)a(0) * a(0) + (double)a(1) * a(1)); };
	double alt = 0;
	if (a0 == 0) {
		f.get_ekf_gpos_accuracy(&h, &v);
		hv += (double)f._gps_origin_eph * f._gps_origin_eph; vv += (double)f._gps_origin_epv * f._gps_origin_epv;
		if (dr) { if (gps) { alt = hyp(f._gps_pos_innov); } else if (evp) { alt = hyp(f._ev_pos_innov); } }
	} else if (a0 == 1) {
		f.get_ekf_lpos_accuracy(&h, &v);
		if (dr && gps) { alt = hyp(f._gps_pos_innov); }
	} else {
		f.get_ekf_vel_accuracy(&h, &v);
		if (dr) {
			if (flow) { alt = mx((double)f._terrain_vpos - f._state.pos(2), mx(f._params.rng_gnd_clearance, 0.1f)) * sqrt((double)f._flow_innov(0) * f._flow_innov(0) + (double)f._flow_innov(1) * f._flow_innov(1)); }
			if (gps) { alt = mx(alt, hyp(f._gps_pos_innov)); } else if (evp) { alt = mx(alt, hyp(f._ev_pos_innov)); }
			if (evv) { alt = mx(alt, hyp(f._ev_vel_innov)); }
		}
	}
	vh_cover("called");
	vh_assert_eqd(v, sqrt(vv), 1e-4, "vertical accuracy");
	vh_assert_eqd(h, mx(sqrt(hv), alt), 1e-4, "horizontal accuracy");
}
HARNESS(ctrl_limits)
{
	Ekf &f = ekf_any();
	auto &c = f._control_status.flags;
	auto any = [&](float &v, const char *n, float lo, float hi) { v = vh_range(n, lo, hi); };
	any(f._range_sensor._rng_valid_min_val, "rmin", 0.f, 100.f); any(f._range_sensor._rng_valid_max_val, "rmax", 0.f, 100.f);
	any(f._flow_max_rate, "frate", 0.f, 100.f); any(f._flow_min_distance, "fmin", 0.f, 100.f); any(f._flow_max_distance, "fmax", 0.f, 100.f);
	any(f._terrain_vpos, "terr", -1000.f, 1000.f); any(f._state.pos(2), "down", -1000.f, 1000.f);
	float vxy = 1.f, vz = 1.f, lo = 1.f, hi = 1.f;
	f.get_ekf_ctrl_limits(&vxy, &vz, &lo, &hi);
	vh_cover("called");
	const bool flow = c.opt_flow && !c.gps && !c.ev_pos && !c.ev_vel && !(c.fuse_aspd && c.fuse_beta);
	const bool rng = c.rng_hgt && !f._params.range_aid;
	const double hagl = (double)f._terrain_vpos - f._state.pos(2), rmin = f._range_sensor._rng_valid_min_val, rmax = 0.75 * f._range_sensor._rng_valid_max_val;
	vh_assert(vz != vz, "vertical speed is never limited");
	if (flow) {
		const double w = 0.5 * f._flow_max_rate * hagl;
		vh_assert_eqd(vxy, w > 0 ? w : 0.0, 1e-4, "speed limit is half the flow range");
		vh_assert_eqd(lo, rmin > f._flow_min_distance ? rmin : (double)f._flow_min_distance, 1e-4, "lowest height");
		vh_assert_eqd(hi, rmax < f._flow_max_distance ? rmax : (double)f._flow_max_distance, 1e-4, "greatest height");
	} else {
		vh_assert(vxy != vxy, "no speed limit without flow as the only aid");
		if (rng) { vh_assert_eqd(lo, rmin, 1e-4, "lowest height"); vh_assert_eqd(hi, rmax, 1e-4, "greatest height"); }
		else { vh_assert(lo != lo, "no lowest height"); vh_assert(hi != hi, "no greatest height"); }
	}
}

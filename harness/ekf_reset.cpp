// resets of velocity, position, height and yaw; updateYawInRotMat (checked on its own) is replaced by a fixed rotation
#include "ekf_h.hpp"
#include <geo/geo.h>
static void in(float v, float lo, float hi) { vh_assume(v >= lo); vh_assume(v <= hi); }
static double g_lat, g_lon;
static float g_px, g_py;
static double g_arg[8];
static int g_proj, g_reproj, g_init;
int map_projection_project(const map_projection_reference_s *ref, double lat, double lon, float *x, float *y) { g_proj++; g_arg[0] = ref->lat_rad; g_arg[1] = lat; g_arg[2] = lon; *x = g_px; *y = g_py; return 0; }
int map_projection_init_timestamped(map_projection_reference_s *ref, double lat, double lon, uint64_t t) { g_init++; ref->lat_rad = lat; ref->lon_rad = lon; ref->timestamp = t; ref->init_done = true; return 0; }
int map_projection_reproject(const map_projection_reference_s *ref, float x, float y, double *lat, double *lon) { g_reproj++; g_arg[3] = ref->lat_rad; g_arg[4] = x; g_arg[5] = y; *lat = g_lat; *lon = g_lon; return 0; }
bool map_projection_initialized(const map_projection_reference_s *ref) { return ref->init_done; }
uint64_t map_projection_timestamp(const map_projection_reference_s *ref) { return ref->timestamp; }
int map_projection_init(map_projection_reference_s *ref, double lat, double lon) { return map_projection_init_timestamped(ref, lat, lon, 0); }
static constexpr int LEN = 3;
struct Hist { double v[LEN + 1][3], p[LEN + 1][3], vv[LEN + 1], vi[LEN + 1]; unsigned c[4]; };
static Ekf &setup(Hist &h)
{
	Ekf &f = ekf_any();
	f._output_buffer.allocate(LEN); f._output_vert_buffer.allocate(LEN);
	static const char *nm[6][3] = {{"bv0", "bv1", "bv2"}, {"bw0", "bw1", "bw2"}, {"bx0", "bx1", "bx2"}, {"bp0", "bp1", "bp2"}, {"bq0", "bq1", "bq2"}, {"br0", "br1", "br2"}}, *nv[2][3] = {{"vv0", "vv1", "vv2"}, {"vi0", "vi1", "vi2"}};
	for (int k = 0; k < LEN; k++) {
		for (int i = 0; i < 3; i++) { f._output_buffer[k].vel(i) = vh_range(nm[i][k], -100.f, 100.f); f._output_buffer[k].pos(i) = vh_range(nm[i + 3][k], -1e4f, 1e4f); }
		f._output_vert_buffer[k].vert_vel = vh_range(nv[0][k], -100.f, 100.f); f._output_vert_buffer[k].vert_vel_integ = vh_range(nv[1][k], -1e4f, 1e4f);
	}
	in(f._output_vert_new.vert_vel, -100.f, 100.f); in(f._output_vert_new.vert_vel_integ, -1e4f, 1e4f);
	for (int i = 0; i < 3; i++) { in(f._output_new.vel(i), -100.f, 100.f); in(f._output_new.pos(i), -1e4f, 1e4f); in(f._state.vel(i), -100.f, 100.f); in(f._state.pos(i), -1e4f, 1e4f); }
	for (int i = 0; i < 2; i++) { in(f._last_known_posNE(i), -1e4f, 1e4f); in(f._gps_sample_delayed.pos(i), -1e4f, 1e4f); }
	for (int k = 0; k <= LEN; k++) {
		const outputSample &o = k < LEN ? f._output_buffer[k] : f._output_new;
		const outputVert &v = k < LEN ? f._output_vert_buffer[k] : f._output_vert_new;
		for (int i = 0; i < 3; i++) { h.v[k][i] = o.vel(i); h.p[k][i] = o.pos(i); }
		h.vv[k] = v.vert_vel; h.vi[k] = v.vert_vel_integ;
	}
	const auto &s = f._state_reset_status;
	h.c[0] = s.velNE_counter; h.c[1] = s.velD_counter; h.c[2] = s.posNE_counter; h.c[3] = s.posD_counter;
	return f;
}
// every state and history entry moved by exactly dv and dp; w: which of the four resets happened
static void check_moved(Ekf &f, const Snap &b, const Hist &h, const double *dv, const double *dp, const bool *w)
{
	for (int i = 0; i < NS; i++) {
		const double d = i >= 4 && i < 7 ? dv[i - 4] : i >= 7 && i < 10 ? dp[i - 7] : 0.0;
		vh_assert_eqd(*state_ptr(f._state, i), (double)b.x[i] + d, 1e-4, "state takes the new value, all others are kept");
	}
	for (int k = 0; k <= LEN; k++) {
		const outputSample &o = k < LEN ? f._output_buffer[k] : f._output_new;
		const outputVert &v = k < LEN ? f._output_vert_buffer[k] : f._output_vert_new;
		for (int i = 0; i < 3; i++) {
			vh_assert_eqd(o.vel(i), h.v[k][i] + dv[i], 1e-4, "output velocity history moves with the state");
			vh_assert_eqd(o.pos(i), h.p[k][i] + dp[i], 1e-4, "output position history moves with the state");
		}
		vh_assert_eqd(v.vert_vel, h.vv[k] + dv[2], 1e-4, "vertical velocity history moves with the state");
		vh_assert_eqd(v.vert_vel_integ, k == LEN && w[3] ? (double)f._state.pos(2) : h.vi[k] + dp[2], 1e-4, "vertical position history moves with the state");
	}
	const auto &s = f._state_reset_status;
	const unsigned n[4] = {s.velNE_counter, s.velD_counter, s.posNE_counter, s.posD_counter};
	for (int i = 0; i < 4; i++) { vh_assert((uint8_t)n[i] == (uint8_t)(h.c[i] + (w[i] ? 1 : 0)), "reset is counted once"); }
	if (w[0]) { for (int i = 0; i < 2; i++) { vh_assert_eqd(s.velNE_change(i), dv[i], 1e-4, "reported velocity change"); } }
	if (w[1]) { vh_assert_eqd(s.velD_change, dv[2], 1e-4, "reported vertical velocity change"); }
	if (w[2]) { for (int i = 0; i < 2; i++) { vh_assert_eqd(s.posNE_change(i), dp[i], 1e-4, "reported position change"); } }
	if (w[3]) { vh_assert_eqd(s.posD_change, dp[2], 1e-4, "reported height change"); }
}
static void check_cov(Ekf &f, const Snap &b, const bool *hit, const double *var)
{
	for (int i = 0; i < NS; i++) {
		for (int j = 0; j < NS; j++) {
			const double e = i == j && hit[i] ? var[i] : hit[i] || hit[j] ? 0.0 : (double)b.P[i][j];
			vh_assert_eqd(f.P(i, j), e, 1e-4, "reset states are uncorrelated with the variance of the source, the others keep theirs");
		}
	}
}
// a0: source: 0 GPS, 1 flow high, 2 flow on the ground, 3 vision body frame, 4 vision local frame, 5 vision local rotated, 6 none, 7 GPS not healthy long enough
HARNESS(vel_reset)
{
	Hist h;
	Ekf &f = setup(h);
	auto &c = f._control_status.flags;
	f._time_last_imu = 50000000; f._min_gps_health_time_us = 1000000;
	c.gps = a0 == 0 || a0 == 7; f._last_gps_fail_us = a0 == 7 ? 49500000 : 1000000;
	c.opt_flow = a0 == 1 || a0 == 2; c.ev_vel = a0 >= 3 && a0 <= 5;
	if (a0 == 0) { c.opt_flow = vh_bool("of"); c.ev_vel = vh_bool("ev"); }
	static const char *gn[3] = {"gv0", "gv1", "gv2"}, *en[3] = {"ev0", "ev1", "ev2"}, *wn[3] = {"w0", "w1", "w2"}, *pn[3] = {"ep0", "ep1", "ep2"};
	for (int i = 0; i < 3; i++) {
		f._gps_sample_delayed.vel(i) = vh_range(gn[i], -100.f, 100.f); f._ev_sample_delayed.vel(i) = vh_range(en[i], -100.f, 100.f);
		f._ang_rate_delayed_raw(i) = vh_range(wn[i], -3.f, 3.f); f._params.ev_pos_body(i) = vh_range(pn[i], -3.f, 3.f); f._params.imu_pos_body(i) = 0.f;
		for (int j = 0; j < 3; j++) { in(f._R_to_earth(i, j), -1.f, 1.f); in(f._R_ev_to_ekf(i, j), -1.f, 1.f); }
	}
	f._gps_sample_delayed.sacc = vh_range("sacc", 0.1f, 10.f);
	f._params.fusion_mode = a0 == 5 ? f._params.fusion_mode | MASK_ROTATE_EV : f._params.fusion_mode & ~MASK_ROTATE_EV;
	f._ev_sample_delayed.vel_frame = a0 == 3 ? velocity_frame_t::BODY_FRAME_FRD : velocity_frame_t::LOCAL_FRAME_FRD;
	f._params.flow_noise = vh_range("fn", 0.051f, 1.f); f._params.flow_noise_qual_min = vh_range("fm", 0.051f, 1.f); f._params.flow_qual_min = 0; f._flow_sample_delayed.quality = 255;
	const float ct = vh_range("ct", 0.7f, 1.f), hagl = vh_range("hagl", 0.f, 50.f), clear = 0.125f;
	f._range_sensor._cos_tilt_rng_to_earth = ct; f._terrain_vpos = hagl; f._state.pos(2) = 0.f; f._params.rng_gnd_clearance = clear;
	f._flow_sample_delayed.dt = vh_range("fdt", 0.01f, 0.1f);
	in(f._flow_compensated_XY_rad(0), -1.f, 1.f); in(f._flow_compensated_XY_rad(1), -1.f, 1.f);
	Snap b;
	snap(f, b);
	double nv[3] = {0, 0, b.x[6]}, var[NS] = {};
	bool hit[NS] = {};
	hit[4] = hit[5] = true;
	const double range = (double)hagl / (double)ct;
	if (a0 == 0) { for (int i = 0; i < 3; i++) { nv[i] = f._gps_sample_delayed.vel(i); var[i + 4] = (double)f._gps_sample_delayed.sacc * (double)f._gps_sample_delayed.sacc; } hit[6] = true; }
	else if (a0 == 1) {
		vh_assume(hagl >= clear); vh_assume(hagl >= 0.2f); vh_assume(range - (double)clear >= 0.301); vh_assume(range - (double)clear > (double)0.3f);
		const double u = -range * (double)f._flow_compensated_XY_rad(1) / (double)f._flow_sample_delayed.dt, v = range * (double)f._flow_compensated_XY_rad(0) / (double)f._flow_sample_delayed.dt;
		for (int i = 0; i < 2; i++) { nv[i] = (double)f._R_to_earth(i, 0) * u + (double)f._R_to_earth(i, 1) * v; var[i + 4] = range * range * (double)f._params.flow_noise * (double)f._params.flow_noise; }

	} else if (a0 == 2) {
		vh_assume(hagl >= clear); vh_assume(hagl >= 0.13f); vh_assume(range - (double)clear <= 0.299); vh_assume(range - (double)clear <= (double)0.3f);
		for (int i = 0; i < 2; i++) { var[i + 4] = range * range * (double)f._params.flow_noise * (double)f._params.flow_noise; }

	} else if (a0 <= 5) {
		double w[3], d[3], o[3], m[3];
		for (int i = 0; i < 3; i++) { w[i] = f._ang_rate_delayed_raw(i); d[i] = f._params.ev_pos_body(i); m[i] = f._ev_sample_delayed.vel(i); }
		for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; o[i] = w[j] * d[k] - w[k] * d[j]; }
		for (int i = 0; i < 3; i++) {
			nv[i] = a0 == 4 ? m[i] : 0.0; var[i + 4] = a0 == 4 ? (double)f._ev_sample_delayed.velCov(i, i) : 0.0;
			for (int j = 0; j < 3; j++) {
				const Dcmf &R = a0 == 3 ? f._R_to_earth : f._R_ev_to_ekf;
				nv[i] -= (double)f._R_to_earth(i, j) * o[j];
				if (a0 != 4) { nv[i] += (double)R(i, j) * m[j]; for (int k = 0; k < 3; k++) { var[i + 4] += (double)R(i, j) * (double)f._ev_sample_delayed.velCov(j, k) * (double)R(i, k); } }
			}
		}
		hit[6] = true;

	} else { var[4] = var[5] = 25.0; }
	f.resetVelocity();
	vh_cover("reset");
	double dv[3], dp[3] = {};
	for (int i = 0; i < 3; i++) { dv[i] = nv[i] - (double)b.x[i + 4]; }
	const bool w[4] = {true, hit[6], false, false};
	check_moved(f, b, h, dv, dp, w);
	check_cov(f, b, hit, var);
	const auto &e = f._information_events.flags;
	vh_assert(a0 != 0 || e.reset_vel_to_gps, "source is reported"); vh_assert(!(a0 == 1 || a0 == 2) || e.reset_vel_to_flow, "source is reported");
	vh_assert(!(a0 >= 3 && a0 <= 5) || e.reset_vel_to_vision, "source is reported"); vh_assert(a0 < 6 || e.reset_vel_to_zero, "source is reported");
}
// a0: source: 0 GPS, 1 vision, 2 vision rotated, 3 flow on the ground, 4 flow in the air, 5 none
HARNESS(pos_reset)
{
	Hist h;
	Ekf &f = setup(h);
	auto &c = f._control_status.flags;
	c.gps = a0 == 0; c.ev_pos = a0 == 1 || a0 == 2; c.opt_flow = a0 == 3 || a0 == 4; c.in_air = a0 == 4;
	if (a0 == 0) { c.opt_flow = vh_bool("of"); c.ev_pos = vh_bool("ev"); }
	if (a0 == 1 || a0 == 2) { c.opt_flow = vh_bool("of"); }
	f._params.fusion_mode = a0 == 2 ? f._params.fusion_mode | MASK_ROTATE_EV : f._params.fusion_mode & ~MASK_ROTATE_EV;
	f._gps_sample_delayed.hacc = vh_range("hacc", 0.1f, 10.f); f._params.pos_noaid_noise = vh_range("noaid", 0.1f, 50.f);
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { in(f._R_ev_to_ekf(i, j), -1.f, 1.f); } in(f._ev_sample_delayed.pos(i), -1e3f, 1e3f); }
	Snap b;
	snap(f, b);
	double np[2], var[NS] = {}, dv[3] = {}, dp[3] = {};
	bool hit[NS] = {};
	for (int i = 0; i < 2; i++) {
		double e = 0;
		for (int j = 0; j < 3; j++) { e += a0 == 2 ? (double)f._R_ev_to_ekf(i, j) * (double)f._ev_sample_delayed.pos(j) : i == j ? (double)f._ev_sample_delayed.pos(j) : 0.0; }
		np[i] = a0 == 0 ? (double)f._gps_sample_delayed.pos(i) : a0 <= 2 ? e : a0 == 3 ? 0.0 : (double)f._last_known_posNE(i);
		var[i + 7] = a0 == 0 ? (double)f._gps_sample_delayed.hacc * (double)f._gps_sample_delayed.hacc : a0 <= 2 ? (double)f._ev_sample_delayed.posVar(i) : a0 <= 4 ? 0.0 : (double)f._params.pos_noaid_noise * (double)f._params.pos_noaid_noise;
		hit[i + 7] = true;
		dp[i] = np[i] - (double)b.x[i + 7];
	}
	f.resetHorizontalPosition();
	vh_cover("reset");
	const bool w[4] = {false, false, true, false};
	check_moved(f, b, h, dv, dp, w);
	check_cov(f, b, hit, var);
	vh_assert(!f._hpos_prev_available, "odometry does not difference across the reset");
	const auto &e = f._information_events.flags;
	vh_assert(a0 == 0 ? e.reset_pos_to_gps : a0 <= 2 ? e.reset_pos_to_vision : e.reset_pos_to_last_known, "source is reported");
}
// a0: 0 range, 1 baro, 2 GPS, 3 vision newest, 4 vision delayed, 5 baro faulty, 6 GPS intermittent, 7 no reference; a1: 1 GPS velocity in use
HARNESS(hgt_reset)
{
	Hist h;
	Ekf &f = setup(h);
	auto &c = f._control_status.flags;
	c.rng_hgt = a0 == 0; c.baro_hgt = a0 == 1 || a0 == 5; c.gps_hgt = a0 == 2 || a0 == 6; c.ev_hgt = a0 == 3 || a0 == 4; c.gps = a1 & 1;
	f._baro_hgt_faulty = a0 == 5; f._gps_hgt_intermittent = a0 == 6;
	f._gps_buffer.allocate(2); f._baro_buffer.allocate(2); f._ext_vision_buffer.allocate(2);
	gpsSample g{}; baroSample s{}; extVisionSample v{};
	for (int k = 0; k < 2; k++) {
		g.time_us = s.time_us = v.time_us = 1000 * (k + 1);
		g.hgt = vh_range(k ? "gh" : "gh_old", -1000.f, 1000.f); g.vacc = vh_range(k ? "vacc" : "vacc_old", 0.1f, 10.f); g.sacc = vh_range(k ? "sacc" : "sacc_old", 0.1f, 10.f); g.vel(2) = vh_range(k ? "gvd" : "gvd_old", -50.f, 50.f);
		s.hgt = vh_range(k ? "bh" : "bh_old", -1000.f, 1000.f); v.pos(2) = vh_range(k ? "eh" : "eh_old", -1000.f, 1000.f);
		f._gps_buffer.push(g); f._baro_buffer.push(s); f._ext_vision_buffer.push(v);
	}
	f._ev_sample_delayed.time_us = a0 == 4 ? 2001 : 2000; in(f._ev_sample_delayed.pos(2), -1000.f, 1000.f);
	in(f._hgt_sensor_offset, -1000.f, 1000.f); in(f._baro_hgt_offset, -1000.f, 1000.f); in(f._gps_alt_ref, -1000.f, 1000.f);
	f._range_sensor._sample.rng = vh_range("rng", 0.f, 100.f); f._range_sensor._cos_tilt_rng_to_earth = vh_range("ct", 0.7f, 1.f);
	f._params.range_noise = vh_range("rn", 0.01f, 1.f); f._params.baro_noise = vh_range("bn", 0.01f, 10.f);
	Snap b;
	snap(f, b);
	const double off = f._baro_hgt_offset;
	double z = b.x[9], var[NS] = {}, dv[3] = {}, dp[3] = {}, noff = off;
	bool hit[NS] = {};
	if (a0 == 0) { z = (double)f._hgt_sensor_offset - (double)f._range_sensor._sample.rng * (double)f._range_sensor._cos_tilt_rng_to_earth; var[9] = (double)f._params.range_noise * (double)f._params.range_noise; hit[9] = true; noff = (double)s.hgt + z; }
	if (a0 == 1) { z = off - (double)s.hgt; var[9] = (double)f._params.baro_noise * (double)f._params.baro_noise; hit[9] = true; }
	if (a0 == 2) { z = (double)f._hgt_sensor_offset - (double)g.hgt + (double)f._gps_alt_ref; var[9] = (double)g.vacc * (double)g.vacc; hit[9] = true; noff = (double)s.hgt + z; }
	if (a0 == 3) { z = v.pos(2); }
	if (a0 == 4) { z = f._ev_sample_delayed.pos(2); }
	const bool gv = (a1 & 1) && a0 != 6;
	hit[6] = true; var[6] = gv ? 1.5 * 1.5 * (double)g.sacc * (double)g.sacc : 10.0;
	dv[2] = (gv ? (double)g.vel(2) : 0.0) - (double)b.x[6]; dp[2] = z - (double)b.x[9];
	f.resetHeight();
	vh_cover("reset");
	const bool w[4] = {false, true, false, a0 < 5};
	check_moved(f, b, h, dv, dp, w);
	check_cov(f, b, hit, var);
	vh_assert_eqd(f._baro_hgt_offset, noff, 1e-4, "barometer stays usable as a backup");
}
// a0: 0 nothing to keep, 1 aiding active with a projection; moving the origin keeps the global position
HARNESS(origin_move)
{
	Hist h;
	Ekf &f = setup(h);
	auto &c = f._control_status.flags;
	f._pos_ref.init_done = a1 & 1; c.gps = a0; c.opt_flow = false; c.ev_pos = false; c.ev_vel = false; c.fuse_aspd = false; c.fuse_beta = false;
	f._pos_ref.lat_rad = 0.5;
	in(f._gps_alt_ref, -1000.f, 1000.f);
	g_px = vh_range("px", -1e4f, 1e4f); g_py = vh_range("py", -1e4f, 1e4f); g_lat = 41.5; g_lon = 8.25;
	g_proj = g_reproj = g_init = 0;
	const float alt = vh_range("alt", -1000.f, 1000.f);
	Snap b;
	snap(f, b);
	const double global = (double)f._gps_alt_ref - (double)b.x[9];
	const bool r = f.setEkfGlobalOrigin(47.5, 9.5, alt), keep = a0 && (a1 & 1);
	vh_cover("moved");
	vh_assert(r, "accepted");
	double dv[3] = {}, dp[3] = {};
	if (keep) { dp[0] = (double)g_px - (double)b.x[7]; dp[1] = (double)g_py - (double)b.x[8]; dp[2] = (double)alt - global - (double)b.x[9]; }
	const bool w[4] = {false, false, keep, keep};
	check_moved(f, b, h, dv, dp, w);
	vh_assert(f._gps_alt_ref == alt && f._pos_ref.lat_rad == 47.5 && f._pos_ref.lon_rad == 9.5 && g_init == 1, "new origin");
	if (keep) {
		vh_assert_eqd((double)f._gps_alt_ref - (double)f._state.pos(2), global, 1e-4, "global altitude is kept");
		vh_assert(g_reproj == 1 && g_proj == 1 && g_arg[3] == 0.5 && g_arg[0] == 47.5 && g_arg[1] == 41.5 && g_arg[2] == 8.25, "position goes from the old origin to the new one");
		vh_assert_eqd(g_arg[4], b.x[7], 1e-4, "old north position"); vh_assert_eqd(g_arg[5], b.x[8], 1e-4, "old east position");
	}
	for (int i = 0; i < NS; i++) { for (int j = 0; j < NS; j++) { vh_assert_eqd(f.P(i, j), b.P[i][j], 1e-4, "covariance is kept"); } }
}

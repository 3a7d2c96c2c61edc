// GPS drift checks on the ground; the map projection (checked on its own) is replaced by one that reports any distance
#include "ekf_h.hpp"
#include <geo/geo.h>
static float g_dn, g_de;
static int g_calls;
int map_projection_project(const map_projection_reference_s *ref, double lat, double lon, float *x, float *y) { g_calls++; *x = g_dn; *y = g_de; return 0; }
int map_projection_init_timestamped(map_projection_reference_s *ref, double lat, double lon, uint64_t t) { ref->lat_rad = lat; ref->lon_rad = lon; ref->timestamp = t; ref->init_done = true; return 0; }
int map_projection_reproject(const map_projection_reference_s *ref, float x, float y, double *lat, double *lon) { *lat = 0; *lon = 0; return 0; }
bool map_projection_initialized(const map_projection_reference_s *ref) { return ref->init_done; }
uint64_t map_projection_timestamp(const map_projection_reference_s *ref) { return ref->timestamp; }
int map_projection_init(map_projection_reference_s *ref, double lat, double lon) { return 0; }
float get_distance_to_next_waypoint(double a, double b, double c, double d) { return 0; }
static gps_message any_gps()
{
	gps_message g{};
	g.time_usec = 5000000; g.lat = 473977421; g.lon = 85455930; g.alt = (int32_t)vh_u32("alt");
	vh_assume(g.alt >= -1000000); vh_assume(g.alt <= 10000000);
	g.fix_type = vh_u8("fix"); g.nsats = vh_u8("nsats"); g.pdop = vh_range("pdop", 0.f, 100.f); g.eph = vh_range("eph", 0.f, 1000.f); g.epv = vh_range("epv", 0.f, 1000.f); g.sacc = vh_range("sacc", 0.f, 100.f);
	g.vel_ned = Vector3f(vh_range("gvn", -50.f, 50.f), vh_range("gve", -50.f, 50.f), vh_range("gvd", -50.f, 50.f));
	return g;
}
static Ekf &setup()
{
	Ekf &f = ekf_any();
	f._time_last_imu = 60000000; f._gps_pos_prev.timestamp = 59800000; f._gps_pos_prev.init_done = true;
	auto in = [](float v, float lo, float hi) { vh_assume(v >= lo); vh_assume(v <= hi); };
	in(f._params.req_hacc, 0.5f, 50.f); in(f._params.req_vacc, 0.5f, 50.f); in(f._params.req_sacc, 0.1f, 10.f); in(f._params.req_pdop, 0.5f, 50.f); in(f._params.req_hdrift, 0.1f, 1.f); in(f._params.req_vdrift, 0.1f, 1.f);
	in(f._gps_velD_diff_filt, -10.f, 10.f); in(f._state.vel(2), -50.f, 50.f);
	for (int i = 0; i < 2; i++) { in(f._gps_velNE_filt(i), -10.f, 10.f); }
	for (int i = 0; i < 3; i++) { in(f._gps_pos_deriv_filt(i), -10.f, 10.f); }
	return f;
}
// drift on the ground; a0: 0 inside the clamps, 1 beyond them, 2 first fix; a1: 1 above the limits
HARNESS(gps_drift)
{
	Ekf &f = setup();
	gps_message g = any_gps();
	f._control_status.flags.in_air = false; f._control_status.flags.vehicle_at_rest = true;
	if (a0 == 2) { f._gps_pos_prev.timestamp = 0; }
	float dn = 0.f, de = 0.f;
	if (a0 != 2) { dn = vh_range("dn", -100.f, 100.f); de = vh_range("de", -100.f, 100.f); }
	g_dn = dn; g_de = de; g_calls = 0;
	f._gps_alt_prev = vh_range("altprev", -1000.f, 10000.f);
	const float dt = a0 == 2 ? 10.f : 0.2f, k = a0 == 2 ? 1.f : 0.2f / 10.f;
	const float dd = a0 == 2 ? 0.f : f._gps_alt_prev - 1e-3f * (float)g.alt;
	const float idt = 1.f / dt, m[3] = {dn * idt, de * idt, dd * idt};
	const double h = f._params.req_hdrift, v = f._params.req_vdrift;
	const float lim[3] = {f._params.req_hdrift * 10.f, f._params.req_hdrift * 10.f, f._params.req_vdrift * 10.f};
	double c[3];
	for (int i = 0; i < 3; i++) {
		if (a0 == 1) { if (i == 1) { vh_assume(m[i] < -lim[i]); vh_assume(m[i] < lim[i]); c[i] = -lim[i]; } else { vh_assume(m[i] > lim[i]); vh_assume(m[i] > -lim[i]); c[i] = lim[i]; } }
		else if (a0 == 0) { vh_assume(!(m[i] < -lim[i])); vh_assume(!(lim[i] < m[i])); c[i] = m[i]; }
		else { c[i] = 0; }
	}
	const double vn = g.vel_ned(0), ve = g.vel_ned(1), vd = (double)g.vel_ned(2) - f._state.vel(2);
	vh_assume(vn > -10 * h); vh_assume(vn < 10 * h); vh_assume(ve > -10 * h); vh_assume(ve < 10 * h); vh_assume(vd > -10 * v); vh_assume(vd < 10 * v);
	double x[3], y[2];
	for (int i = 0; i < 3; i++) { x[i] = c[i] * k + f._gps_pos_deriv_filt(i) * (1 - k); }
	y[0] = vn * k + f._gps_velNE_filt(0) * (1 - k); y[1] = ve * k + f._gps_velNE_filt(1) * (1 - k);
	const double z = vd * k + f._gps_velD_diff_filt * (1 - k);
	const double n0 = x[0] * x[0] + x[1] * x[1], n1 = y[0] * y[0] + y[1] * y[1];
	vh_assume(n0 >= 0.0); vh_assume(n1 >= 0.0);
	const double hd = sqrt(n0), hs = sqrt(n1), av = a1 == 1 ? x[2] : -x[2];
	// clear of the limits by more than rounding
	const bool hi = a1 == 1;
	if (hi) { vh_assume(hd > h * 1.001 + 0.001); vh_assume(hd > h); vh_assume(x[2] > v * 1.001 + 0.001); vh_assume(x[2] > v); if (a0 != 2) { vh_assume(x[2] > 0.0); } vh_assume(hs > h * 1.001 + 0.001); vh_assume(hs > h); vh_assume(z > v * 1.001 + 0.001); vh_assume(z > v); vh_assume(z > 0.0); }
	else { vh_assume(hd <= h * 0.999 - 0.001); vh_assume(hd <= h); vh_assume(x[2] >= -v * 0.999 + 0.001); vh_assume(-x[2] <= v); if (a0 != 2) { vh_assume(x[2] < 0.0); } vh_assume(hs <= h * 0.999 - 0.001); vh_assume(hs <= h); vh_assume(z >= -v * 0.999 + 0.001); vh_assume(-z <= v); vh_assume(z < 0.0); }
	f.gps_is_good(g);
	vh_assert(g_calls == (a0 == 2 ? 0 : 1), "distance from the previous fix");
	const auto n = f._gps_check_fail_status.flags;
	vh_assert_eqd(f._gps_drift_metrics[0], hd, 1e-3, "horizontal drift"); vh_assert_eqd(f._gps_drift_metrics[1], av, 1e-3, "vertical drift"); vh_assert_eqd(f._gps_drift_metrics[2], hs, 1e-3, "horizontal speed");
	vh_assert(n.hdrift == (a1 == 1), "horizontal drift flag"); vh_assert(n.vdrift == (a1 == 1), "vertical drift flag"); vh_assert(n.hspeed == (a1 == 1), "horizontal speed flag"); vh_assert(n.vspeed == (a1 == 1), "vertical speed flag");
	vh_assert_eqd(f._gps_velD_diff_filt, z, 1e-3, "filtered vertical speed difference");
	vh_assert(f._gps_drift_updated, "drift available");
	vh_assert(f._gps_pos_prev.timestamp == 60000000 && vh_same(f._gps_pos_prev.lat_rad, g.lat * 1.0e-7) && vh_same(f._gps_pos_prev.lon_rad, g.lon * 1.0e-7), "fix is kept for the next comparison");
	vh_cover("drift checked");
}

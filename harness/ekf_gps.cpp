// GPS quality checks, health timer and setting of the origin
#include "ekf_h.hpp"
#include <geo/geo.h>
#include <geo_lookup/geo_mag_declination.h>
static gps_message any_gps()
{
	gps_message g{};
	g.time_usec = 5000000; g.lat = 473977421; g.lon = 85455930; g.alt = (int32_t)vh_u32("alt");
	vh_assume(g.alt >= -1000000); vh_assume(g.alt <= 10000000);
	g.fix_type = vh_u8("fix"); g.nsats = vh_u8("nsats"); g.pdop = vh_range("pdop", 0.f, 100.f); g.eph = vh_range("eph", 0.f, 1000.f); g.epv = vh_range("epv", 0.f, 1000.f); g.sacc = vh_range("sacc", 0.f, 100.f);
	g.vel_ned = Vector3f(vh_range("gvn", -50.f, 50.f), vh_range("gve", -50.f, 50.f), vh_range("gvd", -50.f, 50.f));
	return g;
}
static Ekf &setup()
{
	Ekf &f = ekf_any();
	f._time_last_imu = 60000000; f._gps_pos_prev.timestamp = 59800000; f._gps_pos_prev.init_done = true;
	auto in = [](float v, float lo, float hi) { vh_assume(v >= lo); vh_assume(v <= hi); };
	in(f._params.req_hacc, 0.5f, 50.f); in(f._params.req_vacc, 0.5f, 50.f); in(f._params.req_sacc, 0.1f, 10.f); in(f._params.req_pdop, 0.5f, 50.f); in(f._params.req_hdrift, 0.1f, 1.f); in(f._params.req_vdrift, 0.1f, 1.f);
	in(f._gps_velD_diff_filt, -10.f, 10.f); in(f._state.vel(2), -50.f, 50.f);
	for (int i = 0; i < 2; i++) { in(f._gps_velNE_filt(i), -10.f, 10.f); }
	for (int i = 0; i < 3; i++) { in(f._gps_pos_deriv_filt(i), -10.f, 10.f); }
	return f;
}
// a0: 0 in the air, 1 moving on the ground
HARNESS(gps_flags)
{
	Ekf &f = setup();
	const gps_message g = any_gps();
	f._control_status.flags.in_air = a0 == 0; f._control_status.flags.vehicle_at_rest = a0 == 0 ? vh_bool("rest") : false;
	const auto o = f._gps_check_fail_status.flags;
	const uint64_t fail0 = f._last_gps_fail_us, pass0 = f._last_gps_pass_us;
	vh_assume(fail0 <= 60000000);
	const bool r = f.gps_is_good(g);
	const auto n = f._gps_check_fail_status.flags;
	const parameters &p = f._params;
	vh_assert(n.fix == (g.fix_type < 3), "no 3D fix"); vh_assert(n.nsats == (g.nsats < p.req_nsats), "too few satellites"); vh_assert(n.pdop == (g.pdop > p.req_pdop), "dilution of precision");
	vh_assert(n.hacc == (g.eph > p.req_hacc), "horizontal accuracy"); vh_assert(n.vacc == (g.epv > p.req_vacc), "vertical accuracy"); vh_assert(n.sacc == (g.sacc > p.req_sacc), "speed accuracy");
	vh_assert(n.hdrift == (a0 == 0 ? false : (bool)o.hdrift), "horizontal drift: passed in the air, kept while moving");
	vh_assert(n.vdrift == (a0 == 0 ? false : (bool)o.vdrift), "vertical drift: passed in the air, kept while moving");
	vh_assert(n.hspeed == (a0 == 0 ? false : (bool)o.hspeed), "horizontal speed: passed in the air, kept while moving");
	for (int i = 0; i < 3; i++) { vh_assert(f._gps_pos_deriv_filt(i) == 0.f, "drift filters are reset"); }
	for (int i = 0; i < 2; i++) { vh_assert(f._gps_velNE_filt(i) == 0.f, "drift filters are reset"); }
	const bool b[10] = {(bool)n.nsats, (bool)n.pdop, (bool)n.hacc, (bool)n.vacc, (bool)n.sacc, (bool)n.hdrift, (bool)n.vdrift, (bool)n.hspeed, (bool)n.vspeed, false};
	bool fail = n.fix;
	for (int i = 0; i < 9; i++) { fail = fail || (b[i] && (p.gps_check_mask >> i & 1)); }
	const uint64_t since = fail || fail0 == 0 ? 60000000 : fail0;
	vh_assert(f._last_gps_fail_us == since, "time of the last failure of a selected check");
	vh_assert(f._last_gps_pass_us == (fail ? pass0 : 60000000), "time of the last pass");
	vh_assert(r == (since + f._min_gps_health_time_us < 60000000), "good after passing all selected checks without interruption");
	vh_assert(f._gps_pos_prev.timestamp == 60000000 && vh_same(f._gps_alt_prev, 1e-3f * (float)g.alt), "fix is kept for the next comparison");
	vh_cover("checked");
}
// a0: 0 origin not set, checks passed; 1 checks not passed; 2 origin set before; 3 filter not initialised. a1: bit 0 projection initialised before, bit 1 aiding active, bit 2 GPS height selected
HARNESS(gps_origin)
{
	Ekf &f = setup();
	const gps_message g = any_gps();
	f._filter_initialised = a0 != 3; f._NED_origin_initialised = a0 == 2;
	f._control_status.flags.in_air = true;
	f._last_gps_fail_us = a0 == 1 ? 60000000 : 1000000;
	f._min_gps_health_time_us = 10000000;
	f._params.gps_check_mask = 0;
	if (a0 == 0 || a0 == 3) { vh_assume(g.fix_type >= 3); }
	f._pos_ref.init_done = a1 & 1;
	f._control_status.flags.gps = false; f._control_status.flags.opt_flow = (a1 & 2) != 0; f._control_status.flags.ev_pos = false; f._control_status.flags.ev_vel = false; f._control_status.flags.fuse_aspd = false;
	f._params.vdist_sensor_type = a1 & 4 ? VDIST_SENSOR_GPS : VDIST_SENSOR_BARO;
	f._state.pos(0) = 3.f; f._state.pos(1) = -4.f;
	const map_projection_reference_s ref = f._pos_ref;
	const float alt0 = f._gps_alt_ref, decl0 = f._mag_declination_gps, eph0 = f._gps_origin_eph;
	const bool req0 = f._mag_yaw_reset_req, gsf0 = f._do_ekfgsf_yaw_reset;
	const auto c0 = f._control_status.flags;
	const bool r = f.collect_gps(g);
	const double lat = 473977421 * 1.0e-7, lon = 85455930 * 1.0e-7;
	const bool set = a0 == 0, rough = (a0 == 1 || a0 == 3) && g.fix_type >= 2 && g.eph < 1000;
	vh_assert(f._NED_origin_initialised == (set || a0 == 2), "origin is set from the first good fix and kept");
	vh_assert(r == ((set || a0 == 2) && g.fix_type >= 3), "GPS is used once the origin is set");
	if (set) {
		map_projection_reference_s want = ref;
		if (!(a1 & 1)) {
			map_projection_init_timestamped(&want, lat, lon, 60000000);
			if (a1 & 2) { double la, lo; map_projection_reproject(&want, -3.f, 4.f, &la, &lo); map_projection_init_timestamped(&want, la, lo, 60000000); }
		}
		vh_assert(vh_same(f._pos_ref.lat_rad, want.lat_rad) && vh_same(f._pos_ref.lon_rad, want.lon_rad) && vh_same(f._pos_ref.sin_lat, want.sin_lat) && vh_same(f._pos_ref.cos_lat, want.cos_lat), "origin is the fix, less the position flown since");
		vh_assert(vh_same(f._gps_alt_ref, 1e-3f * (float)g.alt + f._state.pos(2)), "altitude of the origin");
		vh_assert(f._gps_origin_eph == g.eph && f._gps_origin_epv == g.epv, "accuracy of the origin");
		vh_assert(f._last_gps_origin_time_us == 60000000, "time of the origin");
	} else {
		vh_assert(vh_same(f._pos_ref.lat_rad, ref.lat_rad) && vh_same(f._pos_ref.lon_rad, ref.lon_rad) && vh_same(f._gps_alt_ref, alt0) && vh_same(f._gps_origin_eph, eph0), "origin kept");
	}
	const bool looked = set || rough;
	vh_assert(vh_same(f._mag_declination_gps, looked ? get_mag_declination_radians(lat, lon) : decl0), "declination at the fix");
	if (looked) { vh_assert(f._mag_strength_gps == get_mag_strength_gauss(lat, lon) && f._mag_inclination_gps == get_mag_inclination_radians(lat, lon), "field at the fix"); }
	const bool none = f._params.mag_fusion_type == MAG_FUSE_TYPE_NONE;
	vh_assert(f._mag_yaw_reset_req == (req0 || (looked && !none && !vh_finite(decl0))), "yaw reset requested with the first declination");
	vh_assert(f._do_ekfgsf_yaw_reset == (gsf0 || (set && none)), "emergency yaw reset requested without a magnetometer");
	vh_assert(f._control_status.flags.gps_hgt == (set && (a1 & 4) ? true : (bool)c0.gps_hgt), "GPS height is started when it is the primary source");
	vh_cover("collected");
}

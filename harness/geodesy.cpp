// geo/geo.cpp: map projection, great-circle distances, bearings and vectors
#include "vh.h"
#include <math.h>
#include <geo/geo.h>
#include <ecl.h>
#include <mathlib/mathlib.h>
#include <matrix/math.hpp>

static constexpr double RE = 6371000.0;
static constexpr double D2R = 0.017453292519943295;

struct V3 { double n, e, u; };
// unit vector of a position relative to the local frame (north, east, up) at a reference
static inline V3 rel(double lat0, double lon0, double lat, double lon)
{
	const double s0 = sin(lat0), c0 = cos(lat0), s = sin(lat), c = cos(lat), sd = sin(lon) * cos(lon0) - cos(lon) * sin(lon0), cd = cos(lon) * cos(lon0) + sin(lon) * sin(lon0);
	return V3{c0 * s - s0 * c * cd, c * sd, s0 * s + c0 * c * cd};
}
static inline double rad(double d) { return math::radians(d); }

// projection: azimuthal equidistant about the reference; a0: 1 = reference longitude 0
HARNESS(proj_forward)
{
	const double lat0 = vh_ranged("lat0", -89.0, 89.0), lon0 = a0 ? 0.0 : vh_ranged("lon0", -180.0, 180.0), lat = vh_ranged("lat", -90.0, 90.0), lon = vh_ranged("lon", -180.0, 180.0);
	map_projection_reference_s ref{};
	vh_assert(map_projection_init_timestamped(&ref, lat0, lon0, 77) == 0 && map_projection_initialized(&ref) && map_projection_timestamp(&ref) == 77, "initialisation is recorded");
	const V3 p = rel(rad(lat0), rad(lon0), rad(lat), rad(lon));
	vh_assume(p.u < 0.999999 && p.u > -0.999);
	float x = 1, y = 1;
	const int r = map_projection_project(&ref, lat, lon, &x, &y);
	vh_cover("projected");
	vh_assert(r == 0, "an initialised projection succeeds");
	const double c = acos(p.u), sc = sqrt(1.0 - p.u * p.u);
	vh_assert_eqd((double)x * sc, RE * c * p.n, 2e-6, "north is the arc length times the direction");
	vh_assert_eqd((double)y * sc, RE * c * p.e, 2e-6, "east is the arc length times the direction");
}
HARNESS(proj_reference)
{
	const double lat0 = vh_ranged("lat0", -89.0, 89.0), lon0 = vh_ranged("lon0", -180.0, 180.0);
	map_projection_reference_s ref{};
	map_projection_init(&ref, lat0, lon0);
	double la = 9, lo = 9;
	vh_cover("reference");
	vh_assert(map_projection_reference(&ref, &la, &lo) == 0, "reference is available");
	vh_assert_eqd(la, rad(lat0), 1e-12, "reference latitude in radians");
	vh_assert_eqd(lo, rad(lon0), 1e-12, "reference longitude in radians");
	la = lo = 9;
	vh_assert(map_projection_reproject(&ref, 0.f, 0.f, &la, &lo) == 0, "the origin reprojects");
	vh_assert_eqd(la, lat0, 1e-12, "the origin is the reference latitude");
	vh_assert_eqd(lo, lon0, 1e-12, "the origin is the reference longitude");
}
// nothing is written and -1 is returned before initialisation
HARNESS(proj_uninit)
{
	map_projection_reference_s ref;
	vh_havoc(&ref, "struct.map_projection_reference_s", "ref");
	ref.init_done = false;
	float x = 3.f, y = 4.f; double la = 5., lo = 6.;
	vh_cover("uninitialised");
	vh_assert(!map_projection_initialized(&ref), "not initialised");
	vh_assert(map_projection_project(&ref, vh_f64("lat"), vh_f64("lon"), &x, &y) == -1, "projecting needs a reference");
	vh_assert(map_projection_reproject(&ref, vh_f32("x"), vh_f32("y"), &la, &lo) == -1, "reprojecting needs a reference");
	vh_assert(map_projection_reference(&ref, &la, &lo) == -1, "no reference to return");
	vh_assert(x == 3.f && y == 4.f && la == 5. && lo == 6., "outputs untouched");
}
// reprojection lands where the geodesic of that length and direction ends
HARNESS(proj_back)
{
	const double lat0 = vh_ranged("lat0", -89.0, 89.0), lon0 = vh_ranged("lon0", -180.0, 180.0), c = vh_ranged("c", 1e-6, 3.0), th = vh_ranged("th", -3.1, 3.1);
	map_projection_reference_s ref{};
	map_projection_init(&ref, lat0, lon0);
	const float x = (float)(RE * c * cos(th)), y = (float)(RE * c * sin(th));
	double la = 0, lo = 0;
	vh_assert(map_projection_reproject(&ref, x, y, &la, &lo) == 0, "reprojection succeeds");
	vh_cover("reprojected");
	const V3 p = rel(rad(lat0), rad(lon0), rad(la), rad(lo));
	vh_assert_eqd(p.n, sin(c) * cos(th), 2e-6, "north component of the reached position");
	vh_assert_eqd(p.e, sin(c) * sin(th), 2e-6, "east component of the reached position");
	vh_assert_eqd(p.u, cos(c), 2e-6, "arc length to the reached position");
}
// close to the reference, where the displacement is a few metres
HARNESS(proj_near)
{
	const double lat0 = vh_ranged("lat0", -89.0, 89.0), lon0 = vh_ranged("lon0", -170.0, 170.0);
	map_projection_reference_s ref{};
	map_projection_init(&ref, lat0, lon0);
	const float x = vh_range("x", 0.01f, 60.f), y = vh_range("y", 0.01f, 60.f);
	double la = 0, lo = 0;
	map_projection_reproject(&ref, x, y, &la, &lo);
	vh_cover("reprojected");
	const double u = (double)x / RE, v = (double)y / RE, c2 = u * u + v * v;
	vh_assume(c2 > 0.0);
	const double c = sqrt(c2);
	vh_assume(c > 0.0);
	const double s0 = sin(rad(lat0)), c0 = cos(rad(lat0));
	const double wa = math::degrees(asin(cos(c) * s0 + (u * sin(c) * c0) / c)), wo = math::degrees(rad(lon0) + atan2(v * sin(c), c * c0 * cos(c) - u * s0 * sin(c)));
	vh_assert_eqd(1e7 * (la - lat0), 1e7 * (wa - lat0), 0.1, "metres away are resolved (north)");
	vh_assert_eqd(1e7 * (lo - lon0), 1e7 * (wo - lon0), 0.1, "metres away are resolved (east)");
}
// local -> global -> local
HARNESS(proj_round_xy)
{
	const double lat0 = vh_ranged("lat0", -89.0, 89.0), lon0 = vh_ranged("lon0", -180.0, 180.0), c = vh_ranged("c", 1e-4, 3.0), th = vh_ranged("th", -3.1, 3.1);
	map_projection_reference_s ref{};
	map_projection_init(&ref, lat0, lon0);
	const float x = (float)(RE * c * cos(th)), y = (float)(RE * c * sin(th));
	double la = 0, lo = 0; float x2 = 0, y2 = 0;
	map_projection_reproject(&ref, x, y, &la, &lo);
	map_projection_project(&ref, la, lo, &x2, &y2);
	vh_cover("round trip");
	vh_assert_eqd(x2, x, 1e-5, "north survives the round trip");
	vh_assert_eqd(y2, y, 1e-5, "east survives the round trip");
}
// global -> local -> global
HARNESS(proj_round_ll)
{
	const double lat0 = vh_ranged("lat0", -89.0, 89.0), lat = vh_ranged("lat", -89.0, 89.0), lon = vh_ranged("lon", -179.0, 179.0);
	map_projection_reference_s ref{};
	map_projection_init(&ref, lat0, 0.0);
	const V3 p = rel(rad(lat0), 0.0, rad(lat), rad(lon));
	vh_assume(p.u < 0.999999 && p.u > -0.999);
	float x = 0, y = 0; double la = 0, lo = 0;
	map_projection_project(&ref, lat, lon, &x, &y);
	map_projection_reproject(&ref, x, y, &la, &lo);
	vh_cover("round trip");
	vh_assert_eqd(la, lat, 5e-5, "latitude survives the round trip");
	vh_assert_eqd(lo, lon, 3e-4, "longitude survives the round trip");
}
HARNESS(proj_shift)
{
	const double lat0 = vh_ranged("lat0", -89.0, 89.0), lat = vh_ranged("lat", -90.0, 90.0), lon = vh_ranged("lon", -90.0, 90.0), sh = vh_ranged("shift", -90.0, 90.0);
	const V3 p = rel(rad(lat0), 0.0, rad(lat), rad(lon));
	vh_assume(p.u < 0.999999 && p.u > -0.999);
	map_projection_reference_s a{}, b{};
	map_projection_init(&a, lat0, 0.0);
	map_projection_init(&b, lat0, sh);
	float x = 0, y = 0, x2 = 0, y2 = 0;
	map_projection_project(&a, lat, lon, &x, &y);
	map_projection_project(&b, lat, lon + sh, &x2, &y2);
	vh_cover("shifted");
	vh_assert_eq(x2, x, 1e-5, "projection depends on relative longitude only (north)");
	vh_assert_eq(y2, y, 1e-5, "projection depends on relative longitude only (east)");
}
// great-circle distance: cos(d / R) is the dot product of the unit vectors
HARNESS(gc_distance)
{
	const double la = vh_ranged("lat1", -90.0, 90.0), lo = vh_ranged("lon1", -180.0, 180.0), lb = vh_ranged("lat2", -90.0, 90.0), lp = vh_ranged("lon2", -180.0, 180.0);
	const double ca = cos(rad(la)), cb = cos(rad(lb));
	const V3 p = rel(rad(la), rad(lo), rad(lb), rad(lp));
	(void)ca; (void)cb;
	vh_assume(p.u < 0.999999 && p.u > -0.999);
	if (a0 == 0) {
		const float d = get_distance_to_next_waypoint(la, lo, lb, lp);
		vh_cover("distance");
		vh_assert_eqd(cos((double)d / RE), p.u, 2e-6, "distance is the great-circle arc");
		vh_assert((double)d >= 0.0 && (double)d <= 3.1415927 * RE * 1.0000002, "distance is between zero and half the circumference");
		vh_assert_eq(get_distance_to_next_waypoint(lb, lp, la, lo), d, 1e-5, "distance is symmetric");

	} else {
		const float ha = vh_range("alt1", -500.f, 9000.f), hb = vh_range("alt2", -500.f, 9000.f);
		float dxy = -1.f, dz = -1.f;
		const float d = get_distance_to_point_global_wgs84(la, lo, ha, lb, lp, hb, &dxy, &dz);
		vh_cover("distance 3d");
		vh_assert_eqd(cos((double)dxy / RE), p.u, 2e-6, "horizontal part is the great-circle arc");
		vh_assert(dxy >= 0.f && dz >= 0.f, "parts are not negative");
		vh_assert_eq(dz * dz, (ha - hb) * (ha - hb), 1e-5, "vertical part is the altitude difference");
		vh_assert_eq(d * d, dxy * dxy + dz * dz, 1e-5, "parts combine by Pythagoras");
	}
}
HARNESS(gc_zero)
{
	const double la = vh_ranged("lat1", -90.0, 90.0), lo = vh_ranged("lon1", -180.0, 180.0);
	vh_cover("same place");
	vh_assert_eq(get_distance_to_next_waypoint(la, lo, la, lo), 0.f, 1e-6, "no distance to itself");
	float n = 1, e = 1;
	get_vector_to_next_waypoint(la, lo, la, lo, &n, &e);
	vh_assert_eq(n, 0.f, 1e-2, "no vector to itself (north)"); vh_assert_eq(e, 0.f, 1e-2, "no vector to itself (east)");
}
HARNESS(dist_local)
{
	const float a = vh_range("x1", -1e4f, 1e4f), b = vh_range("y1", -1e4f, 1e4f), c = vh_range("z1", -1e4f, 1e4f), d = vh_range("x2", -1e4f, 1e4f), e = vh_range("y2", -1e4f, 1e4f), f = vh_range("z2", -1e4f, 1e4f);
	float dxy = -1, dz = -1;
	const float r = mavlink_wpm_distance_to_point_local(a, b, c, d, e, f, &dxy, &dz);
	vh_cover("local distance");
	vh_assert(r >= 0.f && dxy >= 0.f && dz >= 0.f, "distances are not negative");
	vh_assert_eq(dxy * dxy, (a - d) * (a - d) + (b - e) * (b - e), 1e-5, "horizontal distance");
	vh_assert_eq(dz * dz, (c - f) * (c - f), 1e-5, "vertical distance");
	vh_assert_eq(r * r, (a - d) * (a - d) + (b - e) * (b - e) + (c - f) * (c - f), 1e-5, "total distance");
}
// bearing: a0 0: eastwards, 1: westwards
HARNESS(bearing)
{
	const double la = vh_ranged("lat1", -80.0, 80.0), lo = vh_ranged("lon1", -180.0, 180.0), lb = vh_ranged("lat2", -80.0, 80.0), dl = a0 < 2 ? vh_ranged("dlon", 0.01, 179.99) : vh_ranged("dlon", 180.01, 359.99);
	const double lp = a0 & 1 ? lo - dl : lo + dl;
	const float b = get_bearing_to_next_waypoint(la, lo, lb, lp);
	vh_cover("bearing");
	const double s0 = sin(rad(la)), c0 = cos(rad(la)), s = sin(rad(lb)), c = cos(rad(lb)), sd = (a0 & 1 ? -1. : 1.) * sin(rad(dl)), cd = cos(rad(dl));
	const double n = c0 * s - s0 * c * cd, e = c * sd;
	vh_assert(b >= -3.1415928f && b <= 3.1415928f, "bearing within half a turn");
	vh_assert_eqd(cos((double)b) * e - sin((double)b) * n, 0.0, 2e-6, "bearing is along the great circle");
	const double h = sqrt(n * n + e * e);
	vh_assert_eqd(cos((double)b) * h, n, 2e-6, "bearing north component");
	vh_assert_eqd(sin((double)b) * h, e, 2e-6, "bearing east component");
	float vn = 0, ve = 0;
	get_vector_to_next_waypoint(la, lo, lb, lp, &vn, &ve);
	vh_assert_eqd((double)vn, RE * n, 1e-5, "vector north component");
	vh_assert_eqd((double)ve, RE * e, 1e-5, "vector east component");
}
HARNESS(vector_fast)
{
	const double la = vh_ranged("lat1", -80.0, 80.0), lo = vh_ranged("lon1", -180.0, 180.0), lb = vh_ranged("lat2", -80.0, 80.0), lp = vh_ranged("lon2", -180.0, 180.0);
	float vn = 0, ve = 0;
	get_vector_to_next_waypoint_fast(la, lo, lb, lp, &vn, &ve);
	vh_cover("fast vector");
	vh_assert_eqd((double)vn, RE * (rad(lb) - rad(la)), 1e-5, "north is the meridian arc");
	vh_assert_eqd((double)ve, RE * (rad(lp) - rad(lo)) * cos(rad(la)), 1e-5, "east is the arc of the parallel");
	double l2 = 0, p2 = 0;
	add_vector_to_global_position(la, lo, vn, ve, &l2, &p2);
	vh_assert_eqd(l2, lb, 1e-6, "adding the vector returns to the latitude");
	vh_assert_eqd(p2, lp, 1e-6, "adding the vector returns to the longitude");
	const float x = vh_range("n", -1e5f, 1e5f), y = vh_range("e", -1e5f, 1e5f);
	add_vector_to_global_position(la, lo, x, y, &l2, &p2);
	vh_assert_eqd((rad(l2) - rad(la)) * RE, x, 1e-5, "displacement north");
	vh_assert_eqd((rad(p2) - rad(lo)) * RE * cos(rad(la)), y, 1e-5, "displacement east");
}
HARNESS(wp_heading)
{
	const double la = vh_ranged("lat", -80.0, 80.0), lo = vh_ranged("lon", -180.0, 180.0);
	const float b = vh_range("bearing", 0.f, 6.28f), d = vh_range("dist", -1.8e7f, 1.8e7f);
	double tl = 0, tp = 0;
	waypoint_from_heading_and_distance(la, lo, b, d, &tl, &tp);
	vh_cover("waypoint");
	const V3 p = rel(rad(la), rad(lo), rad(tl), rad(tp));
	const double r = (double)d / RE;
	vh_assert_eqd(p.n, sin(r) * cos((double)b), 1e-6, "target lies along the heading (north)");
	vh_assert_eqd(p.e, sin(r) * sin((double)b), 1e-6, "target lies along the heading (east)");
	vh_assert_eqd(p.u, cos(r), 1e-6, "target lies at the distance");
}
HARNESS(wp_line)
{
	const double la = vh_ranged("lat1", -80.0, 80.0), lo = vh_ranged("lon1", -180.0, 180.0), lb = vh_ranged("lat2", -80.0, 80.0), lp = vh_ranged("lon2", -180.0, 180.0);
	const float d = vh_range("dist", -1e6f, 1e6f);
	double a = 0, b = 0, c = 0, e = 0;
	create_waypoint_from_line_and_dist(la, lo, lb, lp, d, &a, &b);
	waypoint_from_heading_and_distance(la, lo, get_bearing_to_next_waypoint(la, lo, lb, lp), d, &c, &e);
	vh_cover("line");
	if (d > -1e-8f && d < 1e-8f) { vh_assert(a == la && b == lo, "zero distance is the start of the line"); }
	if (d < -1e-6f || d > 1e-6f) { vh_assert(vh_same(a, c) && vh_same(b, e), "the waypoint is along the bearing of the line"); }
}
// distance to a line, in terms of distance and bearing
HARNESS(line_dist)
{
	const double la = vh_ranged("lat", -80.0, 80.0), lo = vh_ranged("lon", -180.0, 180.0), ls = vh_ranged("lat1", -80.0, 80.0), ps = vh_ranged("lon1", -180.0, 180.0), le = vh_ranged("lat2", -80.0, 80.0), pe = vh_ranged("lon2", -180.0, 180.0);
	crosstrack_error_s x{};
	x.past_end = vh_bool("pe0"); x.distance = vh_f32("d0"); x.bearing = vh_f32("b0");
	const int r = get_distance_to_line(&x, la, lo, ls, ps, le, pe);
	const float d = get_distance_to_next_waypoint(la, lo, le, pe);
	const float track = get_bearing_to_next_waypoint(ls, ps, le, pe);
	const float diff = matrix::wrap_pi(track - get_bearing_to_next_waypoint(la, lo, le, pe));
	const double h = M_PI / 2.0, D = (double)diff;
	vh_cover("line");
	if (d < 0.1f) { vh_assert(r == -1 && x.distance == 0.f && !x.past_end, "no result within 0.1 m of the end"); }
	else {
		vh_assert(r == 0, "a result everywhere else");
		const bool past = D > h || D < -h;
		vh_assert(x.past_end == past, "past the end exactly when the end lies behind along the track");
		if (past) { vh_assert(x.distance == 0.f, "no distance past the end"); }
		else {
			vh_assert(vh_same(x.distance, d * sinf(diff)), "crosstrack distance, positive right of the track");
			const double left = (double)track + h, right = (double)track - h;
			if (sinf(diff) >= 0.f) { vh_assert(vh_same(x.bearing, (float)matrix::wrap_pi(right)), "bearing to the track is perpendicular to it"); }
			else vh_assert(vh_same(x.bearing, (float)matrix::wrap_pi(left)), "bearing to the track is perpendicular to it");
		}
	}
}
// distance to an arc, in terms of distance and bearing. a0 0: clockwise sweep, 1: counter-clockwise
HARNESS(arc_dist)
{
	const double la = vh_ranged("lat", -80.0, 80.0), lo = vh_ranged("lon", -180.0, 180.0), lc = vh_ranged("latc", -80.0, 80.0), pc = vh_ranged("lonc", -180.0, 180.0);
	const float r = vh_range("radius", -10.f, 1e5f), b0 = vh_range("start", -3.14f, 6.28f), mag = vh_range("sweep", 0.f, 6.28f), sw = a0 ? -mag : mag;
	crosstrack_error_s x{};
	x.past_end = vh_bool("pe0"); x.distance = vh_f32("d0"); x.bearing = vh_f32("b0");
	const int ret = get_distance_to_arc(&x, la, lo, lc, pc, r, b0, sw);
	vh_cover("arc");
	if (r < 0.1f) { vh_assert(ret == -1 && x.distance == 0.f && x.bearing == 0.f && !x.past_end, "no result without a radius"); return; }
	vh_assert(ret == 0, "a result for every proper arc");
	const float out = get_bearing_to_next_waypoint(lc, pc, la, lo), in = get_bearing_to_next_waypoint(la, lo, lc, pc), d = get_distance_to_next_waypoint(la, lo, lc, pc);
	const float from_start = matrix::wrap_2pi(sw >= 0.f ? out - b0 : b0 - out);
	if (from_start <= mag) {
		vh_assert(!x.past_end, "not past the end inside the sector");
		vh_assert(vh_same(x.distance, d <= r ? r - d : d - r), "inside the sector the distance is to the circle");
		vh_assert(vh_same(x.bearing, matrix::wrap_pi(d <= r ? in + M_PI_F : in)), "inside the sector the bearing is radial, towards the circle");

	} else {
		const double cl = cos(math::radians(lc)), R = (double)r, se = (double)b0, en = (double)matrix::wrap_pi(b0 + sw);
		const double ls = lc + R * cos(se) / 111111.0, ps = pc + R * sin(se) / (111111.0 * cl), le = lc + R * cos(en) / 111111.0, pe = pc + R * sin(en) / (111111.0 * cl);
		const float ds = get_distance_to_next_waypoint(la, lo, ls, ps), de = get_distance_to_next_waypoint(la, lo, le, pe);
		if (ds == ds && de == de) { vh_assert(x.past_end == !(ds < de), "past the end exactly when the end point is nearer than the start point"); }
		vh_assert(vh_same(x.distance, ds < de ? ds : de), "outside the sector the distance is to the nearer end point");
		vh_assert(vh_same(x.bearing, matrix::wrap_pi(ds < de ? get_bearing_to_next_waypoint(la, lo, ls, ps) : get_bearing_to_next_waypoint(la, lo, le, pe))), "outside the sector the bearing is to the nearer end point");
	}
}

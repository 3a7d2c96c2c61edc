// Earth magnetic model lookup (geo_lookup): all three published fields.
#include "vh.h"
#include <geo_lookup/geo_mag_declination.h>
#include "published_tables.hpp"
#include <math.h>

static inline float tab(int which, int i, int j)
{
	// reference node value, from the published table
	switch (which) {
	case 0: return pub_declination_table[i][j];
	case 1: return pub_inclination_table[i][j];
	default: return pub_strength_table[i][j];
	}
}
static inline float look(int which, float lat, float lon)
{
	switch (which) {
	case 0: return get_mag_declination_radians(lat, lon);
	case 1: return get_mag_inclination_radians(lat, lon);
	default: return get_mag_strength_gauss(lat, lon);
	}
}

// a0 = row*36+column, a1 = field: the value anywhere in a table cell is the bilinear interpolation of its corners
HARNESS(geo_cell)
{
	const int i = a0 / 36, j = a0 % 36;
	const float lat0 = -90.f + 10.f * i, lon0 = -180.f + 10.f * j;
	const float lat = vh_range("lat", lat0, lat0 + 10.f);
	const float lon = vh_range("lon", lon0, lon0 + 10.f);
	const float v = look(a1, lat, lon);
	const float u = (lat - lat0) / 10.f, w = (lon - lon0) / 10.f;
	const float ref = (1.f - u) * ((1.f - w) * tab(a1, i, j) + w * tab(a1, i, j + 1))
			  + u * ((1.f - w) * tab(a1, i + 1, j) + w * tab(a1, i + 1, j + 1));
	vh_cover("cell");
	vh_assert_eq(v, ref * 1e-4f, 2e-5, "interpolates the four surrounding nodes");
}

// a1 = field; a0 = 0 any finite latitude/longitude, memory safety (bit precise)
HARNESS(geo_safe)
{
	const float lat = vh_f32("lat"), lon = vh_f32("lon");
	vh_assume(vh_finite(lat) && vh_finite(lon));
	vh_cover("any finite position");
	const float v = look(a1, lat, lon);
	if (a0 == 1) { vh_assert(v > -40.f && v < 40.f, "finite result for every finite position"); }
}

// out-of-range latitude behaves as the nearest pole; longitude is periodic over one extra turn on either side
// a0 = kind * 1000 + cell
HARNESS(geo_wrap)
{
	const int kind = a0 / 1000, i = (a0 % 1000) / 36, j = a0 % 1000 % 36;
	const float lat0 = -90.f + 10.f * i, lon0 = -180.f + 10.f * j;

	if (kind < 2) {		// beyond a pole
		const float lat = vh_f32("lat");
		const float lon = vh_range("lon", lon0, lon0 + 10.f);
		vh_assume(vh_finite(lat) && (kind ? lat < -90.f : lat > 90.f));
		vh_cover("beyond a pole");
		vh_assert_eq(look(a1, lat, lon), look(a1, kind ? -90.f : 90.f, lon), 1e-5, "latitude beyond a pole is the pole");

	} else {
		const float turn = kind == 2 ? 360.f : -360.f;
		const float lat = vh_range("lat", lat0, lat0 + 10.f);
		const float lon = vh_range("lon", lon0 + turn, lon0 + turn + 10.f);
		vh_assume(kind == 2 ? lon > 180.f : lon < -180.f);
		vh_cover("one turn away");
		const float wrapped = lon - turn;
		vh_assert_eq(look(a1, lat, lon), look(a1, lat, wrapped), 2e-5, "longitude wraps by 360 degrees");
	}
}

// seam: both names of the antimeridian give the same value
HARNESS(geo_seam)
{
	const float lat = vh_range("lat", -90.f + 10.f * a0, -80.f + 10.f * a0);
	vh_cover("seam");
	vh_assert_eq(look(a1, lat, 180.f), look(a1, lat, -180.f), 2e-5, "+180 and -180 degrees longitude agree");
}

// no jump across a grid line: a0 = cell, crossing its east edge (the seam for the last column), +1000: its north edge
HARNESS(geo_line)
{
	const bool north = a0 >= 1000;
	const int i = a0 % 1000 / 36, j = a0 % 1000 % 36;
	const int k = (j + 1) % 36;
	const float lat0 = -90.f + 10.f * i, lon0 = -180.f + 10.f * j;
	const float e = vh_range("e", 0.f, 0.01f);
	float a, b, lim;

	if (!north) {
		const float lat = vh_range("lat", lat0, lat0 + 10.f);
		a = look(a1, lat, lon0 + 10.f - e);
		b = look(a1, lat, (j == 35 ? -180.f : lon0 + 10.f) + e);
		lim = fmaxf(fabsf(tab(a1, i, j + 1) - tab(a1, i, j)), fabsf(tab(a1, i + 1, j + 1) - tab(a1, i + 1, j)))
		      + fmaxf(fabsf(tab(a1, i, k + 1) - tab(a1, i, k)), fabsf(tab(a1, i + 1, k + 1) - tab(a1, i + 1, k)));
	} else {
		const float lon = vh_range("lon", lon0, lon0 + 10.f);
		a = look(a1, lat0 + 10.f - e, lon);
		b = look(a1, lat0 + 10.f + e, lon);
		lim = fmaxf(fabsf(tab(a1, i + 1, j) - tab(a1, i, j)), fabsf(tab(a1, i + 1, j + 1) - tab(a1, i, j + 1)))
		      + fmaxf(fabsf(tab(a1, i + 2, j) - tab(a1, i + 1, j)), fabsf(tab(a1, i + 2, j + 1) - tab(a1, i + 1, j + 1)));
	}

	vh_cover("line");
	lim = lim * 1.1e-7f + 5e-5f;
	vh_assert(a - b <= lim && b - a <= lim, "no jump across a grid line");
}

// never beyond the surrounding nodes
HARNESS(geo_hull)
{
	const int i = a0 / 36, j = a0 % 36;
	const float lat0 = -90.f + 10.f * i, lon0 = -180.f + 10.f * j;
	const float lat = vh_range("lat", lat0, lat0 + 10.f), lon = vh_range("lon", lon0, lon0 + 10.f);
	const float v = look(a1, lat, lon);
	const float p = tab(a1, i, j), q = tab(a1, i, j + 1), r = tab(a1, i + 1, j), s = tab(a1, i + 1, j + 1);
	vh_cover("cell");
	vh_assert(v >= 1e-4f * fminf(fminf(p, q), fminf(r, s)) - 2e-5f && v <= 1e-4f * fmaxf(fmaxf(p, q), fmaxf(r, s)) + 2e-5f, "between the smallest and largest surrounding node");
}

// unit conversions (a0 = cell)
HARNESS(geo_units)
{
	const int i = a0 / 36, j = a0 % 36;
	const float lat0 = -90.f + 10.f * i, lon0 = -180.f + 10.f * j;
	const float lat = vh_range("lat", lat0, lat0 + 10.f), lon = vh_range("lon", lon0, lon0 + 10.f);
	vh_cover("anywhere");

	if (a1 == 0) {
		vh_assert_eq(get_mag_declination_degrees(lat, lon), get_mag_declination_radians(lat, lon) * 57.295779513f, 1e-5, "declination degrees = radians * 180/pi");
	} else if (a1 == 1) {
		vh_assert_eq(get_mag_inclination_degrees(lat, lon), get_mag_inclination_radians(lat, lon) * 57.295779513f, 1e-5, "inclination degrees = radians * 180/pi");
	} else {
		vh_assert_eq(get_mag_strength_tesla(lat, lon), get_mag_strength_gauss(lat, lon) * 1e-4f, 1e-10, "gauss = 1e4 tesla");
	}
}

// physical range over a table cell (a0 = cell)
HARNESS(geo_range)
{
	const int i = a0 / 36, j = a0 % 36;
	const float lat0 = -90.f + 10.f * i, lon0 = -180.f + 10.f * j;
	const float lat = vh_range("lat", lat0, lat0 + 10.f), lon = vh_range("lon", lon0, lon0 + 10.f);
	vh_cover("cell");

	if (a1 == 0) {
		const float d = get_mag_declination_degrees(lat, lon);
		vh_assert(d >= -180.f && d <= 180.f, "declination within +-180 degrees");
	} else if (a1 == 1) {
		const float d = get_mag_inclination_degrees(lat, lon);
		vh_assert(d >= -90.f && d <= 90.f, "inclination within +-90 degrees");
	} else {
		const float s = get_mag_strength_tesla(lat, lon);
		vh_assert(s >= 20e-6f && s <= 70e-6f, "strength within 20..70 microtesla");
	}
}

// poles: a0 = 0 south, 1 north
HARNESS(geo_pole)
{
	const float lat = a0 ? 90.f : -90.f;
	const float lon1 = vh_range("lon1", -180.f, 180.f), lon2 = vh_range("lon2", -180.f, 180.f);
	vh_cover("pole");
	vh_assert_eq(look(a1, lat, lon1), look(a1, lat, lon2), 1.5e-4, "value at a pole does not depend on longitude");
}
HARNESS(geo_pole_decl)
{
	const float lat = a0 ? 90.f : -90.f;
	// a1 = column of the cell
	const float lon = vh_range("lon", -180.f + 10.f * a1, -170.f + 10.f * a1);
	const float base = get_mag_declination_degrees(lat, -180.f);
	const float d = get_mag_declination_degrees(lat, lon);
	vh_cover("pole");
	// at the south pole declination + longitude is constant, at the north pole declination - longitude (mod 360)
	const float x = a0 ? (d - lon) - (base + 180.f) : (d + lon) - (base - 180.f);
	vh_assert(fabsf(x) < 0.05f || fabsf(x - 360.f) < 0.05f || fabsf(x + 360.f) < 0.05f, "declination at a pole follows the meridian");
}

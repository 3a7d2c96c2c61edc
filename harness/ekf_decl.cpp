// magnetic declination fusion and the field limiter behind it
#include "ekf_h.hpp"

// a0: 0/1 observed field state of the CROSS family, 8 full covariance at one field (& 16 covariance compared); a1: 0 innovation used as it is, 1 / 2 limited to +-0.5
HARNESS(decl_update)
{
	const bool full = a0 & 8, cov = a0 & 16;
	static const int S2[2] = {16, 17};
	Ekf &f = ekf_any();
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
	f._params.mag_declination_source = 0;
	f._params.mag_declination_deg = vh_range("decl_deg", -150.f, 150.f);
	if (full) { f._state.mag_I(0) = vh_frac("n@3/8", 3, 8); f._state.mag_I(1) = vh_frac("e@1/2", 1, 2); } else { cross_cov(f, S2, 2, S2[a0 & 1]); vh_assume(f._state.mag_I(0) >= 0.01f); }
	f._control_status.flags.mag_aligned_in_flight = a1 == 3;
	const double n = f._state.mag_I(0), e = f._state.mag_I(1), ref = (double)math::radians(f._params.mag_declination_deg);
	const float sigma = vh_range("sigma", 0.01f, 1.f);
	const double R = (double)sigma * (double)sigma;
	Row H{};
	// derivative of atan(e / n)
	H.add(16, -(e / (n * n)) / (e * e / (n * n) + 1.0)); H.add(17, (1.0 / n) / (e * e / (n * n) + 1.0));
	Snap b;
	snap(f, b);
	// S = R exactly is treated as badly conditioned by the code: keep some variance in the observed states
	const double v = vh_range("v", 0.01f, 0.5f);
	if (!full) { f.P(16, 16) = (float)v; f.P(17, 17) = (float)v; snap(f, b); }
	assume_within(b);
	Gain g;
	gain(b, H, R, g);
	vh_assume(g.S - R >= 1e-6);
	double innov = atan2(e, n) - ref;
	if (a1 == 3) { innov = 0; }
	else if (a1 == 0) { vh_assume(innov >= -0.499); vh_assume(innov <= 0.499); }
	else if (a1 == 1) { vh_assume(innov >= 0.501); innov = 0.5; }
	else { vh_assume(innov <= -0.501); innov = -0.5; }
	bool zero[NS] = {};
	for (int i = 13; i < 16; i++) { zero[i] = true; }
	assume_no_limits(b, g, zero);
	// the limiter behind the update has nothing to do
	const double n1 = n - g.K[16] * innov, e1 = e - g.K[17] * innov;
	vh_assume(n1 * n1 + e1 * e1 >= 0.0001);
	vh_assume(sqrt(n1 * n1 + e1 * e1) >= 0.01);
	vh_assume(atan2(e1, n1) - ref <= 0.499); vh_assume(atan2(e1, n1) - ref >= -0.499);
	f.fuseDeclination(sigma);
	vh_cover("fused");
	vh_assert(!f._fault_status.flags.bad_mag_decl, "no fault reported");
	check_update(f, b, g, innov, cov ? 7 : full ? 0 : 8, zero);
}

// which declination is used
HARNESS(decl_source)
{
	Ekf &f = ekf_any();
	const bool aligned = f._control_status.flags.mag_aligned_in_flight, geo = f._params.mag_declination_source & 1;
	const bool known = f._NED_origin_initialised || vh_finite(f._mag_declination_gps);
	const float want = aligned ? atan2f(f._state.mag_I(1), f._state.mag_I(0)) : geo && known ? f._mag_declination_gps : math::radians(f._params.mag_declination_deg);
	vh_assert(vh_same(f.getMagDeclination(), want), "declination from the field estimate, the geographic lookup or the parameter");
	vh_cover("asked");
}
// the limiter: a0 0 inside, 1 field too weak, 2 declination too large, 3 too small; a1 = source of the reference
HARNESS(decl_limit)
{
	Ekf &f = ekf_any();
	const double n = f._state.mag_I(0), e = f._state.mag_I(1), d = f._state.mag_I(2);
	const bool geo = a1 != 0;
	f._params.mag_declination_source = geo ? 1 : vh_bool("other_bit") ? 2 : 0;
	const double ref = geo && a1 == 1 ? (double)f._mag_declination_gps : (double)math::radians(f._params.mag_declination_deg);
	if (a1 == 1) { f._NED_origin_initialised = true; } else if (a1 == 2) { f._NED_origin_initialised = false; f._mag_declination_gps = NAN; }
	vh_assume(f._params.mag_declination_deg >= -150.f && f._params.mag_declination_deg <= 150.f);
	if (a1 == 1) { vh_assume(f._mag_declination_gps >= -2.6f && f._mag_declination_gps <= 2.6f); }
	double hmin = 0.001f;
	if (a1 == 1) {
		const double h = 0.5 * (double)f._mag_strength_gps * cos((double)f._mag_inclination_gps);
		vh_assume(f._mag_strength_gps >= 0.1f && f._mag_strength_gps <= 1.f);
		vh_assume(h >= 0.0011);
		hmin = h;
	}
	const double h2 = n * n + e * e, h = sqrt(h2), a = atan2(e, n);
	double want = h;
	vh_assume(vh_finite(f._state.mag_I(0)) && vh_finite(f._state.mag_I(1)));
	if (a0 == 1) { vh_assume(h - hmin <= -1e-5); vh_assume(h - (double)0.001f * hmin >= 1e-6); want = hmin; const double as = atan2(e * (hmin / h), n * (hmin / h)); vh_assume(as - ref <= 0.499); vh_assume(as - ref >= -0.499); }
	else if (a0 == 4 || a0 == 5) { vh_assume(h - hmin <= -1e-5); vh_assume(h - (double)0.001f * hmin >= 1e-6); want = hmin; }
	else { vh_assume(h - hmin >= 1e-5); }
	double lim = 0;
	if (a0 == 2) { vh_assume(a - ref >= 0.501); lim = ref + 0.5; }
	else if (a0 == 3) { vh_assume(a - ref <= -0.501); lim = ref - 0.5; }
	else if (a0 > 3) {
		const double as = atan2(e * (hmin / h), n * (hmin / h));
		if (a0 == 4) { vh_assume(as - ref >= 0.501); lim = ref + 0.5; } else { vh_assume(as - ref <= -0.501); lim = ref - 0.5; }
	}
	else if (a0 == 0) { vh_assume(a - ref <= 0.499); vh_assume(a - ref >= -0.499); }
	f.limitDeclination();
	vh_cover("limited");
	const double n1 = f._state.mag_I(0), e1 = f._state.mag_I(1);
	if (a0 == 0) { vh_assert_eqd(n1, n, 1e-5, "field inside the limits is left alone"); vh_assert_eqd(e1, e, 1e-5, "field inside the limits is left alone"); }
	if (a0 == 1) { vh_assert_eqd(n1, n * hmin / h, 1e-5, "weak horizontal field is scaled to its minimum"); vh_assert_eqd(e1, e * hmin / h, 1e-5, "weak horizontal field is scaled to its minimum"); }
	if (a0 > 1) { vh_assert_eqd(n1, want * cos(lim), 1e-5, "declination is brought to its limit at the same field strength"); vh_assert_eqd(e1, want * sin(lim), 1e-5, "declination is brought to its limit at the same field strength"); }
	vh_assert_eqd(f._state.mag_I(2), d, 0, "vertical field untouched");
}

// airspeed fusion
#include "ekf_h.hpp"

// a0: first row compared; a1: 1 = all states, 0 = wind only
HARNESS(air_update)
{
	Ekf &f = ekf_any();
	sym_cov(f);
	for (int i = 0; i < 3; i++) { f._accel_bias_inhibit[i] = true; }
	f._control_status.flags.wind = true;
	f._control_status.flags.mag_3D = true;
	f._is_wind_dead_reckoning = a1;
	Snap b;
	snap(f, b);
	const double u = (double)b.x[4] - (double)b.x[22], v = (double)b.x[5] - (double)b.x[23], w = b.x[6];
	const double tas = sqrt(u * u + v * v + w * w);
	vh_assume(tas >= 1.0);
	Row H{};
	H.add(4, u / tas); H.add(5, v / tas); H.add(6, w / tas); H.add(22, -u / tas); H.add(23, -v / tas);
	f._params.eas_noise = vh_range("eas_noise", 0.5f, 5.f);
	f._airspeed_sample_delayed.eas2tas = vh_range("eas2tas", 0.9f, 10.f);
	const double sd = (double)f._params.eas_noise * (double)f._airspeed_sample_delayed.eas2tas, R = sd * sd;
	Gain g;
	gain(b, H, R, g);
	const double innov = tas - (double)f._airspeed_sample_delayed.true_airspeed;
	if (a0 == 11) { vh_assume(g.S < R); vh_assume(g.S <= 0.999 * R); } else { vh_assume(g.S >= R); vh_assume(g.S >= 1.00001 * R); }
	const double gate = vh_range("gate", 1.001f, 100.f);
	f._params.tas_innov_gate = (float)gate;
	if (a0 == 11) {} else if (a0 == 9) { vh_assume(innov * innov / (gate * gate * g.S) >= 1.001); vh_assume(innov * innov / (gate * gate * g.S) >= 1.0); } else { vh_assume(innov * innov / (gate * gate * g.S) <= 0.999); }
	bool zero[NS] = {};
	for (int i = 0; i < NS; i++) { zero[i] = a1 ? i >= 13 && i < 16 : i < 22; }
	if (a0 == 10) { assume_unhealthy(b, g, 22, zero); } else if (a0 < 9) { assume_no_limits(b, g, zero); }
	Faults fold;
	fault_flags(f, fold);
	Flags old;
	reject_flags(f, old);
	const uint64_t t_old = f._time_last_arsp_fuse;
	f.fuseAirspeed();
	vh_cover("fused");
	if (a0 == 11) { vh_assert(f._time_last_arsp_fuse == t_old, "a refusal is no fusion"); check_illcond(f, b, fold, 5, true, a1 ? 0 : 1); return; }
	vh_assert_eqd(f._airspeed_innov, innov, 1e-4, "innovation is predicted minus measured airspeed");
	vh_assert_eqd(f._airspeed_innov_var, g.S, 1e-4, "innovation variance is H P H' + R");
	if (a0 == 10) { vh_assert(f._time_last_arsp_fuse == t_old, "a refusal is no fusion"); check_unhealthy(f, b, fold, 5, 22); return; }
	if (a0 == 9) { vh_assert(f._time_last_arsp_fuse == t_old, "a rejection is no fusion"); check_rejected(f, b, old, 1 << 8, 0); return; }
	vh_assert(!f._innov_check_fail_status.flags.reject_airspeed && !f._fault_status.flags.bad_airspeed, "not rejected");
	vh_assert(f._time_last_arsp_fuse == f._time_last_imu, "fusion time recorded");
	check_update(f, b, g, innov, a0, zero);
}

// terrain height estimator
#include "ekf_h.hpp"

static double tmax(double a, double b) { return a > b ? a : b; }
static void common(Ekf &f)
{
	f._time_last_imu = 50000000;
	f._control_status.flags.in_air = true;
	f._terrain_initialised = true;
	vh_assume(f._terrain_var >= 0.f); vh_assume(f._terrain_var <= 1e4f);
}
// a0: 0 accepted, 1 rejected, 2 rejected for more than ten seconds
HARNESS(hagl_fuse)
{
	Ekf &f = ekf_any();
	common(f);
	f._time_last_hagl_fuse = a0 == 2 ? 39000000 : 41000000;
	vh_assume(f.P(9, 9) >= 0.f); vh_assume(f.P(9, 9) <= 1e6f);
	f._params.vehicle_variance_scaler = vh_range("scaler", 0.f, 10.f);
	f._params.range_noise = vh_range("noise", 0.01f, 10.f);
	f._params.range_noise_scaler = vh_range("noise_scaler", 0.f, 1.f);
	f._range_sensor._sample.rng = vh_range("rng", 0.f, 100.f);
	f._range_sensor._cos_tilt_rng_to_earth = vh_range("cos", 0.5f, 1.f);
	f._params.range_innov_gate = vh_range("gate", 1.001f, 100.f);
	vh_assume(f._terrain_vpos >= -1000.f); vh_assume(f._terrain_vpos <= 1000.f); vh_assume(f._state.pos(2) >= -1000.f); vh_assume(f._state.pos(2) <= 1000.f);
	const double dist = (double)f._range_sensor._sample.rng * f._range_sensor._cos_tilt_rng_to_earth, gate = f._params.range_innov_gate;
	const double rn = (double)f._params.range_noise_scaler * f._range_sensor._sample.rng;
	const double R = (double)f.P(9, 9) * f._params.vehicle_variance_scaler + (double)f._params.range_noise * f._params.range_noise + rn * rn;
	vh_assume((double)f.P(9, 9) * f._params.vehicle_variance_scaler >= 0);
	const double var = f._terrain_var, S = var + R, innov = (double)f._terrain_vpos - f._state.pos(2) - dist, terr = f._terrain_vpos, pos = f._state.pos(2);
	const double ratio = innov * innov / (gate * gate * S);
	if (a0 == 0) { vh_assume(ratio <= 0.999); } else { vh_assume(ratio >= 1.001); vh_assume(ratio >= 1.0); }
	const bool was = f._innov_check_fail_status.flags.reject_hagl;
	vh_assume(S >= R); vh_assume(1.0 - var / S >= 0); vh_assume(var * (1.0 - var / S) >= 0);
	f.fuseHagl();
	vh_cover("called");
	vh_assert_eqd(f._hagl_innov, innov, 1e-3, "innovation is predicted minus measured height above ground");
	vh_assert_eqd(f._hagl_innov_var, S, 1e-4, "innovation variance");
	vh_assert_eqd((double)f._hagl_test_ratio * gate * gate * S, innov * innov, 1e-3, "test ratio");
	if (a0 == 0) {
		vh_assert_eqd(f._terrain_vpos, terr - var / S * innov, 1e-3, "terrain moves by the gain times the innovation");
		vh_assert_eqd(f._terrain_var, var - var * var / S, 1e-4, "terrain variance is reduced");
		vh_assert(f._time_last_hagl_fuse == 50000000, "fusion time recorded");
		vh_assert(!f._innov_check_fail_status.flags.reject_hagl, "not flagged");
	} else {
		vh_assert(f._time_last_hagl_fuse == (a0 == 2 ? 39000000 : 41000000), "no fusion time recorded");
		vh_assert_eqd(f._terrain_vpos, a0 == 2 ? pos + dist : terr, 1e-3, "rejected: kept, or reset to the measurement after ten seconds");
		vh_assert_eqd(f._terrain_var, a0 == 2 ? R : var, 1e-4, "rejected: kept, or reset to the measurement after ten seconds");
		vh_assert(f._innov_check_fail_status.flags.reject_hagl == (a0 == 1 ? true : was), "flagged");
	}
}
// prediction: a0 0: inside the limits, 1: variance limited; a1: 1 = terrain pushed down to the ground clearance
HARNESS(terr_predict)
{
	Ekf &f = ekf_any();
	common(f);
	f._params.terrain_fusion_mode = 0;
	f._imu_sample_delayed.delta_vel_dt = vh_range("dt", 0.001f, 0.1f);
	f._params.terrain_p_noise = vh_range("pn", 0.f, 10.f); f._params.terrain_gradient = vh_range("grad", 0.f, 10.f);
	f._params.rng_gnd_clearance = vh_range("clear", 0.01f, 10.f);
	for (int i = 0; i < 2; i++) { vh_assume(f._state.vel(i) >= -100.f); vh_assume(f._state.vel(i) <= 100.f); }
	const double dt = f._imu_sample_delayed.delta_vel_dt, n = dt * f._params.terrain_p_noise, g = dt * f._params.terrain_gradient;
	const double var = (double)f._terrain_var + n * n + g * g * ((double)f._state.vel(0) * f._state.vel(0) + (double)f._state.vel(1) * f._state.vel(1));
	vh_assume(var >= 0.0);
	if (a0) { vh_assume(var >= 1.0001e4); } else { vh_assume(var <= 0.9999e4); }
	const double terr = f._terrain_vpos, pos = f._state.pos(2), clear = f._params.rng_gnd_clearance;
	if (a1) { vh_assume(terr - pos <= clear - 1e-3); } else { vh_assume(terr - pos >= clear + 1e-3); }
	const float ground = f._last_on_ground_posD;
	f.runTerrainEstimator();
	vh_cover("called");
	vh_assert_eqd(f._terrain_var, a0 ? 1e4 : var, 1e-4, "variance grows with time and horizontal speed");
	vh_assert_eqd(f._terrain_vpos, a1 ? clear + pos : terr, 1e-3, "terrain stays below the vehicle by the ground clearance");
	vh_assert(f._terrain_initialised, "stays initialised");
	vh_assert(vh_same(f._last_on_ground_posD, ground), "reference height of the ground kept in the air");
}
// a0: axis of the flow with motion; a1: 1 = with lever arm, 2 = rejected
HARNESS(terr_flow)
{
	Ekf &f = ekf_any();
	common(f);
	f._time_last_flow_terrain_fuse = 12345;
	rational_quat(f);
	f._R_to_earth = Dcmf(f._state.quat_nominal);
	double q[4];
	for (int i = 0; i < 4; i++) { q[i] = f._state.quat_nominal(i); }
	if (!(a1 & 1)) { f._params.flow_pos_body = f._params.imu_pos_body; }
	f._flow_sample_delayed.dt = vh_range("fdt", 0.01f, 1.f);
	double d[3], w[3], vb[3], rel[3];
	for (int i = 0; i < 3; i++) {
		f._flow_sample_delayed.gyro_xyz(i) = vh_range("gyro", -1.f, 1.f);
		if (a1 & 1) { f._params.imu_pos_body(i) = 0.f; f._params.flow_pos_body(i) = vh_range("arm", -1.f, 1.f); }
		d[i] = a1 & 1 ? (double)f._params.flow_pos_body(i) : 0.0;
		w[i] = -(double)f._flow_sample_delayed.gyro_xyz(i) / (double)f._flow_sample_delayed.dt;
	}
	for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; rel[i] = a1 & 1 ? w[j] * d[k] - w[k] * d[j] : 0.0; }
	// body velocity of the sensor: along the observed axis and downwards only
	vb[a0 == 0 ? 1 : 0] = vh_range("speed", -20.f, 20.f); vb[a0 == 0 ? 0 : 1] = 0.0; vb[2] = vh_range("climb", -20.f, 20.f);
	for (int i = 0; i < 3; i++) {
		double e[3] = {0, 0, 0}, v = 0;
		e[i] = 1;
		for (int k = 0; k < 3; k++) { v += rot_row(q, k, e) * (vb[k] - rel[k]); }
		f._state.vel(i) = (float)v;
	}
	f._params.flow_noise = vh_range("noise", 0.051f, 1.f);
	f._params.flow_noise_qual_min = f._params.flow_noise;
	f._params.flow_qual_min = 0; f._flow_sample_delayed.quality = 255;
	const double R = (double)f._params.flow_noise * f._params.flow_noise;
	f._params.flow_innov_gate = vh_range("gate", 1.001f, 100.f);
	f._params.rng_gnd_clearance = vh_range("clear", 0.1f, 1.f);
	vh_assume(f._terrain_vpos >= -1000.f); vh_assume(f._terrain_vpos <= 1000.f); vh_assume(f._state.pos(2) >= -1000.f); vh_assume(f._state.pos(2) <= 1000.f);
	const double gate = f._params.flow_innov_gate, terr = f._terrain_vpos, var = f._terrain_var, hagl = terr - f._state.pos(2);
	vh_assume(terr >= (double)f._params.rng_gnd_clearance + f._state.pos(2) + 1e-3);
	vh_assume(terr >= (double)f._params.rng_gnd_clearance + f._state.pos(2));
	vh_assume(hagl >= 0.1);
	const double c = q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3];
	f._flow_gyro_bias(0) = vh_range("bias", -0.1f, 0.1f); f._flow_gyro_bias(1) = f._flow_gyro_bias(0);
	// the other axis sees no motion and is predicted perfectly
	const int o = 1 - a0;
	f._flow_compensated_XY_rad(o) = -f._flow_gyro_bias(o) * f._flow_sample_delayed.dt;
	f._flow_compensated_XY_rad(a0) = vh_range("rate", -10.f, 10.f);
	const double sgn = a0 == 0 ? 1.0 : -1.0, s = sgn * (a0 == 0 ? vb[1] : vb[0]);
	const double innov = s * c / hagl - ((double)f._flow_compensated_XY_rad(a0) / f._flow_sample_delayed.dt + (double)f._flow_gyro_bias(a0));
	// derivative of the predicted flow with respect to the terrain height
	const double h = -s * c / (hagl * hagl), S = h * h * var + R, K = var * h / S;
	vh_assume(S >= R);
	if (a1 & 2) { vh_assume(innov * innov / (gate * gate * S) >= 1.001); vh_assume(innov * innov / (gate * gate * S) >= 1.0); } else { vh_assume(innov * innov / (gate * gate * S) <= 0.999); }
	vh_assume(var - K * h * var >= 0.0);
	f.fuseFlowForTerrain();
	vh_cover("called");
	vh_assert_eqd(f._flow_innov(a0), innov, 1e-3, "innovation is predicted minus measured flow");
	vh_assert_eqd(f._flow_innov_var(a0), S, 1e-3, "innovation variance");
	vh_assert_eqd(f._terrain_vpos, a1 & 2 ? terr : terr - K * innov, 1e-3, "terrain moves by the gain times the innovation");
	vh_assert_eqd(f._terrain_var, a1 & 2 ? var : var - K * h * var, 1e-3, "terrain variance is reduced");
	if (!(a1 & 2)) { vh_assert(f._time_last_flow_terrain_fuse == 50000000, "fusion time recorded"); }
}
// validity, initialisation and use of the sensors
HARNESS(terr_valid)
{
	Ekf &f = ekf_any();
	vh_assume(f._time_last_imu <= 1000000000000ull && f._time_last_hagl_fuse <= f._time_last_imu && f._time_last_flow_terrain_fuse <= f._time_last_imu);
	f.updateTerrainValidity();
	vh_cover("called");
	const bool rng = f._time_last_imu - f._time_last_hagl_fuse < 5000000, flow = f._time_last_imu - f._time_last_flow_terrain_fuse < 5000000;
	const bool edge = f._time_last_imu - f._time_last_hagl_fuse == 5000000 || f._time_last_imu - f._time_last_flow_terrain_fuse == 5000000;
	if (edge) { return; }
	const bool use_rng = f._params.terrain_fusion_mode & 1, use_flow = f._params.terrain_fusion_mode & 2;
	vh_assert(f.isTerrainEstimateValid() == (f._terrain_initialised && (rng || flow)), "valid exactly when a sensor was fused in the last five seconds");
	vh_assert(f._hagl_sensor_status.flags.range_finder == (use_rng && rng && f._time_last_fake_hagl_fuse != f._time_last_hagl_fuse), "range finder in use");
	vh_assert(f._hagl_sensor_status.flags.flow == (use_flow && flow), "flow in use");
}
HARNESS(terr_init)
{
	Ekf &f = ekf_any();
	f._params.rng_gnd_clearance = vh_range("clear", 0.01f, 10.f); f._params.range_noise = vh_range("noise", 0.01f, 10.f);
	f._state.pos(2) = vh_range("pos", -1000.f, 1000.f); f._range_sensor._sample.rng = vh_range("rng", 0.f, 100.f); f._range_sensor._cos_tilt_rng_to_earth = vh_range("cos", 0.5f, 1.f);
	const bool use_rng = f._params.terrain_fusion_mode & 1, use_flow = f._params.terrain_fusion_mode & 2;
	const bool air = f._control_status.flags.in_air, rng = use_rng && f._range_sensor._is_sample_ready && f._range_sensor._is_sample_valid, flow = use_flow && f._flow_for_terrain_data_ready;
	const float terr = f._terrain_vpos, var = f._terrain_var;
	const uint64_t last = f._time_last_hagl_fuse, fake = f._time_last_fake_hagl_fuse;
	if (a0 == 1) { f._control_status.flags.in_air = false; }
	f._terrain_initialised = a0 == 0 ? false : f._terrain_initialised;
	const bool ground = a0 == 1 || !air;
	f.runTerrainEstimator();
	vh_cover("called");
	const double pos = f._state.pos(2), clear = f._params.rng_gnd_clearance, noise = f._params.range_noise;
	vh_assert(f._terrain_initialised == (ground || rng || flow), "initialised from the ground, the range finder or flow");
	if (ground) {
		vh_assert_eqd(f._terrain_vpos, pos + clear, 1e-4, "on ground: ground clearance below the vehicle"); vh_assert_eqd(f._terrain_var, clear * clear, 1e-4, "on ground: variance");
		vh_assert(f._time_last_fake_hagl_fuse == f._time_last_imu, "on ground: not counted as a measurement");
		vh_assert(f._last_on_ground_posD == f._state.pos(2), "reference height of the ground");
	} else if (rng) { vh_assert_eqd(f._terrain_vpos, pos + (double)f._range_sensor._sample.rng * f._range_sensor._cos_tilt_rng_to_earth, 1e-4, "range finder measurement"); vh_assert_eqd(f._terrain_var, noise * noise, 1e-4, "range finder variance"); }
	else if (flow) { vh_assert_eqd(f._terrain_vpos, pos > 0 ? pos : 0.0, 1e-4, "no measurement: origin height or below"); vh_assert_eqd(f._terrain_var, 100.0, 1e-4, "no measurement: variance"); }
	else { vh_assert(vh_same(f._terrain_vpos, terr) && vh_same(f._terrain_var, var), "nothing known, nothing changed"); }
	if (!ground) { vh_assert(f._time_last_fake_hagl_fuse == fake, "in air: measurements only"); }
	vh_assert(f._time_last_hagl_fuse == (ground || rng || flow ? f._time_last_imu : last), "time of the initialisation");
	vh_assert(!f._hagl_valid || f._terrain_initialised, "not valid before it is initialised");
}

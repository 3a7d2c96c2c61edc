// intake of sensor samples, buffer sizing, vibration metrics and rest detection of the estimator interface
#include "vh.h"
#include <EKF/estimator_interface.h>
#include <new>
#include <math.h>
using namespace matrix;
struct Probe : EstimatorInterface {
	bool init_ok, gps_ok;
	int inits, gps_calls;
	float offset;
	gps_message seen;
	bool collect_gps(const gps_message &g) override { gps_calls++; seen = g; return gps_ok; }
	bool init(uint64_t) override { inits++; return init_ok; }
	float compensateBaroForDynamicPressure(const float a) const override { return a + offset; }
	bool isTerrainEstimateValid() const { return false; }
};
alignas(Probe) static unsigned char mem[sizeof(Probe)];
static Probe &fresh()
{
	Probe &f = *new (mem) Probe;
	f.init_ok = true; f.gps_ok = true; f.inits = 0; f.gps_calls = 0; f.offset = 0.f;
	f._initialised = true;
	f._obs_buffer_length = 4;
	f._imu_buffer_length = 5;
	return f;
}
static const uint64_t HALF = 5000; // half the filter update period
static uint64_t when(Probe &f, uint64_t &last, int a1, bool fixed = false)
{
	const uint64_t t = fixed ? 36000000000ull : vh_u64("t");
	vh_assume(t >= 2000000); vh_assume(t < (1ull << 52));
	last = vh_u64("last"); vh_assume(last <= t);
	f._min_obs_interval_us = vh_u32("interval");
	if (a1 == 1) { vh_assume(t - last <= f._min_obs_interval_us); } else { vh_assume(t - last > f._min_obs_interval_us); }
	return t;
}
static uint64_t delay(float &p) { p = vh_range("delay", 0.f, 1000.f); return (uint64_t)(p * 1000.f); }
static float any(const char *n) { return vh_range(n, -100.f, 100.f); }
#define RATE(buf, lastf) do { \
	if (a1 == 0) { vh_assert(f.buf.get_length() == (a0 == 3 ? 5 : 4), "buffer allocated"); vh_assert(f.lastf == t, "time of the accepted sample"); vh_assert(!f.buf._first_write, "sample stored"); \
		vh_assert(f.buf.get_newest().time_us == t - d - HALF, "time stamp is measurement time less delay and half a filter period"); } \
	else { vh_assert(f.lastf == last, "not accepted: time of the last sample kept"); vh_assert(f.buf._first_write, "not accepted: nothing stored"); } } while (0)

// a0: sensor; a1: 0 accepted, 1 faster than the observation interval, 2 not initialised, 3 allocation failed before
HARNESS(intake)
{
	Probe &f = fresh();
	uint64_t last = 0;
	const uint64_t t = when(f, last, a1, a0 >= 5);
	if (a1 == 2) { f._initialised = false; }
	const bool bad = a1 == 3;
	if (a0 == 0) {
		const uint64_t d = delay(f._params.airspeed_delay_ms);
		f._time_last_airspeed = last; f._airspeed_buffer_fail = bad;
		airspeedSample s{}; s.time_us = t; s.true_airspeed = any("tas"); s.eas2tas = any("eas");
		f.setAirspeedData(s);
		RATE(_airspeed_buffer, _time_last_airspeed);
		if (a1 == 0) { const airspeedSample &n = f._airspeed_buffer.get_newest(); vh_assert(n.true_airspeed == s.true_airspeed && n.eas2tas == s.eas2tas, "measurement kept"); }
	} else if (a0 == 1) {
		const uint64_t d = delay(f._params.range_delay_ms);
		f._time_last_range = last; f._range_buffer_fail = bad;
		rangeSample s{}; s.time_us = t; s.rng = any("rng"); s.quality = (int8_t)vh_u8("q");
		f.setRangeData(s);
		RATE(_range_buffer, _time_last_range);
		if (a1 == 0) { const rangeSample &n = f._range_buffer.get_newest(); vh_assert(n.rng == s.rng && n.quality == s.quality, "measurement kept"); }
	} else if (a0 == 2) {
		const uint64_t d = delay(f._params.auxvel_delay_ms);
		f._time_last_auxvel = last; f._auxvel_buffer_fail = bad;
		auxVelSample s{}; s.time_us = t; s.vel = Vector3f(any("vx"), any("vy"), any("vz")); s.velVar = Vector3f(any("wx"), any("wy"), any("wz"));
		f.setAuxVelData(s);
		RATE(_auxvel_buffer, _time_last_auxvel);
		if (a1 == 0) { const auxVelSample &n = f._auxvel_buffer.get_newest(); for (int i = 0; i < 3; i++) { vh_assert(n.vel(i) == s.vel(i) && n.velVar(i) == s.velVar(i), "measurement kept"); } }
	} else if (a0 == 3) {
		const uint64_t d = delay(f._params.flow_delay_ms);
		f._time_last_optflow = last; f._flow_buffer_fail = bad;
		flowSample s{}; s.time_us = t; s.flow_xy_rad = Vector2f(any("fx"), any("fy")); s.gyro_xyz = Vector3f(any("gx"), any("gy"), any("gz")); s.dt = any("dt"); s.quality = vh_u8("q");
		f.setOpticalFlowData(s);
		RATE(_flow_buffer, _time_last_optflow);
		if (a1 == 0) { const flowSample &n = f._flow_buffer.get_newest(); vh_assert(n.flow_xy_rad(0) == s.flow_xy_rad(0) && n.flow_xy_rad(1) == s.flow_xy_rad(1) && n.dt == s.dt && n.quality == s.quality, "measurement kept"); for (int i = 0; i < 3; i++) { vh_assert(n.gyro_xyz(i) == s.gyro_xyz(i), "measurement kept"); } }
	} else if (a0 == 4) {
		const uint64_t d = delay(f._params.ev_delay_ms);
		f._time_last_ext_vision = last; f._ev_buffer_fail = bad;
		extVisionSample s{}; s.time_us = t; s.pos = Vector3f(any("px"), any("py"), any("pz")); s.vel = Vector3f(any("vx"), any("vy"), any("vz")); s.posVar = Vector3f(any("wx"), any("wy"), any("wz"));
		for (int i = 0; i < 4; i++) { static const char *qn[4] = {"q0", "q1", "q2", "q3"}; s.quat(i) = any(qn[i]); }
		s.angVar = any("av");
		f.setExtVisionData(s);
		RATE(_ext_vision_buffer, _time_last_ext_vision);
		if (a1 == 0) { const extVisionSample &n = f._ext_vision_buffer.get_newest(); vh_assert(n.angVar == s.angVar, "measurement kept"); for (int i = 0; i < 3; i++) { vh_assert(n.pos(i) == s.pos(i) && n.vel(i) == s.vel(i) && n.posVar(i) == s.posVar(i), "measurement kept"); } for (int i = 0; i < 4; i++) { vh_assert(n.quat(i) == s.quat(i), "measurement kept"); } }
	} else if (a0 == 5) {
		const uint64_t d = delay(f._params.mag_delay_ms);
		f._time_last_mag = last; f._mag_buffer_fail = bad;
		magSample s{}; s.time_us = t; s.mag = Vector3f(any("mx"), any("my"), any("mz"));
		f.setMagData(s);
		RATE(_mag_buffer, _time_last_mag);
		if (a1 == 0) { const magSample &n = f._mag_buffer.get_newest(); for (int i = 0; i < 3; i++) { vh_assert(n.mag(i) == s.mag(i), "single measurement kept"); } }
	} else if (a0 == 6) {
		const uint64_t d = delay(f._params.baro_delay_ms);
		f._time_last_baro = last; f._baro_buffer_fail = bad;
		f.offset = any("off");
		baroSample s{}; s.time_us = t; s.hgt = any("hgt");
		f.setBaroData(s);
		RATE(_baro_buffer, _time_last_baro);
		if (a1 == 0) { vh_assert_eqd(f._baro_buffer.get_newest().hgt, (double)s.hgt + f.offset, 1e-3, "height is compensated for the static pressure error"); }
	}
	vh_cover("intake");
}
// average of several samples; a0: 0 magnetometer, 1 barometer; a1: number of samples averaged, the last one due
HARNESS(average)
{
	Probe &f = fresh();
	f._min_obs_interval_us = 20000;
	const uint64_t T0 = 36000000000ull; // ten hours
	const uint64_t d = delay(a0 ? f._params.baro_delay_ms : f._params.mag_delay_ms);
	f._time_last_mag = f._time_last_baro = T0;
	double s[3] = {0, 0, 0}, tm = 0;
	static const char *nm[4][3] = {{"ax", "ay", "az"}, {"bx", "by", "bz"}, {"cx", "cy", "cz"}, {"dx", "dy", "dz"}};
	for (int k = 0; k < a1; k++) {
		const uint64_t t = T0 + 20000 - (uint64_t)(a1 - 2 - k) * 4000 - (k + 1 < a1 ? 0 : 2000);
		tm += (double)(t - T0) / a1;
		float v[3];
		for (int i = 0; i < 3; i++) { v[i] = any(nm[k][i]); s[i] += v[i]; }
		vh_assert(a0 ? f._baro_buffer._first_write : f._mag_buffer._first_write, "nothing stored before the interval has passed");
		if (a0) { baroSample b{}; b.time_us = t; b.hgt = v[0]; f.setBaroData(b); }
		else { magSample m{}; m.time_us = t; m.mag = Vector3f(v[0], v[1], v[2]); f.setMagData(m); }
	}
	const uint64_t mean = T0 + (uint64_t)tm - HALF - d;
	if (a0) {
		vh_assert(!f._baro_buffer._first_write, "average stored");
		const baroSample &n = f._baro_buffer.get_newest();
		vh_assert(mean - n.time_us + 1000 <= 2000, "average has the mean time");
		vh_assert_eqd(n.hgt, s[0] / a1, 1e-3, "samples are averaged");
		vh_assert(f._baro_sample_count == 0 && f._baro_timestamp_sum == 0 && f._baro_alt_sum == 0.f, "averaging starts anew");
	} else {
		vh_assert(!f._mag_buffer._first_write, "average stored");
		const magSample &n = f._mag_buffer.get_newest();
		vh_assert(mean - n.time_us + 1000 <= 2000, "average has the mean time");
		for (int i = 0; i < 3; i++) { vh_assert_eqd(n.mag(i), s[i] / a1, 1e-3, "samples are averaged"); vh_assert(f._mag_data_sum(i) == 0.f, "averaging starts anew"); }
		vh_assert(f._mag_sample_count == 0 && f._mag_timestamp_sum == 0, "averaging starts anew");
	}
}
// GPS; a0: 0 origin known, 1 origin unknown; a1: as intake, 4 GPS not used, 5 no 3D fix
HARNESS(intake_gps)
{
	Probe &f = fresh();
	uint64_t last = 0;
	const uint64_t t = when(f, last, a1), d = delay(f._params.gps_delay_ms);
	if (a1 == 2) { f._initialised = false; }
	f._gps_buffer_fail = a1 == 3;
	f._time_last_gps = last;
	f.gps_ok = a0 == 0;
	f._params.fusion_mode = vh_i32("mode"); f._params.vdist_sensor_type = vh_i32("vdist");
	const bool need = (f._params.fusion_mode & MASK_USE_GPS) || f._params.vdist_sensor_type == VDIST_SENSOR_GPS;
	vh_assume(need == (a1 != 4));
	f._pos_ref.lat_rad = 0.8; f._pos_ref.lon_rad = 0.1; f._pos_ref.sin_lat = sin(0.8); f._pos_ref.cos_lat = cos(0.8); f._pos_ref.init_done = true;
	gps_message g{};
	g.time_usec = t; g.lat = (int32_t)vh_u32("lat"); g.lon = (int32_t)vh_u32("lon"); g.alt = (int32_t)vh_u32("alt");
	vh_assume(g.lat >= -900000000); vh_assume(g.lat <= 900000000); vh_assume(g.lon >= -1800000000); vh_assume(g.lon <= 1800000000);
	g.fix_type = vh_u8("fix");
	if (a1 == 5) { vh_assume(g.fix_type < 3); } else { vh_assume(g.fix_type >= 3); }
	g.vel_ned = Vector3f(any("vx"), any("vy"), any("vz")); g.vel_ned_valid = vh_bool("vv"); g.sacc = any("sacc"); g.eph = any("eph"); g.epv = any("epv"); g.yaw = vh_f32("yaw"); g.yaw_offset = vh_f32("yo");
	float x = 0.f, y = 0.f;
	if (a0 == 0) { map_projection_project(&f._pos_ref, g.lat / 1.0e7, g.lon / 1.0e7, &x, &y); }
	f.setGpsData(g);
	RATE(_gps_buffer, _time_last_gps);
	vh_assert(f.gps_calls == (a1 == 0), "fix is checked once");
	if (a1) { return; }
	const gpsSample &n = f._gps_buffer.get_newest();
	for (int i = 0; i < 3; i++) { vh_assert(n.vel(i) == g.vel_ned(i), "velocity kept"); }
	vh_assert(n.sacc == g.sacc && n.hacc == g.eph && n.vacc == g.epv, "accuracies kept");
	vh_assert_eqd(n.hgt, (double)g.alt * 1e-3f, 1e-2, "height in metres");
	vh_assert(vh_same(n.yaw, g.yaw), "heading kept");
	vh_assert(f._gps_speed_valid == g.vel_ned_valid, "validity of the velocity kept");
	vh_assert(vh_finite(g.yaw_offset) ? f._gps_yaw_offset == g.yaw_offset : f._gps_yaw_offset == 0.f, "antenna offset");
	vh_assert(vh_same(n.pos(0), x) && vh_same(n.pos(1), y), "position relative to the origin");
}
// mean specific force for drag; a0: number of samples before; a1: 1 = not in use
HARNESS(intake_drag)
{
	Probe &f = fresh();
	f._params.fusion_mode = a1 == 1 ? 0 : MASK_USE_DRAG;
	f._imu_buffer_length = a1 == 2 ? 28 : a1 == 3 ? 16 : 5;
	double s[2] = {0, 0}, td = 0, tm = 0;
	const int n = a1 == 2 ? 7 : 5;
	static const char *nm[7][3] = {{"ax", "ay", "at"}, {"bx", "by", "bt"}, {"cx", "cy", "ct"}, {"dx", "dy", "dt"}, {"ex", "ey", "et"}, {"fx", "fy", "ft"}, {"gx", "gy", "gt"}};
	for (int k = 0; k < n; k++) {
		imuSample i{};
		i.time_us = 50000000 + 1000 * (uint64_t)k * k; i.delta_vel = Vector3f(vh_range(nm[k][0], -1.f, 1.f), vh_range(nm[k][1], -1.f, 1.f), 0.f); i.delta_vel_dt = vh_range(nm[k][2], 0.001f, 0.02f);
		s[0] += i.delta_vel(0); s[1] += i.delta_vel(1); td += i.delta_vel_dt; tm += (double)i.time_us / n;
		vh_assert(f._drag_buffer._first_write, "nothing stored before enough samples");
		f.setDragData(i);
	}
	vh_assert(f._drag_buffer._first_write == (a1 == 1), "stored when in use");
	if (a1 == 1) { return; }
	const dragSample &m = f._drag_buffer.get_newest();
	vh_assert_eqd(m.accelXY(0), s[0] / td, 1e-3, "mean specific force"); vh_assert_eqd(m.accelXY(1), s[1] / td, 1e-3, "mean specific force");
	vh_assert(m.time_us == (uint64_t)tm, "mean time");
	vh_assert(f._drag_sample_count == 0 && f._drag_down_sampled.accelXY(0) == 0.f && f._drag_down_sampled.accelXY(1) == 0.f && f._drag_down_sampled.time_us == 0 && f._drag_sample_time_dt == 0.f, "averaging starts anew");
}
// buffer sizing; a0: sensor with the longest delay; a1: that delay is in (10 (n - 1), 10 n] ms with n = a1 % 100; a1 / 100: alternative that puts the sensor in use,
// 9 = the sensor is not in use and the barometer has the longest delay in use
HARNESS(buffers)
{
	Probe &f = fresh();
	parameters &p = f._params;
	const int n0 = a1 % 100, alt = a1 / 100;
	float *dl[8] = {&p.baro_delay_ms, &p.auxvel_delay_ms, &p.airspeed_delay_ms, &p.mag_delay_ms, &p.range_delay_ms, &p.gps_delay_ms, &p.flow_delay_ms, &p.ev_delay_ms};
	static const char *nm[8] = {"baro", "aux", "aspd", "mag", "rng", "gps", "flow", "ev"};
	static const int EV[3] = {MASK_USE_EVPOS, MASK_USE_EVYAW, MASK_USE_EVVEL};
	const bool off = alt == 9;
	p.mag_fusion_type = off && a0 == 3 ? MAG_FUSE_TYPE_NONE : MAG_FUSE_TYPE_AUTO;
	p.range_aid = a0 == 4 ? !off && alt == 0 : 1; p.vdist_sensor_type = a0 == 4 && !off && alt == 1 ? VDIST_SENSOR_RANGE : VDIST_SENSOR_BARO;
	p.fusion_mode = a0 == 5 ? MASK_USE_GPS : a0 == 6 ? MASK_USE_OF : a0 == 7 ? EV[alt % 3] : MASK_USE_GPS | MASK_USE_OF | MASK_USE_EVPOS;
	if (off && a0 >= 5) { p.fusion_mode = (MASK_USE_GPS | MASK_USE_OF | MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL | MASK_USE_DRAG) & ~(a0 == 5 ? MASK_USE_GPS : a0 == 6 ? MASK_USE_OF : MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL); }
	const float lo = 10.f * (n0 - 1), hi = 10.f * n0;
	const int top = off ? 0 : a0;
	for (int i = 0; i < 8; i++) {
		if (i == top) { *dl[i] = vh_range(nm[i], lo + 0.001f, hi); }
		else if (i == a0) { *dl[i] = vh_range(nm[i], 300.f, 500.f); }
		else if (alt && i == 0) { *dl[i] = lo; }
		else { *dl[i] = vh_range(nm[i], 0.f, alt ? 1.f : lo); }
	}
	p.sensor_interval_min_ms = vh_range("smin", 10.f, 100.f);
	const bool ok = f.initialise_interface(77);
	vh_assert(ok, "buffers allocated");
	vh_assert(f._imu_buffer.get_length() == n0 + 1 && f._output_buffer.get_length() == n0 + 1 && f._output_vert_buffer.get_length() == n0 + 1, "inertial and output buffers span the longest delay in use");
	vh_assert(f._imu_buffer_length == n0 + 1, "length of the inertial buffer");
	const int n = f._obs_buffer_length;
	vh_assert(n >= 2, "observation buffers hold two samples at least");
	vh_assert(n <= n0 + 1, "observation buffers are not longer than the inertial buffer");
	vh_assert(n == n0 + 1 || (float)n * p.sensor_interval_min_ms >= 1.4999f * *dl[top], "observation buffers hold every sample within one and a half delays");
	vh_assert(n == 2 || (float)(n - 1) * p.sensor_interval_min_ms <= 1.5001f * *dl[top], "observation buffers are no longer than that");
	vh_assert(f._imu_sample_delayed.time_us == 77, "time of the fusion horizon");
}
// every IMU sample; a0: in air; a1: bit 0 completes a filter period
HARNESS(imu_intake)
{
	Probe &f = fresh();
	f._control_status.flags.in_air = a0;
	f._imu_buffer.allocate(5);
	const uint64_t t0 = 50000000, dtu = 4000;
	f._time_last_imu = t0;
	f._time_last_move_detect_us = vh_u64("moved"); vh_assume(f._time_last_move_detect_us <= t0);
	const uint64_t moved = f._time_last_move_detect_us;
	f._vibe_metrics = Vector3f(vh_range("v0", 0.f, 1.f), vh_range("v1", 0.f, 1.f), vh_range("v2", 0.f, 1.f));
	f._delta_ang_prev = Vector3f(vh_range("pax", -1.f, 1.f), vh_range("pay", -1.f, 1.f), vh_range("paz", -1.f, 1.f));
	f._delta_vel_prev = Vector3f(vh_range("pvx", -1.f, 1.f), vh_range("pvy", -1.f, 1.f), vh_range("pvz", -1.f, 1.f));
	f._dt_imu_avg = vh_range("avg", 0.001f, 0.02f);
	f._params.is_moving_scaler = vh_range("scaler", 0.1f, 10.f);
	imuSample s{};
	s.time_us = t0 + dtu; s.delta_ang_dt = s.delta_vel_dt = 0.004f;
	s.delta_ang = Vector3f(vh_range("ax", -1.f, 1.f), vh_range("ay", -1.f, 1.f), vh_range("az", -1.f, 1.f));
	s.delta_vel = Vector3f(vh_range("vx", -1.f, 1.f), vh_range("vy", -1.f, 1.f), vh_range("vz", -1.f, 1.f));
	double a[3], p[3], v[3], w[3], m[3];
	for (int i = 0; i < 3; i++) { a[i] = s.delta_ang(i); p[i] = f._delta_ang_prev(i); v[i] = s.delta_vel(i); w[i] = f._delta_vel_prev(i); m[i] = f._vibe_metrics(i); }
	const double c[3] = {a[1] * p[2] - a[2] * p[1], a[2] * p[0] - a[0] * p[2], a[0] * p[1] - a[1] * p[0]};
	const double n0 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2], n1 = (a[0] - p[0]) * (a[0] - p[0]) + (a[1] - p[1]) * (a[1] - p[1]) + (a[2] - p[2]) * (a[2] - p[2]);
	const double n2 = (v[0] - w[0]) * (v[0] - w[0]) + (v[1] - w[1]) * (v[1] - w[1]) + (v[2] - w[2]) * (v[2] - w[2]), na = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
	vh_assume(n0 >= 0.0); vh_assume(n1 >= 0.0); vh_assume(n2 >= 0.0); vh_assume(na >= 0.0);
	const double avg = f._dt_imu_avg, k = f._params.is_moving_scaler;
	f.setIMUData(s);
	const double x0 = 0.99f * m[0] + 0.01f * sqrt(n0), x1 = 0.99f * m[1] + 0.01f * sqrt(n1), x2 = 0.99f * m[2] + 0.01f * sqrt(n2);
	vh_assert_eqd(f._vibe_metrics(0), x0, 1e-4, "coning metric"); vh_assert_eqd(f._vibe_metrics(1), x1, 1e-4, "gyro vibration metric"); vh_assert_eqd(f._vibe_metrics(2), x2, 1e-4, "accelerometer vibration metric");
	for (int i = 0; i < 3; i++) { vh_assert(f._delta_ang_prev(i) == s.delta_ang(i) && f._delta_vel_prev(i) == s.delta_vel(i), "previous sample"); vh_assert(f._newest_high_rate_imu_sample.delta_ang(i) == s.delta_ang(i), "newest sample"); }
	vh_assert(f._time_last_imu == s.time_us, "time of the sample");
	vh_assert_eqd(f._dt_imu_avg, 0.8f * avg + 0.2f * (4000 / 1e6f), 1e-5, "mean sample time");
	const double dt = 4000 / 1e6f, r0 = f._vibe_metrics(1) * 4.0e4f, r1 = f._vibe_metrics(2) * 2.1e2f, r2 = sqrt(na) / dt;
	const bool moving = r0 > k || r1 > k || r2 > 0.05f * k;
	if (a0) { vh_assert(!f._control_status.flags.vehicle_at_rest && f._time_last_move_detect_us == s.time_us, "never at rest in the air"); }
	else {
		vh_assert(f._time_last_move_detect_us == (moving ? s.time_us : moved), "movement is vibration or rotation above the limit");
		vh_assert(f._control_status.flags.vehicle_at_rest == (!moving && s.time_us - moved > 1000000), "at rest after one second without movement");
	}
}

from check import Job, Harness

SPECS = {}


def geo():
    return Harness("geo_lookup.cpp", ["geo_lookup/geo_mag_declination.cpp"])


CELLS = [(c, f) for f in range(3) for c in range(18 * 36)]

SPECS["G01"] = dict(
    bounds="every position in the 648 table cells, three fields, real arithmetic (rounding outside the claim).",
    assumptions=["real-number arithmetic in place of binary32 rounding"],
    harnesses=[(geo(), [Job("geo_cell", c, f, modes=("real",), solvers=("z3",), timeout=20, kinds=("assert",), cross=c % 81 == 0) for c, f in CELLS])])
SPECS["G02"] = dict(
    bounds="safety and finiteness: all finite binary32 latitude/longitude (bit precise); wrap: every cell, longitudes up to one turn outside the table, real arithmetic.",
    assumptions=["finite latitude and longitude; the wrap equality is decided over the reals with 2e-5 slack"],
    harnesses=[(geo(), [Job("geo_safe", a, f, modes=("fp",), timeout=300, fold=False) for f in range(3) for a in (0, 1)] +
                [Job("geo_wrap", k * 1000 + c, f, modes=("real",), timeout=20, solvers=("z3",), kinds=("assert",), cross=c % 81 == 0) for f in range(3)
                 for k, cs in ((0, range(36)), (1, range(36)), (2, range(648)), (3, range(648))) for c in cs])])
SPECS["G03"] = dict(
    bounds="all latitudes on the seam; every interior grid line segment approached within 0.01 degree from both sides; every cell; real arithmetic.",
    assumptions=["real-number arithmetic in place of binary32 rounding"],
    harnesses=[(geo(), [Job("geo_seam", i, f, modes=("real",), kinds=("assert",), solvers=("z3",), timeout=30) for i in range(18) for f in range(3)] +
                [Job("geo_line", c, f, modes=("real",), kinds=("assert",), solvers=("z3",), timeout=30, cross=c % 81 == 0) for f in range(3) for c in range(648)] +
                [Job("geo_line", 1000 + c, f, modes=("real",), kinds=("assert",), solvers=("z3",), timeout=30, cross=c % 81 == 0) for f in range(3) for c in range(612)] +
                [Job("geo_hull", c, f, modes=("real",), kinds=("assert",), solvers=("z3",), timeout=30, cross=c % 81 == 0) for c, f in CELLS])])
SPECS["G04"] = dict(
    bounds="every table cell, real arithmetic",
    assumptions=["real-number arithmetic in place of binary32 rounding"],
    harnesses=[(geo(), [Job(h, c, f, modes=("real",), kinds=("assert",), solvers=("z3",), timeout=30, cross=c % 81 == 0) for h in ("geo_units", "geo_range") for c, f in CELLS])])
SPECS["G05"] = dict(
    bounds="all longitudes at both poles for inclination and strength; all longitudes except the one 10 degree cell per pole in which the stored declination crosses +-pi.",
    assumptions=["real-number arithmetic in place of binary32 rounding", "the declination branch-cut cells (140..150 E south, 170..180 E north) are outside the claim: linear interpolation across +-pi is a documented limitation of the table"],
    harnesses=[(geo(), [Job("geo_pole", k, f, modes=("real",), kinds=("assert",), timeout=60) for k in range(2) for f in (1, 2)] +
                [Job("geo_pole_decl", k, c, modes=("real",), kinds=("assert",), timeout=60) for k in range(2) for c in range(36) if (k, c) not in ((0, 32), (1, 35))])])

# ------------------------------------------------------------------ containers and filters
def rb():
    return Harness("ringbuffer.cpp")


def pats(k):
    """operation sequences of length k that start with a push and end with a pop"""
    return [(1 << k) | (1 << (k - 1)) | (m << 1) for m in range(1 << (k - 2))]


SPECS["B01"] = dict(
    bounds="capacities 1..5, every sequence of 6 push/pop operations (7 for the thorough tier) with arbitrary timestamps from 0.1 s (bit precise).",
    assumptions=["timestamps at least 0.1 s and below 2^62 us (a consumed slot is marked by time 0)"],
    harnesses=[(rb(), [Job("rb_history", n, m, timeout=100, fold=False, cross=False, chunk=40) for n in (1, 2, 3, 4) for m in pats(6)] +
                [Job("rb_history", n, m, timeout=200, fold=False, tier="thorough", cross=False, chunk=40) for n in (2, 3, 4, 5) for m in pats(7)])])
SPECS["B02"] = dict(
    bounds="capacities 1..9, up to capacity+4 pushes with arbitrary timestamps; resizing after 0..4 pushes.",
    assumptions=[],
    harnesses=[(rb(), [Job("rb_output", n, n + 4, fold=False) for n in (1, 2, 3, 5, 9)] + [Job("rb_allocate", p, n, fold=False) for p in range(5) for n in (1, 2, 3)])])


def ml():
    return Harness("mathlib.cpp", ["EKF/utils.cpp"])


def att():
    return Harness("attitude.cpp", ["EKF/utils.cpp"])


R3 = dict(modes=("poly", "real"), kinds=("assert",), timeout=60)
RP = dict(modes=("poly",), kinds=("assert",), timeout=60)
SPECS["M01"] = dict(
    bounds="float, double, int32, uint64 and uint8 arguments, all values (NaN excluded), bit precise; unit conversions for |x| <= 1e6 over the reals.",
    assumptions=["arguments are not NaN"],
    harnesses=[(ml(), [Job("math_limits", t, fold=False, timeout=60) for t in range(5)] + [Job("math_angles", t, **R3) for t in range(2)])])
SPECS["U01"] = dict(
    bounds="exponents -8..8 over the reals; compensated summation bit exact for three magnitude gaps with empty accumulator, carry over the reals.",
    assumptions=[],
    harnesses=[(ml(), [Job("pow_int", n, **R3) for n in range(17)] + [Job("kahan_exact", g, timeout=200) for g in range(3)] + [Job("kahan_carry", 0, **R3)])])
SPECS["A01"] = dict(
    bounds="alpha in [0,1], |x| <= 1e4, one step from any state (inductive), six steps for convergence, scalar and 3-vector; over the reals.",
    assumptions=["real arithmetic with the stated tolerances"],
    harnesses=[(ml(), [Job("alpha_step", 0, **R3), Job("alpha_step", 1, **R3), Job("alpha_params", **R3), Job("alpha_vector", **R3), Job("alpha_converge", **R3)])])
SPECS["U02"] = dict(
    bounds="all quaternions with components in [-1,1], all angles; new yaw for tilts with |roll|,|pitch| <= 1.4 rad; over the reals with exact trigonometric identities.",
    assumptions=["idealised sin/cos/asin/atan2"],
    harnesses=[(att(), [Job("inv_rotmat", **R3), Job("rot312", **R3)] + [Job("yaw_read", s, k, **RP) for s in range(2) for k in range(2)] +
                [Job("yaw_replace", s, e, **RP) for s in range(4) for e in range(9)] + [Job("sequence_choice", timeout=60)])])

# ------------------------------------------------------------------ range finder
def rf():
    return Harness("range_finder.cpp", ["EKF/sensor_range_finder.cpp"])


SPECS["R01"] = dict(
    bounds="one update from every internal state and input (bit precise for the verdict), filter and beam geometry over the reals.",
    assumptions=["sample times are not later than the current time", "matrix entries and offset sine/cosine within [-1,1]"],
    harnesses=[(rf(), [Job("rf_step", modes=("uf", "fp"), timeout=120), Job("rf_filter", **R3), Job("rf_tilt", **R3), Job("rf_settings", timeout=60)])])
SPECS["R02"] = dict(
    bounds="up to 5 readings after an outage of more than 10 s, all readings in 0.2..100 m.",
    assumptions=["regular 50 Hz arrival, good quality, level attitude"],
    harnesses=[(rf(), [Job("rf_stuck", n, modes=("fp",), timeout=200, fold=False, tier="quick" if n < 5 else "thorough") for n in (2, 3, 4, 5)])])

# ------------------------------------------------------------------ IMU down-sampling
def ids():
    return Harness("imu_ds.cpp", ["EKF/imu_down_sampler.cpp"])


UF = dict(modes=("uf", "fp"), timeout=120)
SPECS["I01"] = dict(
    bounds="up to three samples per interval with arbitrary dt, angles, velocities and clipping flags, fresh or after a completed interval (bit precise); one adaptation step from any state over the reals.",
    assumptions=["sample dt 0.1..50 ms, target 2..20 ms"],
    harnesses=[(ids(), [Job("ds_time", n, w, **UF) for n in (1, 2, 3) for w in (0, 1)] + [Job("ds_adapt", **R3), Job("ds_take", **UF)])])
SPECS["I02"] = dict(
    bounds="one sample from any accumulated velocity and rotation, rotation vector components within 1 rad (induction over samples), a single-sample interval for the conversion back to a rotation vector; over the reals.",
    assumptions=["idealised sin/cos/acos", "non-zero rotation vector (zero rotation separately)"],
    harnesses=[(ids(), [Job("ds_vel", **RP), Job("ds_vel0", **R3), Job("ds_ang", **RP)] + [Job("ds_out", **RP)])])

# ------------------------------------------------------------------ geodesy
def geod():
    return Harness("geodesy.cpp", ["geo/geo.cpp"])


SPECS["D01"] = dict(
    bounds="reference within 89 degrees of latitude, positions up to 177 degrees of arc away, over the reals with exact trigonometric identities.",
    assumptions=["idealised sin/cos/asin/acos/atan2", "round trip to longitude decided for reference longitude 0 plus invariance under a common longitude shift"],
    harnesses=[(geod(), [Job("proj_forward", 0, **RP), Job("proj_forward", 1, **RP), Job("proj_reference", **RP), Job("proj_uninit", timeout=60), Job("proj_back", **RP), Job("proj_near", **RP),
                         Job("proj_round_xy", **RP), Job("proj_round_ll", **RP), Job("proj_shift", **RP)])])
SPECS["D02"] = dict(
    bounds="all pairs of positions not closer than 1.4e-3 rad and not within 2.5 degrees of antipodal, and identical positions; over the reals.",
    assumptions=["idealised sin/cos/atan2"],
    harnesses=[(geod(), [Job("gc_distance", 0, **RP), Job("gc_distance", 1, **RP), Job("gc_zero", **RP), Job("dist_local", **R3)])])
SPECS["D03"] = dict(
    bounds="latitudes within 80 degrees, headings 0..6.28 rad, distances up to 18000 km, over the reals.",
    assumptions=["idealised sin/cos/asin/atan2"],
    harnesses=[(geod(), [Job("bearing", 0, **RP), Job("bearing", 1, **RP), Job("bearing", 2, **RP), Job("bearing", 3, **RP), Job("vector_fast", **RP), Job("wp_heading", **RP), Job("wp_line", **UF)])])
SPECS["D04"] = dict(
    bounds="all positions of vehicle and line (library functions uninterpreted).",
    assumptions=["sine, cosine, arctangent are arbitrary but consistent functions"],
    harnesses=[(geod(), [Job("line_dist", **UF)])])
SPECS["D05"] = dict(
    bounds="all positions, centres, radii -10..100 km, start bearings -3.14..6.28 rad and sweeps up to a full turn in both directions (library functions uninterpreted).",
    assumptions=["sine, cosine, arctangent are arbitrary but consistent functions", "the sign of the distance is not claimed"],
    harnesses=[(geod(), [Job("arc_dist", 0, **UF), Job("arc_dist", 1, **UF)])])

# ------------------------------------------------------------------ filter
EKF_SRCS = ["EKF/%s.cpp" % s for s in ("airspeed_fusion control covariance drag_fusion ekf ekf_helper EKFGSF_yaw estimator_interface gps_checks gps_yaw_fusion imu_down_sampler "
                                       "mag_control mag_fusion optflow_fusion sensor_range_finder sideslip_fusion terrain_estimator utils vel_pos_fusion").split()] + ["geo/geo.cpp", "geo_lookup/geo_mag_declination.cpp"]


def eh(name, srcs):
    return Harness(name, ["EKF/%s.cpp" % s if "/" not in s else s for s in srcs.split()])


KA = ["exact real arithmetic (rounding not modelled)", "covariance symmetric on entry", "no variance limit active after the update and innovation gate passed"]
KJ = dict(modes=("poly",), kinds=("assert",), timeout=15, chunk=400)
KB = "every state, covariance, noise, sensor value and parameter, over the reals (no sampling); "
SPECS["K01"] = dict(bounds=KB + "true airspeed above 1 m/s.", assumptions=KA, harnesses=[(eh("ekf_air.cpp", "airspeed_fusion covariance ekf_helper utils"), [Job("air_update", 8, w, **KJ) for w in (0, 1)])])
SPECS["K02"] = dict(bounds=KB + "wind-relative speed above 7 m/s with forward flow.", assumptions=KA, harnesses=[(eh("ekf_beta.cpp", "sideslip_fusion airspeed_fusion covariance ekf_helper utils"), [Job("beta_update", 8, w, **KJ) for w in (0, 1)] +
    [Job("beta_update", 0, 3 + 4 * j, **KJ) for j in range(9)])])
SPECS["K03"] = dict(bounds=KB + "one axis at a time with the full covariance at one generic attitude and field; all three axes together for every attitude and field with correlations between one observed and all unobserved states.",
    assumptions=KA + ["declination limiter inactive"], harnesses=[(eh("ekf_mag.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"),
    [Job("mag_axis", p, a + m, **KJ) for p in (0, 7) for a, ms in ((0, (4, 0)), (1, (4,  8)), (2, (4, 0))) for m in ms] + [Job("mag_cross", j, s, **KJ) for j in range(10) for s in (0, 1) if not s or j < 2])])
SPECS["K09"] = dict(bounds=KB + "two axes in sequence for the horizontal measurements.", assumptions=KA + ["second axis uses the innovation variance it was tested with"],
    harnesses=[(eh("ekf_velpos.cpp", "vel_pos_fusion covariance ekf_helper utils"), [Job("velpos_update", 0, k, **KJ) for k in range(4)] + [Job("velpos_update", p, k, **KJ) for k in (5, 7) for p in (0, 16)])])
SPECS["K04"] = dict(bounds=KB + "both rotation sequences and derivative branches for every attitude with correlations between one quaternion element and all other states; full covariance at one generic attitude.",
    assumptions=KA + ["body axes not aligned with the yaw singularity"], harnesses=[(eh("ekf_yaw.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"),
    [Job("yaw_update", j, m, **KJ) for m in range(4) for j in range(4)] + [Job("yaw_update", 8 + c, m, **KJ) for m in (0, 1) for c in (0, 16)] + [Job("yaw_update", 0, m, **KJ) for m in (4, 8, 16, 32, 65, 5, 128)])])
SPECS["K05"] = dict(bounds=KB + "every attitude and antenna offset with correlations between one quaternion element and all other states; full covariance at one generic attitude.",
    assumptions=KA + ["antenna more than 30 degrees from the vertical and not pointing due east or west"], harnesses=[(eh("ekf_gpsyaw.cpp", "gps_yaw_fusion covariance ekf_helper utils airspeed_fusion"),
    [Job("gpsyaw_update", j, m, **KJ) for m in (0, 1) for j in range(4)] + [Job("gpsyaw_update", 8 + c, 0, **KJ) for c in (0, 16)] + [Job("gpsyaw_update", 0, m, **KJ) for m in (32, 65, 128)])])
SPECS["K06"] = dict(bounds=KB + "every horizontal field with correlations between one field state and all other states; full covariance at one generic field.",
    assumptions=KA + ["limiter inactive after the update (decided separately)"], harnesses=[(eh("ekf_decl.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"),
    [Job("decl_update", j, m, **KJ) for m in (0, 1, 2, 3) for j in (0, 1)] + [Job("decl_source", modes=("uf", "fp"), timeout=30)] + [Job("decl_update", 8 + c, 0, **KJ) for c in (0, 16)] + [Job("decl_limit", k, m, **KJ) for m in (0, 1, 2) for k in range(6)])])
SPECS["K07"] = dict(bounds=KB + "every attitude, velocity, height and sensor offset with correlations between one observed and all unobserved states; full covariance for each axis at one generic attitude and velocity.",
    assumptions=KA + ["measurement quality at its best or worst"], harnesses=[(eh("ekf_flow.cpp", "optflow_fusion covariance ekf_helper utils airspeed_fusion"),
    [Job("flow_cross", j, 0, **KJ) for j in range(7)] + [Job("flow_cross", 0, m, **KJ) for m in (1, 2, 4)] + [Job("flow_var", m, q, modes=("real",), timeout=30) for m, q in ((0, 0), (0, 255), (1, 100), (50, 20), (50, 51), (254, 255), (254, 100), (255, 255))] + [Job("flow_axis", p, a, **KJ) for p in (0, 7) for a in (0, 1)])])
SPECS["K08"] = dict(bounds=KB + "each axis with the full covariance at one generic attitude and velocity; the lateral axis for every attitude and velocity with correlations between one of attitude or velocity and the wind.",
    assumptions=KA + ["the other axis is outside its gate"], harnesses=[(eh("ekf_drag.cpp", "drag_fusion covariance ekf_helper utils airspeed_fusion"),
    [Job("drag_update", p, a, **KJ) for p in (0, 7) for a in (0, 1, 13)] + [Job("drag_update", j, a, **KJ) for j in range(7) for a in (3,)] + [Job("drag_update", 0, 7, **KJ), Job("drag_off", modes=("uf", "fp"), timeout=30)])])
SPECS["E01"] = dict(bounds=KB + "covariance arbitrary; attitude-dependent measurements at one generic attitude.", assumptions=KA[:1] + ["covariance symmetric on entry", "innovation variance not below the noise (well conditioned)"], harnesses=[
    (eh("ekf_air.cpp", "airspeed_fusion covariance ekf_helper utils"), [Job("air_update", 9, w, **KJ) for w in (0, 1)]),
    (eh("ekf_beta.cpp", "sideslip_fusion airspeed_fusion covariance ekf_helper utils"), [Job("beta_update", 9, w, **KJ) for w in (0, 1)]),
    (eh("ekf_mag.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"), [Job("mag_reject", m, w, **KJ) for m in range(1, 8) for w in (0, 1)]),
    (eh("ekf_flow.cpp", "optflow_fusion covariance ekf_helper utils airspeed_fusion"), [Job("flow_reject", m, 0, **KJ) for m in range(1, 4)]),
    (eh("ekf_yaw.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"), [Job("yaw_update", 8, m + 256, **KJ) for m in (0, 1)]),
    (eh("ekf_gpsyaw.cpp", "gps_yaw_fusion covariance ekf_helper utils airspeed_fusion"), [Job("gpsyaw_update", 8, 256, **KJ)]),
    (eh("ekf_velpos.cpp", "vel_pos_fusion covariance ekf_helper utils"), [Job("velpos_update", 0, 8 + k, **KJ) for k in range(4)] + [Job("velpos_update", 1, 8 + k, **KJ) for k in (0, 2)] + [Job("velpos_update", 0, 32 + k, **KJ) for k in range(4)])])
SPECS["C01"] = dict(bounds=KB + "one prediction step.", assumptions=["exact real arithmetic (rounding not modelled)", "covariance symmetric on entry", "no variance limit active after the step"], harnesses=[
    (eh("ekf_cov.cpp", "covariance ekf_helper utils airspeed_fusion"), [Job("cov_predict", p, 56, **KJ) for p in range(6)] + [Job("cov_predict", 6, m, **KJ) for m in (8, 9, 3 + 48, 4 + 48, 48, 112 + 8, 128 + 48, 256 + 48, 256 + 48 + 5, 512 + 48 + 8)])])
SPECS["C02"] = dict(bounds="every covariance with entries within 1e7 (bit precise), every mode.", assumptions=["accelerometer bias variances not above their limit on entry"], harnesses=[
    (eh("ekf_limits.cpp", "covariance ekf_helper utils airspeed_fusion"), [Job("cov_limits", p, m, modes=("uf", "fp"), timeout=60, chunk=100) for p in range(6) for m in (0, 1, 6, 7, 15, 3)] + [Job("cov_sym", 0, m, **KJ) for m in (0, 1, 6, 7, 15, 3)] + [Job("cov_bias", p, m, modes=("uf", "fp"), timeout=60) for p, m in ((0, 0), (4, 0), (6, 1))] + [Job("cov_badacc", p, 0, modes=("poly", "real"), timeout=60) for p in range(3)])])
SPECS["E02"] = dict(bounds=KB + "attitude-dependent measurements at one generic attitude.", assumptions=KA[:1] + ["covariance symmetric on entry", "innovation variance not below the noise (well conditioned)"], harnesses=[
    (eh("ekf_air.cpp", "airspeed_fusion covariance ekf_helper utils"), [Job("air_update", 10, w, **KJ) for w in (0, 1)]),
    (eh("ekf_beta.cpp", "sideslip_fusion airspeed_fusion covariance ekf_helper utils"), [Job("beta_update", 10, w, **KJ) for w in (0, 1)]),
    (eh("ekf_yaw.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"), [Job("yaw_update", 8, m + 512, **KJ) for m in (0, 1)]),
    (eh("ekf_gpsyaw.cpp", "gps_yaw_fusion covariance ekf_helper utils airspeed_fusion"), [Job("gpsyaw_update", 8, 512, **KJ)]),
    (eh("ekf_velpos.cpp", "vel_pos_fusion covariance ekf_helper utils"), [Job("velpos_unhealthy", o, r, **KJ) for o in range(6) for r in (0, 10, 23)])])
SPECS["E03"] = dict(bounds=KB + "attitude-dependent measurements at one generic attitude.", assumptions=KA[:1] + ["covariance symmetric on entry", "innovation variance below the noise by 0.1 %"], harnesses=[
    (eh("ekf_air.cpp", "airspeed_fusion covariance ekf_helper utils"), [Job("air_update", 11, w, **KJ) for w in (0, 1)]),
    (eh("ekf_beta.cpp", "sideslip_fusion airspeed_fusion covariance ekf_helper utils"), [Job("beta_update", 11, w, **KJ) for w in (0, 1)]),
    (eh("ekf_yaw.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"), [Job("yaw_update", 8, m + 1024, **KJ) for m in (0, 1)]),
    (eh("ekf_gpsyaw.cpp", "gps_yaw_fusion covariance ekf_helper utils airspeed_fusion"), [Job("gpsyaw_update", 8, 1024, **KJ)]),
    (eh("ekf_mag.cpp", "mag_fusion covariance ekf_helper utils airspeed_fusion"), [Job("mag_ill", 1, a, **KJ) for a in range(3)]),
    (eh("ekf_flow.cpp", "optflow_fusion covariance ekf_helper utils airspeed_fusion"), [Job("flow_ill", 0, a, **KJ) for a in range(2)])])
LOG = dict(modes=("uf", "fp"), timeout=60)
SPECS["L01"] = dict(bounds="every combination of status flags and test ratios; bit precise.", assumptions=["test ratios are not NaN and not negative"], harnesses=[
    (eh("ekf_status.cpp", "ekf_helper estimator_interface utils covariance airspeed_fusion"), [Job("soln_status", 0, 0, **LOG), Job("test_status", 0, 0, modes=("uf", "poly", "real"), timeout=60), Job("fault_word", 0, 0, **LOG)])])
SPECS["L02"] = dict(bounds="every combination of aiding flags, any variances, innovations and sensor limits.", assumptions=KA[:1], harnesses=[
    (eh("ekf_status.cpp", "ekf_helper estimator_interface utils covariance airspeed_fusion"), [Job("accuracy", 0, m, **KJ) for m in range(8)] + [Job("accuracy", 1, m, **KJ) for m in (0, 1, 2, 3, 5)] + [Job("accuracy", 2, m, **KJ) for m in range(32)] + [Job("ctrl_limits", 0, 0, modes=("poly", "real"), timeout=60)])])
TER = eh("ekf_terrain.cpp", "terrain_estimator optflow_fusion sensor_range_finder covariance ekf_helper estimator_interface utils airspeed_fusion")
SPECS["T01"] = dict(bounds="one prediction or fusion step; flow at one generic attitude, one axis moving at a time.", assumptions=KA[:1], harnesses=[
    (TER, [Job("hagl_fuse", k, 0, **KJ) for k in range(3)] + [Job("terr_predict", a, b, **KJ) for a in (0, 1) for b in (0, 1)] + [Job("terr_flow", a, m, **KJ) for a in (0, 1) for m in range(4)])])
SPECS["T02"] = dict(bounds="every mode, time and sensor state; one step.", assumptions=KA[:1], harnesses=[
    (TER, [Job("terr_valid", 0, 0, **LOG), Job("terr_init", 0, 0, modes=("poly", "real"), timeout=60), Job("terr_init", 1, 0, modes=("poly", "real"), timeout=60)])])
WND = Harness("wind_est.cpp", ["airdata/WindEstimator.cpp"])
SPECS["W01"] = dict(bounds="one measurement of airspeed or sideslip; sideslip at one generic attitude.", assumptions=KA[:2], harnesses=[
    (WND, [Job("wind_tas", a, m, **KJ) for a, m in ((0, 0), (0, 1), (1, 0), (1, 2), (2, 0))] + [Job("wind_beta", a, m + 4, **KJ) for a, m in ((0, 0), (0, 1), (1, 0), (1, 2), (2, 0))])])
SPECS["W02"] = dict(bounds="one step from any state.", assumptions=KA[:1], harnesses=[
    (WND, [Job("wind_init", a, m, **KJ) for a in (0, 1) for m in (0, 1)] + [Job("wind_predict", a, 0, **KJ) for a in range(4)])])
SPECS["W03"] = dict(bounds="every time, innovation, variance, covariance and state; bit precise.", assumptions=["times within 11 days"], harnesses=[
    (WND, [Job("wind_gate", g, 0, **LOG) for g in (1, 3, 255)] + [Job("wind_rate", a, 0, **LOG) for a in (0, 1)] + [Job("wind_sane", 0, 0, **LOG)])])
GSF = Harness("gsf.cpp", ["EKF/EKFGSF_yaw.cpp", "EKF/utils.cpp"])
PRL = dict(modes=("poly", "real"), timeout=60)
SPECS["N01"] = dict(bounds="one prediction or update of one model; prediction at one attitude per Euler sequence.", assumptions=KA[:2], harnesses=[
    (GSF, [Job("gsf_update", k, m, **KJ) for k, m in ((0, 0), (4, 1), (2, 2))] + [Job("gsf_refuse", 0, 0, **PRL)] + [Job("gsf_predict", k, m, **KJ) for k, m in ((0, 0), (4, 1), (2, 2))])])
SPECS["N02"] = dict(bounds="one cycle of the bank of five models from any weights and states (diagonal covariances).", assumptions=KA[:1], harnesses=[
    (GSF, [Job("gsf_composite", a, 0, **KJ) for a in (0, 1)] + [Job("gsf_weights", m, 0, **KJ) for m in (0, 1, 16, 10, 31)] + [Job("gsf_start", a, 0, **PRL) for a in range(4)])])
SPECS["N03"] = dict(bounds="one step of one model from any attitude matrix.", assumptions=KA[:1], harnesses=[
    (GSF, [Job("gsf_ahrs", a, m, **KJ) for a in range(3) for m in (0, 1)] + [Job("gsf_bias", 0, 0, **LOG), Job("gsf_gain", 0, 0, **PRL), Job("gsf_gain", 1, 0, **PRL)] + [Job("gsf_align", a, 0, **KJ) for a in range(3)])])
SNS = Harness("sensor_intake.cpp", ["EKF/estimator_interface.cpp", "EKF/imu_down_sampler.cpp", "geo/geo.cpp"])
UP = dict(modes=("uf", "poly", "fp"), timeout=60)
SPECS["S01"] = dict(bounds="one sample from any state of timing, up to four averaged.", assumptions=["times from two seconds to 142 years; delays up to one second"], harnesses=[
    (SNS, [Job("intake", k, a, **UP) for k in range(7) for a in range(4)] + [Job("intake_gps", o, a, **UP) for o in (0, 1) for a in range(6)])])
SPECS["S02"] = dict(bounds="up to four magnetometer or barometer and seven inertial samples averaged.", assumptions=KA[:1], harnesses=[
    (SNS, [Job("average", k, n, modes=("uf", "poly", "real"), timeout=60) for k in (0, 1) for n in (2, 3, 4)] + [Job("intake_drag", 0, a, modes=("uf", "poly", "real"), timeout=60) for a in range(4)])])
SPECS["V01"] = dict(bounds="longest delay within 10, 20, 120 or 180 ms (10 ms wide) of every sensor in turn, any shorter delays and sample intervals.", assumptions=[], harnesses=[
    (SNS, [Job("buffers", k, n, modes=("uf", "fp"), timeout=60, fold=True) for k in range(8) for n in (1, 2, 18)] + [Job("buffers", k, 118, modes=("uf", "fp"), timeout=60, fold=True) for k in range(1, 8)] + [Job("buffers", k, n, modes=("uf", "fp"), timeout=60, fold=True) for k, n in ((4, 112), (7, 112), (7, 212), (3, 912), (4, 912), (5, 912), (6, 912), (7, 912))])])
SPECS["S03"] = dict(bounds="one sample from any state.", assumptions=KA[:1], harnesses=[
    (SNS, [Job("imu_intake", a, 0, **PRL) for a in (0, 1)])])
GPS = eh("ekf_gps.cpp", "gps_checks ekf_helper control covariance estimator_interface utils airspeed_fusion sensor_range_finder")
GPS = Harness("ekf_gps.cpp", GPS.repo_srcs + ["geo/geo.cpp", "geo_lookup/geo_mag_declination.cpp"])
GPD = Harness("ekf_gpsdrift.cpp", GPS.repo_srcs[:-2] + ["geo_lookup/geo_mag_declination.cpp"])
SPECS["Q01"] = dict(bounds="one fix from any state of the checks, 0.2 s after the previous one.", assumptions=KA[:1], harnesses=[
    (GPS, [Job("gps_flags", a, 0, **UP) for a in (0, 1)]),
    (GPD, [Job("gps_drift", a, b, **PRL) for a, b in ((0, 0), (0, 1), (1, 1), (2, 0))])])
SPECS["Q02"] = dict(bounds="one fix at one place from any state; origin from a symbolic altitude.", assumptions=KA[:1], harnesses=[
    (GPS, [Job("gps_origin", 0, m, **UP) for m in range(6)] + [Job("gps_origin", a, 0, **UP) for a in (1, 2, 3)])])

STR = eh("ekf_strap.cpp", "ekf ekf_helper covariance utils")
SPECS["P01"] = dict(bounds="one step; turning at one generic attitude, every attitude without turning.", assumptions=KA[:1] + ["increments, rates and states within flight ranges"], harnesses=[
    (STR, [Job("predict_state", a, b, **PRL) for a, b in ((0, 0), (1, 1), (2, 0), (2, 2))])])
SPECS["O01"] = dict(bounds="one sample; history of two or three entries; turning at one generic attitude.", assumptions=KA[:1] + ["increments and states within flight ranges"], harnesses=[
    (STR, [Job("output_ins", a, 0, **PRL) for a in (0, 1)] + [Job("output_correct", n, m, **PRL) for n, m in ((2, 0), (3, 0), (2, 1), (2, 2), (2, 4))])])
RST = eh("ekf_reset.cpp", "ekf_helper covariance utils optflow_fusion estimator_interface sensor_range_finder")
SPECS["X01"] = dict(bounds="one reset from any state with an output history of three entries.", assumptions=KA[:1], harnesses=[
    (RST, [Job("vel_reset", a, 0, **PRL) for a in range(8)] + [Job("pos_reset", a, 0, **PRL) for a in range(6)] + [Job("hgt_reset", a, b, **PRL) for a in range(8) for b in ((0, 1) if a in (1, 2, 6) else (0,))])])
SPECS["X03"] = dict(bounds="one call from any state; the map projection itself is decided by D01.", assumptions=KA[:1], harnesses=[
    (RST, [Job("origin_move", a, b, **PRL) for a in (0, 1) for b in (0, 1)])])
YRS = eh("ekf_yawreset.cpp", "ekf_helper covariance airspeed_fusion")
SPECS["X02"] = dict(bounds="one reset from every attitude to one generic attitude, with an output history of two entries; the replacement of the yaw itself is decided by U02.", assumptions=KA[:2] + ["attitude of about unit length"], harnesses=[
    (YRS, [Job("yaw_reset", a, b, **PRL) for a in range(3) for b in (0, 1)] + [Job("vision_rot", 0, 0, **PRL)])])

PROPS = []


def P(id, title, statement, over, all, why, files, mech, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), all=all, why=why, files=files.split(), mech=mech, note=note, na=na))


GF = "geo_lookup/geo_mag_declination.cpp geo_lookup/geo_magnetic_tables.hpp"
P("G01", "Earth magnetic field lookup is the bilinear interpolation of the published grid",
  "For every latitude in [-90, 90] and longitude in [-180, 180], the returned magnetic declination, inclination and strength equal the bilinear interpolation of the four surrounding nodes of the published 10 degree grid.",
  "inputs", "every position in all 648 grid cells, all three fields",
  "the repository's tests compare a few hundred grid positions with a table generated by the same script; positions between nodes and on cell edges are not quantified over",
  GF, [("get_table_data", "geo_lookup/geo_mag_declination.cpp"), ("get_lookup_table_index", "geo_lookup/geo_mag_declination.cpp")],
  "All positions per cell, real arithmetic (rounding excluded).")
P("G02", "Magnetic field lookup is total: any finite position, clamped and wrapped",
  "For every finite latitude and longitude the lookup returns a finite value without reading outside the grid. A latitude beyond a pole gives the value of the pole, and a longitude up to one turn outside [-180, 180] gives the value of the equivalent longitude.",
  "inputs", "every finite 32-bit latitude and longitude",
  "tests only pass positions on the grid; out-of-range positions and the exact upper edges are never exercised",
  GF, [("constrain/wrap in get_table_data", "geo_lookup/geo_mag_declination.cpp")],
  "Memory safety and conversions are bit precise over all finite floats; the wrap equality is decided over the reals.")
P("G03", "Magnetic field lookup is continuous across cells and the antimeridian",
  "The two names of the antimeridian (+180 and -180 degrees) give the same declination, inclination and strength, the value does not jump when a grid line is crossed, and it never leaves the range of the surrounding nodes.",
  "inputs", "all latitudes on the seam, every grid line segment, every cell",
  "continuity relates pairs of positions; tests look at single positions on the grid",
  GF, [("get_table_data", "geo_lookup/geo_mag_declination.cpp"), ("first and last table columns", "geo_lookup/geo_magnetic_tables.hpp")],
  "All positions per cell, real arithmetic.")
P("G04", "Magnetic field units agree and values are physical everywhere",
  "Degrees and radians versions of declination and inclination, and gauss and tesla versions of strength, describe the same value at every position. Declination stays within +-180 degrees, inclination within +-90 degrees and strength within the Earth's 20 to 70 microtesla.",
  "inputs", "every position of the grid", "tests sample node positions with the unit they happen to use",
  GF, [("get_mag_*_degrees, get_mag_strength_tesla", "geo_lookup/geo_mag_declination.cpp")], "All positions per cell, real arithmetic.")
P("G05", "At the poles the magnetic field does not depend on how the longitude is named",
  "At either pole inclination and strength are the same for every longitude, and the horizontal field direction in space implied by the declination is the same for every longitude.",
  "inputs", "every longitude at both poles (the one grid cell per pole where the stored angle passes +-180 degrees excluded)",
  "tests never relate values at different longitudes", GF, [("pole rows", "geo_lookup/geo_magnetic_tables.hpp")], "All longitudes outside the two branch-cut cells, real arithmetic.")
P("B01", "Measurement buffer returns the newest eligible sample exactly once",
  "For any history of pushes and time-ordered pops, popping the measurement buffer at a fusion time returns the newest stored sample that is not later than the fusion time and less than 100 ms older than it, if there is one. The same sample is never returned twice, older samples are dropped when a newer one is taken, and a pop that returns false changes nothing.",
  "histories inputs", "operation histories up to length 6 (7 thorough), capacities 1 to 5, arbitrary timestamps",
  "tests check single hand-written push/pop sequences; wrap-around and interleaving with arbitrary timestamps are not sampled",
  "EKF/RingBuffer.h", [("RingBuffer::push, pop_first_older_than", "EKF/RingBuffer.h")],
  "Oracle is an independent list model. Timestamps from 0.1 s (a slot with time 0 counts as empty).")
P("B02", "Ring buffer stores exactly the last N samples and resizes cleanly",
  "After any number of pushes the buffer holds exactly the most recent min(pushes, capacity) samples, the oldest and newest accessors and indexed access return the right ones, and re-allocating gives an empty buffer of the requested capacity.",
  "histories inputs", "capacities 1 to 9, up to capacity+4 pushes",
  "tests fix one capacity and a few pushes", "EKF/RingBuffer.h", [("RingBuffer::allocate, push, get_oldest, get_newest", "EKF/RingBuffer.h")])
P("M01", "Basic limits and unit conversion helpers obey their definitions",
  "min, max and constrain return a value within the given bounds that equals the input when it is inside, for every supported type including unsigned ones. Degree/radian conversions are exact inverses with factor pi/180.",
  "inputs", "all arguments except NaN", "tests sample a few numbers", "mathlib/mathlib.h", [("math::min/max/constrain/radians/degrees", "mathlib/mathlib.h")])
P("U01", "Integer powers and compensated summation are exact",
  "ecl::powf(x, n) equals x multiplied by itself n times for every integer exponent, positive or negative. Kahan summation loses no more than the final rounding and hands the rounding remainder to the next call.",
  "inputs", "exponents -8..8, all bases; all binary32 operands for the summation", "tests try some powers; no test covers the compensation for all operands",
  "EKF/utils.cpp EKF/utils.hpp", [("ecl::powf, kahanSummation", "EKF/utils.cpp")])
P("U02", "Attitude utilities match their rotation and yaw replacement keeps tilt",
  "The inverse rotation matrix from a quaternion is the transpose of its rotation matrix. The Tait-Bryan 312 matrix is the product of its three rotations. Reading yaw from a matrix gives the yaw it was built from in both sequences, and replacing yaw changes only heading: the new yaw is the requested one and the direction of the vertical in body axes does not move.",
  "inputs", "all attitudes away from the Euler singularity of the sequence used", "tests compare a handful of attitudes",
  "EKF/utils.cpp", [("quatToInverseRotMat, taitBryan312ToRotMat, getEuler321Yaw, getEuler312Yaw, updateYawInRotMat", "EKF/utils.cpp")],
  "Over the reals with exact trigonometric identities.")
P("A01", "Alpha low-pass filter: convex, time-constant respecting, never overshoots",
  "One update of the low-pass filter moves the state the fraction alpha of the way towards the sample, so it never leaves the interval between old state and sample, a constant input is a fixed point, and the distance to a constant input shrinks by exactly (1-alpha) each step. Alpha follows the documented time constant or cut-off relation and is always within [0,1].",
  "inputs histories", "all states and samples, one inductive step; six steps for convergence", "tests run the filter on single signals",
  "AlphaFilter/AlphaFilter.hpp", [("AlphaFilter::update, setParameters", "AlphaFilter/AlphaFilter.hpp")])
RF = "EKF/sensor_range_finder.cpp EKF/sensor_range_finder.hpp"
P("R01", "Range finder readings are used only when valid, and converted with the tilt",
  "After each update a range reading is declared healthy only if a sample arrived recently, its quality has not been zero within the hysteresis time, the vehicle tilt is below the limit, the reading lies within the sensor limits and the sensor is not judged stuck. The reported vertical distance is the reading times the cosine of the beam's tilt, which follows from vehicle attitude and mounting pitch.",
  "inputs histories", "one update from every internal state (inductive over update histories)",
  "tests walk through a few scripted readings", RF, [("SensorRangeFinder::runChecks, updateValidity, updateSensorToEarthRotation, isTiltOk, isDataInRange", "EKF/sensor_range_finder.cpp")])
P("R02", "Stuck range finder detection: a frozen sensor after an outage is not trusted",
  "If readings resume after more than ten seconds without valid data and do not vary by more than the configured stuck threshold, the range finder is not reported healthy. As soon as the readings since then span more than that threshold the stuck condition clears.",
  "histories inputs", "up to 4 (5 thorough) readings after the outage, all values",
  "tests use one constant and one varying sequence", RF, [("SensorRangeFinder::updateStuckCheck", "EKF/sensor_range_finder.cpp")])
P("I01", "IMU down-sampling keeps time and triggers at the target interval",
  "Each output of the IMU down-sampler carries exactly the sum of the angle and velocity integration intervals of the samples in it and the time of the newest one. Clipping of any of them is kept per axis, an output is produced when the accumulated time reaches the adapted target, and nothing is counted twice or lost when the output is taken.",
  "histories inputs", "up to three samples per interval, arbitrary intervals and values, with and without a previous output",
  "tests feed constant-rate data", "EKF/imu_down_sampler.cpp EKF/imu_down_sampler.hpp", [("ImuDownSampler::update, getDownSampledImuAndTriggerReset", "EKF/imu_down_sampler.cpp")])
P("I02", "IMU down-sampling composes rotations and rotates velocity increments properly",
  "The down-sampled delta angle is the rotation vector of the product of the individual rotations. Each velocity increment is expressed in the body frame at the end of the interval with a rotation that preserves its length, so the output describes the same motion as the raw samples.",
  "histories inputs", "one step from any accumulated rotation and velocity (inductive over samples)", "tests use constant rates about one axis",
  "EKF/imu_down_sampler.cpp", [("ImuDownSampler::update", "EKF/imu_down_sampler.cpp")], "Over the reals with exact trigonometric identities.")
GE = "geo/geo.cpp geo/geo.h"
P("D01", "Map projection is azimuthal equidistant and its two directions are inverse",
  "Projecting a position gives local north and east whose length is the great-circle distance from the reference and whose direction is the initial bearing. Reprojecting is the exact inverse, the reference itself maps to zero, and an uninitialised projection fails without writing its outputs.",
  "inputs", "references within 89 degrees latitude, positions up to 177 degrees of arc away", "tests of projection do not exist in this repository; callers sample a few positions",
  GE, [("map_projection_init_timestamped, project, reproject, reference", "geo/geo.cpp")], "Over the reals with exact trigonometric identities.")
P("D02", "Great-circle and local distances are true distances",
  "The distance between two positions is the earth radius times the central angle between them, symmetric, zero for the same position, and never above half the circumference. The three-dimensional variants combine horizontal and vertical parts by Pythagoras.",
  "inputs", "all pairs of positions except near-coincident and near-antipodal ones", "no test in this repository calls them", GE,
  [("get_distance_to_next_waypoint, get_distance_to_point_global_wgs84, mavlink_wpm_distance_to_point_local", "geo/geo.cpp")], "Over the reals.")
P("D03", "Bearings, vectors and waypoint construction follow the great circle",
  "The bearing to a waypoint is the initial direction of the great circle, the vector to it has the great-circle components, adding a local vector moves by that displacement, and a waypoint built from heading and distance lies at that distance along that heading.",
  "inputs", "latitudes within 80 degrees, distances up to 18000 km", "no test in this repository calls them", GE,
  [("get_bearing_to_next_waypoint, get_vector_to_next_waypoint, waypoint_from_heading_and_distance, add_vector_to_global_position, create_waypoint_from_line_and_dist", "geo/geo.cpp")], "Over the reals.")
P("D04", "Cross-track error to a line has the right sign, distance, bearing and end test",
  "For a line between two waypoints the reported distance is the distance to its end times the sine of the angle between track and bearing to the end, the bearing is perpendicular to the track towards it, and past_end is set exactly when the end lies behind. No result is given at the end point itself.",
  "inputs", "all positions of vehicle and line", "no test in this repository calls it", GE, [("get_distance_to_line", "geo/geo.cpp")], "Library functions uninterpreted.")
P("D05", "Distance to an arc: circle inside the sector, nearer end point outside it",
  "For an arc given by centre, radius, start bearing and signed sweep, a vehicle inside the swept sector gets the distance to the circle and a radial bearing towards it. A vehicle outside gets distance and bearing to the nearer end point, with past_end set when that is the arc end. A radius below 0.1 m gives no result.",
  "inputs", "all positions, radii, starts and both sweep directions", "no test in this repository calls it", GE, [("get_distance_to_arc", "geo/geo.cpp")], "Library functions uninterpreted; the magnitude of the distance is claimed, not its sign.")
EKN = "Over the reals, with the measurement model derived independently of the generated code."
P("K01", "Airspeed fusion is the Kalman update for the airspeed measurement",
  "Fusing a true airspeed measurement moves the estimate by the Kalman gain times predicted minus measured airspeed and reduces the covariance by K H P, with H the derivative of the length of wind-relative velocity and R from noise and EAS/TAS ratio. In wind dead reckoning all states are corrected, otherwise only the wind.",
  "inputs", "all states, symmetric covariances, measurements and noise settings with the innovation inside its gate and no variance limit active",
  "tests replay one trajectory; they cannot tell a wrong gain entry that still converges", "EKF/airspeed_fusion.cpp EKF/covariance.cpp EKF/ekf_helper.cpp",
  [("Ekf::fuseAirspeed, checkAndFixCovarianceUpdate, fixCovarianceErrors, fuse", "EKF/airspeed_fusion.cpp")], EKN)
KAL = "all states, symmetric covariances, measurements and noise settings with the innovation inside its gate and no variance limit active"
KWHY = "tests replay one trajectory; they cannot tell a wrong gain or Jacobian entry that still converges"
KMECH = "EKF/covariance.cpp EKF/ekf_helper.cpp"
P("K02", "Sideslip fusion is the Kalman update for zero sideslip",
  "Fusing a zero sideslip observation moves the estimate by the Kalman gain times the predicted ratio of lateral to forward wind-relative body velocity and reduces the covariance by K H P, with H the derivative of that ratio with respect to attitude, velocity and wind. In wind-only mode only the wind states are corrected.",
  "inputs", KAL, KWHY, "EKF/sideslip_fusion.cpp " + KMECH, [("Ekf::fuseSideslip, updateSideslip helpers", "EKF/sideslip_fusion.cpp")], EKN)
P("K03", "3-axis magnetometer fusion is the sequential Kalman update of the body field",
  "Fusing the three magnetometer axes moves the estimate, axis by axis, by the Kalman gain times predicted minus measured body field (earth field rotated into the body plus body bias) and reduces the covariance by K H P, with H the derivative of that prediction. Only field states move shortly after yaw alignment when the other states are protected.",
  "inputs", KAL, KWHY, "EKF/mag_fusion.cpp " + KMECH, [("Ekf::fuseMag", "EKF/mag_fusion.cpp")], EKN)
P("K09", "Velocity and position fusion is the Kalman update for a direct observation",
  "Fusing a velocity or position observation moves the estimate by the covariance column of the observed state over the innovation variance (its variance plus observation variance) times the innovation, and reduces the covariance by K H P. After detected bad vertical acceleration a failing vertical innovation is limited to its gate instead of being rejected.",
  "inputs", KAL, KWHY, "EKF/vel_pos_fusion.cpp " + KMECH, [("Ekf::fuseHorizontalVelocity, fuseVerticalVelocity, fuseHorizontalPosition, fuseVerticalPosition, fuseVelPosHeight", "EKF/vel_pos_fusion.cpp")], EKN)
P("K04", "Heading fusion is the Kalman update for the Euler yaw in either sequence",
  "Fusing a heading moves the estimate by the Kalman gain times the wrapped difference between predicted and measured yaw and reduces the covariance by K H P, where H is the derivative of the 321 or 312 yaw angle with respect to attitude. Without gate clearance the heading is rejected and flagged, or limited to the gate while the vehicle is still tilt-aligned on the ground.",
  "inputs", KAL, KWHY, "EKF/mag_fusion.cpp " + KMECH, [("Ekf::fuseYaw321, fuseYaw312, updateQuaternion", "EKF/mag_fusion.cpp")], EKN)
P("K05", "GPS antenna heading fusion is the Kalman update for the antenna baseline yaw",
  "Fusing a dual-antenna GPS heading moves the estimate by the Kalman gain times the wrapped difference between the predicted azimuth of the antenna baseline and the measured heading, and reduces the covariance by K H P, with H the derivative of that azimuth. A baseline closer than 30 degrees to the vertical is not fused.",
  "inputs", KAL, KWHY, "EKF/gps_yaw_fusion.cpp " + KMECH, [("Ekf::fuseGpsYaw, updateQuaternion", "EKF/gps_yaw_fusion.cpp")], EKN)
P("K06", "Declination fusion keeps the earth field's azimuth: Kalman update and limiter",
  "Fusing the magnetic declination corrects the estimate with the Kalman gain for the azimuth of the horizontal earth field, with innovation limited to half a radian. The limiter keeps the field at its minimum strength and rotates it back to the tolerated declination. The declination used comes from GPS, from the parameter, or is zero, as configured.",
  "inputs", KAL, KWHY, "EKF/mag_fusion.cpp " + KMECH, [("Ekf::fuseDeclination, limitDeclination, getMagDeclination", "EKF/mag_fusion.cpp")], EKN)
P("K07", "Optical flow fusion is the sequential Kalman update for both flow axes",
  "Fusing compensated flow rates moves the estimate by the Kalman gains times predicted minus measured flow and reduces the covariance by K H P. The prediction is the body velocity of the sensor, including lever arm, over the range along the optical axis to the terrain. Observation noise follows measurement quality.",
  "inputs", KAL, KWHY, "EKF/optflow_fusion.cpp " + KMECH, [("Ekf::fuseOptFlow, calcOptFlowMeasVar", "EKF/optflow_fusion.cpp")], EKN)
P("K08", "Drag fusion is the Kalman update of the wind for body specific force",
  "Fusing multi-rotor drag corrects only the wind, by the Kalman gain times predicted minus measured specific force (drag quadratic in relative wind, opposing it, over the ballistic coefficient), within a five sigma gate. The covariance is reduced accordingly, with H linearised at the airspeed implied by the measured force. A ballistic coefficient below one disables it.",
  "inputs", KAL, KWHY, "EKF/drag_fusion.cpp " + KMECH, [("Ekf::fuseDrag", "EKF/drag_fusion.cpp")], EKN)
P("E01", "A rejected measurement changes nothing and is flagged as exactly what it is",
  "When the innovation of any measurement (velocity, position, magnetometer, heading, GPS heading, airspeed, sideslip, optical flow) exceeds its gate, state and covariance stay exactly as they were, no fusion time is recorded, and the rejection flag of that measurement axis is raised while the flags of other measurements keep their values. An accepted axis of a multi-axis measurement is not flagged.",
  "inputs faults", "all states, covariances, measurements, noises and gates with the innovation outside its gate, and every combination of rejected axes",
  "tests inject one or two outliers and look at a validity output", "EKF/airspeed_fusion.cpp EKF/sideslip_fusion.cpp EKF/mag_fusion.cpp EKF/gps_yaw_fusion.cpp EKF/optflow_fusion.cpp EKF/vel_pos_fusion.cpp EKF/common.h",
  [("Ekf::fuseAirspeed, fuseSideslip, fuseMag, fuseYaw321, fuseYaw312, fuseGpsYaw, fuseOptFlow, fuseHorizontalVelocity, fuseVerticalVelocity, fuseHorizontalPosition, fuseVerticalPosition", "EKF/vel_pos_fusion.cpp")], EKN)
P("C01", "Covariance prediction is the linearised propagation F P F' plus process noise",
  "Predicting the covariance over one step yields F P F' + Q, with F the derivative of strapdown attitude, velocity and position propagation with respect to all states, and Q the gyro and accelerometer noise mapped through it plus the random-walk noise of biases, earth and body field and wind. States not in use get no variance, and clipping raises accelerometer noise.",
  "inputs", "all states, symmetric covariances, IMU deltas and noise settings for one step, with no variance limit active",
  "tests replay one trajectory; a wrong covariance term still converges", "EKF/covariance.cpp EKF/ekf_helper.cpp",
  [("Ekf::predictCovariance, fixCovarianceErrors", "EKF/covariance.cpp")], "Over the reals, with the propagation derived independently of the generated code.")
P("E02", "A badly conditioned correction is refused whole and reported as a fault",
  "When fusing a velocity, position, heading, GPS heading, airspeed or sideslip observation would make a variance negative, the corresponding fault flag is raised, state estimates stay as they were, and the covariance is not updated with the correction, so an observation is applied entirely or not at all.",
  "inputs faults", "all states, covariances and measurements for which a variance would become negative",
  "tests never produce a badly conditioned covariance", "EKF/vel_pos_fusion.cpp EKF/mag_fusion.cpp EKF/gps_yaw_fusion.cpp EKF/airspeed_fusion.cpp EKF/sideslip_fusion.cpp EKF/covariance.cpp",
  [("Ekf::checkAndFixCovarianceUpdate, fuseVelPosHeight, updateQuaternion, fuseGpsYaw, fuseAirspeed, fuseSideslip", "EKF/covariance.cpp")], EKN)
P("E03", "A measurement with a badly conditioned innovation variance is never used",
  "When the covariance makes the innovation variance of an airspeed, sideslip, heading, GPS heading, 3-axis magnetometer or optical flow measurement smaller than the measurement's own noise, no state estimate is corrected (only wind may be reset, by airspeed and sideslip), no fusion time is recorded, covariances are reset instead of corrected (wind only, attitude and field only, or all, by type and aiding), and all but optical flow raise the fault flag of exactly that measurement axis.",
  "inputs faults", "all states, covariances, measurements and noises with an innovation variance below the noise",
  "tests never produce a badly conditioned covariance", "EKF/mag_fusion.cpp EKF/gps_yaw_fusion.cpp EKF/airspeed_fusion.cpp EKF/sideslip_fusion.cpp EKF/optflow_fusion.cpp EKF/covariance.cpp",
  [("Ekf::fuseAirspeed, fuseSideslip, fuseMag, updateQuaternion, fuseGpsYaw, fuseOptFlow", "EKF/airspeed_fusion.cpp")], EKN)
EKF1 = "tests replay a handful of trajectories; most combinations of modes, flags and magnitudes are never visited"
P("C02", "Covariance repair keeps variances in their limits and the matrix symmetric",
  "After the repair that follows every prediction and fusion, each state variance lies within its fixed limits (unchanged if it was inside), the matrix is symmetric, states of groups not in use have neither variance nor correlation, and accelerometer bias correlations are reset only after the bias contradicted height and velocity for seven seconds.",
  "inputs", "every covariance with entries within 1e7 and every mode combination", EKF1, "EKF/covariance.cpp",
  [("Ekf::fixCovarianceErrors", "EKF/covariance.cpp")], "Limits bit precise; symmetry and consistency over the reals.")
P("P01", "State prediction is strapdown navigation less biases and earth rotation",
  "Each prediction turns the attitude by the measured delta angle less gyro bias and earth rotation (keeping it normalised), adds the measured delta velocity less accelerometer bias, rotated by the new attitude, plus gravity to velocity, and moves position by the mean of old and new velocity over the sample time. Biases, field and wind stay as they are, and the rotation matrix, angular rate, filtered horizontal acceleration and average update time follow.",
  "inputs", "all attitudes, states, biases and inertial samples of one step", "tests check that velocity stays near zero at rest; a wrong cross term or integration rule shows only while manoeuvring", "EKF/ekf.cpp",
  [("Ekf::predictState", "EKF/ekf.cpp")], "Over the reals.")
P("O01", "Output predictor integrates every inertial sample and tracks the delayed filter",
  "At every inertial sample the output attitude, velocity and position integrate the bias and tracking corrected sample by strapdown navigation; at every filter update the differences to the filter at the delayed time, through the documented gains (PI for velocity and position, PD for the vertical observer, delay-scaled for attitude), shift the whole output history by one common correction, while the vertical position observer re-integrates its corrected velocity history.",
  "inputs histories", "all output states, histories, inertial samples, gains and time steps", "tests check that outputs settle, not how they follow", "EKF/ekf.cpp",
  [("Ekf::calculateOutputStates, applyCorrectionToOutputBuffer, applyCorrectionToVerticalOutputBuffer", "EKF/ekf.cpp")], "Over the reals.")
P("X01", "A state reset takes value and variance from its source and moves outputs alike",
  "Resetting velocity, horizontal position or height sets the state to the value of the selected source (GPS, optical flow, vision in its frame, last known or zero; range, barometer, GPS or vision height), uncorrelates it with that source's variance, shifts the current output and the whole output history by exactly the change of the state so that outputs move with it, reports that change and counts it once. No other state, output or covariance changes.",
  "inputs histories", "all states, covariances, output histories, source selections and source values", "tests check one or two resets from rest", "EKF/ekf_helper.cpp EKF/ekf.h",
  [("Ekf::resetVelocity, resetHorizontalPosition, resetHeight and the resets they call", "EKF/ekf_helper.cpp")], "Over the reals.")
P("X02", "A yaw reset replaces the heading, and turns outputs and uncertainty with it",
  "A yaw reset makes the attitude the one with the yaw replaced, reports the rotation from old to new attitude, turns the output history by it when asked to, removes the correlation of attitude with all other states, adds the given yaw variance (at most 0.01) as a rotation error about the vertical only, and changes nothing else. The frame rotation used for external vision is the difference of filter and vision attitude.",
  "inputs histories", "all attitudes, covariances, yaw variances and output histories", "tests look at the heading after a reset, not at uncertainty or history", "EKF/ekf_helper.cpp",
  [("Ekf::resetQuatStateYaw, increaseQuatYawErrVariance, uncorrelateQuatFromOtherStates, calcExtVisRotMat", "EKF/ekf_helper.cpp")], "Over the reals.")
P("X03", "Moving the global origin in flight keeps the vehicle's global position",
  "Setting a new origin while horizontal aiding is active with an origin in place re-expresses the horizontal position from the old origin in the new one and shifts the height so that the global altitude is unchanged; outputs and their history shift alike, and both resets are reported. Without aiding or without an origin only the origin changes. The covariance is never touched.",
  "inputs histories", "all states, output histories, old and new altitudes and projected positions", "tests use one origin and one position", "EKF/ekf_helper.cpp",
  [("Ekf::setEkfGlobalOrigin", "EKF/ekf_helper.cpp")], "Over the reals; the projection is decided separately.")
P("L01", "Status reports say exactly what the estimator state is",
  "The solution status bits, the innovation test ratios and rejection mask, and the fault word are exactly the documented function of the internal flags and test ratios: each bit reflects its own condition, the ratio of an observation is the largest of its axes, and the height ratio is that of the height source in use.",
  "inputs", "every combination of status flags and test ratios", EKF1, "EKF/ekf_helper.cpp EKF/common.h EKF/ekf.h EKF/estimator_interface.h",
  [("Ekf::get_ekf_soln_status, get_innovation_test_status, fault_status_u", "EKF/ekf_helper.cpp")], "Bit precise.")
P("L02", "Reported accuracies and control limits follow from covariance and sensor limits",
  "Reported horizontal and vertical position and velocity accuracies are the root of the summed variances, raised to the aiding errors while dead reckoning. Height limits are those of the range finder as height source and of optical flow when it is the only horizontal aid, where speed is limited to half the flow rate range times height above ground.",
  "inputs", "every combination of aiding flags, any variances, innovations and sensor limits", EKF1, "EKF/ekf_helper.cpp",
  [("Ekf::get_ekf_gpos_accuracy, get_ekf_lpos_accuracy, get_ekf_vel_accuracy, get_ekf_ctrl_limits", "EKF/ekf_helper.cpp")], "Over the reals.")
P("T01", "Terrain height estimate is a one-state Kalman filter on range and flow",
  "Fusing range or flow moves terrain height by the Kalman gain times predicted minus measured value and reduces its variance accordingly, within the gate; a rejected range is flagged and ignored, or resets the estimate after ten seconds. Prediction grows the variance with time and horizontal speed and keeps terrain below the vehicle by the ground clearance.",
  "inputs", "all states, measurements and noise settings", EKF1, "EKF/terrain_estimator.cpp EKF/optflow_fusion.cpp",
  [("Ekf::runTerrainEstimator, fuseHagl, fuseFlowForTerrain", "EKF/terrain_estimator.cpp")], "Over the reals; flow at one rational attitude.")
P("T02", "Terrain estimate is valid only while a sensor feeds it, and starts from one",
  "The terrain estimate is valid exactly when initialised and range or flow was fused within five seconds, with the sensor in use reported. It is initialised from the ground clearance on the ground, in air from a healthy range measurement or from optical flow, and stays uninitialised otherwise.",
  "inputs histories", "every mode, time and sensor state", EKF1, "EKF/terrain_estimator.cpp",
  [("Ekf::initHagl, updateTerrainValidity", "EKF/terrain_estimator.cpp")], "One step from any state.")
WW = "no test in this repository runs the wind estimator"
P("W01", "Wind estimator fusion is the Kalman update for airspeed and sideslip",
  "The stand-alone wind estimator corrects wind and airspeed scale by the Kalman gain times measured minus predicted airspeed (scaled wind-relative speed) or sideslip (lateral over forward wind-relative body speed), and reduces its covariance by K H P. A rejected measurement changes neither; five seconds of rejection reinitialise the estimator.",
  "inputs", "all states, symmetric covariances, velocities, measurements, variances and gates", WW, "airdata/WindEstimator.cpp",
  [("WindEstimator::fuse_airspeed, fuse_beta", "airdata/WindEstimator.cpp")], "Over the reals; sideslip at one rational attitude.")
P("W02", "Wind estimator starts from ground speed and airspeed and drifts at its noise",
  "The wind estimator starts only above three metres per second, with wind equal to ground velocity minus airspeed along it, scale one and the velocity covariance mapped through that wind. It predicts at most once per second, keeping states constant and adding process noise times elapsed time to each variance only.",
  "inputs", "all velocities, airspeeds, variances and covariances, one step from any state", WW, "airdata/WindEstimator.cpp",
  [("WindEstimator::initialise, update", "airdata/WindEstimator.cpp")], "Over the reals.")
P("W03", "Wind estimator gates, rate limit and sanity limits hold for every input",
  "A measurement is rejected exactly when its squared innovation exceeds the squared gate times its variance; only five seconds of uninterrupted rejection reinitialise. Measurements faster than ten hertz are ignored. Negative variances or states that are not finite end the estimate, variances are limited, the matrix stays symmetric and the scale non-negative or as enforced.",
  "inputs histories", "every time, innovation, variance, covariance and state", WW, "airdata/WindEstimator.cpp airdata/WindEstimator.hpp",
  [("WindEstimator::check_if_meas_is_rejected, run_sanity_checks, fuse_airspeed, fuse_beta", "airdata/WindEstimator.cpp")], "Bit precise.")
NW = "tests start it with one trajectory and look at the main filter's output only"
P("N01", "Emergency yaw models are Kalman filters for velocity and yaw",
  "Each model integrates the earth-frame delta velocity of its own attitude, propagates covariance as F P F' plus noise, and corrects velocity and yaw by the Kalman gain times predicted minus measured velocity, reducing covariance by K H P, with accuracy at least 0.5 m/s, innovations limited to five sigma, attitude turned about the vertical by the yaw correction, and singular updates refused.",
  "inputs", "all states, symmetric covariances, velocities and accuracies of any model", NW, "EKF/EKFGSF_yaw.cpp EKF/EKFGSF_yaw.h",
  [("EKFGSF_yaw::predictEKF, updateEKF", "EKF/EKFGSF_yaw.cpp")], "Over the reals; prediction at rational attitudes.")
P("N02", "Emergency yaw is the likelihood-weighted mean of the bank of models",
  "Each new velocity in flight multiplies every model's weight by its innovation likelihood, floored and normalised to sum one; if all collapse the bank restarts. The bank starts with evenly spread yaws and equal weights. Composite yaw is the direction of the weighted unit vectors, variance the weighted variance plus squared deviation. It is reported only while fusion runs, and a velocity is used once.",
  "inputs histories", "all weights, states and velocities, one cycle of the bank", NW, "EKF/EKFGSF_yaw.cpp EKF/EKFGSF_yaw.h",
  [("EKFGSF_yaw::update, initialiseEKFGSF, gaussianDensity, setVelocity, getYawData", "EKF/EKFGSF_yaw.cpp")], "Over the reals.")
P("N03", "Emergency yaw attitude follows gyro and gravity as a complementary filter",
  "Attitude starts only within 0.9 to 1.1 g, with specific force up and nose north. It turns by the gyro rate less bias plus a tilt correction proportional to the misalignment of gravity (compensated for centripetal acceleration when airspeed is known) with a gain fading away from one g, stays normalised, and learns gyro bias, limited to 0.05 rad/s, only when not rotating.",
  "inputs", "all attitudes, rates, accelerations, biases and airspeeds, one step", NW, "EKF/EKFGSF_yaw.cpp EKF/EKFGSF_yaw.h",
  [("EKFGSF_yaw::ahrsPredict, ahrsCalcAccelGain, ahrsAlignTilt, ahrsPredictRotMat", "EKF/EKFGSF_yaw.cpp")], "Over the reals; bias limit bit precise.")
P("S01", "Sensor samples enter unchanged, delay-corrected, and no faster than allowed",
  "Every accepted sensor sample (airspeed, range, auxiliary velocity, flow, vision, magnetometer, barometer, GPS) is stored with its values unchanged and its timestamp less the configured delay and half a filter period, exact to the microsecond at any uptime. Samples within the minimum observation interval, before initialisation, or GPS samples not in use or without 3D fix are not stored.",
  "inputs histories", "all sample values, times, delays up to one second, intervals and configurations", "tests use one timing per sensor and short uptimes", "EKF/estimator_interface.cpp",
  [("EstimatorInterface::setMagData, setGpsData, setBaroData, setAirspeedData, setRangeData, setOpticalFlowData, setExtVisionData, setAuxVelData", "EKF/estimator_interface.cpp")], "Bit precise; baro height over the reals.")
P("S02", "Magnetometer, barometer and drag samples are averaged without losing any",
  "Magnetometer and barometer samples arriving faster than the observation interval are averaged with equal weight at their mean time, and averaging starts anew after each stored average. Drag specific force is accumulated velocity change over accumulated time, stored after at least five samples or the ratio of inertial to observation buffer, only when drag fusion is in use.",
  "inputs histories", "all sample values and intervals, several samples", "tests send constant values", "EKF/estimator_interface.cpp",
  [("EstimatorInterface::setMagData, setBaroData, setDragData", "EKF/estimator_interface.cpp")], "Over the reals.")
P("S03", "Vibration metrics and rest detection follow every IMU sample",
  "Every IMU sample updates the low-passed coning, gyro and accelerometer vibration metrics and the mean sample time. On the ground the vehicle is at rest after one second without vibration or rotation beyond the scaled limits; in the air it never is, and the second starts again.",
  "inputs histories", "all samples, metrics, limits and times of the last movement", "tests send noise-free samples", "EKF/estimator_interface.cpp",
  [("EstimatorInterface::setIMUData, computeVibrationMetric, checkIfVehicleAtRest", "EKF/estimator_interface.cpp")], "Over the reals.")
P("V01", "Buffers are long enough for the longest delay in use",
  "Inertial and output buffers span the longest configured delay of the sensors in use, and observation buffers hold every sample that can arrive within one and a half times that delay at the minimum sensor interval, at least two and never more than the inertial buffer. Delays of sensors not in use do not matter.",
  "inputs", "every sensor as the one with the longest delay, any shorter delays of the others", "tests use the default delays", "EKF/estimator_interface.cpp",
  [("EstimatorInterface::initialise_interface", "EKF/estimator_interface.cpp")], "Bit precise.")
P("Q01", "GPS is used only after ten seconds of passing every selected quality check",
  "A fix passes when it is 3D and every check selected by the mask passes: satellites, dilution of precision, horizontal, vertical and speed accuracy, drift, horizontal speed and vertical speed error. Any failure restarts the health time; GPS is good only after that time without one. Drift checks run only at rest on the ground, from filtered and limited changes between fixes, pass in flight and keep their result while moving on the ground.",
  "inputs histories", "all fixes, masks, limits, filter states and times of the last failure", "tests send perfect fixes", "EKF/gps_checks.cpp",
  [("Ekf::gps_is_good, resetGpsDriftCheckFilters", "EKF/gps_checks.cpp")], "Flags bit precise; drift filters over the reals, the map projection replaced by one that reports any distance.")
P("Q02", "The origin is set once, from the first good fix less the distance flown",
  "The local origin is set from the first fix that passes the checks once the filter runs, is never set again, and is moved back by the position already flown with other aiding; its altitude accounts for the current height. Declination, inclination and strength of the field are then looked up at the fix, a yaw reset is requested with the first declination, and GPS height is started if it is the selected source. Fixes before that only give the declination.",
  "inputs histories", "all altitudes, accuracies, fix types and filter states", "tests set the origin from rest with one configuration", "EKF/gps_checks.cpp",
  [("Ekf::collect_gps", "EKF/gps_checks.cpp"), ("Ekf::startGpsHgtFusion", "EKF/ekf_helper.cpp")], "At one place and position flown; bit precise.")

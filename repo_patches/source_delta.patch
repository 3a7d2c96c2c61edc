From f77ec3ba1415c624796763d59691da6b215432ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 01/10] fix: get_distance_to_arc: sector test and end points
 relative to the arc centre

The sector test compared the bearing from the vehicle to the centre (opposite
direction, range -pi..pi) with the bearings of the arc seen from the centre, and
subtracted a negative sweep with the wrong sign, so a vehicle inside the sector
was treated as outside and vice versa. The arc end points were placed around the
vehicle instead of the centre, with the cosine of degrees on the wrong axis.
---
 geo/geo.cpp | 46 +++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index ec9e671..fe83404 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -309,9 +309,8 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 
 	// Determine if the current position is inside or outside the sector between the line from the center
 	// to the arc start and the line from the center to the arc end
-	float bearing_sector_start = 0.0f;
-	float bearing_sector_end = 0.0f;
-	float bearing_now = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
+	const float bearing_from_center = get_bearing_to_next_waypoint(lat_center, lon_center, lat_now, lon_now);
+	const float bearing_now = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
 
 	int return_value = -1;		// Set error flag, cleared when valid result calculated.
 	crosstrack_error->past_end = false;
@@ -323,34 +322,10 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		return return_value;
 	}
 
-	if (arc_sweep >= 0.0f) {
-		bearing_sector_start = arc_start_bearing;
-		bearing_sector_end = arc_start_bearing + arc_sweep;
-
-		if (bearing_sector_end > 2.0f * M_PI_F) { bearing_sector_end -= (2 * M_PI_F); }
-
-	} else {
-		bearing_sector_end = arc_start_bearing;
-		bearing_sector_start = arc_start_bearing - arc_sweep;
-
-		if (bearing_sector_start < 0.0f) { bearing_sector_start += (2 * M_PI_F); }
-	}
-
-	bool in_sector = false;
-
-	// Case where sector does not span zero
-	if (bearing_sector_end >= bearing_sector_start && bearing_now >= bearing_sector_start
-	    && bearing_now <= bearing_sector_end) {
-
-		in_sector = true;
-	}
-
-	// Case where sector does span zero
-	if (bearing_sector_end < bearing_sector_start && (bearing_now > bearing_sector_start
-			|| bearing_now < bearing_sector_end)) {
-
-		in_sector = true;
-	}
+	// Angle from the arc start to the current position, measured in the direction of the sweep
+	const float angle_from_start = wrap_2pi((arc_sweep >= 0.0f) ? bearing_from_center - arc_start_bearing
+						: arc_start_bearing - bearing_from_center);
+	const bool in_sector = angle_from_start <= fabsf(arc_sweep);
 
 	// If in the sector then calculate distance and bearing to closest point
 	if (in_sector) {
@@ -379,10 +354,11 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		double start_disp_y = (double)radius * cos((double)arc_start_bearing);
 		double end_disp_x = (double)radius * sin((double)wrap_pi(arc_start_bearing + arc_sweep));
 		double end_disp_y = (double)radius * cos((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double lon_start = lon_now + start_disp_x / 111111.0;
-		double lat_start = lat_now + start_disp_y * cos(lat_now) / 111111.0;
-		double lon_end = lon_now + end_disp_x / 111111.0;
-		double lat_end = lat_now + end_disp_y * cos(lat_now) / 111111.0;
+		const double cos_lat = cos(math::radians(lat_center));
+		double lon_start = lon_center + start_disp_x / (111111.0 * cos_lat);
+		double lat_start = lat_center + start_disp_y / 111111.0;
+		double lon_end = lon_center + end_disp_x / (111111.0 * cos_lat);
+		double lat_end = lat_center + end_disp_y / 111111.0;
 		float dist_to_start = get_distance_to_next_waypoint(lat_now, lon_now, lat_start, lon_start);
 		float dist_to_end = get_distance_to_next_waypoint(lat_now, lon_now, lat_end, lon_end);
 
-- 
2.43.0


From d2a2f8de10baf3f794de632e41ad525d8ed1444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:45 +0000
Subject: [PATCH 02/10] fix: magnetometer rejection reported in the flags of
 the rejected axis

---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..ce152b4 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
-- 
2.43.0


From e00c2f122a3cec27fa7442a3a1758626c6cdfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:45 +0000
Subject: [PATCH 03/10] fix: optical flow rejection reported in the flags of
 the rejected axis

---
 EKF/optflow_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..58c0fe3 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -245,10 +245,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From 75c4d87da7c5af42971f9205c4ab0b67ee27e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 04/10] fix: fault status union value covers all 18 flag bits

---
 EKF/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..37f3c85 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint16_t value;
+	uint32_t value;
 
 };
 
-- 
2.43.0


From cad48872d07f449bb5a0f3ad2732d854aac375ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:35 +0000
Subject: [PATCH 05/10] fix: initialise the estimator solution status word

---
 EKF/ekf_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..b00cc18 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -960,7 +960,7 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 // return a bitmask integer that describes which state estimates are valid
 void Ekf::get_ekf_soln_status(uint16_t *status) const
 {
-	ekf_solution_status soln_status;
+	ekf_solution_status soln_status{};
 	// TODO: Is this accurate enough?
 	soln_status.flags.attitude = _control_status.flags.tilt_align && _control_status.flags.yaw_align && (_fault_status.value == 0);
 	soln_status.flags.velocity_horiz = (isHorizontalAidingActive() || (_control_status.flags.fuse_beta && _control_status.flags.fuse_aspd)) && (_fault_status.value == 0);
-- 
2.43.0


From 31840a703e5ce7c2419fc4151cf65401fbb7b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:53 +0000
Subject: [PATCH 06/10] fix: height test ratio is reported as not available
 without a height source

---
 EKF/ekf_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index b00cc18..1350915 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -947,6 +947,9 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 
 	} else if (_control_status.flags.ev_hgt) {
 		hgt = sqrtf(_ev_pos_test_ratio(1));
+
+	} else {
+		hgt = NAN;
 	}
 
 	// return the airspeed fusion innovation test ratio
-- 
2.43.0


From 84f85b4b51c523e1b9d6982288360be6adeb013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:14 +0000
Subject: [PATCH 07/10] fix: wind process noise of the north and east
 components is independent

---
 airdata/WindEstimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index f755893..e6968c0 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -120,7 +120,7 @@ WindEstimator::update(uint64_t time_now)
 
 	float SPP0 = dt * dt;
 	float SPP1 = SPP0 * q_w;
-	float SPP2 = SPP1 + _P(0, 1);
+	float SPP2 = _P(0, 1);
 
 	matrix::Matrix3f P_next;
 
-- 
2.43.0


From 38b11e3829543db8ad7dbe6cd3c41a01d87f24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:14 +0000
Subject: [PATCH 08/10] fix: initial wind covariance uses the derivative of the
 initial wind

---
 airdata/WindEstimator.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index e6968c0..57e9560 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -63,16 +63,14 @@ WindEstimator::initialise(const matrix::Vector3f &velI, const matrix::Vector2f &
 	float L1 = v_n * v_n;
 	float L2 = L0 + L1;
 	float L3 = tas_meas / (L2 * sqrtf(L2));
-	float L4 = L3 * v_e * v_n + 1.0f;
-	float L5 = 1.0f / sqrtf(L2);
-	float L6 = -L5 * tas_meas;
+	float L4 = L3 * v_e * v_n;
 
 	matrix::Matrix3f L;
 	L.setZero();
-	L(0, 0) = L4;
-	L(0, 1) = L0 * L3 + L6;
-	L(1, 0) = L1 * L3 + L6;
-	L(1, 1) = L4;
+	L(0, 0) = 1.0f - L0 * L3;
+	L(0, 1) = L4;
+	L(1, 0) = L4;
+	L(1, 1) = 1.0f - L1 * L3;
 	L(2, 2) = 1.0f;
 
 	// get an estimate of the state covariance matrix given the estimated variance of ground velocity
-- 
2.43.0


From 85216ffa011ec2e6bc9540a32d0b48181fad95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:48 +0000
Subject: [PATCH 09/10] fix: subtract sensor delays from timestamps in integer
 arithmetic

time_us -= delay_ms * 1000 converted the microsecond timestamp to float and
back, rounding it to multiples of up to several milliseconds after hours of
operation (and converting a negative value for early samples).
---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..68565ef 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<uint64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<uint64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<uint64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<uint64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<uint64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<uint64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<uint64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<uint64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From c65024fa5e8e50be5abdb2164f254ad551554c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:48 +0000
Subject: [PATCH 10/10] fix: observation buffers hold at least two samples

With all sensor delays below 14 ms the observation buffer length was one (zero
without any delay), and the minimum observation interval was calculated with a
division by zero.
---
 EKF/estimator_interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 68565ef..a9bfd4c 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -516,6 +516,9 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
 	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
 
+	// a minimum of two entries is required to derive the minimum observation interval
+	_obs_buffer_length = math::max(_obs_buffer_length, (uint8_t)2);
+
 	if (!_imu_buffer.allocate(_imu_buffer_length) || !_output_buffer.allocate(_imu_buffer_length) || !_output_vert_buffer.allocate(_imu_buffer_length)) {
 		printBufferAllocationFailed("IMU and output");
 		return false;
-- 
2.43.0


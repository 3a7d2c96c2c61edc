from seedlib import S
E = dict(ekf=True)
def X(id, prop, needs, breaks, f, old, new, demo):
    S(id, prop, needs, breaks, [("EKF/" + f, old, new)], demo, **E)
X("tas-wind-cross", "K01", "correlation between east velocity and north wind", "the innovation variance mixes up two covariances",
  "airspeed_fusion.cpp", "const float HK8 = HK1*P(5,23);", "const float HK8 = HK1*P(5,22);",
  "int main(){ Ekf *e=mk(); e->_airspeed_sample_delayed.eas2tas=1.1f; e->_airspeed_sample_delayed.true_airspeed=13; double R=1.4*1.4*1.1*1.1; e->_params.eas_noise=1.4f; double v=var(*e,[](const double*x){return sqrt(pow(x[4]-x[22],2)+pow(x[5]-x[23],2)+x[6]*x[6]);},R); e->fuseAirspeed(); return near(e->_airspeed_innov_var,v)?0:1; }")
X("tas-illcond", "E03", "a covariance so badly conditioned that it lowers the innovation variance without making it negative", "a badly conditioned airspeed correction is applied",
  "airspeed_fusion.cpp", "if (_airspeed_innov_var < R_TAS) { //", "if (_airspeed_innov_var < 0.5f * R_TAS) { //",
  "int main(){ Ekf *e=mk(0.01); for(int i=0;i<24;i++) for(int j=0;j<24;j++) e->P(i,j)= i==j?1e-3f:0.f; e->P(4,4)=-0.3f; e->_params.eas_noise=1.f; e->_airspeed_sample_delayed.eas2tas=1; e->_airspeed_sample_delayed.true_airspeed=13; e->_state.vel=Vector3f(12,0,0); e->_state.wind_vel.setZero(); e->fuseAirspeed(); return e->P(22,22)>0.1f?0:1; }")
X("magx-cross", "K03", "correlation between two attitude components and the down field", "the magnetometer innovation variance uses a covariance of the wrong attitude component",
  "mag_fusion.cpp", "const float HKX19 = HKX10*P(2,17) - HKX11*P(2,18)", "const float HKX19 = HKX10*P(2,17) - HKX11*P(3,18)",
  "int main(){ Ekf *e=mk(); e->_params.mag_noise=0.05f; e->_mag_sample_delayed.mag=Vector3f(0.2f,0.1f,0.4f); double v=var(*e,[](const double*x){return rot(x,0,0)*x[16]+rot(x,1,0)*x[17]+rot(x,2,0)*x[18]+x[19];},0.0025); e->fuseMag(); return near(e->_mag_innov_var(0),v)?0:1; }")
X("vel-gate-east", "K09", "different gates for horizontal and vertical velocity", "the east velocity is gated with the vertical gate",
  "vel_pos_fusion.cpp", "test_ratio(0) = fmaxf(sq(innov(0)) / (sq(innov_gate(0)) * innov_var(0)),\n\t\t\t      sq(innov(1)) / (sq(innov_gate(0)) * innov_var(1)));\n\n\tconst bool innov_check_pass = (test_ratio(0) <= 1.0f);\n\n\tif (innov_check_pass) {\n\t\t_time_last_hor_vel_fuse", "test_ratio(0) = fmaxf(sq(innov(0)) / (sq(innov_gate(0)) * innov_var(0)),\n\t\t\t      sq(innov(1)) / (sq(innov_gate(1)) * innov_var(1)));\n\n\tconst bool innov_check_pass = (test_ratio(0) <= 1.0f);\n\n\tif (innov_check_pass) {\n\t\t_time_last_hor_vel_fuse",
  "int main(){ Ekf *e=mk(); Vector3f iv; Vector2f tr; double want=9.0/(9*(e->P(5,5)+0.25)); e->fuseHorizontalVelocity(Vector3f(0.1f,3.f,0.f),Vector2f(3.f,8.f),Vector3f(.25f,.25f,.25f),iv,tr); return near(tr(0),want)?0:1; }")
X("velrej-sticky", "E01", "a rejected horizontal velocity followed by an accepted one", "the rejection flag stays set after the measurement is accepted again",
  "vel_pos_fusion.cpp", "\t\t_innov_check_fail_status.flags.reject_hor_vel = false;\n", "",
  "int main(){ Ekf *e=mk(); Vector3f iv; Vector2f tr; e->fuseHorizontalVelocity(Vector3f(90.f,3.f,0.f),Vector2f(3.f,3.f),Vector3f(.25f,.25f,.25f),iv,tr); if(!e->_innov_check_fail_status.flags.reject_hor_vel) return 2; e->fuseHorizontalVelocity(Vector3f(.01f,.01f,0.f),Vector2f(3.f,3.f),Vector3f(.25f,.25f,.25f),iv,tr); return e->_innov_check_fail_status.flags.reject_hor_vel?1:0; }")
X("decl-collapse", "K06", "a collapsed horizontal field that also points away from the declination", "the repaired field collapses again when it is turned to the declination",
  "mag_fusion.cpp", "\t\th_field = h_field_min;\n", "",
  "int main(){ Ekf *e=mk(); e->_params.mag_declination_source=0; e->_params.mag_declination_deg=0; e->_state.mag_I=Vector3f(0,0.0004f,0.4f); e->limitDeclination(); float h=sqrtf(e->_state.mag_I(0)*e->_state.mag_I(0)+e->_state.mag_I(1)*e->_state.mag_I(1)); printf(\"%g\\n\",h); return h>=0.00099f?0:1; }")
X("gpsyaw-cross", "K05", "correlated attitude components and an antenna offset", "the antenna heading innovation variance uses a covariance of the wrong attitude component",
  "gps_yaw_fusion.cpp", "const float HK31 = -HK16*P(0,3) - HK24*P(1,3)", "const float HK31 = -HK16*P(0,3) - HK24*P(1,2)",
  "int main(){ Ekf *e=mk(0.05); e->_gps_yaw_offset=0.6f; e->_gps_sample_delayed.yaw=0.5f; e->_params.mag_heading_noise=0.1f; double v=var(*e,[](const double*x){ double c=cos(0.6),s=sin(0.6); return atan2(rot(x,1,0)*c+rot(x,1,1)*s,rot(x,0,0)*c+rot(x,0,1)*s);},0.01); e->fuseGpsYaw(); return near(e->_heading_innov_var,v)?0:1; }")
X("flow-offset-height", "K07", "a flow sensor mounted away from the inertial unit", "the height of the camera is corrected with the wrong sign",
  "optflow_fusion.cpp", "heightAboveGndEst -= pos_offset_earth(2);\n\n\t// constrain minimum height above ground\n\theightAboveGndEst = math::max(heightAboveGndEst, gndclearance);\n\n\t// calculate range from focal point to centre of image\n\tconst float range = heightAboveGndEst / earth_to_body(2, 2); // absolute distance to the frame region in view\n\n\t// calculate optical LOS",
  "heightAboveGndEst += pos_offset_earth(2);\n\n\t// constrain minimum height above ground\n\theightAboveGndEst = math::max(heightAboveGndEst, gndclearance);\n\n\t// calculate range from focal point to centre of image\n\tconst float range = heightAboveGndEst / earth_to_body(2, 2); // absolute distance to the frame region in view\n\n\t// calculate optical LOS",
  "int main(){ Ekf *e=mk(0.01); Quatf q(1,0,0,0); e->_state.quat_nominal=q; e->_R_to_earth=Dcmf(q); e->_terrain_vpos=0; e->_state.pos=Vector3f(0,0,-3); e->_state.vel=Vector3f(2,1,0); e->_params.flow_pos_body=Vector3f(0,0,1); e->_flow_sample_delayed.dt=0.02f; e->_flow_sample_delayed.quality=200; e->_flow_sample_delayed.gyro_xyz.setZero(); e->_flow_compensated_XY_rad.setZero(); e->_flow_gyro_bias.setZero(); e->fuseOptFlow(); return near(e->_flow_innov(0),0.5)?0:1; }")
X("drag-cross", "K08", "correlation between yaw attitude error and down velocity", "the drag innovation variance uses the wrong sign for one covariance",
  "drag_fusion.cpp", "const float HK24 = HK12*P(5,6) - HK12*P(6,23) - HK13*P(6,6) + HK14*P(1,6) + HK15*P(0,6) - HK16*P(2,6) + HK17*P(3,6)", "const float HK24 = HK12*P(5,6) - HK12*P(6,23) - HK13*P(6,6) + HK14*P(1,6) + HK15*P(0,6) - HK16*P(2,6) - HK17*P(3,6)",
  "int main(){ Ekf *e=mk(0.4); e->_params.bcoef_x=e->_params.bcoef_y=25; e->_params.drag_noise=2.5f; e->_air_density=1.2f; e->_dt_ekf_avg=0.01f; e->_drag_sample_delayed.accelXY=Vector2f(-1.f,0.5f); double a=sqrt(2*1.0/(1.2/25)); double k=1.2/25*a; double v=var(*e,[k](const double*x){ double n=x[4]-x[22],m=x[5]-x[23]; return k*(rot(x,0,0)*n+rot(x,1,0)*m+rot(x,2,0)*x[6]);},2.5); e->fuseDrag(); return near(e->_drag_innov_var(0),v,5e-5)?0:1; }")
X("beta-cross", "K02", "correlation between north velocity and north wind", "the sideslip innovation variance leaves out a covariance",
  "sideslip_fusion.cpp", "const float HK41 = HK32*P(5,23);", "const float HK41 = 0.5f*HK32*P(5,23);",
  "int main(){ Ekf *e=mk(0.05); for(int i=4;i<24;i+=18) for(int j=4;j<24;j+=18) for(int k=0;k<2;k++) e->P(i+k,j+k)+=(i==j?1.f:0.8f); Quatf q(0.95f,0.05f,0.1f,-0.15f); q.normalize(); e->_state.quat_nominal=q; e->_R_to_earth=Dcmf(q); e->_params.beta_noise=0.3f; double v=var(*e,[](const double*x){ double n=x[4]-x[22],m=x[5]-x[23],d=x[6]; return (rot(x,0,1)*n+rot(x,1,1)*m+rot(x,2,1)*d)/(rot(x,0,0)*n+rot(x,1,0)*m+rot(x,2,0)*d);},0.09); e->fuseSideslip(); return near(e->_beta_innov_var,v,1e-3)?0:1; }")
X("cov-clip-axis", "C01", "an inertial sample clipped on the y axis only", "the extra noise of a clipped axis goes to another axis",
  "covariance.cpp", "dvyVar = sq(dt * BADACC_BIAS_PNOISE);", "dvzVar = sq(dt * BADACC_BIAS_PNOISE);",
  "int main(){ double g[2]; for(int c=0;c<2;c++){ gen.seed(3); Ekf *e=mk(0.01); Quatf q(1,0,0,0); e->_state.quat_nominal=q; e->_R_to_earth=Dcmf(q); e->_imu_sample_delayed.delta_vel=Vector3f(0,0,-0.1f); e->_imu_sample_delayed.delta_vel_clipping[1]=c; double b=e->P(5,5); e->predictCovariance(); g[c]=e->P(5,5)-b; } printf(\"%g %g\\n\",g[0],g[1]); return g[1]-g[0]>1e-4?0:1; }")
X("cov-gyro-floor", "C02", "a negative variance of the third gyro bias", "one variance is left negative by the repair",
  "covariance.cpp", "for (int i = 10; i <= 12; i++) {\n\t\t// gyro bias states\n\t\tP(i,i) = math::constrain", "for (int i = 10; i < 12; i++) {\n\t\t// gyro bias states\n\t\tP(i,i) = math::constrain",
  "int main(){ Ekf *e=mk(0.01); e->P(12,12)=-1e-3f; e->fixCovarianceErrors(true); return e->P(12,12)>=0?0:1; }")
X("acc-ev-deadreckon", "L02", "dead reckoning after losing vision position while GPS is not used", "the reported position accuracy takes the GPS east error instead of vision's",
  "ekf_helper.cpp", "\t} else if (_is_dead_reckoning && (_control_status.flags.ev_pos)) {\n\t\thpos_err = math::max(hpos_err, sqrtf(sq(_ev_pos_innov(0)) + sq(_ev_pos_innov(1))));\n\t}\n\n\t*ekf_eph = hpos_err;\n\t*ekf_epv = sqrtf(P(9, 9) + sq(_gps_origin_epv));",
  "\t} else if (_is_dead_reckoning && (_control_status.flags.ev_pos)) {\n\t\thpos_err = math::max(hpos_err, sqrtf(sq(_ev_pos_innov(0)) + sq(_gps_pos_innov(1))));\n\t}\n\n\t*ekf_eph = hpos_err;\n\t*ekf_epv = sqrtf(P(9, 9) + sq(_gps_origin_epv));",
  "int main(){ Ekf *e=mk(0.01); e->_is_dead_reckoning=true; e->_control_status.flags.ev_pos=true; e->_ev_pos_innov=Vector3f(1,9,0); e->_gps_pos_innov=Vector3f(0,0,0); float h,v; e->get_ekf_gpos_accuracy(&h,&v); return h>9.f?0:1; }")
X("glitch-east", "L01", "a vertical and no horizontal GPS velocity failure with good heading", "a GPS glitch is reported without regard to the yaw consistency",
  "ekf_helper.cpp", "(_mag_test_ratio.max() < 1.0f) && (_yaw_test_ratio < 1.0f);", "(_mag_test_ratio.max() < 1.0f) || (_yaw_test_ratio < 1.0f);",
  "int main(){ Ekf *e=mk(0.01); e->_gps_pos_test_ratio(0)=2; e->_mag_test_ratio.setAll(0.1f); e->_yaw_test_ratio=3; uint16_t s; e->get_ekf_soln_status(&s); ekf_solution_status u; u.value=s; return u.flags.gps_glitch?1:0; }")
X("terrain-gradient", "T01", "flight with opposite signs of north and east velocity", "the terrain gradient noise uses the sum of the velocities",
  "terrain_estimator.cpp", "* (sq(_state.vel(0)) + sq(_state.vel(1)));", "* sq(_state.vel(0) + _state.vel(1));",
  "int main(){ Ekf *e=mk(0.01); e->_terrain_initialised=true; e->_terrain_var=1; e->_params.terrain_p_noise=0; e->_params.terrain_gradient=0.5f; e->_params.terrain_fusion_mode=0; e->_imu_sample_delayed.delta_vel_dt=0.1f; e->_state.vel=Vector3f(10,-10,0); e->runTerrainEstimator(); return near(e->_terrain_var,1.5)?0:1; }")
X("terrain-init-var", "T02", "a first range measurement in flight", "the terrain estimate starts from a range with the variance of the ground clearance",
  "terrain_estimator.cpp", "_terrain_var = sq(_params.range_noise);", "_terrain_var = sq(_params.rng_gnd_clearance);",
  "int main(){ Ekf *e=mk(0.01); e->_params.terrain_fusion_mode=1; e->_params.range_noise=0.1f; e->_params.rng_gnd_clearance=0.7f; e->_range_sensor._is_sample_ready=e->_range_sensor._is_sample_valid=true; e->_range_sensor._sample.rng=5; e->_range_sensor._cos_tilt_rng_to_earth=1; e->initHagl(); return near(e->_terrain_var,0.01)?0:1; }")
G = "EKFGSF_yaw.cpp"
X("gsf-cov-east", "N01", "correlated velocity errors of a yaw model", "the covariance of a yaw model is updated with the wrong innovation variance",
  G, "const float t26 = t16 - t21*t4;", "const float t26 = t16 - t21*t7;",
  "int main(){ EKFGSF_yaw g; auto &m=g._ekf_gsf[1]; float p[9]={1,.3f,.2f,.3f,2,-.4f,.2f,-.4f,.5f}; for(int i=0;i<9;i++) m.P(i/3,i%3)=p[i]; m.X=Vector3f(1,2,0.3f); g._vel_NE=Vector2f(1.1f,1.8f); g._vel_accuracy=0.6f; double s00=1.36,s11=2.36,s01=.3,d=s00*s11-s01*s01; double k0=(.3*s11-2*s01)/d,k1=(2*s00-.3*s01)/d; double w=2-k0*.3-k1*2; g.updateEKF(1); return near(m.P(1,1),w)?0:1; }")
X("gsf-weight-floor", "N02", "a model whose likelihood falls below the floor", "a model at the weight floor does not count in the normalisation",
  G, "\t\t\t\t\t\t_model_weights(model_index) = min_weight;\n", "\t\t\t\t\t\t_model_weights(model_index) = 0.f;\n",
  "int main(){ EKFGSF_yaw g; g._ekf_gsf_vel_fuse_started=true; g._run_ekf_gsf=true; g._vel_data_updated=true; g._vel_accuracy=0.5f; g._ahrs_ekf_gsf_tilt_aligned=true; for(int i=0;i<5;i++){ auto &m=g._ekf_gsf[i]; m.P.setIdentity(); m.X=Vector3f(i==2?60.f:0.f,0,0.1f*i); g._ahrs_ekf_gsf[i].R.setIdentity(); g._ahrs_ekf_gsf[i].aligned=true; } g._model_weights.setAll(0.2f); imuSample s{}; s.delta_ang_dt=s.delta_vel_dt=0.01f; s.delta_vel=Vector3f(0,0,-0.0981f); g._vel_NE.setZero(); g.update(s,true,0.f,Vector3f()); printf(\"%g\\n\",g._model_weights(2)); return g._model_weights(2)>1e-6f?0:1; }")
I = "estimator_interface.cpp"
X("drag-time-accum", "S02", "a second drag average after the first", "the accumulated time of one average carries over into the next",
  I, "\t\t\t_drag_sample_time_dt = 0.0f;\n", "",
  "int main(){ Ekf *e=new Ekf; e->_params.fusion_mode|=MASK_USE_DRAG; e->_obs_buffer_length=9; e->_imu_buffer_length=9; imuSample s{}; s.delta_vel_dt=s.delta_ang_dt=0.01f; s.delta_vel=Vector3f(0.02f,0,0); for(int i=0;i<10;i++){ s.time_us=1000000+10000*i; e->setDragData(s); } return near(e->_drag_buffer.get_newest().accelXY(0),2)?0:1; }")
X("rest-after-flight", "S03", "landing after a flight without vibration", "the vehicle is at rest immediately after landing",
  I, "\t} else {\n\t\t_time_last_move_detect_us = imu.time_us;\n\t\treturn false;", "\t} else {\n\t\treturn false;",
  "int main(){ Ekf *e=new Ekf; imuSample s{}; s.delta_vel_dt=s.delta_ang_dt=0.01f; s.time_us=50000000; e->_params.is_moving_scaler=1; e->_control_status.flags.in_air=true; e->checkIfVehicleAtRest(0.01f,s); e->_control_status.flags.in_air=false; s.time_us+=10000; return e->checkIfVehicleAtRest(0.01f,s)?1:0; }")
X("ev-vel-delay", "V01", "vision velocity as the only use of vision", "the buffers are too short for the vision delay",
  I, "if (_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) {", "if (_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW)) {",
  "int main(){ Ekf *e=new Ekf; e->_params.fusion_mode=MASK_USE_EVVEL; e->_params.ev_delay_ms=400; e->initialise_interface(1); return e->_imu_buffer_length>=40?0:1; }")
X("ev-rate-clock", "S01", "vision samples faster than the observation interval", "vision samples are never limited in rate",
  I, "\t\t_time_last_ext_vision = evdata.time_us;\n", "\t\t_time_last_ext_vision = math::min(_time_last_ext_vision + (uint64_t)_min_obs_interval_us, evdata.time_us);\n",
  "int main(){ Ekf *e=new Ekf; e->init(1); e->initialise_interface(1); e->_initialised=true; e->_min_obs_interval_us=20000; extVisionSample s{}; s.time_us=5000000; s.pos(0)=1; e->setExtVisionData(s); s.time_us=5005000; s.pos(0)=2; e->setExtVisionData(s); return e->_ext_vision_buffer.get_newest().pos(0)==1?0:1; }")
Q = "gps_checks.cpp"
X("gps-sacc-mask", "Q01", "a mask that selects speed accuracy but not horizontal accuracy", "speed accuracy is checked under the mask of another check",
  Q, "(_gps_check_fail_status.flags.sacc    && (_params.gps_check_mask & MASK_GPS_SACC)) ||", "(_gps_check_fail_status.flags.sacc    && (_params.gps_check_mask & MASK_GPS_HACC)) ||",
  "int main(){ Ekf *e=mk(0.01); gps_message m{}; m.fix_type=3; m.nsats=20; m.sacc=50; m.lat=470000000; e->_params.gps_check_mask=1<<4; e->_last_gps_fail_us=1; e->_gps_pos_prev.timestamp=99800000; return e->gps_is_good(m)?1:0; }")
X("gps-origin-alt", "Q02", "the first good fix while already off the ground", "the altitude of the origin is wrong by twice the height flown",
  Q, "_gps_alt_ref = 1e-3f * (float)gps.alt + _state.pos(2);", "_gps_alt_ref = 1e-3f * (float)gps.alt - _state.pos(2);",
  "int main(){ Ekf *e=mk(0.01); gps_message m{}; m.fix_type=3; m.nsats=20; m.lat=470000000; m.lon=80000000; m.alt=500000; e->_params.gps_check_mask=0; e->_last_gps_fail_us=1; e->_filter_initialised=true; e->_gps_pos_prev.timestamp=99800000; e->collect_gps(m); return near(e->_gps_alt_ref,480)?0:1; }")

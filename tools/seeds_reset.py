from seedlib import S
def X(id, prop, needs, breaks, f, old, new, demo):
    S(id, prop, needs, breaks, [("EKF/" + f, old, new)], demo, ekf=True)
B = "e->_output_buffer.allocate(3); e->_output_vert_buffer.allocate(3); outputSample o{}; o.quat_nominal=e->_state.quat_nominal; o.pos=e->_state.pos; o.vel=e->_state.vel; o.time_us=99900000; outputVert ov{}; ov.vert_vel=e->_state.vel(2); ov.vert_vel_integ=e->_state.pos(2); ov.dt=0.01f; ov.time_us=99900000; for(int i=0;i<3;i++){ e->_output_buffer.push(o); e->_output_vert_buffer.push(ov);} e->_output_new=o; e->_output_vert_new=ov; "
X("pred-trap", "P01", "acceleration while the position is predicted", "position is predicted with the new velocity instead of the mean of old and new",
  "ekf.cpp", "_state.pos += (vel_last + _state.vel) * _imu_sample_delayed.delta_vel_dt * 0.5f;", "_state.pos += (_state.vel + _state.vel) * _imu_sample_delayed.delta_vel_dt * 0.5f;",
  "int main(){ Ekf *e=mk(); e->_imu_sample_delayed.delta_vel=Vector3f(8,3,-2); Vector3f v=e->_state.vel, p=e->_state.pos; e->predictState(); for(int i=0;i<2;i++) if(!near(e->_state.pos(i)-p(i),0.005*(v(i)+e->_state.vel(i)),5e-3)) return 1; return 0; }")
X("out-vel-tau", "O01", "different time constants for velocity and position", "the vertical and horizontal velocity tracking of the output predictor uses the position time constant",
  "ekf.cpp", "const float vel_gain = _dt_ekf_avg / math::constrain(_params.vel_Tau,", "const float vel_gain = _dt_ekf_avg / math::constrain(_params.pos_Tau,",
  "static float run(float tau){ gen.seed(7); Ekf *e=mk(); " + B + "e->_params.vel_Tau=tau; e->_params.pos_Tau=0.25f; e->_imu_updated=true; e->_dt_ekf_avg=e->_dt_imu_avg=0.01f; e->_state.vel(0)+=1.f; imuSample u{}; u.time_us=100100000; u.delta_ang_dt=u.delta_vel_dt=0.01f; e->calculateOutputStates(u); return e->_output_new.vel(0); } int main(){ float a=run(0.25f), b=run(1.f); printf(\"%g %g\\n\",a,b); return a-b>0.005f?0:1; }")
X("out-quat-sign", "O01", "the output attitude has the opposite quaternion sign to the filter", "the output attitude is pushed away from the filter attitude instead of towards it",
  "ekf.cpp", "const float scalar = (q_error(0) >= 0.0f) ? -2.f : 2.f;", "const float scalar = (q_error(0) >= -2.0f) ? -2.f : 2.f;",
  "static float run(float s){ gen.seed(7); Ekf *e=mk(); " + B + "for(int i=0;i<3;i++) for(int k=0;k<4;k++) e->_output_buffer[i].quat_nominal(k)*=s; e->_imu_updated=true; e->_dt_ekf_avg=e->_dt_imu_avg=0.01f; Quatf d(AxisAnglef(Vector3f(0.1f,0.05f,-0.1f))); e->_state.quat_nominal=e->_state.quat_nominal*d; imuSample u{}; u.time_us=100100000; u.delta_ang_dt=u.delta_vel_dt=0.01f; e->calculateOutputStates(u); return e->_delta_angle_corr(0); } int main(){ float a=run(1.f), b=run(-1.f); printf(\"%g %g\\n\",a,b); return near(a,b)?0:1; }")
X("reset-vert-integ", "X01", "a height reset while the output buffer holds older samples", "the buffered vertical observer is not moved with a height reset",
  "ekf_helper.cpp", "\t\t_output_vert_buffer[i].vert_vel_integ += _state_reset_status.posD_change;\n", "",
  "int main(){ Ekf *e=mk(); " + B + "e->resetVerticalPositionTo(-33.f); for(int i=0;i<3;i++) if(!near(e->_output_vert_buffer[i].vert_vel_integ,-33)) return 1; return 0; }")
X("reset-ev-cov", "X01", "unequal vision velocity variances and a vision frame that is rotated against north", "the vision velocity variance is rotated the wrong way",
  "ekf_helper.cpp", "ev_vel_cov = _R_ev_to_ekf * ev_vel_cov * _R_ev_to_ekf.transpose();", "ev_vel_cov = _R_ev_to_ekf.transpose() * ev_vel_cov * _R_ev_to_ekf;",
  "int main(){ Ekf *e=mk(); Dcmf R=Dcmf(Eulerf(0.3f,0.6f,0.9f)); e->_R_ev_to_ekf=R; e->_params.fusion_mode|=MASK_ROTATE_EV; e->_ev_sample_delayed.vel_frame=velocity_frame_t::LOCAL_FRAME_FRD; e->_ev_sample_delayed.velCov=SquareMatrix3f(); e->_ev_sample_delayed.velCov.setZero(); double d[3]={1,4,9}; for(int i=0;i<3;i++) e->_ev_sample_delayed.velCov(i,i)=d[i]; Vector3f v=e->getVisionVelocityVarianceInEkfFrame(); for(int i=0;i<3;i++){ double w=0; for(int k=0;k<3;k++) w+=R(i,k)*R(i,k)*d[k]; if(!near(v(i),w)) return 1; } return 0; }")
X("reset-quat-order", "X02", "a heading reset while the vehicle is tilted", "the published attitude change, and with it the output history, turns about the body axis instead of the vertical",
  "ekf_helper.cpp", "const Quatf q_error((quat_after_reset * quat_before_reset.inversed()).normalized());", "const Quatf q_error((quat_before_reset.inversed() * quat_after_reset).normalized());",
  "int main(){ Ekf *e=mk(); " + B + "e->resetQuatStateYaw(1.2f,0.05f,true); Dcmf a(e->_state.quat_nominal), b(e->_output_new.quat_nominal); for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(fabsf(a(i,j)-b(i,j))>1e-3f) return 1; return 0; }")
X("origin-alt-sign", "X03", "a new origin at another altitude while aiding is active", "the height above the new origin has the wrong sign",
  "ekf_helper.cpp", "resetVerticalPositionTo(_gps_alt_ref - current_alt);", "resetVerticalPositionTo(current_alt - _gps_alt_ref);",
  "int main(){ Ekf *e=mk(); " + B + "e->_control_status.flags.gps=true; map_projection_init_timestamped(&e->_pos_ref,47,8,1); e->_gps_alt_ref=500; e->setEkfGlobalOrigin(47.0,8.0,480.f); printf(\"%g\\n\",e->_state.pos(2)); return near(e->_state.pos(2),-40)?0:1; }")

from seedlib import S
RB = dict(srcs=[], flags="-fsanitize=address,undefined -fno-sanitize-recover=all")
HR = "#include <stdint.h>\n#include <stddef.h>\n#include <EKF/RingBuffer.h>\n#include <stdio.h>\nstruct T { uint64_t time_us; int v; };\n"
R = "EKF/RingBuffer.h"
S("ring-tail-wrap", "B01", "popping the sample stored in the last slot while newer ones exist, then asking for an older time", "a sample older than one already popped is returned",
  [(R, "_tail = (index + 1) % _size;\n\t\t\t\t}", "_tail = index + 1;\n\t\t\t\t}")],
  HR + "int main(){ RingBuffer<T> b(3); for(int i=1;i<=4;i++) b.push({(uint64_t)i*10000+1000000,i}); T s{}; if(!b.pop_first_older_than(1035000,&s)||s.v!=3) return 2; return b.pop_first_older_than(1025000,&s)?1:0; }")
S("ring-resize-first", "B02", "a buffer that held samples is allocated again with another length", "the first sample after resizing is stored in the second slot and the oldest is an empty one",
  [(R, "\t\t_tail = 0;\n\n\t\t_first_write = true;", "\t\t_tail = 0;")],
  HR + "int main(){ RingBuffer<T> b(3); b.push({10,1}); b.push({20,2}); b.allocate(5); b.push({30,3}); return b.get_oldest().time_us==30?0:1; }", **RB)
S("alpha-slow-sample", "A01", "a sample interval longer than the time constant", "the filter keeps its old weight for sparse samples",
  [("AlphaFilter/AlphaFilter.hpp", "if (denominator > FLT_EPSILON) {", "if (denominator > FLT_EPSILON && sample_interval < 4.f * time_constant) {")],
  "#include <AlphaFilter/AlphaFilter.hpp>\n#include <math.h>\nint main(){ AlphaFilter<float> f; f.setParameters(5.f,1.f); f.reset(0.f); return fabsf(f.update(6.f)-5.f)<1e-4f?0:1; }")
S("deg-precision", "M01", "double precision angles", "conversion to degrees loses precision",
  [("mathlib/mathlib.h", "return (radians * Type(180)) / Type(M_PI);", "return radians * Type(180.f / static_cast<float>(M_PI));")],
  "#include <mathlib/mathlib.h>\n#include <math.h>\nint main(){ for(double d=-180;d<=180;d+=0.5){ double r=math::radians(d); if(fabs(math::degrees(r)-d)>1e-9) return 1;} return 0; }")
RF = "EKF/sensor_range_finder.cpp"
HF = "#include <EKF/sensor_range_finder.hpp>\n#include <stdio.h>\nusing namespace estimator::sensor; using estimator::rangeSample;\n"
S("rng-stuck-min", "R02", "more than ten seconds without a valid range, then a frozen reading", "a frozen range finder is trusted after an outage",
  [(RF, "if (_stuck_min_val < 0.1f || _sample.rng < _stuck_min_val) {", "if (_sample.rng < _stuck_min_val) {")],
  HF + """int main(){ SensorRangeFinder r; r.setPitchOffset(0.f); r.setLimits(0.1f, 50.f); matrix::Dcmf I; I.setIdentity(); uint64_t t=20000000; for(int i=0;i<40;i++,t+=50000){ rangeSample s{}; s.time_us=t; s.rng=7.f; s.quality=100; r.setSample(s); r._is_sample_ready=true; r.runChecks(t,I); if(r.isDataHealthy()) return 1; } return 0; }""",
  srcs=[RF], stub=True)
S("rng-stale-valid", "R01", "an outage of the range finder right after a valid sample", "the last sample stays valid while the sensor is silent",
  [(RF, "isDataContinuous()) {\n\t\t_is_sample_valid = false;\n", "isDataContinuous()) {\n")],
  HF + """int main(){ SensorRangeFinder r; r.setPitchOffset(0.f); r.setLimits(0.1f, 50.f); matrix::Dcmf I; I.setIdentity(); uint64_t t=9000000; for(int i=0;i<40;i++,t+=50000){ rangeSample s{}; s.time_us=t; s.rng=7.f+0.01f*i; s.quality=100; r.setSample(s); r._is_sample_ready=true; r._time_last_valid_us=t-60000; r.runChecks(t,I); }
 if(!r._is_sample_valid) return 2; r._is_sample_ready=false; r.runChecks(t+2000000,I); return r._is_sample_valid?1:0; }""",
  srcs=[RF], stub=True)
IM = "EKF/imu_down_sampler.cpp"
S("imu-clip-y", "I01", "clipping on the y axis in one interval followed by another interval", "clipping of one interval is reported in all later ones",
  [(IM, "\t_imu_down_sampled.delta_vel_clipping[1] = false;\n", "")],
  "#include <EKF/imu_down_sampler.hpp>\nusing namespace estimator;\nint main(){ ImuDownSampler d(0.01f); imuSample s{}; s.delta_ang_dt=s.delta_vel_dt=0.02f; s.time_us=20000; s.delta_vel_clipping[1]=true; if(!d.update(s)) return 2; d.getDownSampledImuAndTriggerReset(); s.delta_vel_clipping[1]=false; s.time_us=40000; if(!d.update(s)) return 3; return d.getDownSampledImuAndTriggerReset().delta_vel_clipping[1]?1:0; }",
  srcs=[IM], stub=True)
GE = "geo/geo.cpp"
HG = "#include <geo/geo.h>\n#include <math.h>\n#include <stdio.h>\n"
GK = dict(srcs=[GE], stub=True)
S("proj-near-ref", "D01", "a point within six metres of the reference", "reprojection snaps to the reference",
  [(GE, "if (fabs(c) > 0) {\n\t\tconst double sin_c", "if (fabs(c) > 1e-6) {\n\t\tconst double sin_c")],
  HG + "int main(){ map_projection_reference_s r{}; map_projection_init_timestamped(&r,47.3,8.5,1); double la,lo; map_projection_reproject(&r,3.f,-2.f,&la,&lo); float x,y; map_projection_project(&r,la,lo,&x,&y); printf(\"%f %f\\n\",x,y); return fabsf(x-3.f)<0.01f&&fabsf(y+2.f)<0.01f?0:1; }", **GK)
S("dist-mean-lat", "D02", "two points far apart in latitude and longitude", "the distance uses one latitude for both ends",
  [(GE, "* cos(lat_now_rad) * cos(lat_next_rad);", "* cos(0.5 * (lat_now_rad + lat_next_rad)) * cos(0.5 * (lat_now_rad + lat_next_rad));")],
  HG + "int main(){ float a=get_distance_to_next_waypoint(60,0,0,90); double want=CONSTANTS_RADIUS_OF_EARTH*M_PI/2; return fabs(a-want)<1000?0:1; }", **GK)
S("bearing-fast-seam", "D03", "a waypoint across the pole side of the antimeridian", "the bearing uses an unconverted difference of longitude beyond 180 degrees",
  [(GE, "const double d_lon = math::radians(lon_next - lon_now);\n\n\t/* conscious", "const double d_lon = math::constrain(math::radians(lon_next - lon_now), -M_PI, M_PI);\n\n\t/* conscious")],
  HG + "int main(){ float a=get_bearing_to_next_waypoint(10,179.5,10,-179.5), b=get_bearing_to_next_waypoint(10,-0.5,10,0.5); return fabsf(a-b)<1e-3f?0:1; }", **GK)
S("line-left-bearing", "D04", "a position left of a track", "the bearing back to the track points away from it on the left",
  [(GE, "if (sinf(bearing_diff) >= 0) {", "if (bearing_track >= bearing_end) {")],
  HG + "int main(){ crosstrack_error_s c{}; for(int h=0;h<360;h+=10){ double hr=h*M_PI/180; double la=0.1*cos(hr), lo=0.1*sin(hr); double pl=0.3*la+0.01*-sin(hr), po=0.3*lo+0.01*cos(hr); get_distance_to_line(&c,pl,po,0,0,la,lo); float want=(float)(hr-M_PI/2); float e=c.bearing-want; if(cosf(e)<0.99f){ printf(\"%d %f %f\\n\",h,c.bearing,want); return 1;} } return 0; }", **GK)
W = "airdata/WindEstimator.cpp"
HW = "#include <airdata/WindEstimator.hpp>\n#include <math.h>\n#include <stdio.h>\nusing namespace matrix;\n"
WK = dict(srcs=[W], stub=True)
S("wind-yaw-jac", "W02", "initialisation flying neither north nor east", "the initial covariance ignores how the wind along one axis depends on the speed along the other",
  [(W, "\tfloat L1 = v_n * v_n;", "\tfloat L1 = v_n * fabsf(v_e);")],
  HW + "int main(){ WindEstimator w; w.fuse_airspeed(1000000,15.f,Vector3f(3.f,12.f,0.f),Vector2f(0.4f,0.9f)); float s=15.f/powf(9+144,1.5f); float l00=1-144*s,l01=36*s,l11=1-9*s; float p00=l00*l00*0.4f+l01*l01*0.9f, p11=l01*l01*0.4f+l11*l11*0.9f; printf(\"%f %f %f %f\\n\",w._P(0,0),p00,w._P(1,1),p11); return fabsf(w._P(0,0)-p00)<1e-3f&&fabsf(w._P(1,1)-p11)<1e-3f?0:1; }", **WK)
S("wind-scale-climb", "W01", "airspeed fusion while climbing or sinking", "the Jacobian of the airspeed scale leaves out vertical speed",
  [(W, "H_tas(0, 2) = HH0;", "H_tas(0, 2) = sqrtf((v_e - _state(INDEX_W_E)) * (v_e - _state(INDEX_W_E)) + (v_n - _state(INDEX_W_N)) * (v_n - _state(INDEX_W_N)));")],
  HW + "int main(){ WindEstimator w; w._initialised=true; w._state(0)=1;w._state(1)=-2;w._state(2)=1.f; w._P.setZero(); w._P(0,0)=2;w._P(1,1)=3;w._P(2,2)=0.01f; w._tas_var=1; w._tas_gate=5; w.fuse_airspeed(10000000,14.f,Vector3f(9,5,6),Vector2f(.1f,.1f)); float u=8,v=7,d=6,n=sqrtf(u*u+v*v+d*d); float S=u*u/n/n*2+v*v/n/n*3+n*n*0.01f+1; printf(\"%f %f\\n\",w._tas_innov_var,S); return fabsf(w._tas_innov_var-S)<1e-3f?0:1; }", **WK)
S("wind-nan-scale", "W03", "an airspeed scale that became not a number", "the filter keeps running on a state that is not finite",
  [(W, "|| !ISFINITE(_state(INDEX_W_E)) || !ISFINITE(_state(INDEX_TAS_SCALE))", "|| !ISFINITE(_state(INDEX_W_E)) || _state(INDEX_TAS_SCALE) < 0.0f")],
  HW + "int main(){ WindEstimator w; w._initialised=true; w._P.setIdentity(); w._state.setZero(); w._state(2)=NAN; w.run_sanity_checks(); return w._initialised?1:0; }", **WK)

from seedlib import S
F = "geo_lookup/geo_mag_declination.cpp"
H = "#include <geo_lookup/geo_mag_declination.h>\n#include <math.h>\n#include <stdio.h>\n"
K = dict(srcs=[F], flags="-fsanitize=address,undefined -fno-sanitize-recover=all")
S("geo-upper-bound", "G02", "a position exactly on the last row or column (latitude 90)", "the row after the table is read",
  [(F, "constrain(*val, min, max - SAMPLING_RES)", "constrain(*val, min, max)")],
  H + "int main(){ volatile float lat=90.f; float a=get_mag_strength_gauss(lat,30.f), b=get_mag_strength_gauss(lat,-120.f); printf(\"%f %f\\n\",a,b); return !(fabsf(a-b)<1e-3f && a>0.5f && a<0.65f); }", **K)
S("geo-west-clamp", "G02", "a longitude between -540 and -180 degrees", "longitudes west of the antimeridian are clamped instead of wrapped",
  [(F, "lon += 360;", "lon = SAMPLING_MIN_LON;")],
  H + "int main(){ for(float lat=-80;lat<=80;lat+=10) for(float l=-400;l<-180;l+=5){ if(fabsf(get_mag_inclination_radians(lat,l)-get_mag_inclination_radians(lat,l+360.f))>1e-3f) return 1;} return 0; }", **K)
S("geo-scale-cap", "G01", "a latitude within 0.3 degrees below a grid line", "interpolation stops short of the next node",
  [(F, "constrain((lat - min_lat) / SAMPLING_RES, 0.f, 1.f)", "constrain((lat - min_lat) / SAMPLING_RES, 0.f, 0.97f)")],
  H + "int main(){ for(float lon=-175;lon<180;lon+=10) for(float lat=-80;lat<=80;lat+=10){ float a=get_mag_inclination_radians(lat-0.001f,lon),b=get_mag_inclination_radians(lat,lon); if(fabsf(a-b)>1e-3f) return 1;} return 0; }", **K)
T = "geo_lookup/geo_magnetic_tables.hpp"
rows = [l for l in open("/repo/" + T) if "LAT: -80 " in l]
r = rows[1]
import re
m = list(re.finditer(r"-?\d+", r))[-1]
last, i = m.group(), m.start()
S("geo-seam-table", "G03", "a position between 70 and 90 degrees south next to the antimeridian", "the last table column no longer repeats the first, so the inclination jumps at +-180 degrees",
  [(T, r, r[:i] + str(int(last) - 150) + r[i + len(last):])],
  H + "int main(){ for(float lat=-90;lat<=90;lat+=1){ if(fabsf(get_mag_inclination_radians(lat,-180.f)-get_mag_inclination_radians(lat,180.f))>1e-3f) return 1;} return 0; }", **K)
S("geo-tesla-polar", "G04", "latitude above 80 degrees and the tesla variant", "the tesla variant differs from the gauss variant near the north pole",
  [(F, "return get_mag_strength_gauss(lat, lon) * 1e-4f;", "return get_mag_strength_gauss(math::constrain(lat, -80.f, 80.f), lon) * 1e-4f;")],
  H + "int main(){ for(float lat=-90;lat<=90;lat+=1)for(float lon=-180;lon<=180;lon+=3){ if(fabsf(get_mag_strength_gauss(lat,lon)*1e-4f-get_mag_strength_tesla(lat,lon))>1e-8f) return 1;} return 0; }", **K)

// P35, P36, P42: geodetic coordinates, local frames, geoid.
#include "pbt.h"
#include <string.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/geoid_model.h>
using namespace pbt;

namespace {
typedef long double LD;
const LD PIl = 3.14159265358979323846264338327950288L;
const LD FL = 1 / 298.257223563L, E2 = 2 * FL - FL * FL, A_ = 6378137.0L;

struct V { LD x, y, z; };
V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
LD dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
LD norm(V a) { return sqrtl(dot(a, a)); }
V vec(const double *p) { return {p[0], p[1], p[2]}; }
LD primevert(LD lat) { return A_ / sqrtl(1 - E2 * sinl(lat) * sinl(lat)); }
V forward(LD lat, LD lon, LD h) {
  LD N = primevert(lat);
  return {(N + h) * cosl(lat) * cosl(lon), (N + h) * cosl(lat) * sinl(lon), (N * (1 - E2) + h) * sinl(lat)};
}
// latitude with emphasis on the equator, the poles and special angles
LD gen_lat(Case &c) {
  LD v;
  switch (c.draw(6)) {
    case 0: v = c.real(-1.5707963267948966, 1.5707963267948966); break;
    // a round parametric (reduced) latitude, exactly or nearly: where the iterations meet special ratios
    case 6: v = atanl(tanl((LD)c.pick({9, -9, 6, -6, 12, -12, 3, 4, 15, 17}) * PIl / 36) * WGS84_A / WGS84_B); if (c.chance(1, 4)) v += c.sign() * c.logreal(1e-17, 1e-9); break;
    case 1: v = c.pick({0.0, 1.5707963267948966, -1.5707963267948966, 0.7853981633974483, -0.7853981633974483}); break;
    case 2: v = c.sign() * c.logreal(1e-18, 1.0); break;
    case 3: v = c.sign() * (1.5707963267948966L - (LD)c.logreal(1e-18, 1.0)); break;
    case 4: v = (LD)c.range(-90, 90) * PIl / 180; break;
    default: v = (LD)c.range(-18, 18) * PIl / 36 + c.sign() * c.logreal(1e-16, 1e-3); break;
  }
  if (v > 1.5707963267948966L) v = 1.5707963267948966L;
  if (v < -1.5707963267948966L) v = -1.5707963267948966L;
  return v;
}
LD gen_lon(Case &c) {
  LD v;
  switch (c.draw(4)) {
    case 0: v = c.real(-3.141592653589793, 3.141592653589793); break;
    case 1: v = c.pick({0.0, 3.141592653589793, -3.141592653589793, 1.5707963267948966, -1.5707963267948966}); break;
    case 2: v = (LD)c.range(-180, 180) * PIl / 180; break;
    case 3: v = c.sign() * (3.141592653589793 - c.logreal(1e-16, 1e-3)); break;
    default: v = (LD)c.range(-4, 4) * PIl / 4 + c.sign() * c.logreal(1e-17, 1e-3); break;
  }
  return v;
}
LD gen_h(Case &c) {
  switch (c.draw(5)) {
    case 0: return c.real(-500, 9000);
    case 1: return c.pick({0.0, -1.0, 22.0, 20200e3, 35786e3});
    case 2: return c.real(-5e6, 0);
    case 3: return c.logreal(1e-9, 1e8);
    case 4: return c.real(1e6, 5e7);
    default: return -c.logreal(1e-9, 5e6);
  }
}
LD wrap(LD a) { return a - 2 * PIl * roundl(a / (2 * PIl)); }
}  // namespace

// ---------------------------------------------------------------- P35
SUB(P35, forward, 1, 20000, "any latitude (poles, equator, tiny offsets of both), longitude (date line), height -5000 km..100000 km to Cartesian against the ellipsoid formulas in extended precision; non-trivial: away from the five pinned test points") {
  double llh[3] = {(double)gen_lat(c), (double)gen_lon(c), (double)gen_h(c)}, in[3], e[3];
  memcpy(in, llh, sizeof in);
  wgsllh2ecef(llh, e);
  V t = forward(llh[0], llh[1], llh[2]);
  c.nontrivial(llh[2] != 0 && llh[2] != 22);
  c.note("llh %.17g %.17g %.17g", llh[0], llh[1], llh[2]);
  CHECK(memcmp(in, llh, sizeof in) == 0, "input modified");
  LD err = norm(vec(e) - t);
  CHECK(err <= 1e-8L + 2e-15L * norm(t), "off by %.3Lg m: %.9f %.9f %.9f", err, e[0], e[1], e[2]);
}
SUB(P35, round_trip, 2, 20000, "a point of known geodetic coordinates converted to Cartesian by the library and back: each coordinate recovered within 0.1 micrometre plus rounding; longitude modulo a turn and free at the poles; non-trivial: always") {
  double llh[3] = {(double)gen_lat(c), (double)gen_lon(c), (double)gen_h(c)}, e[3], b[3];
  wgsllh2ecef(llh, e);
  wgsecef2llh(e, b);
  c.nontrivial();
  c.note("llh %.17g %.17g %.17g back %.17g %.17g %.17g", llh[0], llh[1], llh[2], b[0], b[1], b[2]);
  c.label(fabs(llh[0]) > 1.5707 ? "near a pole" : fabs(llh[0]) < 1e-4 ? "near the equator" : llh[2] < -10000 ? "deep" : llh[2] > 1e6 ? "orbit" : "surface");
  LD r = norm(vec(e)), tol = 1e-7L + 4e-15L * r;
  CHECK(fabsl((LD)b[0] - llh[0]) * r <= tol, "latitude off by %.3Lg m", fabsl((LD)b[0] - llh[0]) * r);
  CHECK(fabs(b[2] - llh[2]) <= tol, "height off by %.3g m", b[2] - llh[2]);
  LD p = (primevert(llh[0]) + llh[2]) * cosl(llh[0]);
  CHECK(fabsl(wrap((LD)b[1] - llh[1])) * p <= tol, "longitude off by %.3Lg m", fabsl(wrap((LD)b[1] - llh[1])) * p);
}
SUB(P35, from_cartesian, 2, 20000, "any Cartesian point at least 1360 km from the centre, also on and within 1e-12..1 m of the polar axis and the equatorial plane and with signed zeros: the geodetic result maps back to the point, its latitude has the sign of Z, and it is the foot nearest the point (normal not past the evolute); non-trivial: always") {
  double e[3];
  switch (c.draw(3)) {
    case 0: for (double &x : e) x = c.real(-3e7, 3e7); break;
    case 1: {  // near the axis
      double rho = c.coin() ? 0.0 : c.logreal(1e-13, 1e3);
      double a = c.real(-3.2, 3.2);
      e[0] = rho * cos(a); e[1] = rho * sin(a); e[2] = c.sign() * c.real(1.4e6, 4e7);
      if (c.chance(1, 4)) e[c.draw(1)] = c.sign() * 0.0;
      break;
    }
    case 2: {  // near the equatorial plane
      double rho = c.real(1.4e6, 4e7), a = c.coin() ? c.real(-3.2, 3.2) : (double)c.range(-4, 4) * 0.78539816339744828;
      e[0] = rho * cos(a); e[1] = rho * sin(a); e[2] = c.coin() ? c.sign() * 0.0 : c.sign() * c.logreal(1e-13, 1e3);
      break;
    }
    default: {
      V t = forward(gen_lat(c), gen_lon(c), gen_h(c));
      e[0] = (double)t.x; e[1] = (double)t.y; e[2] = (double)t.z;
    }
  }
  LD r = norm(vec(e));
  if (r < 1.36e6L) return;
  c.nontrivial();
  double in[3], l[3];
  memcpy(in, e, sizeof in);
  wgsecef2llh(e, l);
  c.note("ecef %.17g %.17g %.17g -> %.17g %.17g %.17g", e[0], e[1], e[2], l[0], l[1], l[2]);
  CHECK(memcmp(in, e, sizeof in) == 0, "input modified");
  CHECK(isfinite(l[0]) && isfinite(l[1]) && isfinite(l[2]), "not finite");
  CHECK(fabs(l[0]) <= 1.5707963267948968 && fabs(l[1]) <= 3.1415926535897936, "angles out of range");
  CHECK(e[2] > 0 ? l[0] >= 0 : e[2] < 0 ? l[0] <= 0 : fabs(l[0]) < 1e-15, "latitude has the wrong sign");
  LD N = primevert(l[0]);
  CHECK(N * (1 - E2) + l[2] > 0, "past the evolute");
  LD err = norm(forward(l[0], l[1], l[2]) - vec(e));
  CHECK(err <= 1e-7L + 4e-15L * r, "maps back %.3Lg m away", err);
}
SUB(P35, degrees, 0.5, 5000, "degree/radian conversion of any triple, in place and not: the scale factor is pi/180 within rounding, both directions are inverse, height is untouched; non-trivial: always") {
  double a[3], d[3], r[3];
  a[0] = (double)gen_lat(c); a[1] = (double)gen_lon(c);
  a[2] = (double)gen_h(c);
  c.nontrivial();
  llhrad2deg(a, d);
  for (int i = 0; i < 2; i++) CHECK(fabsl(d[i] - (LD)a[i] * 180 / PIl) <= 1e-15L * fabsl(d[i]), "degrees of %.17g are %.17g", a[i], d[i]);
  llhdeg2rad(d, r);
  for (int i = 0; i < 2; i++) CHECK(fabs(r[i] - a[i]) <= 1e-15 * fabs(a[i]), "radians of %.17g are %.17g", d[i], r[i]);
  CHECK(memcmp(&d[2], &a[2], 8) == 0 && memcmp(&r[2], &a[2], 8) == 0, "height changed");
  double q[3];
  memcpy(q, a, sizeof q);
  llhrad2deg(q, q);
  CHECK(memcmp(q, d, sizeof q) == 0, "in place differs");
  llhdeg2rad(q, q);
  CHECK(memcmp(q, r, sizeof q) == 0, "in place differs");
}

// ---------------------------------------------------------------- P36
namespace {
struct Frame { V n, e, d; };
Frame frame(LD lat, LD lon) {
  return {{-sinl(lat) * cosl(lon), -sinl(lat) * sinl(lon), cosl(lat)}, {-sinl(lon), cosl(lon), 0}, {-cosl(lat) * cosl(lon), -cosl(lat) * sinl(lon), -sinl(lat)}};
}
// reference point, its frame known independently
Frame gen_ref(Case &c, double ref[3], double llh[3]) {
  LD lat = gen_lat(c), lon = gen_lon(c), h = c.coin() ? (LD)c.real(-500, 9000) : gen_h(c);
  if (c.chance(1, 8)) {  // exactly on the axis: longitude is taken as zero
    lat = c.sign() * 1.5707963267948966;
    lon = 0;
    V t = forward(lat, lon, h);
    ref[0] = ref[1] = 0; ref[2] = (double)t.z;
    llh[0] = (double)lat; llh[1] = 0; llh[2] = (double)h;
    return frame(lat > 0 ? PIl / 2 : -PIl / 2, 0);
  }
  // keep the longitude defined: a few metres off the axis at least
  if (fabsl(lat) > 1.57079L) lat = lat > 0 ? 1.57079L : -1.57079L;
  V t = forward(lat, lon, h);
  ref[0] = (double)t.x; ref[1] = (double)t.y; ref[2] = (double)t.z;
  llh[0] = (double)lat; llh[1] = (double)lon; llh[2] = (double)h;
  return frame(lat, lon);
}
void gen_vec(Case &c, double v[3]) {
  for (int i = 0; i < 3; i++) v[i] = c.chance(1, 6) ? 0.0 : c.sign() * c.logreal(1e-6, 1e8);
}
LD rot_tol(const double ref[3]) {
  // direction error of the frame: rounding of the reference over its distance to the axis
  LD p = hypotl(ref[0], ref[1]);
  return p > 0 ? 4e-15L * (1 + norm(vec(ref)) / p) : 1e-15L;
}
}  // namespace
SUB(P36, matrix, 1, 20000, "reference points anywhere (poles, on the axis, date line, underground to orbit): the matrix from geodetic and from Cartesian reference against the geodetic axes in extended precision, orthonormal, determinant one; non-trivial: always") {
  double ref[3], llh[3], M[3][3], Q[3][3];
  Frame f = gen_ref(c, ref, llh);
  c.nontrivial();
  c.note("llh %.17g %.17g %.17g", llh[0], llh[1], llh[2]);
  wgs_ecef2ned_matrix(llh, M);
  Frame g = frame(llh[0], llh[1]);
  LD E[3][3] = {{g.n.x, g.n.y, g.n.z}, {g.e.x, g.e.y, g.e.z}, {g.d.x, g.d.y, g.d.z}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(fabsl(M[i][j] - E[i][j]) < 1e-15L, "geodetic matrix element %d,%d is %.17g not %.17Lg", i, j, M[i][j], E[i][j]);
  ecef2ned_matrix(ref, Q);
  LD T[3][3] = {{f.n.x, f.n.y, f.n.z}, {f.e.x, f.e.y, f.e.z}, {f.d.x, f.d.y, f.d.z}};
  LD tol = rot_tol(ref);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(fabsl(Q[i][j] - T[i][j]) < tol, "Cartesian matrix element %d,%d is %.17g not %.17Lg", i, j, Q[i][j], T[i][j]);
  for (auto *R : {M, Q}) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      LD s = 0;
      for (int k = 0; k < 3; k++) s += (LD)R[i][k] * R[j][k];
      CHECK(fabsl(s - (i == j)) < 2e-15L, "rows %d and %d not orthonormal: %.3Lg", i, j, s);
    }
    LD det = (LD)R[0][0] * ((LD)R[1][1] * R[2][2] - (LD)R[1][2] * R[2][1]) - (LD)R[0][1] * ((LD)R[1][0] * R[2][2] - (LD)R[1][2] * R[2][0]) +
             (LD)R[0][2] * ((LD)R[1][0] * R[2][1] - (LD)R[1][1] * R[2][0]);
    CHECK(fabsl(det - 1) < 3e-15L, "determinant %.17Lg", det);
  }
}
SUB(P36, vectors, 2, 20000, "vectors from micrometres to 1e8 m rotated to local axes and back at any reference: components along the geodetic axes, lengths and pairwise angles preserved, exact inverse within rounding, the point form is the rotation of the difference; inputs untouched; non-trivial: non-zero vector") {
  double ref[3], llh[3], v[3], w[3], nv[3], nw[3], b[3], pt[3], nd[3], pe[3];
  Frame f = gen_ref(c, ref, llh);
  gen_vec(c, v);
  gen_vec(c, w);
  LD lv = norm(vec(v)), lw = norm(vec(w));
  c.nontrivial(lv > 0);
  c.note("ref %.17g %.17g %.17g v %.17g %.17g %.17g", ref[0], ref[1], ref[2], v[0], v[1], v[2]);
  double r0[3], v0[3];
  memcpy(r0, ref, sizeof r0); memcpy(v0, v, sizeof v0);
  wgsecef2ned(v, ref, nv);
  wgsecef2ned(w, ref, nw);
  LD tol = rot_tol(ref);
  LD t[3] = {dot(f.n, vec(v)), dot(f.e, vec(v)), dot(f.d, vec(v))};
  for (int i = 0; i < 3; i++) CHECK(fabsl(nv[i] - t[i]) <= 2 * tol * lv, "component %d is %.17g not %.17Lg", i, nv[i], t[i]);
  CHECK(fabsl(norm(vec(nv)) - lv) <= 4e-15L * lv, "length changed by %.3Lg", norm(vec(nv)) - lv);
  CHECK(fabsl(dot(vec(nv), vec(nw)) - dot(vec(v), vec(w))) <= 8e-15L * lv * lw, "angle changed");
  wgsned2ecef(nv, ref, b);
  CHECK(norm(vec(b) - vec(v)) <= 6e-15L * lv, "not inverted: off by %.3Lg of %.3Lg", norm(vec(b) - vec(v)), lv);
  // point forms
  for (int i = 0; i < 3; i++) pt[i] = ref[i] + v[i];
  wgsecef2ned_d(pt, ref, nd);
  double diff[3], ndd[3];
  for (int i = 0; i < 3; i++) diff[i] = pt[i] - ref[i];
  wgsecef2ned(diff, ref, ndd);
  for (int i = 0; i < 3; i++) CHECK(fabs(nd[i] - ndd[i]) <= 4e-15 * (double)norm(vec(diff)), "point form component %d is %.17g not %.17g", i, nd[i], ndd[i]);
  wgsned2ecef_d(nd, ref, pe);
  LD ulp = 1e-15L * (norm(vec(pt)) + norm(vec(ref)) + lv);
  CHECK(norm(vec(pe) - vec(pt)) <= 4 * ulp, "point not recovered: off by %.3Lg", norm(vec(pe) - vec(pt)));
  CHECK(memcmp(r0, ref, sizeof r0) == 0 && memcmp(v0, v, sizeof v0) == 0, "input modified");
}
SUB(P36, azimuth_elevation, 2, 20000, "targets placed at a known azimuth and elevation (exactly overhead and underfoot, on the horizon, in the cardinal directions, micrometre to 1e8 m away) from any reference: finite, in range, equal to the known direction; non-trivial: always") {
  double ref[3], llh[3], tgt[3];
  Frame f = gen_ref(c, ref, llh);
  LD el = c.chance(1, 3) ? gen_lat(c) : (LD)c.pick({0.0, 1.5707963267948966, -1.5707963267948966, 0.1, 1.0});
  LD az = c.coin() ? (LD)c.real(0, 6.283185307179586) : gen_lon(c);
  LD dist = c.logreal(1e-3, 1e8);
  LD ce = fabsl(el) >= 1.5707963267948966L ? 0 : cosl(el);
  LD n = ce * cosl(az), e = ce * sinl(az), d = -sinl(el);
  V u = {f.n.x * n + f.e.x * e + f.d.x * d, f.n.y * n + f.e.y * e + f.d.y * d, f.n.z * n + f.e.z * e + f.d.z * d};
  tgt[0] = (double)(ref[0] + dist * u.x); tgt[1] = (double)(ref[1] + dist * u.y); tgt[2] = (double)(ref[2] + dist * u.z);
  if (c.chance(1, 6)) {  // along the axes or radially, so that rounding is exact or one-sided
    double k = c.pick({2.0, 4.0, 1.5, 0.5, 3.0, 1.0000001});
    for (int i = 0; i < 3; i++) tgt[i] = ref[i] * k;
  }
  V q = vec(tgt) - vec(ref);
  LD D = norm(q);
  if (D == 0) return;
  c.nontrivial();
  c.note("ref %.17g %.17g %.17g target %.17g %.17g %.17g", ref[0], ref[1], ref[2], tgt[0], tgt[1], tgt[2]);
  LD N = dot(f.n, q), E = dot(f.e, q), Dn = dot(f.d, q), hz = hypotl(N, E);
  LD tel = atan2l(-Dn, hz), taz = atan2l(E, N);
  double a = 99, x = 99;
  wgsecef2azel(tgt, ref, &a, &x);
  c.label(hz < 1e-9L * D ? "overhead or underfoot" : fabsl(tel) < 1e-9L ? "horizon" : "general");
  CHECK(isfinite(a) && isfinite(x), "not finite: azimuth %g elevation %g", a, x);
  CHECK(a >= 0 && a <= 6.2831853071795865, "azimuth %.17g out of range", a);
  CHECK(fabs(x) <= 1.5707963267948966, "elevation %.17g out of range", x);
  LD ang = rot_tol(ref);  // rotation error
  LD tol = 4 * ang + 1e-14L + (hz < 1e-3L * D ? fminl(4e-8L, 4e-15L * D / fmaxl(hz, 1e-30L)) : 4e-12L);
  CHECK(fabsl(x - tel) <= tol, "elevation %.17g not %.17Lg", x, tel);
  LD atol = 4 * ang * D / fmaxl(hz, 1e-30L) + 1e-14L + 8e-15L * D / fmaxl(hz, 1e-30L);
  if (atol < 1) CHECK(fabsl(wrap(a - taz)) <= atol, "azimuth %.17g not %.17Lg", a, taz);
}

// ---------------------------------------------------------------- P42
namespace {
const int32_t G[360][181] = {
#include "geoid_egm2008.inc"
};
LD gval(int x, int y) { return G[((x % 360) + 360) % 360][y] * 1e-6L; }
LD cubic(LD a, LD b, LD cc, LD d, LD t) {  // Catmull-Rom through b (t=0) and cc (t=1)
  return b + t * ((cc - a) / 2 + t * (a - 2.5L * b + 2 * cc - d / 2 + t * (-a / 2 + 1.5L * b - 1.5L * cc + d / 2)));
}
// documented interpolation; latdeg -90..90, londeg 0..360
LD geoid_model(LD latdeg, LD londeg) {
  LD y = latdeg + 90, x = londeg;
  int iy = (int)floorl(y), ix = (int)floorl(x);
  LD fy = y - iy, fx = x - ix;
  if (iy >= 180) return gval(ix, 180);
  if (iy > 0 && iy < 179) {
    LD a[4];
    for (int k = 0; k < 4; k++) a[k] = cubic(gval(ix - 1 + k, iy - 1), gval(ix - 1 + k, iy), gval(ix - 1 + k, iy + 1), gval(ix - 1 + k, iy + 2), fy);
    return cubic(a[0], a[1], a[2], a[3], fx);
  }
  return (1 - fy) * ((1 - fx) * gval(ix, iy) + fx * gval(ix + 1, iy)) + fy * ((1 - fx) * gval(ix, iy + 1) + fx * gval(ix + 1, iy + 1));
}
const double SEAM = 0.0026;  // largest step at +-89 degrees, where the interpolation changes from cubic to linear
double gdeg(LD lat, LD lon) {
  double a = (double)(lat * PIl / 180), b = (double)(lon * PIl / 180);
  if (a > 1.5707963267948966) a = 1.5707963267948966;
  if (a < -1.5707963267948966) a = -1.5707963267948966;
  return get_geoid_offset(a, b);
}
}  // namespace
EXH(P42, grid_points, 360 * 181 * 3, "every grid point of the 1-degree grid, with the longitude written as 0..360, as -180..180 and one turn lower where allowed: the height is the published EGM2008 value; non-trivial: always") {
  uint64_t k = c.draw(360 * 181 * 3 - 1);
  int form = (int)(k % 3), y = (int)(k / 3 % 181), x = (int)(k / 3 / 181);
  int lon = x;
  if (form == 1 && x > 180) lon = x - 360;
  if (form == 2) lon = x == 0 ? 360 : x - 360;
  c.nontrivial();
  c.note("lat %d lon %d", y - 90, lon);
  double g = gdeg(y - 90, lon);
  CHECK(fabs(g - (double)gval(x, y)) < 2e-3, "geoid height %.6f not %.6Lf", g, gval(x, y));
}
SUB(P42, interpolation, 2, 20000, "any latitude and longitude in range (cells next to the poles, both seams, longitude 0/360 and negative, grid lines and their neighbourhood): equals the documented bicubic interpolation (bilinear in the polar cells) of the published grid, evaluated in extended precision, within the single-precision angle resolution; in the physical range of the geoid; non-trivial: off the grid points") {
  LD lat, lon;
  switch (c.draw(3)) {
    case 0: lat = c.real(-90, 90); break;
    case 1: lat = c.sign() * c.real(87, 90); break;
    case 2: lat = (LD)c.range(-89, 89) + c.sign() * c.logreal(1e-9, 0.5); break;
    default: lat = (LD)c.range(-90, 90); break;
  }
  switch (c.draw(3)) {
    case 0: lon = c.real(-360, 360); break;
    case 1: lon = c.sign() * c.logreal(1e-9, 2); break;
    case 2: { lon = (LD)c.range(-359, 359) + c.sign() * c.logreal(1e-9, 0.5); break; }
    default: lon = (LD)c.range(-360, 360); break;
  }
  if (lon < -359.99995L) lon = -359.99995L;  // the lowest float above -360 degrees that stays in range
  c.nontrivial(lat != floorl(lat) || lon != floorl(lon));
  c.note("lat %.12Lf lon %.12Lf", lat, lon);
  double g = gdeg(lat, lon);
  LD L = lon < 0 ? lon + 360 : lon;
  LD t = geoid_model(lat, L);
  // single precision angles: up to 1.6e-5 degrees along each axis, up to 12 m per degree
  LD tol = 2e-3L;
  if (fabsl(fabsl(lat) - 89) < 5e-5L) tol += SEAM;
  c.label(fabsl(lat) > 89 ? "polar cell" : L < 1 || L > 359 ? "longitude wrap" : "general");
  CHECK(fabsl(g - t) < tol, "geoid height %.6f not %.6Lf", g, t);
  CHECK(g > -110 && g < 90, "geoid height %.3f is not physical", g);
}
SUB(P42, continuity, 1, 20000, "pairs of points at most 1e-3 degree apart, across grid lines, seams and the longitude wrap: the heights differ by at most the steepest slope times the distance (plus 2.6 mm at +-89 degrees); longitudes a turn apart agree; every longitude agrees at a pole; non-trivial: always") {
  LD lat = c.coin() ? (LD)c.range(-89, 89) : (LD)c.real(-90, 90), lon = c.coin() ? (LD)c.range(-179, 179) : (LD)c.real(-180, 180);
  LD d = c.logreal(1e-6, 1e-3), a = c.real(0, 6.283185307179586);
  LD lat2 = fmaxl(-90, fminl(90, lat + d * sinl(a))), lon2 = lon + d * cosl(a);
  lat = fmaxl(-90, fminl(90, lat - d * sinl(a)));
  c.nontrivial();
  c.note("%.9Lf %.9Lf and %.9Lf %.9Lf", lat, lon, lat2, lon2);
  double g1 = gdeg(lat, lon), g2 = gdeg(lat2, lon2);
  LD tol = 2e-3L + 60 * 2 * d;
  if (fabsl(fabsl(lat) - 89) < 3e-3L) tol += SEAM;
  CHECK(fabs(g1 - g2) <= tol, "heights %.6f and %.6f", g1, g2);
  LD b = lon < 0 ? lon + 360 : lon > 0.001L ? lon - 360 : lon;
  double g3 = gdeg(lat, b);
  CHECK(fabs(g3 - g1) <= 1e-3, "a turn apart: %.6f and %.6f", g1, g3);
  double s = c.sign(), p1 = gdeg(s * 90, lon), p2 = gdeg(s * 90, c.real(-180, 360));
  CHECK(fabs(p1 - p2) < 1e-5, "the pole has heights %.6f and %.6f", p1, p2);
}
SUB(P42, out_of_range, 0.5, 5000, "latitudes beyond a right angle, longitudes beyond a turn, infinities and NaN: zero, and no access outside the grid; non-trivial: always") {
  double lat, lon;
  auto wild = [&](double lim) {
    switch (c.draw(3)) {
      case 0: return c.sign() * (lim + c.logreal(1e-5, 10));
      case 1: return c.sign() * c.logreal(10, 1e300);
      case 2: return c.sign() * INFINITY;
      default: return (double)NAN;
    }
  };
  int which = (int)c.draw(2);
  lat = which == 1 ? c.real(-1.57, 1.57) : wild(1.5707963267948966);
  lon = which == 0 ? c.real(-6.28, 6.28) : wild(6.283185307179586);
  c.nontrivial();
  c.note("lat %g lon %g", lat, lon);
  float g = get_geoid_offset(lat, lon);
  CHECK(g == 0, "geoid height %.6f out of range", (double)g);
}
SUB(P42, model, 0.1, 1, "the identity of the model; non-trivial: always") {
  c.nontrivial();
  c.draw(1);
  CHECK(get_geoid_model() == GEOID_MODEL_EGM2008, "model %d", (int)get_geoid_model());
}

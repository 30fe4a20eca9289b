// Published atmosphere models in extended precision, shared by the check groups.
#pragma once
#include <math.h>
#include <swiftnav/ionosphere.h>
namespace atmo_model {
typedef long double LD;
const LD PIl = 3.14159265358979323846264338327950288L;
const LD Cl = 299792458.0L;

// IS-GPS-200 20.3.3.5.2.5; all angles in semicircles. Returns metres and the phase.
inline LD klobuchar(LD tow, LD lat, LD lon, LD az, LD el, const ionosphere_t &p, LD &x, LD &F, LD &t) {
  LD psi = 0.0137L / (el + 0.11L) - 0.022L;
  LD phi = lat + psi * cosl(az * PIl);
  if (phi > 0.416L) phi = 0.416L;
  if (phi < -0.416L) phi = -0.416L;
  LD lam = lon + psi * sinl(az * PIl) / cosl(phi * PIl);
  LD pm = phi + 0.064L * cosl((lam - 1.617L) * PIl);
  t = 43200 * lam + tow;
  t -= 86400 * floorl(t / 86400);
  F = 1 + 16 * powl(0.53L - el, 3);
  LD per = p.b0 + p.b1 * pm + p.b2 * pm * pm + p.b3 * pm * pm * pm;
  if (per < 72000) per = 72000;
  x = 2 * PIl * (t - 50400) / per;
  LD amp = p.a0 + p.a1 * pm + p.a2 * pm * pm + p.a3 * pm * pm * pm;
  if (amp < 0) amp = 0;
  LD T = F * 5e-9L;
  if (fabsl(x) < 1.57L) T = F * (5e-9L + amp * (1 - x * x / 2 + x * x * x * x / 24));
  return T * Cl;
}

// UNB3m (Leandro, Santos, Langley 2006) with the Niell mapping functions
const LD AVG[5][5] = {{1013.25L, 299.65L, 75.0L, 6.30L, 2.77L}, {1017.25L, 294.15L, 80.0L, 6.05L, 3.15L}, {1015.75L, 283.15L, 76.0L, 5.58L, 2.57L},
                      {1011.75L, 272.15L, 77.5L, 5.39L, 1.81L}, {1013.00L, 263.65L, 82.5L, 4.53L, 1.55L}};
const LD AMP[5][5] = {{0, 0, 0, 0, 0}, {-3.75L, 7, 0, 0.25L, 0.33L}, {-2.25L, 11, -1, 0.32L, 0.46L}, {-1.75L, 15, -2.5L, 0.81L, 0.74L}, {-0.50L, 14.5L, 2.5L, 0.62L, 0.30L}};
const LD NA[3][5] = {{1.2769934e-3L, 1.2683230e-3L, 1.2465397e-3L, 1.2196049e-3L, 1.2045996e-3L}, {2.9153695e-3L, 2.9152299e-3L, 2.9288445e-3L, 2.9022565e-3L, 2.9024912e-3L},
                     {62.610505e-3L, 62.837393e-3L, 63.721774e-3L, 63.824265e-3L, 64.258455e-3L}};
const LD NB[3][5] = {{0, 1.2709626e-5L, 2.6523662e-5L, 3.4000452e-5L, 4.1202191e-5L}, {0, 2.1414979e-5L, 3.0160779e-5L, 7.2562722e-5L, 11.723375e-5L},
                     {0, 9.0128400e-5L, 4.3497037e-5L, 84.795348e-5L, 170.37206e-5L}};
const LD NW[3][5] = {{5.8021897e-4L, 5.6794847e-4L, 5.8118019e-4L, 5.9727542e-4L, 6.1641693e-4L}, {1.4275268e-3L, 1.5138625e-3L, 1.4572752e-3L, 1.5007428e-3L, 1.7599082e-3L},
                     {4.3472961e-2L, 4.6729510e-2L, 4.3908931e-2L, 4.4626982e-2L, 5.4736038e-2L}};
inline LD interp(LD v0, LD v1, LD f) { return v0 + (v1 - v0) * f; }
inline LD cf3(LD s, LD a, LD b, LD c) { return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c))); }
// degrees, metres
// tol: what raising to powers in single precision (as the library does) may cost
inline LD unb3m(LD doy, LD lat, LD h, LD el, LD *tol = nullptr) {
  if (tol) *tol = 0;
  if (h > 11000) return 0;
  if (h < 0) h = 0;
  if (el < 0.1L) el = 0.1L;
  LD al = fabsl(lat);
  int i; LD f;
  if (al <= 15) { i = 0; f = 0; } else if (al >= 75) { i = 3; f = 1; } else { i = (int)floorl((al - 15) / 15); f = (al - 15) / 15 - i; }
  LD day = doy + (lat < 0 ? 182.625L : 0);
  LD co = cosl(2 * PIl * (day - 28) / 365.25L);
  LD v[5];
  for (int k = 0; k < 5; k++) v[k] = interp(AVG[i][k], AVG[i + 1][k], f) - interp(AMP[i][k], AMP[i + 1][k], f) * co;
  LD P0 = v[0], T0 = v[1], RH = v[2] / 100, B = v[3] / 1000, L = v[4];
  LD es = 0.01L * expl(1.2378847e-5L * T0 * T0 - 1.9121316e-2L * T0 + 33.93711047L - 6343.1645L / T0);
  LD tc = T0 - 273.15L;
  LD e0 = RH * es * (1.00062L + 3.14e-6L * P0 + 5.6e-7L * tc * tc);
  LD EP = 9.80665L / 287.054L / B;
  LD T = T0 - B * h, P = P0 * powl(T / T0, EP), e = e0 * powl(T / T0, EP * (L + 1));
  LD gl = atanl((1 - 6.6943799901413e-3L) * tanl(lat * PIl / 180));
  LD dg = 1 - 2.66e-3L * cosl(2 * gl) - 2.8e-7L * h;
  LD RD = 8314.34L / 28.9644L, den = 9.784L * dg * (L + 1);
  LD Tm = T * (1 - B * RD / den);
  LD zh = 2.2768e-3L / dg * P;
  LD zw = 1e-6L * (64.79L - 77.604L * 18.0152L / 28.9644L + 377600.0L / Tm) * RD * e / den;
  LD s = sinl(el * PIl / 180), n[3], w[3];
  for (int k = 0; k < 3; k++) { n[k] = interp(NA[k][i], NA[k][i + 1], f) - interp(NB[k][i], NB[k][i + 1], f) * co; w[k] = interp(NW[k][i], NW[k][i + 1], f); }
  LD mh = cf3(s, n[0], n[1], n[2]) + (1 / s - cf3(s, 2.53e-5L, 5.49e-3L, 1.14e-3L)) * h / 1000;
  LD mw = cf3(s, w[0], w[1], w[2]);
  if (tol) {
    LD u = ldexpl(1, -23), q = h > 0 ? u * (1 + EP * (1 + fabsl(logl(T / T0)))) : 0;
    *tol = 1e-9L + (mh * zh + mw * zw) * 1e-9L + mh * zh * q + mw * zw * q * (L + 2);
  }
  return mh * zh + mw * zw;
}
}  // namespace atmo_model

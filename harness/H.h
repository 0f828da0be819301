// helpers shared by the harnesses
#pragma once
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "sg.h"
static inline const char *nm(const char *base, int i, int j = -1) {
  static char buf[8][24]; static int q = 0; char *b = buf[q++ & 7]; int n = 0;
  while (base[n] && n < 12) { b[n] = base[n]; n++; }
  if (i >= 10) b[n++] = (char)('0' + i / 10 % 10);
  if (i >= 0) b[n++] = (char)('0' + i % 10);
  if (j >= 0) { b[n++] = '_'; if (j >= 10) b[n++] = (char)('0' + j / 10 % 10); b[n++] = (char)('0' + j % 10); }
  b[n] = 0; return b;
}
static inline double cross2(const double *o, const double *a, const double *b) { return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]); }
static inline double hmax(double a, double b) { return a > b ? a : b; }
static inline double hmin(double a, double b) { return a < b ? a : b; }
static inline double habs(double a) { return a < 0 ? -a : a; }
// coordinates in other units (powers of ten, of an eighth) and elsewhere: parameters unit and off
static inline double unitOf() { double u = 1; long k = sg_param("unit", 0); for (; k > 0; --k) u *= 10; for (; k < 0; ++k) u /= 8; return u; }
// parameter turn: quarter turns of the whole configuration
static inline void place(double &x, double &y) { for (long t = sg_param("turn", 0); t > 0; --t) { double z = x; x = -y; y = z; } if (sg_param("unit", 0) || sg_param("off", 0)) { double u = unitOf(), o = (double)sg_param("off", 0); x = x * u - o; y = y * u + 0.5 * o; } }
// an earlier use whose values differ in one element (or in all but one) of those used later, in the same array: vary, use, restore
struct Near {
  double keep[80], *v; int n;
  void vary(double *values, int count, double by, const char *which = "near", const char *all = "all") { v = values; n = count; int m = (int)sg_choose(which, 0, n - 1), a = (int)sg_choose(all, 0, 1); for (int i = 0; i < n; ++i) { keep[i] = v[i]; if ((i == m) != (a != 0)) v[i] += by; } }
  void restore() { for (int i = 0; i < n; ++i) v[i] = keep[i]; }
};
// area of the intersection of two convex counter-clockwise polygons (clipping)
struct HPoly { int n; double p[64]; };
static inline double polyArea(const HPoly &q) { double s = 0; for (int i = 0; i < q.n; ++i) { int k = (i + 1) % q.n; s += q.p[2 * i] * q.p[2 * k + 1] - q.p[2 * i + 1] * q.p[2 * k]; } return 0.5 * s; }
static inline HPoly clipBy(const HPoly &s, const double *a, const double *b) {
  HPoly r; r.n = 0;
  for (int i = 0; i < s.n; ++i) {
    const double *p = &s.p[2 * i], *q = &s.p[2 * ((i + 1) % s.n)];
    double cp = cross2(a, b, p), cq = cross2(a, b, q);
    if (cp >= 0) { r.p[2 * r.n] = p[0]; r.p[2 * r.n + 1] = p[1]; r.n++; }
    if ((cp > 0 && cq < 0) || (cp < 0 && cq > 0)) { double t = cp / (cp - cq); r.p[2 * r.n] = p[0] + t * (q[0] - p[0]); r.p[2 * r.n + 1] = p[1] + t * (q[1] - p[1]); r.n++; }
  }
  return r;
}
static inline double overlapArea(const double *A, int na, const double *B, int nb) {
  HPoly s; s.n = na; for (int i = 0; i < 2 * na; ++i) s.p[i] = A[i];
  for (int i = 0; i < nb; ++i) { if (s.n < 3) return 0; s = clipBy(s, &B[2 * i], &B[2 * ((i + 1) % nb)]); }
  return s.n < 3 ? 0 : polyArea(s);
}

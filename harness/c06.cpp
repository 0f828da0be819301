// C06: convex hull area
#include "H.h"
#include "SgTriangulate.h"
static long hminl(long a, long b) { return a < b ? a : b; }
static double area(int n, double *p) { for (int i = 0; i < n; ++i) place(p[2 * i], p[2 * i + 1]); SgTriangulate_type *t = 0; SgTriangulate_new(&t, n, p); double a = -1; SgTriangulate_getConvexHullArea(&t, &a); SgTriangulate_del(&t); return a / (unitOf() * unitOf()); }
// convex polygon (ccw) plus one free point: hull area = area + visible triangles
static void onePoint() {
  static const double P[][44] = {
    {3, 0, 0, 2, 0, 0, 1.5}, {4, 0, 0, 1, 0, 1, 1, 0, 1}, {4, 0, 0, 2, 0.25, 1.5, 1.75, -0.5, 1}, {5, 0, 0, 2, -0.5, 3, 1, 1.5, 2, -0.5, 1.25},
    {3, -1, -1, 1.5, 0.25, 0.25, 1.75}, {6, 0, 0, 1, -0.5, 2, 0, 2, 1, 1, 1.5, 0, 1}, {2, 0, 0, 2, 1}, {8, 0, 0, 1, -0.5, 2, -0.25, 2.75, 0.75, 2.5, 1.75, 1.5, 2.5, 0.25, 2.25, -0.5, 1},
    {20, 10, 0, 9.5, 3, 8, 6, 6, 8, 3, 9.5, 0, 10, -3, 9.5, -6, 8, -8, 6, -9.5, 3, -10, 0, -9.5, -3, -8, -6, -6, -8, -3, -9.5, 0, -10, 3, -9.5, 6, -8, 8, -6, 9.5, -3}};
  const double *b = P[sg_param("base", 0)]; int n = (int)b[0], pos = sg_param("near", 0) ? 1 : (int)sg_choose("position", sg_param("poslo", 0), hminl(n, sg_param("poshi", n))), dup = (int)sg_param("dup", 0);
  double x[2], p[100];
  if (sg_param("near", 0)) { x[0] = sg_real("x", -1e-11, 0); x[1] = -0.25; } // almost, but not quite, on the line of an edge
  else {
    double w = (double)sg_param("wide", 1); x[0] = sg_real("x", -3 * w, 4 * w); x[1] = n == 20 ? sg_param("y16", 8) / 16.0 : sg_real("y", -3 * w, 4 * w);
    if (sg_param("apart", 0)) for (int i = 0; i < n; ++i) { double c = cross2(&b[1 + 2 * i], &b[1 + 2 * ((i + 1) % n)], x); sg_assume((c == 0) | (habs(c) >= 1e-9)); }
  }
  int k = 0; for (int i = 0; i <= n; ++i) { if (i == pos) { p[2 * k] = x[0]; p[2 * k + 1] = x[1]; k++; } if (i < n) { p[2 * k] = b[1 + 2 * i]; p[2 * k + 1] = b[2 + 2 * i]; k++; } }
  if (dup == 1) { p[2 * k] = x[0]; p[2 * k + 1] = x[1]; k++; }
  if (dup == 2) { p[2 * k] = b[1]; p[2 * k + 1] = b[2]; k++; }
  if (dup == 3) { for (int i = 0; i < n; ++i) { p[2 * k] = b[1 + 2 * i]; p[2 * k + 1] = b[2 + 2 * i]; k++; } }
  if (dup == 4) { for (int i = 0; i < n; ++i) { p[2 * k] = 0.5 * (b[1 + 2 * i] + b[1 + 2 * ((i + 1) % n)]); p[2 * k + 1] = 0.5 * (b[2 + 2 * i] + b[2 + 2 * ((i + 1) % n)]); k++; } }
  double a = area(k, p), e = 0;
  if (n == 2) e = 0.5 * habs(cross2(&b[1], &b[3], x));
  else { for (int i = 1; i + 1 < n; ++i) e += 0.5 * cross2(&b[1], &b[1 + 2 * i], &b[3 + 2 * i]);
    for (int i = 0; i < n; ++i) { double c = cross2(&b[1 + 2 * i], &b[1 + 2 * ((i + 1) % n)], x); if (c < 0) e -= 0.5 * c; } }
  sg_out("area", a);
  sg_assert(a >= -1e-4, "hull area is not negative");
  sg_assert(sg_near(a, e, 1e-4), "hull area");
  sg_reach("end");
}
// n points on one line (direction d, parameters symbolic): zero area
static void collinear() {
  int n = (int)sg_param("n", 4); double dx = (double)sg_param("dx", 1), dy = (double)sg_param("dy", 0) / 4.0, p[16]; int fr = (int)sg_param("free", 1);
  for (int i = 0; i < n; ++i) { double t = i < fr ? sg_real(nm("t", i), -2, 4) : (i * 7 % 5) * 0.75; p[2 * i] = 0.5 + dx * t; p[2 * i + 1] = -0.25 + dy * t; }
  double a = area(n, p); sg_out("area", a);
  sg_assert(sg_near(a, 0, 1e-4), "points on a line have zero hull area"); sg_reach("end");
}
// two free points and a fixed one
static void tri() {
  double p[6]; int pos = (int)sg_choose("position", 0, 2); int k = 0; double q[4]; int fr = (int)sg_param("free", 3);
  q[0] = sg_real("x0", -2, 2); q[1] = fr > 2 ? sg_real("y0", -2, 2) : 0.25; q[2] = sg_real("x1", -2, 2); q[3] = fr > 3 ? sg_real("y1", -2, 2) : -1;
  for (int i = 0; i < 3; ++i) { if (i == pos) { p[2 * i] = 0; p[2 * i + 1] = 0; } else { p[2 * i] = q[2 * k]; p[2 * i + 1] = q[2 * k + 1]; k++; } }
  double a = area(3, p), c = q[0] * q[3] - q[1] * q[2]; sg_out("area", a);
  sg_assert(sg_near(2 * a, habs(c), 1e-4), "triangle area"); sg_reach("end");
}
// several points on one ray, and two on either side of its line behind its start: the points closest to the
// centre of gravity are on a line
static void ray() {
  int n = (int)sg_param("n", 3), fr = (int)sg_param("free", 1), flip = (int)sg_param("flip", 0); double p[16], m = 0, a0 = sg_param("back", 10) * 1.0, h1 = 3, h2 = sg_param("h2", 3) * 1.0;
  double sh = sg_param("shear4", 0) / 4.0;
  for (int i = 0; i < n; ++i) { double t = i < fr ? sg_real(nm("t", i), 0.25, 6) : 1.0 + i; if (t > m) m = t; int k = flip ? n + 1 - i : i; p[2 * k] = t; p[2 * k + 1] = sh * t; }
  int k = flip ? 0 : n; p[2 * k] = -a0; p[2 * k + 1] = h1 - sh * a0; p[2 * k + 2] = -a0; p[2 * k + 3] = -h2 - sh * a0;
  double a = area(n + 2, p); sg_out("area", a);
  sg_assert(sg_near(a, 0.5 * (h1 + h2) * (m + a0), 1e-4), "hull area of points on a ray and two behind it"); sg_reach("end");
}
// fewer than three points, or the same point repeated
static void few() {
  int n = (int)sg_choose("n", 0, 4); double p[10] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  double x = sg_real("x", -5, 5), y = sg_real("y", -5, 5), u = sg_real("u", -5, 5);
  for (int i = 0; i < n; ++i) { p[2 * i] = n <= 2 && i == 1 ? u : x; p[2 * i + 1] = y; }
  double a = area(n, p); sg_assert(a == 0, "fewer than three distinct points have zero area"); sg_reach("end");
}
void sg_main() {
  switch (sg_param("cfg", 0)) { case 0: onePoint(); break; case 1: collinear(); break; case 2: tri(); break; case 4: ray(); break; default: few(); }
  sg_assert(sg_heap_live() == 0, "everything released");
}

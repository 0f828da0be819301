// C07: the points common to two convex quads span exactly their overlap
#include "H.h"
#include "SgQuadIntersect.h"
#include "SgTriangulate.h"
static const double SH[][8] = {
  {0, 0, 1, 0, 1, 1, 0, 1}, {-1, 0, 0, -1, 1, 0, 0, 1}, {0, 0, 2, 0.25, 1.5, 1.75, -0.5, 1}, {0, 0, 3, 0, 3, 0.5, 0, 0.5},
  {0, 0, 1, -0.5, 2, 0.75, 0.25, 2}, {0, 0, 0, 2, 2, 2, 2, 0} /* clockwise */, {-0.5, -0.5, 1.5, -0.5, 1, 0.5, 0, 0.5}, {0, 0, 2, 0, 2, 2, 1, 1.25}};
static void ccw(double *q) { double s = 0; for (int i = 0; i < 4; ++i) { int k = (i + 1) % 4; s += q[2 * i] * q[2 * k + 1] - q[2 * i + 1] * q[2 * k]; } if (s < 0) for (int j = 0; j < 2; ++j) { double t = q[2 + j]; q[2 + j] = q[6 + j]; q[6 + j] = t; } }
static bool inside(const double *q, const double *p, double tol) { bool in = true; for (int i = 0; i < 4; ++i) in = in & (cross2(&q[2 * i], &q[2 * ((i + 1) % 4)], p) >= -tol); return in; }
static double hullArea(int n, double *pts) { double a = 0; if (n >= 3) { SgTriangulate_type *t = 0; SgTriangulate_new(&t, n, pts); SgTriangulate_getConvexHullArea(&t, &a); SgTriangulate_del(&t); } return a; }
void sg_main() {
  int a = (int)sg_param("a", 0), b = (int)sg_param("b", 0), mode = (int)sg_param("mode", 0);
  double A[8], B[8], dx = 0, dy = 0, lo = (double)sg_param("lo", -3), hi = (double)sg_param("hi", 3);
  for (int i = 0; i < 8; ++i) { A[i] = SH[a][i]; B[i] = SH[b][i]; }
  if (mode == 0) { dx = sg_real("dx", lo, hi); dy = sg_real("dy", lo, hi); } // translate
  if (mode == 1) { dx = sg_real("dx", lo, hi); dy = (double)sg_param("dy4", 0) / 4; } // slide along x
  if (mode == 2) { double s = sg_real("s", 0.25, 4); for (int i = 0; i < 8; ++i) B[i] = s * B[i] + 0.25; } // scale
  if (mode == 3) { double t = sg_real("t", -1, 1); dx = 0.5; dy = 0.25; for (int i = 0; i < 4; ++i) { double x = B[2 * i], y = B[2 * i + 1]; B[2 * i] = (1 - t * t) * x - 2 * t * y; B[2 * i + 1] = 2 * t * x + (1 - t * t) * y; } } // rotate and stretch
  if (mode == 4) { double x = sg_real("x", 0.625, 2.5), y = sg_real("y", 0.625, 2.5); B[4] = x; B[5] = y; sg_assume(x + y >= 1.125); } // move one corner
  for (int i = 0; i < 4; ++i) { B[2 * i] += dx; B[2 * i + 1] += dy; }
  for (int i = 0; i < 4; ++i) { place(A[2 * i], A[2 * i + 1]); place(B[2 * i], B[2 * i + 1]); }
  double U = unitOf(), U2 = U > 1 ? U * U : 1;
  if (sg_param("apart", 1)) { // corners are on an edge's line, or not just next to it
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
      double c = cross2(&A[2 * i], &A[2 * ((i + 1) % 4)], &B[2 * j]), d = cross2(&B[2 * i], &B[2 * ((i + 1) % 4)], &A[2 * j]);
      sg_assume(((c == 0) | (habs(c) >= 1e-6 * U2)) & ((d == 0) | (habs(d) >= 1e-6 * U2)));
    }
  }
  SgQuadIntersect_type *q = 0; SgQuadIntersect_new(&q);
  int n = -1; double *pts = 0;
  if (sg_param("reuse", 0)) { SgQuadIntersect_setQuadPoints(&q, SH[2], SH[0]); SgQuadIntersect_getIntersectPoints(&q, &n, &pts); }
  if (sg_param("near", 0)) { Near v; v.vary(sg_choose("comp", 0, 1) ? B : A, 8, 0.125); SgQuadIntersect_setQuadPoints(&q, A, B); SgQuadIntersect_getIntersectPoints(&q, &n, &pts); v.restore(); }
  SgQuadIntersect_setQuadPoints(&q, A, B);
  SgQuadIntersect_getIntersectPoints(&q, &n, &pts);
  sg_assert(n >= 0, "number of points is not negative");
  ccw(A); ccw(B);
  double e = overlapArea(A, 4, B, 4);
  for (int i = 0; i < n; ++i) { sg_assert(inside(A, &pts[2 * i], 1e-6 * U2), "intersection point in the first quad"); sg_assert(inside(B, &pts[2 * i], 1e-6 * U2), "intersection point in the second quad"); }
  double h = hullArea(n, pts);
  sg_out("n", n); sg_out("area", h); if (n >= 3 && sg_split(e > 1e-3 * U * U)) sg_reach("overlap"); else sg_reach("apart");
  sg_assert(sg_near(h, e, 1e-4 * U), "the points span the overlap");
  SgQuadIntersect_del(&q);
  sg_assert(sg_heap_live() == 0, "everything released");
}

// C16: the part of a segment inside a convex quad
#include "H.h"
#include "SgQuadLineIntersect.h"
#include "SgLinearSolve.h"
static const double Q[][8] = {{0, 0, 1, 0, 1, 1, 0, 1}, {0, 0, 2, 0.5, 1.5, 1.75, -0.5, 1}, {0, 0, 0, 2, 2, 2, 2, 0} /* clockwise */, {1, 0, 2, 1, 1, 2, 0, 1}, {0, 0, 3, 0, 2, 0.5, 1, 0.5}};
void sg_main() {
  int k = (int)sg_param("q", 0), mode = (int)sg_param("mode", 0); double q[8], S[4]; for (int i = 0; i < 8; ++i) q[i] = Q[k][i];
  double ax = (double)sg_param("ax8", 2) / 8, ay = (double)sg_param("ay8", 3) / 8, bx = (double)sg_param("bx8", 12) / 8, by = (double)sg_param("by8", 11) / 8;
  if (mode == 0) { bx = sg_real("bx", -3, 3); by = sg_real("by", -3, 3); } // one end anywhere
  if (mode == 1) { double dx = sg_real("dx", -4, 4), dy = sg_real("dy", -4, 4); ax += dx; bx += dx; ay += dy; by += dy; } // a segment of given direction anywhere
  if (mode == 2) { ax = sg_real("ax", -3, 3); ay = sg_real("ay", -3, 3); }
  if (mode == 3) { ax = sg_real("ax", -3, 3); bx = sg_real("bx", -3, 3); by = ay = sg_real("y", -3, 3); } // along x
  if (mode == 5) bx = sg_real("bx", -1, 3);
  if (mode == 4) { ax = sg_real("ax", -3, 3); ay = sg_real("ay", -3, 3); bx = sg_real("bx", -3, 3); by = sg_real("by", -3, 3); }
  for (int i = 0; i < 4; ++i) place(q[2 * i], q[2 * i + 1]);
  place(ax, ay); place(bx, by); double U = unitOf(), W = U * U * (sg_param("off", 0) ? 10 : 1);
  S[0] = ax; S[1] = ay; S[2] = bx; S[3] = by;
  double q0[8]; for (int i = 0; i < 8; ++i) q0[i] = q[i];
  double keep[4] = {ax, ay, bx, by};
  SgQuadLineIntersect_type *s = 0; SgQuadLineIntersect_new(&s); int n = -1; double *p = 0; double L0[4] = {0.25, -1, 0.5, 3};
  if (sg_param("reuse", 0)) { SgQuadLineIntersect_setQuadPoints(&s, Q[1]); SgQuadLineIntersect_setLinePoints(&s, L0); SgQuadLineIntersect_collectIntersectPoints(&s, &n, &p); if (sg_param("reuse", 0) == 2) SgQuadLineIntersect_collectIntersectPoints(&s, &n, &p); }
  if (sg_param("near", 0)) { Near v; long o = sg_choose("comp", 0, 1); v.vary(o ? S : q, o ? 4 : 8, o ? 1.5 : -0.25); SgQuadLineIntersect_setQuadPoints(&s, q); SgQuadLineIntersect_setLinePoints(&s, S); SgQuadLineIntersect_collectIntersectPoints(&s, &n, &p); v.restore(); }
  if (sg_param("order", 0)) { SgQuadLineIntersect_setLinePoints(&s, S); SgQuadLineIntersect_setQuadPoints(&s, q); } else { SgQuadLineIntersect_setQuadPoints(&s, q); SgQuadLineIntersect_setLinePoints(&s, S); }
  SgQuadLineIntersect_collectIntersectPoints(&s, &n, &p);
  for (int i = 0; i < 4; ++i) { sg_assert(S[i] == keep[i], "the segment is not modified"); sg_assert(q[i] == q0[i] && q[i + 4] == q0[i + 4], "the quad is not modified"); }
  sg_assert(n >= 0, "number of points is not negative"); sg_out("n", n);
  double o = 0; for (int i = 0; i < 4; ++i) { int j = (i + 1) % 4; o += q[2 * i] * q[2 * j + 1] - q[2 * i + 1] * q[2 * j]; } o = o > 0 ? 1 : -1;
  double dx = bx - ax, dy = by - ay, *A = keep, *B = keep + 2;
  for (int i = 0; i < n; ++i) {
    double *P = &p[2 * i]; bool in = true; for (int e = 0; e < 4; ++e) in = in & (o * cross2(&q[2 * e], &q[2 * ((e + 1) % 4)], P) >= -1e-9 * W);
    sg_assert(in, "reported point is in the quad");
    double t = (P[0] - ax) * dx + (P[1] - ay) * dy;
    sg_assert(sg_near((P[0] - ax) * dy, (P[1] - ay) * dx, 1e-9 * W) & (t >= -1e-9 * W) & (t <= dx * dx + dy * dy + 1e-9 * W), "reported point is on the segment");
    if (i) sg_assert((P[0] - P[-2]) * dx + (P[1] - P[-1]) * dy >= -1e-9 * W, "points are in the order of the segment");
    sg_out("x", P[0]); sg_out("y", P[1]);
  }
  if (n >= 2) {
    sg_reach("crosses"); double *F = p, *L = &p[2 * (n - 1)];
    bool f = sg_near(F[0], ax, 1e-9 * W) & sg_near(F[1], ay, 1e-9 * W), l = sg_near(L[0], bx, 1e-9 * W) & sg_near(L[1], by, 1e-9 * W);
    for (int e = 0; e < 4; ++e) {
      double *u = &q[2 * e], *v = &q[2 * ((e + 1) % 4)], cA = o * cross2(u, v, A), cB = o * cross2(u, v, B);
      f = f | ((o * cross2(u, v, F) <= 1e-9 * W) & (cB >= cA)); l = l | ((o * cross2(u, v, L) <= 1e-9 * W) & (cA >= cB));
    }
    sg_assert(f, "the first point is where the segment enters the quad"); sg_assert(l, "the last point is where the segment leaves the quad");
  } else {
    sg_reach("misses");
    double t = sg_real("t", 0, 1), P[2] = {ax + t * dx, ay + t * dy}; bool in = true; for (int e = 0; e < 4; ++e) in = in & (o * cross2(&q[2 * e], &q[2 * ((e + 1) % 4)], P) >= 1e-6 * W);
    sg_assert(!in, "a segment of which a part is in the quad has two points");
  }
  SgQuadLineIntersect_del(&s);
  sg_assert(sg_heap_live() == 0, "everything released");
}

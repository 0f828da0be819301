// C17: path integrals of the edge basis functions along a segment
#include "H.h"
#include "SgQuadLineFlows.h"
#include "SgFindPointInCell.h"
#include "SgLinearSolve.h"
// origin, direction of index 0, direction of index 1
static const double Q[][6] = {{0, 0, 1, 0, 0, 1}, {1, -2, 2, 0.5, -0.25, 1.5}, {0, 0, 0, 1, 1, 0} /* clockwise */, {-3, 4, 1, 1, -2, 2}, {0.5, 0.5, -1, 0, 0, -4}, {330, -90, 30, 0, 0, 30} /* degrees */, {-1000, 4000, 30, 25, -20, 40}};
static void quad(int k, double *q) { const double *g = Q[k]; for (int j = 0; j < 2; ++j) { q[j] = g[j]; q[2 + j] = g[j] + g[2 + j]; q[4 + j] = g[j] + g[2 + j] + g[4 + j]; q[6 + j] = g[j] + g[4 + j]; } }
static void at(int k, const double *x, double *p) { const double *g = Q[k]; for (int j = 0; j < 2; ++j) p[j] = g[j] + x[0] * g[2 + j] + x[1] * g[4 + j]; }
static SgQuadLineFlows_type *s = 0;
static void proj(const double *line, double *w) { SgQuadLineFlows_setLinePoints(&s, line); int r = SgQuadLineFlows_computeProjections(&s); sg_assert(r == 0, "both ends are located"); for (int e = 0; e < 4; ++e) { w[e] = -77; SgQuadLineFlows_getProjection(&s, e, &w[e]); } }
void sg_main() {
  int k = (int)sg_param("q", 0), mode = (int)sg_param("mode", 0); double q[8], xa[2], xb[2], L[4], w[4]; quad(k, q);
  SgQuadLineFlows_new(&s);
  if (sg_param("reuse", 0)) { double q0[8], L0[4], z0[2] = {0.25, 0.5}, z1[2] = {1, 0.75}; quad(3, q0); at(3, z0, L0); at(3, z1, L0 + 2); SgQuadLineFlows_setQuadPoints(&s, q0); proj(L0, w); }
  if (sg_param("near", 0)) { Near v; double L0[4], z0[2] = {0.25, 0.5}, z1[2] = {1, 0.75}; at(k, z0, L0); at(k, z1, L0 + 2); for (int j = 0; j < 4; ++j) L0[j] = 0.875 * L0[j] + 0.125 * 0.5 * (q[j & 1] + q[4 + (j & 1)]); v.vary(q, 8, 0.03125); SgQuadLineFlows_setQuadPoints(&s, q); SgQuadLineFlows_setLinePoints(&s, L0); SgQuadLineFlows_computeProjections(&s); v.restore(); }
  if (mode == 4) { // an end outside of the quad
    long end = sg_choose("end", 0, 1); double o[2] = {sg_real("o0", -1.5, 2.5), sg_real("o1", -1.5, 2.5)}, in[2] = {0.25, 0.625};
    sg_assume((o[0] < -0.0625) | (o[0] > 1.0625) | (o[1] < -0.0625) | (o[1] > 1.0625));
    SgQuadLineFlows_setQuadPoints(&s, q); at(k, o, L + 2 * end); at(k, in, L + 2 * (1 - end)); SgQuadLineFlows_setLinePoints(&s, L);
    int r = SgQuadLineFlows_computeProjections(&s); sg_assert(r == 1 + end, "an end outside of the quad is reported"); sg_out("r", r);
    sg_reach("outside"); SgQuadLineFlows_del(&s); s = 0; sg_assert(sg_heap_live() == 0, "everything released"); return;
  }
  SgQuadLineFlows_setQuadPoints(&s, q);
  static const char *N[] = {"a0", "a1", "b0", "b1"};
  for (int j = 0; j < 2; ++j) { xa[j] = sg_real(N[j], 0, 1); xb[j] = sg_real(N[2 + j], 0, 1); }
  if (mode == 1) { long e = sg_choose("edge", 0, 3); xa[0] = e == 1 ? 1 : 0; xa[1] = e == 3 ? 1 : 0; xb[0] = e == 0 ? 0 : 1; xb[1] = e == 2 ? 0 : 1; if (e == 0) { xa[0] = xb[0] = 0; xa[1] = 0; xb[1] = 1; } } // the four edges
  at(k, xa, L); at(k, xb, L + 2);
  if (sg_param("round", 0)) for (int j = 0; j < 4; ++j) L[j] += sg_real(nm("r", j), -1, 1) * habs(q[j & 1]) * 4e-16; // rounding errors of the ends
  proj(L, w);
  double m0 = 0.5 * (xa[0] + xb[0]), m1 = 0.5 * (xa[1] + xb[1]), d0 = xb[0] - xa[0], d1 = xb[1] - xa[1], e = 1e-7;
  sg_assert(sg_near(w[0], d0 * (1 - m1), e), "projection on the low edge of index 0"); sg_assert(sg_near(w[1], d0 * m1, e), "projection on the high edge of index 0");
  sg_assert(sg_near(w[2], d1 * (1 - m0), e), "projection on the low edge of index 1"); sg_assert(sg_near(w[3], d1 * m0, e), "projection on the high edge of index 1");
  for (int i = 0; i < 4; ++i) sg_out("w", w[i]);
  if (mode == 2) { // reversal and division
    double R[4] = {L[2], L[3], L[0], L[1]}, r[4], u[4], v[4], t = sg_real("t", 0, 1), A[4] = {L[0], L[1], L[0] + t * (L[2] - L[0]), L[1] + t * (L[3] - L[1])}, B[4] = {A[2], A[3], L[2], L[3]};
    proj(R, r); for (int i = 0; i < 4; ++i) sg_assert(sg_near(r[i], -w[i], e), "the reversed segment has the opposite projections");
    if (sg_param("split", 0)) { proj(A, u); proj(B, v); for (int i = 0; i < 4; ++i) sg_assert(sg_near(u[i] + v[i], w[i], e), "the projections of the parts add up"); }
  }
  if (mode == 3) { // a gradient field of any potential
    double f[4]; for (int i = 0; i < 4; ++i) f[i] = sg_real(nm("f", i), -10, 10); // at the corners 0..3 of the quad
    double sum = (f[1] - f[0]) * w[0] + (f[2] - f[3]) * w[1] + (f[3] - f[0]) * w[2] + (f[2] - f[1]) * w[3];
    double pa = f[0] * (1 - xa[0]) * (1 - xa[1]) + f[1] * xa[0] * (1 - xa[1]) + f[2] * xa[0] * xa[1] + f[3] * (1 - xa[0]) * xa[1], pb = f[0] * (1 - xb[0]) * (1 - xb[1]) + f[1] * xb[0] * (1 - xb[1]) + f[2] * xb[0] * xb[1] + f[3] * (1 - xb[0]) * xb[1];
    sg_assert(sg_near(sum, pb - pa, 1e-5), "a gradient gives the difference of its potential");
  }
  sg_reach("projected");
  SgQuadLineFlows_del(&s); s = 0;
  sg_assert(sg_heap_live() == 0, "everything released");
}

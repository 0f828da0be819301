// C18: path integrals of an edge field along destination segments
#include "H.h"
#include "SgFlowInterp2D.h"
#include "SgFindPointInCell.h"
#include "SgLinearSolve.h"
#include "SgBoxIterator.h"
struct G { int d[2], n; double x[300], y[300]; };
static void make(G &g, int n0, int n1, int kind) {
  static const double Y1[] = {0, 1, 1.5, 3, 3.25, 4.5, 6, 6.75, 8};
  g.d[0] = n0; g.d[1] = n1; g.n = n0 * n1;
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) {
    double x = i, y = j; int k = i * n1 + j;
    if (kind == 1) { x = 2 * i + 0.5 * j; y = 0.25 * i + j; }
    if (kind == 2) { x = j - i; y = i + j; }
    if (kind == 3) { x = Y1[i]; y = Y1[j]; }
    if (kind == 4) { x = i + 0.5 * j; y = j; }
    if (kind == 6) { x = 300 + 30 * i; y = -90 + 30 * j; }
    if (kind == 5) { x = j; y = 2 * i; } // left handed
    g.x[k] = x; g.y[k] = y;
  }
}
// parametric interval of the segment inside the unit square, in index coordinates
static bool clip1(double a, double b, double &t0, double &t1, double lo, double hi, bool closedHi) {
  double d = b - a;
  if (sg_split(d > 0)) { t0 = hmax(t0, (lo - a) / d); t1 = hmin(t1, (hi - a) / d); }
  else if (sg_split(d < 0)) { t0 = hmax(t0, (hi - a) / d); t1 = hmin(t1, (lo - a) / d); }
  else if (!sg_split((a >= lo) & (closedHi ? a <= hi : a < hi))) return false;
  return true;
}
// the path integral inside of the source grid, the outside of which is moved by m (in index space)
static double integral(const G &S, const double *A, const double *B, const double *e0, const double *e1, double m, double &len) {
  int n0 = S.d[0], n1 = S.d[1]; double sum = 0; len = 0;
  for (int i = 0; i < n0 - 1; ++i) for (int j = 0; j < n1 - 1; ++j) {
    int k = i * n1 + j; double ux = S.x[k + n1] - S.x[k], uy = S.y[k + n1] - S.y[k], vx = S.x[k + 1] - S.x[k], vy = S.y[k + 1] - S.y[k], D = ux * vy - uy * vx;
    double ax = A[0] - S.x[k], ay = A[1] - S.y[k], bx = B[0] - S.x[k], by = B[1] - S.y[k];
    double a0 = (ax * vy - ay * vx) / D, a1 = (ux * ay - uy * ax) / D, b0 = (bx * vy - by * vx) / D, b1 = (ux * by - uy * bx) / D, t0 = 0, t1 = 1;
    bool h0 = i == n0 - 2, h1 = j == n1 - 2;
    if (!clip1(a0, b0, t0, t1, i ? 0 : -m, h0 ? 1 + m : 1, h0) || !clip1(a1, b1, t0, t1, j ? 0 : -m, h1 ? 1 + m : 1, h1) || !sg_split(t1 > t0)) continue;
    double x0 = a0 + t0 * (b0 - a0), y0 = a1 + t0 * (b1 - a1), x1 = a0 + t1 * (b0 - a0), y1 = a1 + t1 * (b1 - a1), xm = 0.5 * (x0 + x1), ym = 0.5 * (y0 + y1);
    sum += (x1 - x0) * ((1 - ym) * e0[i * n1 + j] + ym * e0[i * n1 + j + 1]) + (y1 - y0) * ((1 - xm) * e1[i * (n1 - 1) + j] + xm * e1[(i + 1) * (n1 - 1) + j]); len += t1 - t0;
  }
  return sum;
}
static const double SEG[][16] = {{0, 0, 0.75, 0.5}, {0, 0, 1.5, 1}, {0, 0, 1, 0}, {0, 0, 0, 1.5}, {0, 0, 1.75, -1.25, 0.5, 0.75, 0, 0}, {0, 0, 0.75, 1.5, 2, 2, 2, 3.5}, {0, 0, 1, 0.5, 1, 0.5}, {0, 0, -1, 0, -1, -1.5, 0, -1.5}, {0, 0, 0.25, 0.5, 0.75, 0.5, 1, 1, 1.5, 0.75, 2, 1.25, 2, 2, 1.25, 2.25}};
static const int SEGN[] = {2, 2, 2, 2, 4, 4, 3, 4, 8};
void sg_main() {
  int sk = (int)sg_param("sk", 0), seg = (int)sg_param("seg", 0), free = (int)sg_param("free", 2), data = (int)sg_param("data", 0), inside = (int)sg_param("inside", 0); double e = 1e-6;
  G S; make(S, (int)sg_param("s0", 3), (int)sg_param("s1", 3), sk); int n0 = S.d[0], n1 = S.d[1], nd = SEGN[seg];
  double lx = S.x[0], hx = lx, ly = S.y[0], hy = ly; for (int k = 0; k < S.n; ++k) { lx = hmin(lx, S.x[k]); hx = hmax(hx, S.x[k]); ly = hmin(ly, S.y[k]); hy = hmax(hy, S.y[k]); }
  double dx = free >= 1 ? sg_real("dx", lx - 1, hx + 1) : (double)sg_param("dx16", 5) / 16, dy = free >= 2 ? sg_real("dy", ly - 1, hy + 1) : (double)sg_param("dy16", 5) / 16, a = (double)sg_param("sc4", 4) / 4;
  double px[8], py[8]; for (int k = 0; k < nd; ++k) { px[k] = a * SEG[seg][2 * k] + dx; py[k] = a * SEG[seg][2 * k + 1] + dy; }
  for (int k = 0; k < S.n; ++k) place(S.x[k], S.y[k]);
  for (int k = 0; k < nd; ++k) place(px[k], py[k]);
  if (sg_param("apart", 0)) for (int s = 0; s < nd - 1; ++s) for (int dir = 0; dir < 2; ++dir) { // segments along a grid line are on it or away from it
    double hx0 = dir ? S.x[n1] - S.x[0] : S.x[1] - S.x[0], hy0 = dir ? S.y[n1] - S.y[0] : S.y[1] - S.y[0], sx = px[s + 1] - px[s], sy = py[s + 1] - py[s]; if (sg_split(habs(hx0 * sy - hy0 * sx) > 1e-9)) continue;
    for (int l = 0; l < (dir ? n1 : n0); ++l) { int k = dir ? l : l * n1; double c = hx0 * (py[s] - S.y[k]) - hy0 * (px[s] - S.x[k]); sg_assume((c == 0) | (habs(c) >= 1e-9)); } }
  double E[2][300], f[4] = {1, 2, -3, 0.5}, *e0 = E[0], *e1 = E[1];
  if (data == 2) for (int k = 0; k < 4; ++k) f[k] = sg_real(nm("f", k), -5, 5);
  // edge data: symbolic, the gradient of f0 + f1 i + f2 j + f3 i j, or arbitrary constants
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) {
    if (i < n0 - 1) { int k = i * n1 + j; e0[k] = data == 1 ? sg_real(nm("u", k), -10, 10) : data == 2 ? f[1] + f[3] * j : (k * 5 % 7) - 2.5; }
    if (j < n1 - 1) { int k = i * (n1 - 1) + j; e1[k] = data == 1 ? sg_real(nm("v", k), -10, 10) : data == 2 ? f[2] + f[3] * i : (k * 3 % 5) - 1.25; }
  }
  SgFlowInterp2D_type *w = 0; SgFlowInterp2D_new(&w); const double *sc[2] = {S.x, S.y}, *dc[2] = {px, py}, *ed[2] = {e0, e1}; int dd[1] = {nd};
  if (sg_param("reuse", 0)) { G A; make(A, 2, 4, 1); const double *ac[2] = {A.x, A.y}; double qx[5] = {0.5, 1, 2, 2.5, 1}, qy[5] = {0.5, 1, 1.5, 2, 2.5}; const double *qc[2] = {qx, qy}; int qd[1] = {5};
    SgFlowInterp2D_setSrcGrid(&w, A.d, ac); SgFlowInterp2D_setDstGrid(&w, qd, qc); SgFlowInterp2D_computeWeights(&w); double o[4]; if (sg_param("reuse", 0) == 2) SgFlowInterp2D_apply(&w, ed, o); }
  if (sg_param("near", 0)) { Near v; long o = sg_choose("comp", 0, 3); double *z[4] = {S.x, S.y, px, py}; v.vary(z[o], o < 2 ? S.n : nd, o < 2 ? 0.125 : 0.25); SgFlowInterp2D_setSrcGrid(&w, S.d, sc); SgFlowInterp2D_setDstGrid(&w, dd, dc); SgFlowInterp2D_computeWeights(&w); v.restore(); }
  if (sg_param("order", 0)) { SgFlowInterp2D_setDstGrid(&w, dd, dc); SgFlowInterp2D_setSrcGrid(&w, S.d, sc); } else { SgFlowInterp2D_setSrcGrid(&w, S.d, sc); SgFlowInterp2D_setDstGrid(&w, dd, dc); }
  SgFlowInterp2D_computeWeights(&w);
  if (sg_param("again", 0)) SgFlowInterp2D_computeWeights(&w);
  double out[8]; for (int k = 0; k < nd - 1; ++k) out[k] = -777;
  SgFlowInterp2D_apply(&w, ed, out);
  if (sg_param("again", 0) == 2) SgFlowInterp2D_apply(&w, ed, out);
  for (int s = 0; s < nd - 1; ++s) {
    double A[2] = {px[s], py[s]}, B[2] = {px[s + 1], py[s + 1]}, len, len2, sum = integral(S, A, B, e0, e1, 0, len);
    if (out[s] == -777) { sg_reach("left alone"); sg_assert(len <= e, "a segment that crosses the source grid gets a value"); }
    else { sg_reach("value"); if (!sg_split(sg_near(out[s], sum, e))) sg_assert(sg_near(out[s], integral(S, A, B, e0, e1, 1e-9, len2), e), "the value is the path integral of the edge field"); sg_out("v", out[s]); }
    if (data == 2 && sk != 3 && !(len < 1 - 1e-9)) { // inside of the source grid: the difference of the potential
      double ux = S.x[n1] - S.x[0], uy = S.y[n1] - S.y[0], vx = S.x[1] - S.x[0], vy = S.y[1] - S.y[0], D = ux * vy - uy * vx, p[2];
      for (int m = 0; m < 2; ++m) { double qx = px[s + m], qy = py[s + m], I = (qx * vy - qy * vx) / D, J = (ux * qy - uy * qx) / D; p[m] = f[0] + f[1] * I + f[2] * J + f[3] * I * J; }
      sg_assert(sg_near(out[s], p[1] - p[0], 1e-5), "a gradient gives the difference of its potential"); sg_reach("gradient");
    }
  }
  SgFlowInterp2D_del(&w);
  sg_assert(sg_heap_live() == 0, "everything released");
}

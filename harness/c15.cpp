// C15: the source cells reported under a polygon
#include "H.h"
#include "SgFindOverlappingCells2D.h"
#include "SgFindPointInCell.h"
#include "SgLinearSolve.h"
#include "SgBoxIterator.h"
static const double X1[] = {0, 0.75, 2, 2.5, 4, 4.5, 6, 6.25, 8}, Y1[] = {0, 1, 1.5, 3, 3.25, 5, 5.5, 7, 7.75};
static int dims[2]; static double X[300], Y[300]; static int PER[2] = {0, 0};
static void make(int kind) {
  for (int i = 0; i < dims[0]; ++i) for (int j = 0; j < dims[1]; ++j) {
    double x = i, y = j; int k = i * dims[1] + j;
    if (kind == 1) { x = i < 9 ? X1[i] : i + 0.125 * (i % 2); y = j < 9 ? Y1[j] : j + 0.25 * (j % 3); }
    if (kind == 4) y = j < 9 ? Y1[j] : j + 0.25 * (j % 3);
    if (kind == 2) { x = 2 * i + 0.5 * j; y = 0.25 * i + j; }
    if (kind == 3) { x = j - i; y = i + j; }
    X[k] = x; Y[k] = y;
  }
}
static void cell(int c, double *q) { int m = dims[1] - 1, i = c / m, j = c % m; static const int o[] = {0, 0, 1, 0, 1, 1, 0, 1}; for (int v = 0; v < 4; ++v) { int n = (i + o[2 * v]) * dims[1] + j + o[2 * v + 1]; q[2 * v] = X[n]; q[2 * v + 1] = Y[n]; }
  double s = 0; for (int v = 0; v < 4; ++v) { int w = (v + 1) % 4; s += q[2 * v] * q[2 * w + 1] - q[2 * v + 1] * q[2 * w]; } if (s < 0) for (int t = 0; t < 2; ++t) { double z = q[2 + t]; q[2 + t] = q[6 + t]; q[6 + t] = z; } }
void sg_main() {
  for (int j = 0; j < 2; ++j) PER[j] = (int)(sg_param("per", 0) >> j & 1);
  dims[0] = (int)sg_param("n0", 3); dims[1] = (int)sg_param("n1", 4); int kind = (int)sg_param("kind", 0), poly = (int)sg_param("poly", 0), inside = (int)sg_param("inside", 0), free = (int)sg_param("free", 2);
  make(kind);
  double lo[2], hi[2]; lo[0] = hi[0] = X[0]; lo[1] = hi[1] = Y[0]; int nn = dims[0] * dims[1], nc = (dims[0] - 1) * (dims[1] - 1);
  for (int k = 0; k < nn; ++k) { lo[0] = hmin(lo[0], X[k]); hi[0] = hmax(hi[0], X[k]); lo[1] = hmin(lo[1], Y[k]); hi[1] = hmax(hi[1], Y[k]); }
  static const double P0[] = {0, 0, 1, 0, 1, 1, 0, 1}, P1[] = {0, 0, 1.5, 0.25, 0.5, 1.25}, P2[] = {0, -0.5, 0.5, 0, 0, 0.5, -0.5, 0}, P3[] = {0, 0, 8, 0, 8, 8, 0, 8},
    P4[] = {0, 0, 1.25, 0.25, 1.75, 1.25, 0.5, 2, -0.5, 1}, P5[] = {0, 0, 1, -0.25, 1.75, 0.5, 1.5, 1.25, 0.5, 1.75, -0.5, 0.75}, P6[] = {0, 0, 0.75, -0.5, 1.5, -0.25, 2.25, 0.5, 2, 1.5, 1.25, 2, 0.25, 1.75, -0.25, 1}, P7[] = {1.25, 0.0, 1.1875, 0.375, 1.0, 0.75, 0.75, 1.0, 0.375, 1.1875, 0.0, 1.25, -0.375, 1.1875, -0.75, 1.0, -1.0, 0.75, -1.1875, 0.375, -1.25, 0.0, -1.1875, -0.375, -1.0, -0.75, -0.75, -1.0, -0.375, -1.1875, 0.0, -1.25, 0.375, -1.1875, 0.75, -1.0, 1.0, -0.75, 1.1875, -0.375};
  const double *P = poly == 0 ? P0 : poly == 1 ? P1 : poly == 2 ? P2 : poly == 3 ? P3 : poly == 4 ? P4 : poly == 5 ? P5 : poly == 6 ? P6 : P7; int np = poly == 1 ? 3 : poly < 4 ? 4 : poly == 6 ? 8 : poly == 7 ? 20 : poly + 1;
  double a = (double)sg_param("sc4", 4) / 4, dx = free == 3 ? sg_real("dx", sg_param("x0", -2) / 4.0, sg_param("x1", 6) / 4.0) : sg_real("dx", lo[0] - 2 * (1 - inside) - (poly == 3 ? 8 : 0), hi[0] + 2), dy = free == 2 ? sg_real("dy", lo[1] - 2 * (1 - inside) - (poly == 3 ? 8 : 0), hi[1] + 2) : (double)sg_param("dy16", 8) / 16, p[48];
  for (int v = 0; v < np; ++v) { p[2 * v] = a * P[2 * v] + dx; p[2 * v + 1] = a * P[2 * v + 1] + dy; }
  if (inside) { double c[8]; int o[4] = {0, (dims[0] - 1) * dims[1], nn - 1, dims[1] - 1}; for (int v = 0; v < 4; ++v) { c[2 * v] = X[o[v]]; c[2 * v + 1] = Y[o[v]]; }
    double s = cross2(c, c + 2, c + 4); for (int v = 0; v < np; ++v) for (int e = 0; e < 4; ++e) { double t = cross2(&c[2 * e], &c[2 * ((e + 1) % 4)], &p[2 * v]); sg_assume(s > 0 ? t >= 0 : t <= 0); } }
  double pb[48]; for (int v = 0; v < 2 * np; ++v) pb[v] = p[v];
  for (int k = 0; k < nn; ++k) place(X[k], Y[k]);
  for (int v = 0; v < np; ++v) place(p[2 * v], p[2 * v + 1]);
  SgFindOverlappingCells2D_type *f = 0; SgFindOverlappingCells2D_new(&f);
  const double *cc[2] = {X, Y};
  if (sg_param("reuse", 0)) { // an earlier use with another grid and polygon
    double x2[6] = {10, 11, 12, 20, 21, 22}, y2[6] = {5, 6, 7, 5.5, 6.5, 7.5}; const double *c2[2] = {x2, y2}; int d2[2] = {2, 3}; double q[10] = {11, 5.5, 12, 5.5, 20, 6, 15, 7, 13, 6};
    SgFindOverlappingCells2D_setSrcGrid(&f, d2, PER, c2); SgFindOverlappingCells2D_setPolygonPoints(&f, 5, q); SgFindOverlappingCells2D_findSrcCellIndices(&f);
  }
  if (sg_param("near", 0)) { Near v; long o = sg_choose("comp", 0, 2); double *z[3] = {X, Y, p}; v.vary(z[o], o < 2 ? nn : 2 * np, o < 2 ? -0.125 : 0.25); double p0[48]; for (int v2 = 0; v2 < np; ++v2) { p0[2 * v2] = a * P[2 * v2] + 0.5; p0[2 * v2 + 1] = a * P[2 * v2 + 1] + 0.5; } SgFindOverlappingCells2D_setSrcGrid(&f, dims, PER, cc); SgFindOverlappingCells2D_setPolygonPoints(&f, np, o < 2 ? p0 : p); SgFindOverlappingCells2D_findSrcCellIndices(&f); v.restore(); }
  SgFindOverlappingCells2D_setSrcGrid(&f, dims, PER, cc);
  double given[48]; long first = 0, back = 0; if (sg_param("order", 0)) { first = sg_choose("first", 0, np - 1); back = sg_choose("back", 0, 1); } // any first node and orientation
  for (int v = 0; v < np; ++v) { long o = (first + (back ? np - v : v)) % np; given[2 * v] = p[2 * o]; given[2 * v + 1] = p[2 * o + 1]; }
  SgFindOverlappingCells2D_setPolygonPoints(&f, np, given);
  SgFindOverlappingCells2D_findSrcCellIndices(&f);
  if (sg_param("again", 0)) SgFindOverlappingCells2D_findSrcCellIndices(&f);
  int n = -1, *ids = 0, got[300]; SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&f, &n); SgFindOverlappingCells2D_getSrcCellIndices(&f, &ids);
  for (int i = 0; i < 300; ++i) got[i] = 0;
  sg_assert(n >= 0 && n <= nc, "at most all cells are reported");
  for (int i = 0; i < n; ++i) { long k = sg_concrete_int(ids[i]); sg_assert(k >= 0 && k < nc, "reported index is a cell"); if (k < 0 || k >= nc) continue; sg_assert(++got[k] == 1, "a cell is reported once"); }
  sg_out("n", n);
  int m = dims[1] - 1; double det = kind == 2 ? 2 - 0.125 : kind == 3 ? -2 : 1;
  for (int c = 0; c < nc; ++c) {
    double q[8]; cell(c, q);
    if (!got[c]) { sg_reach("not reported"); double A = overlapArea(q, 4, p, np); sg_assert(A <= 1e-4 * unitOf() * unitOf(), "every cell under the polygon is reported"); }
    else if (kind != 1 && kind != 4 && inside) { // no cell beyond the polygon's index box
      sg_reach("reported");
      double i0 = 1e9, i1 = -1e9, j0 = 1e9, j1 = -1e9;
      for (int v = 0; v < np; ++v) { double x = pb[2 * v], y = pb[2 * v + 1], I = x, J = y; if (kind == 2) { I = (x - 0.5 * y) / det; J = (2 * y - 0.25 * x) / det; } if (kind == 3) { I = (y - x) / 2; J = (x + y) / 2; } i0 = hmin(i0, I); i1 = hmax(i1, I); j0 = hmin(j0, J); j1 = hmax(j1, J); }
      int ci = c / m, cj = c % m; double e = 0.0101;
      sg_assert((ci + 1 >= i0 - e) & (ci <= i1 + e) & (cj + 1 >= j0 - e) & (cj <= j1 + e), "cells away from the polygon are not reported");
    }
  }
  SgFindOverlappingCells2D_del(&f);
  sg_assert(sg_heap_live() == 0, "everything released");
}

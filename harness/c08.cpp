// C08-C10: conservative interpolation weights, their application and their enumeration
#include "H.h"
#include "SgConserveInterp2D.h"
struct Grid { int d[2]; double x[300], y[300]; const double *c[2]; };
static const double X1[] = {0, 0.75, 2, 2.5, 4, 5, 5.5, 7, 8}, Y1[] = {0, 1, 1.5, 3, 3.25, 4.5, 5, 6.25, 7};
// grid families: 0 rectilinear, 1 sheared, 2 rotated by 45 degrees, 3 general convex cells
static void make(Grid &g, int n0, int n1, int kind, double ox, double oy, double sx, double sy) {
  g.d[0] = n0; g.d[1] = n1; g.c[0] = g.x; g.c[1] = g.y;
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) {
    double x = (i < 9 ? X1[i] : 8 + 0.75 * (i - 8) + 0.0625 * (i % 3)) * sx, y = (j < 9 ? Y1[j] : 7 + 0.875 * (j - 8) - 0.125 * (j % 2)) * sy; int k = i * n1 + j;
    if (kind == 1) { x = x + 0.25 * y; }
    if (kind == 2) { double t = x - y; y = x + y; x = t; }
    if (kind == 3) { x = x + 0.125 * (i * j % 3); y = y + 0.0625 * ((i + 2 * j) % 4); }
    if (kind == 4) { double t = x; x = y; y = t; } // clockwise cells
    g.x[k] = x + ox; g.y[k] = y + oy;
  }
}
static void cell(const Grid &g, int k, double *q) {
  int m = g.d[1] - 1, i = k / m, j = k % m; static const int o[] = {0, 0, 1, 0, 1, 1, 0, 1};
  for (int v = 0; v < 4; ++v) { int n = (i + o[2 * v]) * g.d[1] + j + o[2 * v + 1]; q[2 * v] = g.x[n]; q[2 * v + 1] = g.y[n]; }
  double s = 0; for (int v = 0; v < 4; ++v) { int w = (v + 1) % 4; s += q[2 * v] * q[2 * w + 1] - q[2 * v + 1] * q[2 * w]; }
  if (s < 0) for (int j2 = 0; j2 < 2; ++j2) { double t = q[2 + j2]; q[2 + j2] = q[6 + j2]; q[6 + j2] = t; }
}
static double cellArea(const Grid &g, int k) { HPoly p; p.n = 4; cell(g, k, p.p); return polyArea(p); }
static double cellOverlap(const Grid &a, int i, const Grid &b, int j) { double p[8], q[8]; cell(a, i, p); cell(b, j, q); return overlapArea(p, 4, q, 4); }
static int ncell(const Grid &g) { return (g.d[0] - 1) * (g.d[1] - 1); }
static double near_ = 1e-6;
static void apart(const Grid &a, const Grid &b) { // grid nodes are on the other grid's edges, or not just next to them
  for (int i = 0; i < ncell(a); ++i) for (int j = 0; j < ncell(b); ++j) {
    double p[8], q[8]; cell(a, i, p); cell(b, j, q);
    for (int u = 0; u < 4; ++u) for (int v = 0; v < 4; ++v) {
      double c = cross2(&p[2 * u], &p[2 * ((u + 1) % 4)], &q[2 * v]), d = cross2(&q[2 * u], &q[2 * ((u + 1) % 4)], &p[2 * v]);
      sg_assume(((c == 0) | (habs(c) >= near_)) & ((d == 0) | (habs(d) >= near_)));
    }
  }
}
struct Entry { int s, d; double w; };
static int enumerate(SgConserveInterp2D_type *w, Entry *e, int cap, int reset = 1) {
  int n = 0, stop = 0; if (reset) SgConserveInterp2D_reset(&w);
  while (!stop && n < cap) { SgConserveInterp2D_get(&w, &e[n].s, &e[n].d, &e[n].w); n++; stop = SgConserveInterp2D_next(&w); }
  sg_assert(stop == 1, "the enumeration ends");
  return n;
}
static const int PER[] = {0, 0};
void sg_main() {
  int cfg = (int)sg_param("cfg", 0), free = (int)sg_param("free", 2);
  int sn0 = (int)sg_param("s0", 3), sn1 = (int)sg_param("s1", 3), dn0 = (int)sg_param("d0", 2), dn1 = (int)sg_param("d1", 2), sk = (int)sg_param("sk", 0), dk = (int)sg_param("dk", 0);
  double lo = (double)sg_param("lo4", -8) / 4, hi = (double)sg_param("hi4", 12) / 4, sc = (double)sg_param("sc4", 4) / 4;
  double dx = free >= 1 ? sg_real("dx", lo, hi) : (double)sg_param("dx16", 4) / 16, dy = free >= 2 ? sg_real("dy", lo, hi) : (double)sg_param("dy16", 4) / 16;
  Grid S, D; make(S, sn0, sn1, sk, 0, 0, 1, 1); make(D, dn0, dn1, dk, dx, dy, sc, sc);
  for (int k = 0; k < sn0 * sn1; ++k) place(S.x[k], S.y[k]);
  for (int k = 0; k < dn0 * dn1; ++k) place(D.x[k], D.y[k]);
  near_ *= unitOf() * unitOf();
  if (free && sg_param("apart", 1)) apart(S, D);
  if (cfg == 4) { Grid T = S; S = D; D = T; } // the source moves
  int ns = ncell(S), nd = ncell(D);
  SgConserveInterp2D_type *w = 0; SgConserveInterp2D_new(&w);
  if (cfg == 2) { // an earlier use of the object with other grids
    Grid a, b; make(a, 2, 4, 1, 0, 0, 1, 1); make(b, 3, 2, 0, 0.25, 0.5, 0.5, 0.5);
    SgConserveInterp2D_setSrcGrid(&w, a.d, PER, a.c); SgConserveInterp2D_setDstGrid(&w, b.d, b.c); SgConserveInterp2D_computeWeights(&w);
    SgConserveInterp2D_reset(&w); SgConserveInterp2D_next(&w);
  }
  if (cfg == 6) { // the earlier grids have the same sizes and differ in one node, or in all but one
    Grid a = S, b = D; a.c[0] = a.x; a.c[1] = a.y; b.c[0] = b.x; b.c[1] = b.y; int dst = (int)sg_choose("which", 0, 1), keep = (int)sg_choose("keep", 0, 1), y = (int)sg_choose("y", 0, 1);
    Grid &g = dst ? b : a; int n = g.d[0] * g.d[1], m = (int)sg_choose("node", 0, n - 1);
    for (int i = 0; i < n; ++i) if ((i == m) != (keep != 0)) { if (y) g.y[i] += 0.125; else g.x[i] += 0.125; }
    SgConserveInterp2D_setSrcGrid(&w, a.d, PER, a.c); SgConserveInterp2D_setDstGrid(&w, b.d, b.c); SgConserveInterp2D_computeWeights(&w);
  }
  { Grid s2 = S, d2 = D; s2.c[0] = s2.x; s2.c[1] = s2.y; d2.c[0] = d2.x; d2.c[1] = d2.y; // the caller's arrays are only read here
    if (cfg == 3) { SgConserveInterp2D_setDstGrid(&w, d2.d, d2.c); SgConserveInterp2D_setSrcGrid(&w, s2.d, PER, s2.c); }
    else { SgConserveInterp2D_setSrcGrid(&w, s2.d, PER, s2.c); SgConserveInterp2D_setDstGrid(&w, d2.d, d2.c); }
    for (int i = 0; i < 300; ++i) s2.x[i] = s2.y[i] = d2.x[i] = d2.y[i] = 1e9; }
  SgConserveInterp2D_computeWeights(&w);
  if (cfg == 2 || cfg == 3) SgConserveInterp2D_computeWeights(&w);
  // the exact fractions
  double ex[2048]; double dsum[300], any = 0; int pairs = 0;
  for (int d = 0; d < nd; ++d) { double ar = cellArea(D, d); dsum[d] = 0; for (int s = 0; s < ns; ++s) { double v = cellOverlap(S, s, D, d) / ar; ex[d * ns + s] = v; dsum[d] += v; any += v; } (void)pairs; }
  double src[300], out[300]; for (int s = 0; s < ns; ++s) src[s] = cfg == 5 ? sg_real(nm("f", s), -100, 100) : (s * 7 % 5) - 1.5;
  for (int d = 0; d < nd; ++d) out[d] = -7;
  SgConserveInterp2D_apply(&w, src, out);
  double seen[2048], tol = 2e-4; for (long u = sg_param("fine", 0); u > 0; --u) tol /= 10; // points up to 1e-6 apart are one point to the library
   for (int i = 0; i < nd * ns; ++i) seen[i] = 0;
  int n = 0; Entry e[600];
  if (sg_split(any > 0.001)) {
    sg_reach("overlap");
    n = enumerate(w, e, 600);
    int cnt[2048]; for (int i = 0; i < nd * ns; ++i) cnt[i] = 0;
    for (int i = 0; i < n; ++i) {
      sg_assert(e[i].s >= 0 && e[i].s < ns && e[i].d >= 0 && e[i].d < nd, "indices are cells of the two grids");
      if (!(e[i].s >= 0 && e[i].s < ns && e[i].d >= 0 && e[i].d < nd)) continue;
      int k = e[i].d * ns + e[i].s;
      sg_assert(++cnt[k] == 1, "each pair of cells is enumerated once");
      sg_assert(e[i].w >= -tol, "weights are not negative");
      seen[k] += e[i].w;
    }
    for (int k = 0; k < nd * ns; ++k) sg_assert(sg_near(seen[k], ex[k], tol), "weight is the overlapped fraction of the destination cell");
    Entry f[600]; int m = enumerate(w, f, 600, !sg_param("on", 0)); // a second pass sees the same entries; after the end the first one is the current one again
    sg_assert(m == n, "enumerating again gives the same entries");
    for (int i = 0; i < n && i < m; ++i) sg_assert((e[i].s == f[i].s) & (e[i].d == f[i].d) & sg_near(e[i].w, f[i].w, 0), "enumerating again gives the same entries");
  } else { sg_reach("apart"); sg_assert(1, "-"); }
  for (int d = 0; d < nd; ++d) {
    double v = 0, ss = 0; int has = 0; for (int i = 0; i < n; ++i) if (e[i].d == d) { v += e[i].w * src[e[i].s]; ss += e[i].w; has = 1; }
    if (has) { sg_assert(sg_near(out[d], v, 1e-6), "apply is the weighted sum of the source values"); sg_assert(ss <= 1 + tol, "weights of a destination cell add up to at most one"); }
    else if (n) sg_assert(out[d] == -7, "cells without source cells are left alone");
    sg_out("out", out[d]);
  }
  // summed over the destination cells, the weights give back the overlapped part of every source cell
  SgConserveInterp2D_del(&w);
  sg_assert(sg_heap_live() == 0, "everything released");
}

// C14: interpolation of nodal fields
#include "H.h"
#include "SgNodeInterp2D.h"
#include "SgFindPointInCell.h"
#include "SgLinearSolve.h"
static int PER[2] = {0, 0};
struct G { int d[2], n; double x[300], y[300]; };
static void make(G &g, int n0, int n1, int kind) {
  static const double Y1[] = {0, 1, 1.5, 3, 3.25, 4.5, 6, 6.75, 8};
  g.d[0] = n0; g.d[1] = n1; g.n = n0 * n1;
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) {
    double x = i, y = j; int k = i * n1 + j;
    if (kind == 1) { x = 2 * i + 0.5 * j; y = 0.25 * i + j; }
    if (kind == 2) { x = j - i; y = i + j; }
    if (kind == 3) { x = i; y = j < 9 ? Y1[j] : j + 0.25 * (j % 3); }
    if (kind == 4) { x = i + 0.25 * i * j; y = j - 0.125 * i * j; }
    if (kind == 5) { x = j; y = -1.5 * i; } // indices run along y then x
    if (kind == 6) { static const int C[] = {1, 0, -1, 0, 1}, R[] = {0, 1, 0, -1, 0}; x = (1 + i) * C[j % 5]; y = (1 + i) * R[j % 5]; } // a ring, closed along its second dimension
    if (kind == 7) { static const int C[] = {1, -1, -1, 1, 1}, R[] = {1, 1, -1, -1, 1}; x = (1 + i) * C[j % 5]; y = (1 + i) * R[j % 5]; }
    g.x[k] = x; g.y[k] = y;
  }
}
void sg_main() {
  for (int j = 0; j < 2; ++j) PER[j] = (int)(sg_param("per", 0) >> j & 1);
  int sk = (int)sg_param("sk", 0), dk = (int)sg_param("dk", 0), free = (int)sg_param("free", 2), nmax = (int)sg_param("nmax", 3), cfg = (int)sg_param("cfg", 0);
  double tol = sg_param("loose", 0) ? 0.0625 : 1e-6, a = (double)sg_param("sc8", 4) / 8;
  G S, D; make(S, (int)sg_param("s0", 3), (int)sg_param("s1", 3), sk); make(D, (int)sg_param("d0", 2), (int)sg_param("d1", 2), dk);
  double lx = S.x[0], hx = lx, ly = S.y[0], hy = ly; for (int k = 0; k < S.n; ++k) { lx = hmin(lx, S.x[k]); hx = hmax(hx, S.x[k]); ly = hmin(ly, S.y[k]); hy = hmax(hy, S.y[k]); }
  double dx = free == 3 ? sg_real("dx", 0.25, 0.375) : free >= 1 ? sg_real("dx", lx - 1, hx + 1) : (double)sg_param("dx16", 5) / 16, dy = free == 2 ? sg_real("dy", ly - 1, hy + 1) : (double)sg_param("dy16", 5) / 16;
  for (int k = 0; k < D.n; ++k) { D.x[k] = a * D.x[k] + dx; D.y[k] = a * D.y[k] + dy; }
  if (cfg == 1) for (int k = 0; k < D.n; ++k) { D.x[k] = S.x[k]; D.y[k] = S.y[k]; } // coincident nodes (same dimensions)
  for (int k = 0; k < S.n; ++k) place(S.x[k], S.y[k]);
  for (int k = 0; k < D.n; ++k) place(D.x[k], D.y[k]);
  place(lx, ly); place(hx, hy); if (lx > hx) std::swap(lx, hx); if (ly > hy) std::swap(ly, hy);
  // inside the four corners of the source grid, exactly or by some margin
  double c[8]; int o[4] = {0, (S.d[0] - 1) * S.d[1], S.n - 1, S.d[1] - 1}; for (int v = 0; v < 4; ++v) { c[2 * v] = S.x[o[v]]; c[2 * v + 1] = S.y[o[v]]; }
  double ori = cross2(c, c + 2, c + 4);
  SgNodeInterp2D_type *w = 0; SgNodeInterp2D_new(&w, nmax, tol);
  const double *sc[2] = {S.x, S.y}, *dc[2] = {D.x, D.y};
  if (sg_param("reuse", 0)) { G A, B; make(A, 2, 3, 1); make(B, 3, 3, 0); for (int k = 0; k < B.n; ++k) { B.x[k] = 0.5 + 0.5 * B.x[k]; B.y[k] = 0.5 + 0.25 * B.y[k]; } const double *ac[2] = {A.x, A.y}, *bc[2] = {B.x, B.y};
    SgNodeInterp2D_setSrcGrid(&w, A.d, PER, ac); SgNodeInterp2D_setDstGrid(&w, B.d, bc); SgNodeInterp2D_computeWeights(&w); }
  if (sg_param("near", 0)) { Near v; long o = sg_choose("comp", 0, 3); double *p[4] = {S.x, S.y, D.x, D.y}; v.vary(p[o], o < 2 ? S.n : D.n, o < 2 ? 0.125 : -0.125); SgNodeInterp2D_setSrcGrid(&w, S.d, PER, sc); SgNodeInterp2D_setDstGrid(&w, D.d, dc); SgNodeInterp2D_computeWeights(&w); v.restore(); }
  if (sg_param("order", 0)) { SgNodeInterp2D_setDstGrid(&w, D.d, dc); SgNodeInterp2D_setSrcGrid(&w, S.d, PER, sc); } else { SgNodeInterp2D_setSrcGrid(&w, S.d, PER, sc); SgNodeInterp2D_setDstGrid(&w, D.d, dc); }
  SgNodeInterp2D_computeWeights(&w);
  if (sg_param("again", 0)) SgNodeInterp2D_computeWeights(&w);
  double one[300], f[300], o1[300], ox[300], oy[300], of[300]; for (int k = 0; k < S.n; ++k) { one[k] = 1; f[k] = sg_param("data", 0) ? sg_real(nm("f", k), -10, 10) : (k * 5 % 7) - 2.5; }
  for (int k = 0; k < D.n; ++k) o1[k] = ox[k] = oy[k] = of[k] = -777;
  SgNodeInterp2D_apply(&w, one, o1); SgNodeInterp2D_apply(&w, S.x, ox); SgNodeInterp2D_apply(&w, S.y, oy); SgNodeInterp2D_apply(&w, f, of);
  double fl = f[0], fh = f[0]; for (int k = 1; k < S.n; ++k) { fl = hmin(fl, f[k]); fh = hmax(fh, f[k]); }
  for (int k = 0; k < D.n; ++k) {
    bool in = true, out = (D.x[k] < lx - 1e-9) | (D.x[k] > hx + 1e-9) | (D.y[k] < ly - 1e-9) | (D.y[k] > hy + 1e-9); double q[2] = {D.x[k], D.y[k]};
    for (int e = 0; e < 4; ++e) { double t = cross2(&c[2 * e], &c[2 * ((e + 1) % 4)], q); in = in & (ori > 0 ? t >= 0 : t <= 0); }
    if (o1[k] == -777) { // not interpolated
      sg_reach("left alone"); sg_assert(ox[k] == -777 && oy[k] == -777 && of[k] == -777, "a node that is not interpolated is left alone");
      if (sk != 4 && sk < 6 && (sk != 3 || nmax >= 8)) sg_assert(!in, "nodes inside the source grid are interpolated");
    } else {
      sg_reach("interpolated");
      sg_assert(!out, "nodes beyond the source grid are not interpolated");
      sg_assert(sg_near(o1[k], 1, 1e-9), "constants are reproduced");
      sg_assert(sg_near(ox[k], D.x[k], tol * 1.0001) & sg_near(oy[k], D.y[k], tol * 1.0001), "the coordinates of the node are reproduced");
      sg_assert((of[k] >= fl - 1e-9) & (of[k] <= fh + 1e-9), "the result is between the smallest and the largest source value");
      if (cfg == 1) sg_assert(sg_near(of[k], f[k], 1e-5), "values are reproduced on coincident nodes");
    }
    sg_out("x", ox[k]); sg_out("f", of[k]);
  }
  SgNodeInterp2D_del(&w);
  sg_assert(sg_heap_live() == 0, "everything released");
}

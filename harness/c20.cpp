// C20: generated grids
#include "H.h"
#include "createGrids2D.h"
#include <cmath>
static double X[400], Y[400], *C[2] = {X, Y};
void sg_main() {
  int mode = (int)sg_param("mode", 0), d[2] = {(int)sg_param("n0", 3), (int)sg_param("n1", 4)}, n = d[0] * d[1], keep[2] = {d[0], d[1]};
  for (int k = 0; k < 400; ++k) X[k] = Y[k] = -1e33;
  if (mode == 0) { // rectangular
    double lo[2] = {sg_real("x0", -1000, 1000), sg_real("y0", -1000, 1000)}, hi[2] = {sg_real("x1", -1000, 1000), sg_real("y1", -1000, 1000)};
    createRectangularGrid(d, lo, hi, C);
    for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) { int k = i * d[1] + j;
      sg_assert(sg_near(X[k] * (d[0] - 1), lo[0] * (d[0] - 1 - i) + hi[0] * i, 1e-6) & sg_near(Y[k] * (d[1] - 1), lo[1] * (d[1] - 1 - j) + hi[1] * j, 1e-6), "nodes are evenly spaced between the corners"); }
    sg_out("x", X[n - 1]); sg_out("y", Y[n - 1]);
  }
  if (mode == 1) { // polar
    double c[2] = {sg_real("cx", -100, 100), sg_real("cy", -100, 100)}, r = sg_real("r", 0, 50);
    createPolarGrid(d, c, r, C);
    for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) { int k = i * d[1] + j; double rho = r * i / (d[0] - 1), the = 2 * M_PI * j / (d[1] - 1);
      sg_assert(sg_near(X[k], c[0] + rho * cos(the), 1e-9) & sg_near(Y[k], c[1] + rho * sin(the), 1e-9), "node is at its radius and angle about the centre");
      double dx = X[k] - c[0], dy = Y[k] - c[1]; sg_assert(sg_near(dx * dx + dy * dy, rho * rho, 1e-7), "node is at its distance from the centre"); }
    for (int i = 0; i < d[0]; ++i) { int a = i * d[1], b = a + d[1] - 1; sg_assert(sg_near(X[a], X[b], 1e-9) & sg_near(Y[a], Y[b], 1e-9), "the grid is closed in the angle"); }
    sg_out("x", X[n - 1]); sg_out("y", Y[n - 1]);
  }
  if (mode == 2) { // rotated pole
    int fix = (int)sg_param("fix", 0); double a = fix & 1 ? (double)sg_param("a2", 0) / 2 : sg_real("a", -180, 180), b = fix & 2 ? (double)sg_param("b2", 0) / 2 : sg_real("b", -360, 360);
    createRotatedPoleGrid(d, a, b, C);
    double al = M_PI * a / 180., be = M_PI * b / 180., ca = cos(al), sa = sin(al), cb = cos(be), sb = sin(be);
    for (int j = 0; j < d[0]; ++j) for (int i = 0; i < d[1]; ++i) { int k = j * d[1] + i;
      sg_assert((X[k] >= -90 - 1e-9) & (X[k] <= 90 + 1e-9), "latitude between -90 and 90"); sg_assert((Y[k] >= -180 - 1e-9) & (Y[k] <= 180 + 1e-9), "longitude between -180 and 180");
      double the = M_PI * (-90.0 + 180.0 * j / double(d[0] - 1)) / 180.0, lam = M_PI * (-180.0 + 360.0 * i / double(d[1] - 1)) / 180.0;
      double u = cos(the) * cos(lam), v = cos(the) * sin(lam), w = sin(the), p = ca * u + sa * w, x = cb * p + sb * v, y = cb * v - sb * p, z = ca * w - sa * u;
      double la = M_PI * X[k] / 180., lo = M_PI * Y[k] / 180.;
      sg_assert(sg_near(sin(la), z, 1e-7), "latitude is that of the rotated node");
      if (sg_split(x * x + y * y >= 1e-4)) { double sl = sin(lo), cl = cos(lo); sg_assert(sg_near(x * sl, y * cl, 1e-7) & (x * cl + y * sl >= 0), "longitude is that of the rotated node"); } // undefined at the poles
      if (fix == 3) { sg_out("lat", X[k]); }
    }
  }
  if (mode == 3) { // products
    double A[9], B[9], M[9], v[3], r[3]; for (int i = 0; i < 9; ++i) { A[i] = sg_real(nm("a", i), -10, 10); B[i] = sg_real(nm("b", i), -10, 10); M[i] = 1e33; } for (int i = 0; i < 3; ++i) { v[i] = sg_real(nm("v", i), -10, 10); r[i] = 1e33; }
    matrixDotMatrix(A, B, M); matrixDotVector(A, v, r);
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) sg_assert(sg_near(M[3 * i + j], A[3 * i] * B[j] + A[3 * i + 1] * B[3 + j] + A[3 * i + 2] * B[6 + j], 1e-9), "matrix product"); sg_assert(sg_near(r[i], A[3 * i] * v[0] + A[3 * i + 1] * v[1] + A[3 * i + 2] * v[2], 1e-9), "matrix vector product"); }
    sg_out("m", M[5]); sg_out("r", r[1]);
  } else {
    for (int k = 0; k < n; ++k) sg_assert(X[k] != -1e33 && Y[k] != -1e33, "every coordinate is written");
    for (int k = n; k < 400; ++k) sg_assert(X[k] == -1e33 && Y[k] == -1e33, "nothing is written beyond the grid");
    sg_assert(d[0] == keep[0] && d[1] == keep[1], "dimensions are not modified");
  }
  sg_reach("grid");
}

// C04: linear solver returns the (least-squares / minimum-norm) solution and its residual
#include "H.h"
#include "SgLinearSolve.h"
static double minor2(const double *A, int n, int r, int s, int i, int j) { return A[r * n + i] * A[s * n + j] - A[r * n + j] * A[s * n + i]; }
// well away from a rank-deficient matrix
static bool fullRank(const double *A, int m, int n) {
  const double t = 0.0625; double d = 0;
  if (m == 1 || n == 1) { for (int i = 0; i < m * n; ++i) d += A[i] * A[i]; return d >= t; }
  if (m == 2) { for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { double q = minor2(A, n, 0, 1, i, j); d += q * q; } return d >= t; }
  if (n == 2) { for (int r = 0; r < m; ++r) for (int s = r + 1; s < m; ++s) { double q = minor2(A, n, r, s, 0, 1); d += q * q; } return d >= t; }
  if (m == 3) { for (int k = 0; k < 3; ++k) d += A[k] * minor2(A, 3, 1, 2, (k + 1) % 3, (k + 2) % 3); }
  else { // 4 x 4 by pairs of rows
    static const int q[6][4] = {{0, 1, 2, 3}, {0, 2, 3, 1}, {0, 3, 1, 2}, {1, 2, 0, 3}, {1, 3, 2, 0}, {2, 3, 0, 1}};
    for (int k = 0; k < 6; ++k) d += minor2(A, 4, 0, 1, q[k][0], q[k][1]) * minor2(A, 4, 2, 3, q[k][2], q[k][3]);
  }
  return habs(d) >= t;
}
void sg_main() {
  int m = (int)sg_param("m", 2), n = (int)sg_param("n", 2), symA = (int)sg_param("sym", 1), reuse = (int)sg_param("reuse", 0);
  int big = m > 4 || n > 4; double A[400], b[20], A0[400], b0[20];
  static const double base[4][16] = {{2, -1, 0.5, 3, 1, 4, -2, 0.25, 1.5, -3, 2, 1, 0.5, 1, -1, 2}, {0, 1, 2, 1, 0, 3, -1, 5, 1, 2, 0, 1, 4, 1, 1, 3}, {1, 2, 3, 4, 2, 5, 1, 0, -1, 1, 1, 1, 0, 2, 7, 1}, {-3, 1, 2, 0, 1, -2, 1, 0, 0, 1, -2, 1, 0, 0, 1, -4}};
  SgLinearSolve_type *s = 0; SgLinearSolve_new(&s, m, n);
  if (reuse) { // an earlier use of the same object must not matter
    for (int i = 0; i < m * n; ++i) A0[i] = big ? (i % n == i / n ? 9 : (i * 3 % 4) - 1.0) : base[(reuse + 1) % 4][i];
    for (int i = 0; i < m; ++i) b0[i] = 3 - i;
    SgLinearSolve_setMatrix(&s, A0); SgLinearSolve_setRightHandSide(&s, b0); SgLinearSolve_solve(&s);
  }
  for (int i = 0; i < m * n; ++i) {
    bool sy = symA == 1 || (symA == 2 && i % 2 == 0) || (symA == 3 && i == 1) || (symA == 4 && i < 2);
    A[i] = A0[i] = sy ? sg_real(nm("a", i), big ? -2 : -8, big ? 2 : 8) : big ? (i % n == i / n ? 12 + m : (i * 5 + i / n) % 4 - 1.5) : base[reuse % 4][i];
  }
  if (reuse == 2) for (int i = 0; i < m * n; ++i) A0[i] = big ? (i % n == i / n ? 9 : (i * 3 % 4) - 1.0) : base[(reuse + 1) % 4][i]; // same matrix, new right-hand side
  int sing = (int)sg_param("sing", 0);
  if (sing) { // one row (column) is the combination of others
    for (int i = 0; i < (m <= n ? n : m); ++i) { int q = sing == 4 ? 0 : 1; double t = sing == 1 ? 2 : sing == 2 ? -1 : 0;
      if (m <= n) A[(m - 1) * n + i] = t * A[i] + (m > 2 ? q * (sing == 3 ? A[n + i] : 0) : 0); else A[i * n + n - 1] = t * A[i * n] + (n > 2 ? q * (sing == 3 ? A[i * n + 1] : 0) : 0); }
    for (int i = 0; i < m * n; ++i) A0[i] = A[i];
  }
  else if (!big) sg_assume(fullRank(A0, m, n)); // (the big ones have a dominant diagonal)
  for (int i = 0; i < m; ++i) b[i] = b0[i] = i < sg_param("bs", 20) ? sg_real(nm("b", i), -8, 8) : 3 - (i * 5 % 9);
  if (reuse != 2) { SgLinearSolve_setMatrix(&s, A); for (int i = 0; i < m * n; ++i) A[i] = -99; } // the caller's array is free afterwards
  SgLinearSolve_setRightHandSide(&s, b); for (int i = 0; i < m; ++i) b[i] = -99;
  int ier = SgLinearSolve_solve(&s);
  if (reuse == 3) ier = SgLinearSolve_solve(&s); // solving again gives the same answer
  sg_assert(ier >= 0, "no illegal argument");
  double *x = 0; SgLinearSolve_getSolution(&s, &x);
  if (sing) { sg_assert(ier > 0, "a singular system is reported"); sg_reach("reported"); SgLinearSolve_del(&s); sg_assert(sg_heap_live() == 0, "everything released"); return; }
  if (!sg_param("adv", 0)) sg_assert(ier == 0, "a system of full rank is solved");
  if (ier == 0) {
    sg_reach("solved");
    double r[20], res = 0;
    for (int i = 0; i < m; ++i) { r[i] = -b0[i]; for (int j = 0; j < n; ++j) r[i] += A0[i * n + j] * x[j]; }
    double tol = 1e-7;
    if (m <= n) for (int i = 0; i < m; ++i) sg_assert(sg_near(r[i], 0, tol), "A x = b");
    if (m > n) for (int j = 0; j < n; ++j) { double g = 0; for (int i = 0; i < m; ++i) g += A0[i * n + j] * r[i]; sg_assert(sg_near(g, 0, tol), "residual is orthogonal to the columns (least squares)"); }
    if (m == 1 && n > 1) for (int j = 1; j < n; ++j) sg_assert(sg_near(A0[0] * x[j] - A0[j] * x[0], 0, tol), "minimum norm");
    if (m == 2 && n == 3) { // x is orthogonal to the null space a0 x a1
      double c0 = A0[1] * A0[5] - A0[2] * A0[4], c1 = A0[2] * A0[3] - A0[0] * A0[5], c2 = A0[0] * A0[4] - A0[1] * A0[3];
      sg_assert(sg_near(c0 * x[0] + c1 * x[1] + c2 * x[2], 0, tol), "minimum norm");
    }
    double res1 = -1; SgLinearSolve_getResidual(&s, &res1);
    sg_assert(res1 >= 0, "residual is not negative");
    for (int i = 0; i < m; ++i) res += habs(r[i]);
    sg_assert(sg_near(res1, res, tol), "residual is the sum of |A x - b|");
    for (int j = 0; j < n; ++j) sg_out("x", x[j]);
  } else sg_reach("singular");
  SgLinearSolve_del(&s);
  sg_assert(sg_heap_live() == 0, "everything released");
}

// C03: shapes keep their points and have the complete topology of a simplex
#include "H.h"
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
#define Z(call) sg_assert((call) == 0, "the call reports success: " #call)
static void fill(double (*p)[3], double (*q)[3], int n) { for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) p[i][j] = q[i][j] = sg_real(nm("p", i, j), -1e6, 1e6); }
static void clobber(double (*p)[3], int n) { for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) p[i][j] = -7; }
static bool same3(const double *a, const double *b) { return (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]); }
void sg_main() {
  double p[4][3], q[4][3]; int k = (int)sg_choose("shape", 0, 2), n = k + 2; fill(p, q, n); int num;
  int order[4] = {0, 1, 2, 3};
  if (k == 0) {
    SgLine_type *s = 0; Z(SgLine_new(&s, p[0], p[1])); clobber(p, n);
    Z(SgLine_getNumberOfPoints(&s, &num)); sg_assert(num == 2, "a line has two points");
    for (int i = 0; i < n; ++i) { double *x; Z(SgLine_getPoint(&s, i, &x)); sg_assert(same3(x, q[i]), "line point preserved"); }
    Z(SgLine_del(&s));
  } else if (k == 1) {
    SgTriangle_type *s = 0; Z(SgTriangle_new(&s, p[0], p[1], p[2])); clobber(p, n);
    Z(SgTriangle_getNumberOfPoints(&s, &num)); sg_assert(num == 3, "a triangle has three points");
    for (int i = 0; i < n; ++i) { double *x; Z(SgTriangle_getPoint(&s, i, &x)); sg_assert(same3(x, q[i]), "triangle point preserved"); }
    Z(SgTriangle_getNumberOfEdges(&s, &num)); sg_assert(num == 3, "a triangle has three edges");
    int in[3] = {0, 0, 0}, out[3] = {0, 0, 0}; int *e;
    for (int i = 0; i < 3; ++i) { Z(SgTriangle_getEdge(&s, i, &e)); sg_assert(e[0] >= 0 && e[0] < 3 && e[1] >= 0 && e[1] < 3 && e[0] != e[1], "edge joins two vertices"); out[e[0]]++; in[e[1]]++; }
    for (int i = 0; i < 3; ++i) sg_assert(in[i] == 1 && out[i] == 1, "triangle edges form a closed loop");
    Z(SgTriangle_del(&s));
  } else {
    SgTetrahedron_type *s = 0; Z(SgTetrahedron_new(&s, p[0], p[1], p[2], p[3])); clobber(p, n);
    Z(SgTetrahedron_getNumberOfPoints(&s, &num)); sg_assert(num == 4, "a tetrahedron has four points");
    for (int i = 0; i < n; ++i) { double *x; Z(SgTetrahedron_getPoint(&s, i, &x)); sg_assert(same3(x, q[i]), "tetrahedron point preserved"); }
    Z(SgTetrahedron_getNumberOfEdges(&s, &num)); sg_assert(num == 6, "a tetrahedron has six edges");
    int seen[4][4] = {}; int *e;
    for (int i = 0; i < 6; ++i) { Z(SgTetrahedron_getEdge(&s, i, &e)); sg_assert(e[0] >= 0 && e[0] < 4 && e[1] >= 0 && e[1] < 4 && e[0] != e[1], "edge joins two vertices"); seen[e[0]][e[1]]++; seen[e[1]][e[0]]++; }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) sg_assert(seen[i][j] == 1, "every pair of vertices is one edge");
    Z(SgTetrahedron_getNumberOfFaces(&s, &num)); sg_assert(num == 4, "a tetrahedron has four faces");
    int mask[16] = {}; int use[4][4] = {};
    for (int i = 0; i < 4; ++i) { Z(SgTetrahedron_getFace(&s, i, &e)); int m = 0; for (int j = 0; j < 3; ++j) { sg_assert(e[j] >= 0 && e[j] < 4, "face vertex in range"); m |= 1 << e[j]; int a = e[j], b = e[(j + 1) % 3]; use[a][b]++; use[b][a]++; } mask[m]++; }
    sg_assert(mask[7] == 1 && mask[11] == 1 && mask[13] == 1 && mask[14] == 1, "every triple of vertices is one face");
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) sg_assert(use[i][j] == 2, "every edge belongs to two faces");
    Z(SgTetrahedron_del(&s));
  }
  (void)order;
  sg_assert(sg_heap_live() == 0, "everything released");
  sg_reach("shape");
}

// C24: histories of calls on every class; the engine checks each access, read and release
#include "H.h"
#ifdef M_CONSERVE
#include "SgConserveInterp2D.h"
#include "SgQuadIntersect.h"
#include "SgTriangulate.h"
#include "SgFindOverlappingCells2D.h"
#include "SgFindPointInCell.h"
#include "SgBoxIterator.h"
#include "SgLinearSolve.h"
#elif defined(M_FLOW)
#include "SgFlowInterp2D.h"
#include "SgFindPointInCell.h"
#include "SgLinearSolve.h"
#include "SgBoxIterator.h"
#include "SgFindOverlappingCells2D.h"
#elif defined(M_NODE)
#include "SgNodeInterp2D.h"
#include "SgFindPointInCell.h"
#include "SgLinearSolve.h"
#elif defined(M_QUAD)
#include "SgQuadIntersect.h"
#include "SgQuadLineIntersect.h"
#include "SgQuadLineFlows.h"
#include "SgTriangulate.h"
#include "SgLinearSolve.h"
#else
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
#include "SgBoxIterator.h"
#include "SgSideIterator.h"
#include "SgOctreePoints.h"
#include "SgTripolarGrid.h"
#include "SgTriangulate.h"
#include "SgLinearSolve.h"
#endif
static int K;
static void Z(int status) { sg_assert(status == 0, "the call reports success"); }
// a grid of exactly its size on the heap, released after the call that takes it
struct G {
  int d[2], n; double *c[2];
  G(int which, int role) {
    static const int D[4][2] = {{2, 2}, {2, 3}, {3, 2}, {3, 3}}; d[0] = D[which][0]; d[1] = D[which][1]; n = d[0] * d[1]; c[0] = new double[n]; c[1] = new double[n];
    static bool have; static double s; if (!have) { have = true; s = sg_param("sym", 1) ? sg_real("s", -0.5, 2.5) : 0.25; }
    for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) { double x = 1.5 * i, y = j; int k = i * d[1] + j; if (which == 1) { x = i + 0.25 * j; y = j - 0.25 * i; } if (which == 3) { x = 1.25 * i; y = 0.75 * j; } if (role) { x = 0.75 * x + s; y = 0.75 * y + 0.375; } c[0][k] = x; c[1][k] = y; }
  }
  ~G() { delete[] c[0]; delete[] c[1]; }
  const double **p() { return (const double **)c; }
};
static double *heap(int n, double v) { double *p = new double[n]; for (int i = 0; i < n; ++i) p[i] = v + i; return p; }
static void readAll(const double *p, int n) { double s = 0; for (int i = 0; i < n; ++i) s += p[i]; sg_out("sum", s); }
static void readInts(const int *p, int n) { long s = 0; for (int i = 0; i < n; ++i) s += p[i]; sg_out("sum", (double)s); }
static long op(int n) { static int q = 0; if (q < (int)sg_param("pre", 0)) return q++; return sg_choose(nm("op", q++), 0, n - 1); }
#ifdef M_CONSERVE
static void run() {
  int alive = 1, ns = 0, nd = 0, ok = 0, ws = 0, wd = 0; int per[2] = {0, 0}; SgConserveInterp2D_type *w = 0; Z(SgConserveInterp2D_new(&w)); int grids = (int)sg_param("grids", 2);
  for (int t = 0; t < K; ++t) { long o = op(6);
    if (o == 0) { G g((int)sg_choose(nm("g", t), 0, grids - 1), 0); Z(SgConserveInterp2D_setSrcGrid(&w, g.d, per, g.p())); ns = (g.d[0] - 1) * (g.d[1] - 1); }
    if (o == 1) { G g((int)sg_choose(nm("g", t), 0, grids - 1), 1); Z(SgConserveInterp2D_setDstGrid(&w, g.d, g.p())); nd = (g.d[0] - 1) * (g.d[1] - 1); }
    if (o == 2) { if (!ns || !nd) continue; Z(SgConserveInterp2D_computeWeights(&w)); ok = 1; ws = ns; wd = nd; }
    if (o == 3) { int a = ok ? ws : 1, b = ok ? wd : 1; double *s = heap(a, 1), *d = heap(b, -9); Z(SgConserveInterp2D_apply(&w, s, d)); readAll(d, b); delete[] s; delete[] d; }
    if (o == 4) { if (!ok) continue; bool some = false; { double *s = heap(ws, 1), *d = heap(wd, -99); Z(SgConserveInterp2D_apply(&w, s, d)); for (int i = 0; i < wd; ++i) some = some || d[i] != -99 + i; delete[] s; delete[] d; } // every weight changes its destination's value
      Z(SgConserveInterp2D_reset(&w)); for (;;) { int i = 0, j = 0; double x = 0; if (some) { SgConserveInterp2D_get(&w, &i, &j, &x); sg_assert(i >= 0 && i < ws && j >= 0 && j < wd, "indices of a weight"); } if (SgConserveInterp2D_next(&w) || !some) break; } }
    if (o == 5) { Z(SgConserveInterp2D_del(&w)); w = 0; Z(SgConserveInterp2D_new(&w)); ns = nd = ok = 0; }
  }
  Z(SgConserveInterp2D_del(&w)); (void)alive;
}
static void runCells() {
  SgFindOverlappingCells2D_type *w = 0; Z(SgFindOverlappingCells2D_new(&w)); int ns = 0, np = 0, per[2] = {0, 0}, grids = (int)sg_param("grids", 2);
  for (int t = 0; t < K; ++t) { long o = op(5);
    if (o == 0) { G g((int)sg_choose(nm("g", t), 0, grids - 1), 0); Z(SgFindOverlappingCells2D_setSrcGrid(&w, g.d, per, g.p())); ns = (g.d[0] - 1) * (g.d[1] - 1); }
    if (o == 1) { int n = 3 + (int)sg_choose(nm("g", t), 0, 1); double *p = heap(2 * n, 0); for (int i = 0; i < n; ++i) { p[2 * i] = 0.5 * (i % 3); p[2 * i + 1] = 0.25 * i; } if (sg_param("sym", 1)) p[0] = sg_real(nm("q", t), -2, 4); Z(SgFindOverlappingCells2D_setPolygonPoints(&w, n, p)); delete[] p; np = n; }
    if (o == 2) { if (!ns || !np) continue; SgFindOverlappingCells2D_findSrcCellIndices(&w); int n, *c; Z(SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&w, &n)); Z(SgFindOverlappingCells2D_getSrcCellIndices(&w, &c)); for (int i = 0; i < n; ++i) sg_assert(c[i] >= 0 && c[i] < ns, "index of a cell"); }
    if (o == 3) { int n, *c; Z(SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&w, &n)); Z(SgFindOverlappingCells2D_getSrcCellIndices(&w, &c)); readInts(c, n); }
    if (o == 4) { Z(SgFindOverlappingCells2D_del(&w)); w = 0; Z(SgFindOverlappingCells2D_new(&w)); ns = np = 0; }
  }
  Z(SgFindOverlappingCells2D_del(&w));
}
#elif defined(M_FLOW)
static void run() {
  int ns = 0, a0 = 0, a1 = 0, nd = 0, ok = 0, w0 = 0, w1 = 0, wd = 0, stale = 0; SgFlowInterp2D_type *w = 0; Z(SgFlowInterp2D_new(&w)); int grids = (int)sg_param("grids", 2);
  for (int t = 0; t < K; ++t) { long o = op(5);
    if (o == 0) { G g((int)sg_choose(nm("g", t), 0, grids - 1), 0); Z(SgFlowInterp2D_setSrcGrid(&w, g.d, g.p())); stale = ok; ns = g.n; a0 = (g.d[0] - 1) * g.d[1]; a1 = g.d[0] * (g.d[1] - 1); }
    if (o == 1) { int n = 2 + (int)sg_choose(nm("g", t), 0, 1); G g(0, 1); int d[1] = {n}; Z(SgFlowInterp2D_setDstGrid(&w, d, g.p())); nd = n - 1; }
    if (o == 2) { if (!ns || !nd) continue; Z(SgFlowInterp2D_computeWeights(&w)); ok = 1; stale = 0; w0 = a0; w1 = a1; wd = nd; }
    if (o == 3) { if (stale) continue; /* the weights of a replaced source grid must be recomputed */ int a = ok ? w0 : 1, b = ok ? w1 : 1, c = ok ? wd : 1; double *s0 = heap(a, 1), *s1 = heap(b, 2), *d = heap(c, -9); const double *s[2] = {s0, s1}; Z(SgFlowInterp2D_apply(&w, s, d)); readAll(d, c); delete[] s0; delete[] s1; delete[] d; }
    if (o == 4) { Z(SgFlowInterp2D_del(&w)); w = 0; Z(SgFlowInterp2D_new(&w)); ns = nd = ok = stale = 0; }
  }
  Z(SgFlowInterp2D_del(&w));
}
#elif defined(M_NODE)
static void run() {
  int mode = (int)sg_param("mode", 0), grids = (int)sg_param("grids", 2); int per[2] = {0, 0};
  if (mode == 0) {
    int ns = 0, nd = 0, ok = 0, ws = 0, wd = 0; SgNodeInterp2D_type *w = 0; Z(SgNodeInterp2D_new(&w, 10, 1e-6));
    for (int t = 0; t < K; ++t) { long o = op(5);
      if (o == 0) { G g((int)sg_choose(nm("g", t), 0, grids - 1), 0); Z(SgNodeInterp2D_setSrcGrid(&w, g.d, per, g.p())); ns = g.n; }
      if (o == 1) { G g((int)sg_choose(nm("g", t), 0, grids - 1), 1); Z(SgNodeInterp2D_setDstGrid(&w, g.d, g.p())); nd = g.n; }
      if (o == 2) { if (!ns || !nd) continue; Z(SgNodeInterp2D_computeWeights(&w)); ok = 1; ws = ns; wd = nd; }
      if (o == 3) { int a = ok ? ws : 1, b = ok ? wd : 1; double *s = heap(a, 1), *d = heap(b, -9); Z(SgNodeInterp2D_apply(&w, s, d)); readAll(d, b); delete[] s; delete[] d; }
      if (o == 4) { Z(SgNodeInterp2D_del(&w)); w = 0; Z(SgNodeInterp2D_new(&w, 3, 1e-6)); ns = nd = ok = 0; }
    }
    Z(SgNodeInterp2D_del(&w));
  } else {
    SgFindPointInCell_type *f = 0; int set = 0, did = 0, nd = 2; Z(SgFindPointInCell_new(&f, 3, 1e-6));
    for (int t = 0; t < K; ++t) { long o = op(7);
      if (o == 0) { long q = sg_choose(nm("g", t), 0, grids); per[0] = (int)(q == 1);
        if (q == grids) { double *x = heap(3, 0.5); const double *c[1] = {x}; int d[1] = {3}; Z(SgFindPointInCell_setGrid(&f, 1, d, per, c)); delete[] x; nd = 1; } else { G g((int)q, 0); Z(SgFindPointInCell_setGrid(&f, 2, g.d, per, g.p())); nd = 2; } set = 1; did = 0; }
      if (!set && o < 6) continue;
      if (o == 1) { double *i = heap(nd, 0.25), *x = heap(nd, 0.125); if (sg_param("sym", 1)) x[0] = sg_real(nm("x", t), -1, 2); Z(SgFindPointInCell_reset(&f, i, x)); delete[] i; delete[] x; did = 1; }
      if (o == 2 && did) { int r = SgFindPointInCell_next(&f); sg_assert(r <= 1 && r >= -3, "known status"); }
      if (o == 3) { double *p = heap(nd, 0); Z(SgFindPointInCell_getPosition(&f, p)); readAll(p, nd); delete[] p; }
      if (o == 4) { double e, *h; int n; Z(SgFindPointInCell_getError(&f, &e)); sg_out("e", e); Z(SgFindPointInCell_getErrorHistory(&f, &n, &h)); readAll(h, n); }
      if (o == 5) { double *p = heap(nd, 0); Z(SgFindPointInCell_getIndices(&f, p)); readAll(p, nd); delete[] p; }
      if (o == 6) { Z(SgFindPointInCell_del(&f)); f = 0; Z(SgFindPointInCell_new(&f, 1, 1e-6)); set = did = 0; }
    }
    Z(SgFindPointInCell_del(&f));
  }
}
#elif defined(M_QUAD)
static double *quad(int which, bool sym) { static const double Q[3][8] = {{0, 0, 1, 0, 1, 1, 0, 1}, {0, 0, 2, 0.25, 2, 1.5, -0.25, 1}, {1, -1, 2, 0, 1, 1, 0, 0}}; double *p = new double[8]; for (int i = 0; i < 8; ++i) p[i] = Q[which][i]; if (sym) { static int q = 0; double s = sg_real(nm("s", q++), -0.5, 2); for (int i = 0; i < 8; i += 2) p[i] += s; } return p; }
static void run() {
  int mode = (int)sg_param("mode", 0);
  if (mode == 0) {
    SgQuadIntersect_type *w = 0; Z(SgQuadIntersect_new(&w)); int set = 0;
    for (int t = 0; t < K; ++t) { long o = op(3);
      if (o == 0) { double *a = quad((int)sg_choose(nm("a", t), 0, 1), false), *b = quad((int)sg_choose(nm("b", t), 0, 2), t == K - 2); Z(SgQuadIntersect_setQuadPoints(&w, a, b)); if (sg_param("keep", 1)) { int n; double *p; Z(SgQuadIntersect_getIntersectPoints(&w, &n, &p)); readAll(p, 2 * n); } delete[] a; delete[] b; set = 0; }
      if (o == 1 && set) { int n; double *p; Z(SgQuadIntersect_getIntersectPoints(&w, &n, &p)); readAll(p, 2 * n); }
      if (o == 2) { Z(SgQuadIntersect_del(&w)); w = 0; Z(SgQuadIntersect_new(&w)); set = 0; }
    }
    Z(SgQuadIntersect_del(&w));
  }
  if (mode == 1) {
    SgQuadLineIntersect_type *w = 0; Z(SgQuadLineIntersect_new(&w)); double *q = 0, *l = 0;
    for (int t = 0; t < K; ++t) { long o = op(4);
      if (o == 0) { delete[] q; q = quad((int)sg_choose(nm("a", t), 0, 2), false); Z(SgQuadLineIntersect_setQuadPoints(&w, q)); }
      if (o == 1) { delete[] l; l = heap(4, 0.125); if (t < 2) l[0] = sg_real(nm("l", t), -1, 2); Z(SgQuadLineIntersect_setLinePoints(&w, l)); }
      if (o == 2 && q && l) { int n; double *p; Z(SgQuadLineIntersect_collectIntersectPoints(&w, &n, &p)); readAll(p, 2 * n); }
      if (o == 3) { Z(SgQuadLineIntersect_del(&w)); w = 0; Z(SgQuadLineIntersect_new(&w)); delete[] q; delete[] l; q = l = 0; }
    }
    Z(SgQuadLineIntersect_del(&w)); delete[] q; delete[] l;
  }
  if (mode == 2) {
    SgQuadLineFlows_type *w = 0; Z(SgQuadLineFlows_new(&w)); double *q = 0, *l = 0; int done = 0;
    for (int t = 0; t < K; ++t) { long o = op(4);
      if (o == 0) { delete[] q; q = quad((int)sg_choose(nm("a", t), 0, 2), false); Z(SgQuadLineFlows_setQuadPoints(&w, q)); }
      if (o == 1) { delete[] l; l = heap(4, 0.125); l[2] = 0.75; Z(SgQuadLineFlows_setLinePoints(&w, l)); }
      if (o == 2 && q && l) { SgQuadLineFlows_computeProjections(&w); done = 1; }
      if (o == 2 && done) for (int e = 0; e < 4; ++e) { double f; Z(SgQuadLineFlows_getProjection(&w, e, &f)); sg_out("f", f); }
      if (o == 3) { Z(SgQuadLineFlows_del(&w)); w = 0; Z(SgQuadLineFlows_new(&w)); delete[] q; delete[] l; q = l = 0; done = 0; }
    }
    Z(SgQuadLineFlows_del(&w)); delete[] q; delete[] l;
  }
}
#else
static void run() {
  int mode = (int)sg_param("mode", 0);
  if (mode == 0) { // linear solver of each shape
    int m = 1 + (int)sg_choose("m", 0, 2), n = 1 + (int)sg_choose("n", 0, 2); SgLinearSolve_type *s = 0; Z(SgLinearSolve_new(&s, m, n)); int a = 0, b = 0, done = 0;
    for (int t = 0; t < K; ++t) { long o = op(5);
      if (o == 0) { double *p = new double[m * n]; for (int i = 0; i < m * n; ++i) p[i] = (i * i + 3 * i + t) % 5 + 0.5; if (sg_param("sym", 1)) p[0] = sg_real(nm("m", t), -3, 3); Z(SgLinearSolve_setMatrix(&s, p)); delete[] p; a = 1; }
      if (o == 1) { double *p = heap(m, 1); Z(SgLinearSolve_setRightHandSide(&s, p)); delete[] p; b = 1; }
      if (o == 2 && a && b) { SgLinearSolve_solve(&s); done = 1; }
      if (o == 3) { double *x; Z(SgLinearSolve_getSolution(&s, &x)); readAll(x, n); }
      if (o == 4 && done) { double r; Z(SgLinearSolve_getResidual(&s, &r)); sg_out("r", r); }
    }
    Z(SgLinearSolve_del(&s));
  }
  if (mode == 1) { // tripolar grid of each size
    int d[2] = {(int)sg_choose("nlat", 2, (int)sg_param("max", 6)), (int)sg_choose("nlon", 2, (int)sg_param("max", 6))}; int c = (int)sg_choose("cap", 0, d[0]); SgTripolarGrid_type *g = 0; Z(SgTripolarGrid_new(&g, d, c)); int e[2] = {-1, -1}; double **x;
    for (int t = 0; t < K; ++t) { Z(SgTripolarGrid_getGrid(&g, e, &x)); sg_assert(e[0] == d[1] && e[1] == d[0], "dimensions of the grid"); if (c < d[0] - 1) { readAll(x[0], e[0] * e[1]); readAll(x[1], e[0] * e[1]); } else sg_check_init(x[0], 8 * e[0] * e[1], "every latitude is written"); }
    Z(SgTripolarGrid_del(&g));
  }
  if (mode == 2) { // iterators
    int nd = 1 + (int)sg_choose("nd", 0, 2); int *b = new int[nd], *e = new int[nd], *x = new int[nd]; for (int i = 0; i < nd; ++i) { b[i] = i ? 2 - i : (int)sg_int(nm("b", i), -3, 3); e[i] = b[i] + (int)sg_choose(nm("w", i), 0, 2); }
    SgBoxIterator_type *s = 0; Z(SgBoxIterator_new(&s, nd, b, e)); for (int i = 0; i < nd; ++i) b[i] = e[i] = 99; int n, k; Z(SgBoxIterator_getNumberOfElements(&s, &n)); for (int i = 0; i < n; ++i) { Z(SgBoxIterator_getElement(&s, i, x)); readInts(x, nd); Z(SgBoxIterator_getIndex(&s, x, &k)); } Z(SgBoxIterator_del(&s)); delete[] b; delete[] e; delete[] x;
    SgSideIterator_type *it = new SgSideIterator_type(nd); do { std::vector<int> v = it->get(); readInts(&v[0], nd); } while (!it->next()); it->reset(); delete it;
  }
  if (mode == 3) { // octree
    int nd = 1 + (int)sg_choose("nd", 0, 2), np = 1 + (int)sg_choose("np", 0, 2), lev = (int)sg_choose("lev", 1, 2); double *p = heap(np * nd, 0); for (int i = 0; i < np * nd; ++i) p[i] = 0.5 * ((i * 7 + 3) % 11); if (sg_param("sym", 1)) p[0] = sg_real("p", -1, 6);
    SgOctreePoints_type *s = 0; Z(SgOctreePoints_new(&s, lev, nd, np, p)); std::vector<size_t> k = s->getKey(p, lev); for (size_t i = 0; i < k.size(); ++i) k[i] = (size_t)sg_concrete_int((long)k[i]); if (k.size() <= 2) { readAll(&s->getLo(k)[0], nd); readAll(&s->getHi(k)[0], nd); } Z(SgOctreePoints_del(&s)); delete[] p;
  }
  if (mode == 4) { // triangulations
    int np = (int)sg_choose("np", 0, 5); double *p = heap(2 * np, 0); for (int i = 0; i < np; ++i) { p[2 * i] = (i * 5 + 2) % 7; p[2 * i + 1] = (i * 3 + 1) % 4; } if (np && sg_param("sym", 1)) p[0] = sg_real("p", -1, 6);
    SgTriangulate_type *s = 0; Z(SgTriangulate_new(&s, np, p)); delete[] p; for (int t = 0; t < K; ++t) { double a; Z(SgTriangulate_getConvexHullArea(&s, &a)); sg_out("a", a); } Z(SgTriangulate_del(&s));
  }
  if (mode == 5) { // shapes from points that go away
    double *p[4]; for (int i = 0; i < 4; ++i) p[i] = heap(3, i * i); int n, *e; double *x; SgLine_type *l = 0; SgTriangle_type *t = 0; SgTetrahedron_type *h = 0; Z(SgLine_new(&l, p[0], p[1])); Z(SgTriangle_new(&t, p[0], p[1], p[2])); Z(SgTetrahedron_new(&h, p[0], p[1], p[2], p[3])); for (int i = 0; i < 4; ++i) delete[] p[i];
    Z(SgLine_getNumberOfPoints(&l, &n)); for (int i = 0; i < n; ++i) { Z(SgLine_getPoint(&l, i, &x)); readAll(x, 3); } Z(SgTriangle_getNumberOfPoints(&t, &n)); for (int i = 0; i < n; ++i) { Z(SgTriangle_getPoint(&t, i, &x)); readAll(x, 3); } Z(SgTetrahedron_getNumberOfPoints(&h, &n)); for (int i = 0; i < n; ++i) { Z(SgTetrahedron_getPoint(&h, i, &x)); readAll(x, 3); }
    Z(SgTriangle_getNumberOfEdges(&t, &n)); for (int i = 0; i < n; ++i) { Z(SgTriangle_getEdge(&t, i, &e)); readInts(e, 2); } Z(SgTetrahedron_getNumberOfEdges(&h, &n)); for (int i = 0; i < n; ++i) { Z(SgTetrahedron_getEdge(&h, i, &e)); readInts(e, 2); } Z(SgTetrahedron_getNumberOfFaces(&h, &n)); for (int i = 0; i < n; ++i) { Z(SgTetrahedron_getFace(&h, i, &e)); readInts(e, 3); }
    Z(SgLine_del(&l)); Z(SgTriangle_del(&t)); Z(SgTetrahedron_del(&h));
  }
}
#endif
void sg_main() {
  K = (int)sg_param("k", 4);
#ifdef M_CONSERVE
  if (sg_param("mode", 0)) runCells(); else
#endif
  run();
  sg_assert(sg_heap_live() == 0, "everything released"); sg_reach("end");
}

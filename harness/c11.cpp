// C11-C13: location of a point in the index space of a structured grid
#include "H.h"
#include "SgFindPointInCell.h"
#include "SgLinearSolve.h"
static int dims[4], nd, ntot; static const int PER0[4] = {0, 0, 0, 0};
static int flat(const int *i) { int f = 0; for (int k = 0; k < nd; ++k) f = f * dims[k] + i[k]; return f; }
// expected multilinear weight of a node, seen from an index position
static double hat(double d, int i) { double t = d - i; t = t < 0 ? -t : t; return t < 1 ? 1 - t : 0; }
static double nodeWeight(const double *d, int node) { double w = 1; for (int k = nd - 1; k >= 0; --k) { w *= hat(d[k], node % dims[k]); node /= dims[k]; } return w; }
static void weights() { // C11
  double d[4], c[4][300]; const double *cp[4] = {c[0], c[1], c[2], c[3]};
  for (int k = 0; k < nd; ++k) for (int j = 0; j < ntot; ++j) c[k][j] = j * (k + 1) % 7;
  SgFindPointInCell_type *f = 0; SgFindPointInCell_new(&f, 3, 1e-9);
  SgFindPointInCell_setGrid(&f, nd, dims, PER0, cp);
  for (int k = 0; k < nd; ++k) d[k] = sg_real(nm("d", k), 0, dims[k] - 1);
  { std::vector<double> dv(nd); for (int k = 0; k < nd; ++k) dv[k] = d[k];
    const std::vector<std::pair<size_t, double> > iw = f->getSrcIndicesAndWeights(dv);
    double got[300], sum = 0; int cnt[300]; for (int i = 0; i < 300; ++i) { got[i] = 0; cnt[i] = 0; }
    for (size_t i = 0; i < iw.size(); ++i) {
      long k = sg_concrete_int((long)iw[i].first);
      sg_assert(k >= 0 && k < ntot, "source index is a node of the grid"); if (k < 0 || k >= ntot) continue;
      sg_assert(++cnt[k] == 1, "source nodes are distinct");
      sg_assert(iw[i].second >= -1e-12 && iw[i].second <= 1 + 1e-12, "weight between 0 and 1");
      got[k] += iw[i].second; sum += iw[i].second;
    }
    sg_assert(sg_near(sum, 1, 1e-9), "weights add up to 1");
    for (int i = 0; i < ntot; ++i) sg_assert(sg_near(got[i], nodeWeight(d, i), 1e-9), "weight is the multilinear weight of the node");
    sg_out("sum", sum);
    sg_reach("weights");
  }
  SgFindPointInCell_del(&f);
  sg_assert(sg_heap_live() == 0, "everything released");
}
static void position() { // C12
  int sym = (int)sg_param("sym", 0); double d[4], c[4][300], pos[4], tgt[4]; const double *cp[4] = {c[0], c[1], c[2], c[3]};
  for (int k = 0; k < nd; ++k) for (int j = 0; j < ntot; ++j) c[k][j] = sym == 1 || (sym == 2 && k == 0 && j) ? (sym == 1 ? sg_real(nm("c", k, j), -10, 10) : c[k][j - 1] + sg_real(nm("c", k, j), 0, 5)) : (j * (5 + k) % 11) - 3.25 * k;
  for (int k = 0; k < nd; ++k) { d[k] = sg_real(nm("d", k), 0, dims[k] - 1); tgt[k] = sg_param("tgt", 0) ? sg_real(nm("t", k), -20, 20) : k + 0.5; }
  SgFindPointInCell_type *f = 0; SgFindPointInCell_new(&f, 3, 1e-9);
  if (sg_param("reuse", 0)) { int d2[4] = {2, 3, 2, 1}; double z[4][18]; const double *zp[4] = {z[0], z[1], z[2]}; for (int k = 0; k < 3; ++k) for (int j = 0; j < 18; ++j) z[k][j] = 100 * k + j; SgFindPointInCell_setGrid(&f, 3, d2, PER0, zp); }
  if (sg_param("near", 0)) { Near v; v.vary(c[sg_choose("comp", 0, nd - 1)], ntot, 0.5); double d2[4], p2[4], e2; for (int k = 0; k < nd; ++k) d2[k] = 0.25 * (k + 1); SgFindPointInCell_setGrid(&f, nd, dims, PER0, cp); SgFindPointInCell_reset(&f, d2, tgt); SgFindPointInCell_getPosition(&f, p2); v.restore();
    SgFindPointInCell_setGrid(&f, nd, dims, PER0, cp); if (sg_choose("again", 0, 1)) { SgFindPointInCell_reset(&f, d2, tgt); SgFindPointInCell_getPosition(&f, p2); SgFindPointInCell_getError(&f, &e2); } } // the same sizes, another node
  else SgFindPointInCell_setGrid(&f, nd, dims, PER0, cp);
  double keep[4][300]; for (int k = 0; k < nd; ++k) for (int j = 0; j < ntot; ++j) { keep[k][j] = c[k][j]; c[k][j] = 1e30; } // a copy was taken
  SgFindPointInCell_reset(&f, d, tgt);
  for (int k = 0; k < 4; ++k) pos[k] = -99;
  SgFindPointInCell_getPosition(&f, pos);
  double e2 = 0;
  for (int k = 0; k < nd; ++k) {
    double e = 0; for (int j = 0; j < ntot; ++j) e += nodeWeight(d, j) * keep[k][j];
    sg_assert(sg_near(pos[k], e, 1e-9), "position is the multilinear interpolation of the nodes");
    e2 += (e - tgt[k]) * (e - tgt[k]);
    sg_out("pos", pos[k]);
    const double *lo = f->getSrcDomainLo(), *hi = f->getSrcDomainHi();
    bool lower = false, upper = false;
    for (int j = 0; j < ntot; ++j) { sg_assert((lo[k] <= keep[k][j]) & (keep[k][j] <= hi[k]), "domain corners bound the grid"); lower = lower | (lo[k] == keep[k][j]); upper = upper | (hi[k] == keep[k][j]); }
    sg_assert(lower & upper, "domain corners are reached");
  }
  double err = -1, idx[4]; SgFindPointInCell_getError(&f, &err);
  if (nd < 4) sg_assert((err >= 0) & sg_near(err * err, e2, 1e-7), "error is the distance to the target");
  SgFindPointInCell_getIndices(&f, idx); for (int k = 0; k < nd; ++k) sg_assert(sg_near(idx[k], d[k], 0), "indices are those set");
  sg_reach("position");
  SgFindPointInCell_del(&f);
  sg_assert(sg_heap_live() == 0, "everything released");
}
static int step(SgFindPointInCell_type *f, int it, int nmax, double tol, const double *tgt, const double *lo, const double *hi, double *hist) {
  int code = SgFindPointInCell_next(&f);
  double err = -1, idx[3]; SgFindPointInCell_getError(&f, &err); SgFindPointInCell_getIndices(&f, idx);
  bool out = false, far = false;
  for (int k = 0; k < nd; ++k) { double m = sg_param("off", 0) ? 1e-10 + 1e-12 * (habs(lo[k]) + habs(hi[k])) : 1e-10; out = out | (tgt[k] < lo[k]) | (tgt[k] > hi[k]); far = far | (tgt[k] < lo[k] - m) | (tgt[k] > hi[k] + m); }
  int n = -1; double *h = 0; SgFindPointInCell_getErrorHistory(&f, &n, &h);
  sg_assert(code >= -3 && code <= 1, "a documented code");
  if (code == -3) { sg_reach("outside"); sg_assert(out, "reported outside: the target is outside"); }
  else {
    sg_assert(!far, "target outside the domain is reported");
    for (int k = 0; k < nd; ++k) sg_assert((idx[k] >= 0) & (idx[k] <= dims[k] - 1), "indices stay in the index domain");
    sg_assert(n == it, "one error per iteration");
    if (n == it) sg_assert(sg_near(h[n - 1], err, 1e-9), "last error is the current error");
    hist[it - 1] = err;
    if (code == 1) { sg_reach("converged"); sg_assert(err < tol, "reported converged: the position is within tolerance"); }
    if (code == -1) { sg_reach("exhausted"); sg_assert(it >= nmax, "reported exhausted: all iterations were made"); }
    if (code == -2) { sg_reach("fixed"); sg_assert(it >= 3, "reported stuck: after three iterations"); if (it >= 3) sg_assert(err >= hist[it - 3], "reported stuck: the error grew"); }
    if (code == 0) { sg_reach("going"); sg_assert((it < nmax) & (err >= tol), "reported unfinished: neither converged nor exhausted"); }
  }
  sg_out("code", code); sg_out("err", err);
  return code;
}
static void search() { // C13
  int sym = (int)sg_param("sym", 0), nmax = (int)sg_param("nmax", 2), grid = (int)sg_param("grid", 0), reuse = (int)sg_param("reuse", 0);
  double c[3][300], tgt[3], st[3], lo[3], hi[3], hist[16], tol = sg_param("loose", 0) ? 0.125 : 1e-6; const double *cp[3] = {c[0], c[1], c[2]};
  for (int k = 0; k < nd; ++k) st[k] = sg_param("start", 0) == 2 ? 0.5 * sg_choose("at", sg_param("atlo", 0), sg_param("athi", 2 * (dims[k] - 1))) : sg_param("start", 0) ? sg_real(nm("i", k), 0, dims[k] - 1) : 0.5 * (dims[k] - 1);
  static const double P1[] = {0, 0.5, 2, 3, 3.25}, P3[] = {0, 0.03125, 4, 4.125, 9}; // even and steep
  for (int j = 0; j < ntot; ++j) {
    int i0 = nd == 2 ? j / dims[1] : nd == 3 ? j / (dims[1] * dims[2]) : j, i1 = nd == 2 ? j % dims[1] : nd == 3 ? j / dims[2] % dims[1] : 0, i2 = nd == 3 ? j % dims[2] : 0;
    if (nd == 1) c[0][j] = grid == 3 ? P3[j] : P1[j];
    else if (grid == 0) { c[0][j] = 1 + 2.0 * i0 + 0.5 * i1; c[1][j] = -1 + 0.25 * i0 + 1.5 * i1; if (nd == 3) { c[0][j] += 0.25 * i2; c[2][j] = 3 * i2 - 0.5 * i1; } } // affine
    else if (grid == 1) { c[0][j] = P1[i0]; c[1][j] = P1[i1] + 0.5 * i0; } // product grid, sheared
    else { c[0][j] = i0 + 0.25 * i0 * i1; c[1][j] = i1 - 0.125 * i0 * i1; } // bilinear cells
  }
  if (sym) { // symbolic nodes
    if (nd == 1) { for (int j = 1; j < ntot; ++j) { double h = sg_real(nm("h", j), 0.25, 2); c[0][j] = c[0][j - 1] + h; } }
    else { double a = sg_real("a", 0.5, 2), b = 0.25, e = 0.125; for (int j = 0; j < ntot; ++j) { int i0 = j / dims[1], i1 = j % dims[1]; c[0][j] = a * i0 + b * i1; c[1][j] = e * i0 + i1; } }
  }
  for (int k = 0; k < nd; ++k) { lo[k] = hi[k] = c[k][0]; for (int j = 1; j < ntot; ++j) { lo[k] = hmin(lo[k], c[k][j]); hi[k] = hmax(hi[k], c[k][j]); } }
  for (int k = 0; k < nd; ++k) tgt[k] = sg_real(nm("t", k), -6, 12);
  int per[3] = {0, 0, 0}; if (sg_param("per", 0)) per[nd - 1] = 1;
  double tt[3]; bool in = true;
  if (grid == 0 && nd == 2 && !sym) { double x = tgt[0] - 1, y = tgt[1] + 1, det = 2.0 * 1.5 - 0.5 * 0.25; tt[0] = (1.5 * x - 0.5 * y) / det; tt[1] = (2.0 * y - 0.25 * x) / det; }
  if (nd == 2) { for (int j = 0; j < ntot; ++j) place(c[0][j], c[1][j]); place(tgt[0], tgt[1]); double l[2] = {lo[0], lo[1]}, h[2] = {hi[0], hi[1]}; place(l[0], l[1]); place(h[0], h[1]); for (int k = 0; k < 2; ++k) { lo[k] = hmin(l[k], h[k]); hi[k] = hmax(l[k], h[k]); } }
  if (sg_param("margin", 0)) sg_assume((tgt[0] >= lo[0]) & (tgt[0] <= hi[0])); // away from the outside
  if (sg_param("inside", 0)) sg_assume((tt[0] >= 0) & (tt[0] <= dims[0] - 1) & (tt[1] >= 0) & (tt[1] <= dims[1] - 1));
  SgFindPointInCell_type *f = 0; SgFindPointInCell_new(&f, nmax, tol);
  if (reuse) { // an earlier search, on a larger grid with other extents, or on the same grid
    double z[3][64]; const double *zp[3] = {z[0], z[1], z[2]}; int d2[3] = {3, 4, 2}; int n2 = nd == 1 ? 3 : nd == 2 ? 12 : 24, p1[3] = {1, 1, 1};
    for (int j = 0; j < n2; ++j) { int i0 = nd == 1 ? j : nd == 2 ? j / 4 : j / 8, i1 = nd == 2 ? j % 4 : j / 2 % 4; z[0][j] = -50 + 40.0 * i0; z[1][j] = -30 + 20.0 * i1; z[2][j] = -40 + 80.0 * (j % 2); }
    double t2[3] = {-13, 11, 5}, s2[3] = {0.25, 1.75, 0.5};
    SgFindPointInCell_setGrid(&f, nd, reuse == 1 ? d2 : dims, reuse == 1 ? p1 : per, reuse == 1 ? zp : cp);
    if (reuse == 2) for (int k = 0; k < nd; ++k) { t2[k] = lo[k] * 0.75 + hi[k] * 0.25; s2[k] = dims[k] - 1; }
    SgFindPointInCell_reset(&f, s2, t2); SgFindPointInCell_next(&f); SgFindPointInCell_next(&f);
  }
  if (sg_param("near", 0)) { Near v; v.vary(c[sg_choose("comp", 0, nd - 1)], ntot, 0.125); double t2[3], s2[3]; for (int k = 0; k < nd; ++k) { t2[k] = lo[k] * 0.75 + hi[k] * 0.25; s2[k] = 0.5 * (dims[k] - 1); } SgFindPointInCell_setGrid(&f, nd, dims, per, cp); SgFindPointInCell_reset(&f, s2, t2); SgFindPointInCell_next(&f); v.restore(); }
  if (reuse != 2) SgFindPointInCell_setGrid(&f, nd, dims, per, cp);
  SgFindPointInCell_reset(&f, st, tgt);
  int code = 0, it = 0;
  while (code == 0 && it < nmax + 1) { code = step(f, it + 1, nmax, tol, tgt, lo, hi, hist); it++; }
  sg_assert(code != 0, "the search ends");
  if (code == 1 && sg_param("check", 0)) { // the position the indices stand for
    double idx[3]; SgFindPointInCell_getIndices(&f, idx);
    for (int k = 0; k < nd; ++k) { double e = 0; for (int j = 0; j < ntot; ++j) e += nodeWeight(idx, j) * c[k][j]; sg_assert(sg_near(e, tgt[k], tol * 1.0001), "the indices stand for the target"); }
  }
  if (grid == 0 && nd == 2 && !sym) { // exact location on an affine grid
    for (int k = 0; k < 2; ++k) in = in & (tt[k] >= 0) & (tt[k] <= dims[k] - 1);
    if (sg_split(in) && nmax > 1) { double idx[3]; SgFindPointInCell_getIndices(&f, idx); sg_reach("affine inside"); sg_assert(code == 1, "a target inside an affine grid is found"); for (int k = 0; k < 2; ++k) sg_assert(sg_near(idx[k], tt[k], 1e-6), "the index location is exact"); }
  }
  if (reuse || sg_param("near", 0)) { // same answer as a new object
    SgFindPointInCell_type *g = 0; SgFindPointInCell_new(&g, nmax, tol); SgFindPointInCell_setGrid(&g, nd, dims, per, cp); SgFindPointInCell_reset(&g, st, tgt);
    int c2 = 0, i2 = 0; while (c2 == 0 && i2 < nmax + 1) { c2 = SgFindPointInCell_next(&g); i2++; }
    double a[3], b[3]; SgFindPointInCell_getIndices(&f, a); SgFindPointInCell_getIndices(&g, b);
    sg_assert(c2 == code && i2 == it, "the result does not depend on earlier searches"); for (int k = 0; k < nd; ++k) sg_assert(sg_near(a[k], b[k], 1e-9), "the location does not depend on earlier searches");
    SgFindPointInCell_del(&g);
  }
  SgFindPointInCell_del(&f);
  sg_assert(sg_heap_live() == 0, "everything released");
}
void sg_main() {
  nd = (int)sg_param("nd", 1); ntot = 1; for (int k = 0; k < nd; ++k) { dims[k] = (int)sg_param(nm("n", k), 2); ntot *= dims[k]; }
  int cfg = (int)sg_param("cfg", 0);
  if (cfg == 0) weights(); else if (cfg == 1) position(); else search();
}

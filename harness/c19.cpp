// C19: the boxes of an octree and the keys of points
#include "H.h"
#include "SgOctreePoints.h"
static const double P[4][12] = {{-1, 0.5, 2.25}, {0, 4, 1, -2, 3, 1.5}, {1, 2, 3, -1, 5, 4, 0.5, 0, 8}, {0, 1, 2, 3, 4, -1, 5, 3.5, 2, 6, 0.25, 8}};
static int D, LEV; static SgOctreePoints_type *s = 0; static double lo[4], hi[4];
static void tile(const std::vector<size_t> &key) { // the children of a box tile it
  std::vector<double> a = s->getLo(key), b = s->getHi(key); int n = 1 << D; double cl[16][4], ch[16][4];
  for (int q = 0; q < n; ++q) {
    std::vector<size_t> k2 = key; k2.push_back(q); const std::vector<double> &l = s->getLo(k2), &h = s->getHi(k2);
    for (int j = 0; j < D; ++j) { cl[q][j] = l[j]; ch[q][j] = h[j]; sg_assert(sg_near(h[j] - l[j], (b[j] - a[j]) / 2, 1e-9), "a child has half the size"); sg_assert((l[j] >= a[j] - 1e-9) & (h[j] <= b[j] + 1e-9), "a child is inside its parent"); }
    for (int r = 0; r < q; ++r) { bool apart = false; for (int j = 0; j < D; ++j) apart = apart | (cl[q][j] >= ch[r][j] - 1e-9) | (cl[r][j] >= ch[q][j] - 1e-9); sg_assert(apart, "children do not overlap"); }
    if ((int)k2.size() < LEV) tile(k2);
  }
}
// the keys stored for the points, if the object keeps them under this name
template <class T> auto stored(T *s, const double *p, int np, int) -> decltype(s->node2Key.find(0), void()) {
  sg_assert((int)s->node2Key.size() == np, "every point has a key");
  if (sg_param("nodes", 1)) for (int i = 0; i < np; ++i) {
    auto it = s->node2Key.find(i); sg_assert(it != s->node2Key.end() && (int)it->second.size() == LEV, "the key of a point is stored");
    if (it == s->node2Key.end() || (int)it->second.size() != LEV) continue;
    std::vector<size_t> k(it->second.begin(), it->second.end()); for (int e = 0; e < LEV; ++e) k[e] = (size_t)sg_concrete_int((long)k[e]);
    const std::vector<double> &a = s->getLo(k), &b = s->getHi(k); for (int j = 0; j < D; ++j) sg_assert((a[j] <= p[i * D + j] + 1e-9) & (p[i * D + j] <= b[j] + 1e-9), "the stored key's box contains the point");
  }
}
template <class T> void stored(T *, const double *, int, long) {}
void sg_main() {
  D = (int)sg_param("d", 2); LEV = (int)sg_param("lev", 2); int mode = (int)sg_param("mode", 0), np = (int)sg_param("np", 3); double p[128], q[4];
  for (int i = 0; i < np * D; ++i) p[i] = i < 3 * D ? P[D - 1][i] : P[D - 1][i % D] + 0.375 * (i * 5 % 7);
  if (mode == 1) for (int i = 0; i < np * D; ++i) p[i] = sg_real(nm("p", i), -10, 10);
  if (mode == 2) for (int j = 0; j < D; ++j) p[D + j] = sg_real(nm("p", j), 10, 20);
  for (int j = 0; j < D; ++j) { lo[j] = hi[j] = p[j]; for (int i = 1; i < np; ++i) { lo[j] = hmin(lo[j], p[i * D + j]); hi[j] = hmax(hi[j], p[i * D + j]); } sg_assume(hi[j] - lo[j] >= 0.5); }
  SgOctreePoints_new(&s, LEV, D, np, p);
  std::vector<size_t> none; const std::vector<double> &dl = s->getLo(none), &dh = s->getHi(none);
  for (int j = 0; j < D; ++j) { sg_assert(dl[j] == lo[j], "the domain starts at the lowest point"); sg_assert(dh[j] == hi[j], "the domain ends at the highest point"); }
  if (sg_param("tile", 1)) tile(none);
  // a point anywhere, also outside of the domain or on the boundary between boxes
  int which = mode == 1 ? (int)sg_param("which", 0) : -1;
  for (int j = 0; j < D; ++j) q[j] = which >= 0 ? p[which * D + j] : mode == 2 && j ? (lo[j] + hi[j]) / 2 : sg_real(nm("q", j), -15, 25);
  std::vector<size_t> prev;
  for (int l = 1; l <= LEV; ++l) {
    std::vector<size_t> k = s->getKey(q, l); sg_assert((int)k.size() == l, "the key has one entry per level"); if ((int)k.size() != l) break;
    for (int i = 0; i < l; ++i) { k[i] = (size_t)sg_concrete_int((long)k[i]); sg_assert(k[i] < (size_t)(1 << D), "entry of the key names a child"); if (i < l - 1) sg_assert(k[i] == prev[i], "a coarser key is the beginning of a finer one"); }
    const std::vector<double> &a = s->getLo(k), &b = s->getHi(k);
    for (int j = 0; j < D; ++j) { double x = q[j] < lo[j] ? lo[j] : q[j] > hi[j] ? hi[j] : q[j]; sg_assert((a[j] <= x + 1e-9) & (x <= b[j] + 1e-9), "the box of the key contains the point"); sg_assert(sg_near((b[j] - a[j]) * (1 << l), hi[j] - lo[j], 1e-6), "the box has the size of its level"); }
    sg_out("k", (double)k[l - 1]); prev = k;
  }
  stored(s, p, np, 0);
  sg_reach("octree");
  SgOctreePoints_del(&s); s = 0;
}

// C01: index iterators enumerate every index set exactly once
#include "H.h"
#include "SgBoxIterator.h"
#include "SgSideIterator.h"
static void box() {
  int nd = (int)sg_param("nd", 2), R = (int)sg_param("range", 8);
  int b[8], e[8], tot = 1;
  for (int i = 0; i < nd; i++) { b[i] = (int)sg_int(nm("b", i), -R, R); int n = (int)sg_int(nm("n", i), 1, R); e[i] = b[i] + n; tot *= n; }
  SgBoxIterator_type *it = 0;
  sg_assert(SgBoxIterator_new(&it, nd, b, e) == 0, "new returns 0");
  int num = -1; SgBoxIterator_getNumberOfElements(&it, &num);
  sg_assert(num == tot, "number of elements is the product of the axis sizes");
  int k = (int)sg_int("k", 0, R == 8 ? 4095 : 100000);
  sg_assume(k < tot);
  int inds[9]; inds[nd] = -77;
  SgBoxIterator_getElement(&it, k, inds);
  for (int i = 0; i < nd; i++) sg_assert((inds[i] >= b[i]) & (inds[i] < e[i]), "index set lies in the box");
  sg_assert(inds[nd] == -77, "only ndims entries written");
  int k2 = -1; SgBoxIterator_getIndex(&it, inds, &k2);
  sg_assert(k2 == k, "flat index -> index set -> flat index is the identity");
  SgBoxIterator_del(&it);
  sg_assert(sg_heap_live() == 0, "everything released");
  sg_reach("box");
}
// index set -> flat index in range; and back
static void boxInv() {
  int nd = (int)sg_param("nd", 2), R = (int)sg_param("range", 8);
  int b[8], e[8], tot = 1, inds[8];
  for (int i = 0; i < nd; i++) { b[i] = (int)sg_int(nm("b", i), -R, R); int n = (int)sg_int(nm("n", i), 1, R); e[i] = b[i] + n; tot *= n; inds[i] = b[i] + (int)sg_int(nm("d", i), 0, R - 1); sg_assume(inds[i] < e[i]); }
  SgBoxIterator_type *it = 0; SgBoxIterator_new(&it, nd, b, e);
  int k = -1; SgBoxIterator_getIndex(&it, inds, &k);
  sg_assert((k >= 0) & (k < tot), "flat index in range");
  int r[8]; SgBoxIterator_getElement(&it, k, r);
  for (int i = 0; i < nd; i++) sg_assert(r[i] == inds[i], "index set -> flat index -> index set is the identity");
  // the last index varies fastest
  int j[8]; for (int i = 0; i < nd; i++) j[i] = inds[i];
  j[nd - 1]++;
  if (j[nd - 1] < e[nd - 1]) { int k2; SgBoxIterator_getIndex(&it, j, &k2); sg_assert(k2 == k + 1, "last index varies fastest"); sg_reach("successor"); }
  SgBoxIterator_del(&it);
  sg_reach("boxInv");
}
// an axis without elements empties the box
static void boxEmpty() {
  int b[3], e[3]; int z = (int)sg_choose("axis", 0, 2);
  for (int i = 0; i < 3; i++) { b[i] = (int)sg_int(nm("b", i), -50, 50); e[i] = b[i] + (i == z ? 0 : (int)sg_int(nm("n", i), 0, 50)); }
  SgBoxIterator_type *it = 0; SgBoxIterator_new(&it, 3, b, e);
  int num = -1; SgBoxIterator_getNumberOfElements(&it, &num);
  sg_assert(num == 0, "empty box has no element"); SgBoxIterator_del(&it); sg_reach("empty");
}
// side iterator: the element after k steps has the base-3 digits of k, also after a reset at any point
static void side() {
  int nd = (int)sg_param("nd", 2); int N = 1; for (int i = 0; i < nd; i++) N *= 3;
  SgSideIterator_type it((size_t)nd);
  sg_assert((int)it.getNumberOfElements() == N, "3^ndims sides");
  int first = (int)sg_int("first", 0, N - 1), second = (int)sg_int("second", 0, N - 1), doReset = (int)sg_int("doReset", 0, 1);
  sg_assume((doReset == 1) | (first + second < N));
  int steps = 0, ret = 0;
  if (!doReset) it.reset();
  for (int t = 0; t < first; ++t) { ret = it.next(); steps++; sg_assert(ret == (steps >= N ? 1 : 0), "end flag"); }
  if (doReset) { it.reset(); steps = 0; }
  for (int t = 0; t < second; ++t) { ret = it.next(); steps++; sg_assert(ret == (steps >= N ? 1 : 0), "end flag"); }
  std::vector<int> s = it.get(); sg_assert((int)s.size() == nd, "one entry per dimension");
  int v = 0; for (int i = 0; i < nd; i++) { sg_assert((s[i] >= -1) & (s[i] <= 1), "side in -1..1"); v = 3 * v + s[i] + 1; }
  sg_assert(v == steps, "each side combination once, last dimension fastest");
  for (int t = steps + 1; t <= N; ++t) { ret = it.next(); sg_assert(ret == (t >= N ? 1 : 0), "end flag only at the end"); }
  sg_reach("side");
}
void sg_main() {
  switch (sg_param("cfg", 0)) { case 0: box(); break; case 1: boxInv(); break; case 2: boxEmpty(); break; default: side(); }
}

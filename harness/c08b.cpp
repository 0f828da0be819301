// C10: enumerating when there is nothing to enumerate
#include "H.h"
#include "SgConserveInterp2D.h"
void sg_main() {
  double dx = sg_real("dx", -10, 10), dy = sg_real("dy", -10, 10); sg_assume((habs(dx) >= 1.5) | (habs(dy) >= 1.5));
  double sx[] = {0, 0, 1, 1}, sy[] = {0, 1, 0, 1}, tx[4], ty[4]; const double *s[] = {sx, sy}, *t[] = {tx, ty}; int d[] = {2, 2}, p[] = {0, 0};
  for (int i = 0; i < 4; ++i) { tx[i] = sx[i] + dx; ty[i] = sy[i] + dy; }
  SgConserveInterp2D_type *w = 0; SgConserveInterp2D_new(&w);
  SgConserveInterp2D_reset(&w);
  sg_assert(SgConserveInterp2D_next(&w) == 1, "nothing to enumerate before the weights are computed");
  SgConserveInterp2D_setSrcGrid(&w, d, p, s); SgConserveInterp2D_setDstGrid(&w, d, t); SgConserveInterp2D_computeWeights(&w);
  SgConserveInterp2D_reset(&w);
  sg_assert(SgConserveInterp2D_next(&w) == 1, "nothing to enumerate when the grids do not overlap");
  double f = 2, out = -5; SgConserveInterp2D_apply(&w, &f, &out); sg_assert(out == -5, "no destination value is written when the grids do not overlap");
  SgConserveInterp2D_del(&w);
  sg_assert(sg_heap_live() == 0, "everything released"); sg_reach("end");
}

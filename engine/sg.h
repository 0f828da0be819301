// Harness interface: symbolic under sgsym, replay values natively.
#pragma once
#include <cstddef>
extern "C" {
double sg_real(const char *name, double lo, double hi);
long sg_int(const char *name, long lo, long hi);
long sg_choose(const char *name, long lo, long hi);
long sg_param(const char *name, long dflt);
void sg_assume(bool c);
void sg_assert(bool c, const char *msg);
bool sg_split(bool c);
long sg_concrete_int(long v);
void sg_out(const char *name, double v);
void sg_reach(const char *label);
long sg_heap_live();
void sg_check_init(const void *p, size_t n, const char *msg);
void sg_main();
}
static inline bool sg_near(double a, double b, double tol) { double d = a - b; return (d <= tol) & (-d <= tol); }

// Native counterpart of the harness interface: values come from a file.
#include "sg.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <dlfcn.h>
static std::map<std::string, std::string> vals; static std::map<std::string, int> cnt; static std::map<std::string, long> params;
static long live = 0; static bool quiet = false;
#define NI __attribute__((noinline))
NI void *operator new(size_t n) { live++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
NI void *operator new[](size_t n) { live++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
NI void operator delete(void *p) noexcept { if (p) { live--; free(p); } }
NI void operator delete[](void *p) noexcept { if (p) { live--; free(p); } }
NI void operator delete(void *p, size_t) noexcept { if (p) { live--; free(p); } }
NI void operator delete[](void *p, size_t) noexcept { if (p) { live--; free(p); } }
// what a static variable holds is not a leak
static long kept[64]; static int depth = 0;
extern "C" int __cxa_guard_acquire(char *g) { if (*g) return 0; if (depth < 64) kept[depth] = live; depth++; return 1; }
extern "C" void __cxa_guard_release(char *g) { *g = 1; depth--; if (depth < 64) live = kept[depth]; }
extern "C" void __cxa_guard_abort(char *) { depth--; }
static bool find(const char *n, std::string &v) {
  long keep = live; std::string k = n; int c = cnt[k]++; if (c) k += "#" + std::to_string(c);
  auto it = vals.find(k); bool r = it != vals.end(); if (r) v = it->second;
  (void)keep; return r;
}
extern "C" {
double sg_real(const char *n, double lo, double hi) { long k = live; double d; { std::string v; d = find(n, v) ? strtod(v.c_str(), nullptr) : lo + (hi - lo) / 2; } live = k; if (d < lo) d = lo; if (d > hi) d = hi; return d; }
long sg_int(const char *n, long lo, long hi) { long k = live; long d; { std::string v; d = find(n, v) ? strtol(v.c_str(), nullptr, 10) : lo; } live = k; return d; }
long sg_choose(const char *n, long lo, long hi) { return sg_int(n, lo, hi); }
long sg_param(const char *n, long d) { long k = live; long r; { auto it = params.find(n); r = it == params.end() ? d : it->second; } live = k; return r; }
void sg_assume(bool c) { if (!c) { printf("SG_ASSUME_FALSE\n"); fflush(stdout); _Exit(77); } }
void sg_assert(bool c, const char *m) { if (!c) { printf("SG_ASSERT_FAILED %s\n", m); fflush(stdout); _Exit(66); } }
bool sg_split(bool c) { return c; }
long sg_concrete_int(long v) { return v; }
void sg_out(const char *n, double v) { printf("SG_OUT %s %.17g\n", n, v); }
void sg_reach(const char *) {}
long sg_heap_live() { return live; }
void sg_check_init(const void *p, size_t n, const char *) { volatile unsigned char s = 0; for (size_t i = 0; i < n; ++i) if (((const unsigned char *)p)[i]) s = s + 1; }
}
// LAPACK reports an illegal argument and stops; here the call returns its negative status, which the harnesses judge
extern "C" void xerbla_(const char *, int *, size_t) {}
int main(int argc, char **argv) {
  const char *vf = nullptr;
  for (int i = 1; i < argc; ++i) { char *e = strchr(argv[i], '='); if (!strncmp(argv[i], "-p", 2) && e) params[std::string(argv[i] + 2, e)] = atol(e + 1); else vf = argv[i]; }
  if (vf) { FILE *f = fopen(vf, "r"); char l[512]; while (f && fgets(l, sizeof l, f)) { char *e = strchr(l, '='); if (!e) continue; char *q = strchr(e, '\n'); if (q) *q = 0; vals[std::string(l, e)] = e + 1; } if (f) fclose(f); }
  live = 0;
  sg_main();
  printf("SG_DONE\n"); fflush(stdout); _Exit(0);
}

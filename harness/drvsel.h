// iface 0-3: drv.cpp; 4: the Python classes
#ifndef DRVSEL_H
#define DRVSEL_H
#include "drv.h"
#include "drvpy.h"
static const DrvPy *PY;
static inline void *D_create(int k, int i, int c, int p) { return i == 4 ? PY->create(k, c, p) : drv_create(k, i, c, p); }
static inline void D_destroy(int k, int i, void *o) { if (i == 4) PY->destroy(o); else drv_destroy(k, i, o); }
static inline void D_set(int k, int i, void *o, const char *key, int v) { if (i == 4) PY->set(o, key, v); else drv_set(k, i, o, key, v); }
static inline int D_args(int k, const int *n, const int *b, int pm, int *a) {
  int m = 0, d = k & 1 ? 3 : 2;
  for (int i = 0; i < d; i++) a[m++] = n[i];
  for (int i = 0; i < 4 * d; i++) a[m++] = b[i];
  a[m++] = pm;
  return m;
}
static inline void D_setup(int k, int i, void *o, const int *n, const int *b, int pm, int *z) {
  if (i != 4) { drv_setup(k, i, o, n, b, pm, z); return; }
  int a[20], m = D_args(k, n, b, pm, a);
  PY->setup(o, a, m, z, 3);
}
static inline void D_tune(int k, int i, void *o, const int *n, const int *b, int pm, int *z, int f, int ni, double tm, int tf) {
  if (i != 4) { drv_tune(k, i, o, n, b, pm, z, f, ni, tm, tf); return; }
  int a[20], m = D_args(k, n, b, pm, a);
  PY->tune(o, a, m, z, f, ni, tm, tf);
}
static inline void D_setup_memory(int k, int i, void *o, void *s, void *r) { if (i == 4) PY->setup_memory(o, s, r); else drv_setup_memory(k, i, o, s, r); }
static inline void D_compute(int k, int i, void *o, void *a, void *b, int f) { if (i == 4) PY->compute(o, a, b, f); else drv_compute(k, i, o, a, b, f); }
static inline void D_only_1d(int k, int i, void *o, void *a, int f) { if (i == 4) PY->only_1d(o, a, f); else drv_only_1d(k, i, o, a, f); }
static inline void D_only_remaps(int k, int i, void *o, void *a, void *b, int f) { if (i == 4) PY->only_remaps(o, a, b, f); else drv_only_remaps(k, i, o, a, b, f); }
static inline void D_only_one_remap(int k, int i, void *o, void *a, void *b, int f, int w) { if (i == 4) PY->only_one_remap(o, a, b, f, w); else drv_only_one_remap(k, i, o, a, b, f, w); }
static inline void D_rsetup(int k, int i, void *o, const int *b, int nq, int pm, int mem, int *z) {
  if (i != 4) { drv_rsetup(k, i, o, b, nq, pm, mem, z); return; }
  int a[20], m = 0, d = k & 1 ? 3 : 2;
  for (int j = 0; j < 4 * d; j++) a[m++] = b[j];
  a[m++] = nq; a[m++] = pm; a[m++] = mem;
  PY->setup(o, a, m, z, 2);
}
static inline void D_remap(int k, int i, void *o, void *a, void *b, void *s, void *r) { if (i == 4) PY->remap(o, a, b, s, r); else drv_remap(k, i, o, a, b, s, r); }
static inline long D_geti(int k, int i, void *o, const char *key, int *known) { if (i != 4) return drv_geti(k, i, o, key, known); *known = k < 2; return k < 2 ? PY->geti(o, key) : 0; }
static inline double D_getd(int k, int i, void *o, const char *key, int *known) { if (i != 4) return drv_getd(k, i, o, key, known); *known = 1; return PY->getd(o, key); }
static inline const char *D_gets(int k, int i, void *o, const char *key, int *len) { return i == 4 ? PY->gets(o, key, len) : drv_gets(k, i, o, key, len); }
static inline const int *D_getiv(int k, int i, void *o, const char *key, int *len) { return i == 4 ? PY->getiv(o, key, len) : drv_getiv(k, i, o, key, len); }
static inline const double *D_getdv(int k, int i, void *o, const char *key, int *len) { return i == 4 ? PY->getdv(o, key, len) : drv_getdv(k, i, o, key, len); }
#endif

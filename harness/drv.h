// Flat driver over the library's public interfaces, compiled once per build variant of the library.
// kind: 0 FFT2d, 1 FFT3d, 2 Remap2d, 3 Remap3d
// iface: 0 C++ classes, 1 C functions, 2 the C symbols meant for Fortran, 3 Fortran modules (called from Fortran)
#ifndef DRV_H
#define DRV_H
#include <cstdint>
extern "C" {
int drv_kiss(void);                         // 1: the library's own 1d transforms, which take any alignment
int drv_scalar(void);                       // sizeof(FFT_SCALAR)
const char *drv_lib(void);                  // 1d FFT library the variant was built with
void *drv_create(int kind, int iface, int comm, int precision);
void drv_destroy(int kind, int iface, void *o);
void drv_set(int kind, int iface, void *o, const char *key, int v);
// b: in_ilo,in_ihi,in_jlo,... then out; 4+4 or 6+6 C-style bounds
void drv_setup(int kind, int iface, void *o, const int *n, const int *b, int permute, int *sizes3);
void drv_tune(int kind, int iface, void *o, const int *n, const int *b, int permute, int *sizes3,
              int flag, int niter, double tmax, int tflag);
void drv_setup_memory(int kind, int iface, void *o, void *s, void *r);
void drv_compute(int kind, int iface, void *o, void *in, void *out, int flag);
void drv_only_1d(int kind, int iface, void *o, void *in, int flag);
void drv_only_remaps(int kind, int iface, void *o, void *in, void *out, int flag);
void drv_only_one_remap(int kind, int iface, void *o, void *in, void *out, int flag, int which);
void drv_rsetup(int kind, int iface, void *o, const int *b, int nqty, int permute, int memflag, int *sizes2);
void drv_remap(int kind, int iface, void *o, void *in, void *out, void *s, void *r);
// queries; *known = 0 if this interface does not offer the key
long drv_geti(int kind, int iface, void *o, const char *key, int *known);
double drv_getd(int kind, int iface, void *o, const char *key, int *known);
const char *drv_gets(int kind, int iface, void *o, const char *key, int *len);
const int *drv_getiv(int kind, int iface, void *o, const char *key, int *len);
const double *drv_getdv(int kind, int iface, void *o, const char *key, int *len);
}
#endif

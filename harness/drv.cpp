#include <mpi.h>
#include <cstring>
#include <cstdint>
#include "fft2d.h"
#include "fft3d.h"
#include "remap2d.h"
#include "remap3d.h"
#include "fft2d_wrap.h"
#include "fft3d_wrap.h"
#include "remap2d_wrap.h"
#include "remap3d_wrap.h"
#include "drv.h"
using namespace FFTMPI_NS;

extern "C" {
#define FDECL(m) \
  void drvf_##m##_create(int, int, void **); void drvf_##m##_destroy(void *); void drvf_##m##_set(void *, const char *, int); \
  int drvf_##m##_get_int(void *, const char *); double drvf_##m##_get_double(void *, const char *); int64_t drvf_##m##_get_int64(void *, const char *); \
  void *drvf_##m##_get_string(void *, const char *, int *); void *drvf_##m##_get_int_vector(void *, const char *, int *); \
  void *drvf_##m##_get_double_vector(void *, const char *, int *); \
  void drvf_##m##_setup_memory(void *, void *, void *); void drvf_##m##_compute(void *, void *, void *, int); \
  void drvf_##m##_only_1d_ffts(void *, void *, int); void drvf_##m##_only_remaps(void *, void *, void *, int); \
  void drvf_##m##_only_one_remap(void *, void *, void *, int, int);
FDECL(fft2d) FDECL(fft3d)
#define RDECL(m) \
  void drvf_##m##_create(int, void **); void drvf_##m##_destroy(void *); void drvf_##m##_set(void *, const char *, int); \
  void drvf_##m##_remap(void *, void *, void *, void *, void *);
RDECL(remap2d) RDECL(remap3d)
void drvf_fft2d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *);
void drvf_fft2d_tune(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *, int, int, double, int);
void drvf_fft3d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *);
void drvf_fft3d_tune(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *, int, int, double, int);
void drvf_remap2d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *);
void drvf_remap3d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *);

typedef FFT_SCALAR S;
int drv_scalar(void) { return (int) sizeof(S); }
int drv_kiss(void) {
#ifdef FFT_KISS
  return 1;
#else
  return 0;
#endif
}
const char *drv_lib(void) {
#if defined(FFT_FFTW3)
  return "FFTW3";
#elif defined(FFT_FFTW2)
  return "FFTW2";
#elif defined(FFT_MKL)
  return "MKL";
#else
  return "KISS";
#endif
}

void *drv_create(int kind, int iface, int comm, int prec) {
  void *p = (void *) 0x11;
  MPI_Comm c = (MPI_Comm) comm;
  MPI_Fint f = MPI_Comm_c2f(c);
  switch (kind * 4 + iface) {
  case 0: return new FFT2d(c, prec);
  case 1: fft2d_create(c, prec, &p); break;
  case 2: fft2d_create_fortran(f, prec, &p); break;
  case 3: drvf_fft2d_create(f, prec, &p); break;
  case 4: return new FFT3d(c, prec);
  case 5: fft3d_create(c, prec, &p); break;
  case 6: fft3d_create_fortran(f, prec, &p); break;
  case 7: drvf_fft3d_create(f, prec, &p); break;
  case 8: return new Remap2d(c);
  case 9: remap2d_create(c, &p); break;
  case 10: remap2d_create_fortran(f, &p); break;
  case 11: drvf_remap2d_create(f, &p); break;
  case 12: return new Remap3d(c);
  case 13: remap3d_create(c, &p); break;
  case 14: remap3d_create_fortran(f, &p); break;
  case 15: drvf_remap3d_create(f, &p); break;
  }
  return p;
}
void drv_destroy(int kind, int iface, void *o) {
  switch (kind * 4 + iface) {
  case 0: delete (FFT2d *) o; break;
  case 1: case 2: fft2d_destroy(o); break;
  case 3: drvf_fft2d_destroy(o); break;
  case 4: delete (FFT3d *) o; break;
  case 5: case 6: fft3d_destroy(o); break;
  case 7: drvf_fft3d_destroy(o); break;
  case 8: delete (Remap2d *) o; break;
  case 9: case 10: remap2d_destroy(o); break;
  case 11: drvf_remap2d_destroy(o); break;
  case 12: delete (Remap3d *) o; break;
  case 13: case 14: remap3d_destroy(o); break;
  case 15: drvf_remap3d_destroy(o); break;
  }
}
}
template <class T> static int *ifield(T *o, const char *k) {
#define F(name, f) if (!strcmp(k, name)) return &o->f;
  F("collective", collective) F("exchange", exchange) F("pack", packflag) F("memory", memoryflag) F("scale", scaled) F("remaponly", remaponly)
  F("npfast1", npfast1) F("npfast2", npfast2) F("npslow1", npslow1) F("npslow2", npslow2) F("npbrick1", npbrick1) F("npbrick2", npbrick2)
  F("ntrial", ntrial) F("npertrial", npertrial) F("cbest", cbest) F("ebest", ebest) F("pbest", pbest)
  return nullptr;
}
static int *ifield3(FFT3d *o, const char *k) {
  F("npfast3", npfast3) F("npslow3", npslow3) F("npbrick3", npbrick3) F("npmid1", npmid1) F("npmid2", npmid2) F("npmid3", npmid3)
  return ifield(o, k);
}
template <class T> static int *rfield(T *o, const char *k) { F("collective", collective) F("pack", packflag) return nullptr; }
template <class T> static const int *ivec(T *o, const char *k) { 
  if (!strcmp(k, "cflags")) return o->cflags;
  if (!strcmp(k, "eflags")) return o->eflags;
  if (!strcmp(k, "pflags")) return o->pflags;
  return nullptr; }
template <class T> static const double *dvec(T *o, const char *k) {
#define V(name) if (!strcmp(k, #name)) return o->name;
  V(tfft) V(t1d) V(tremap) V(tremap1) V(tremap2) V(tremap3)
  return nullptr;
}
static const double *dvec3(FFT3d *o, const char *k) { V(tremap4) return dvec(o, k); }

extern "C" {
void drv_set(int kind, int iface, void *o, const char *key, int v) {
  int *p = nullptr;
  switch (kind * 4 + iface) {
  case 0: p = ifield((FFT2d *) o, key); break;
  case 1: case 2: fft2d_set(o, key, v); break;
  case 3: drvf_fft2d_set(o, key, v); break;
  case 4: p = ifield3((FFT3d *) o, key); break;
  case 5: case 6: fft3d_set(o, key, v); break;
  case 7: drvf_fft3d_set(o, key, v); break;
  case 8: p = rfield((Remap2d *) o, key); break;
  case 9: case 10: remap2d_set(o, (char *) key, v); break;
  case 11: drvf_remap2d_set(o, key, v); break;
  case 12: p = rfield((Remap3d *) o, key); break;
  case 13: case 14: remap3d_set(o, (char *) key, v); break;
  case 15: drvf_remap3d_set(o, key, v); break;
  }
  if (p) *p = v;
}
#define B4(d) b[0] + d, b[1] + d, b[2] + d, b[3] + d, b[4] + d, b[5] + d, b[6] + d, b[7] + d
#define B6(d) B4(d), b[8] + d, b[9] + d, b[10] + d, b[11] + d
void drv_setup(int kind, int iface, void *o, const int *n, const int *b, int pm, int *z) {
  switch (kind * 4 + iface) {
  case 0: ((FFT2d *) o)->setup(n[0], n[1], B4(0), pm, z[0], z[1], z[2]); break;
  case 1: fft2d_setup(o, n[0], n[1], B4(0), pm, z, z + 1, z + 2); break;
  case 2: fft2d_setup_fortran(o, n[0], n[1], B4(1), pm, z, z + 1, z + 2); break;
  case 3: drvf_fft2d_setup(o, n[0], n[1], B4(1), pm, z, z + 1, z + 2); break;
  case 4: ((FFT3d *) o)->setup(n[0], n[1], n[2], B6(0), pm, z[0], z[1], z[2]); break;
  case 5: fft3d_setup(o, n[0], n[1], n[2], B6(0), pm, z, z + 1, z + 2); break;
  case 6: fft3d_setup_fortran(o, n[0], n[1], n[2], B6(1), pm, z, z + 1, z + 2); break;
  case 7: drvf_fft3d_setup(o, n[0], n[1], n[2], B6(1), pm, z, z + 1, z + 2); break;
  }
}
void drv_tune(int kind, int iface, void *o, const int *n, const int *b, int pm, int *z, int flag, int niter, double tmax, int tflag) {
#define T flag, niter, tmax, tflag
  switch (kind * 4 + iface) {
  case 0: ((FFT2d *) o)->tune(n[0], n[1], B4(0), pm, z[0], z[1], z[2], T); break;
  case 1: fft2d_tune(o, n[0], n[1], B4(0), pm, z, z + 1, z + 2, T); break;
  case 2: fft2d_tune_fortran(o, n[0], n[1], B4(1), pm, z, z + 1, z + 2, T); break;
  case 3: drvf_fft2d_tune(o, n[0], n[1], B4(1), pm, z, z + 1, z + 2, T); break;
  case 4: ((FFT3d *) o)->tune(n[0], n[1], n[2], B6(0), pm, z[0], z[1], z[2], T); break;
  case 5: fft3d_tune(o, n[0], n[1], n[2], B6(0), pm, z, z + 1, z + 2, T); break;
  case 6: fft3d_tune_fortran(o, n[0], n[1], n[2], B6(1), pm, z, z + 1, z + 2, T); break;
  case 7: drvf_fft3d_tune(o, n[0], n[1], n[2], B6(1), pm, z, z + 1, z + 2, T); break;
  }
}
#undef T
#define CASES(CXX2, C2, F2, CXX3, C3, F3) \
  switch (kind * 4 + iface) { case 0: CXX2; break; case 1: case 2: C2; break; case 3: F2; break; case 4: CXX3; break; case 5: case 6: C3; break; case 7: F3; break; }
void drv_setup_memory(int kind, int iface, void *o, void *s, void *r) {
  CASES(((FFT2d *) o)->setup_memory((S *) s, (S *) r), fft2d_setup_memory(o, (S *) s, (S *) r), drvf_fft2d_setup_memory(o, s, r),
        ((FFT3d *) o)->setup_memory((S *) s, (S *) r), fft3d_setup_memory(o, (S *) s, (S *) r), drvf_fft3d_setup_memory(o, s, r))
}
void drv_compute(int kind, int iface, void *o, void *in, void *out, int f) {
  CASES(((FFT2d *) o)->compute((S *) in, (S *) out, f), fft2d_compute(o, (S *) in, (S *) out, f), drvf_fft2d_compute(o, in, out, f),
        ((FFT3d *) o)->compute((S *) in, (S *) out, f), fft3d_compute(o, (S *) in, (S *) out, f), drvf_fft3d_compute(o, in, out, f))
}
void drv_only_1d(int kind, int iface, void *o, void *in, int f) {
  CASES(((FFT2d *) o)->only_1d_ffts((S *) in, f), fft2d_only_1d_ffts(o, (S *) in, f), drvf_fft2d_only_1d_ffts(o, in, f),
        ((FFT3d *) o)->only_1d_ffts((S *) in, f), fft3d_only_1d_ffts(o, (S *) in, f), drvf_fft3d_only_1d_ffts(o, in, f))
}
void drv_only_remaps(int kind, int iface, void *o, void *in, void *out, int f) {
  CASES(((FFT2d *) o)->only_remaps((S *) in, (S *) out, f), fft2d_only_remaps(o, (S *) in, (S *) out, f), drvf_fft2d_only_remaps(o, in, out, f),
        ((FFT3d *) o)->only_remaps((S *) in, (S *) out, f), fft3d_only_remaps(o, (S *) in, (S *) out, f), drvf_fft3d_only_remaps(o, in, out, f))
}
void drv_only_one_remap(int kind, int iface, void *o, void *in, void *out, int f, int w) {
  CASES(((FFT2d *) o)->only_one_remap((S *) in, (S *) out, f, w), fft2d_only_one_remap(o, (S *) in, (S *) out, f, w), drvf_fft2d_only_one_remap(o, in, out, f, w),
        ((FFT3d *) o)->only_one_remap((S *) in, (S *) out, f, w), fft3d_only_one_remap(o, (S *) in, (S *) out, f, w), drvf_fft3d_only_one_remap(o, in, out, f, w))
}
void drv_rsetup(int kind, int iface, void *o, const int *b, int nq, int pm, int mem, int *z) {
  switch (kind * 4 + iface) {
  case 8: ((Remap2d *) o)->setup(B4(0), nq, pm, mem, z[0], z[1]); break;
  case 9: remap2d_setup(o, B4(0), nq, pm, mem, z, z + 1); break;
  case 10: remap2d_setup_fortran(o, B4(1), nq, pm, mem, z, z + 1); break;
  case 11: drvf_remap2d_setup(o, B4(1), nq, pm, mem, z, z + 1); break;
  case 12: ((Remap3d *) o)->setup(B6(0), nq, pm, mem, z[0], z[1]); break;
  case 13: remap3d_setup(o, B6(0), nq, pm, mem, z, z + 1); break;
  case 14: remap3d_setup_fortran(o, B6(1), nq, pm, mem, z, z + 1); break;
  case 15: drvf_remap3d_setup(o, B6(1), nq, pm, mem, z, z + 1); break;
  }
}
void drv_remap(int kind, int iface, void *o, void *in, void *out, void *s, void *r) {
  switch (kind * 4 + iface) {
  case 8: ((Remap2d *) o)->remap((S *) in, (S *) out, (S *) s, (S *) r); break;
  case 9: case 10: remap2d_remap(o, (S *) in, (S *) out, (S *) s, (S *) r); break;
  case 11: drvf_remap2d_remap(o, in, out, s, r); break;
  case 12: ((Remap3d *) o)->remap((S *) in, (S *) out, (S *) s, (S *) r); break;
  case 13: case 14: remap3d_remap(o, (S *) in, (S *) out, (S *) s, (S *) r); break;
  case 15: drvf_remap3d_remap(o, in, out, s, r); break;
  }
}
long drv_geti(int kind, int iface, void *o, const char *key, int *known) {
  *known = 1;
  bool mu = !strcmp(key, "memusage");
  if (kind >= 2) {
    if (iface) { *known = 0; return 0; }
    if (mu) return kind == 2 ? ((Remap2d *) o)->memusage : ((Remap3d *) o)->memusage;
    int *p = kind == 2 ? rfield((Remap2d *) o, key) : rfield((Remap3d *) o, key);
    if (!p) { *known = 0; return 0; }
    return *p;
  }
  if (iface == 0) {
    if (mu) return kind ? ((FFT3d *) o)->memusage : ((FFT2d *) o)->memusage;
    int *p = kind ? ifield3((FFT3d *) o, key) : ifield((FFT2d *) o, key);
    if (!p) { *known = 0; return 0; }
    return *p;
  }
  if (mu) return iface == 3 ? (kind ? drvf_fft3d_get_int64(o, key) : drvf_fft2d_get_int64(o, key)) : (kind ? fft3d_get_int64(o, key) : fft2d_get_int64(o, key));
  return iface == 3 ? (kind ? drvf_fft3d_get_int(o, key) : drvf_fft2d_get_int(o, key)) : (kind ? fft3d_get_int(o, key) : fft2d_get_int(o, key));
}
double drv_getd(int kind, int iface, void *o, const char *key, int *known) {
  *known = 1;
  if (iface == 0) {
    if (!strcmp(key, "setuptime")) return kind ? ((FFT3d *) o)->setuptime : ((FFT2d *) o)->setuptime;
    if (!strcmp(key, "besttime")) return kind ? ((FFT3d *) o)->besttime : ((FFT2d *) o)->besttime;
    *known = 0; return 0;
  }
  if (iface == 3) return kind ? drvf_fft3d_get_double(o, key) : drvf_fft2d_get_double(o, key);
  return kind ? fft3d_get_double(o, key) : fft2d_get_double(o, key);
}
const char *drv_gets(int kind, int iface, void *o, const char *key, int *len) {
  if (iface == 0) {
    const char *s = nullptr;
    if (!strcmp(key, "fft1d")) s = kind ? ((FFT3d *) o)->fft1d : ((FFT2d *) o)->fft1d;
    if (!strcmp(key, "precision")) s = kind ? ((FFT3d *) o)->precision : ((FFT2d *) o)->precision;
    if (s) *len = (int) strlen(s);
    return s;
  }
  if (iface == 3) return (const char *) (kind ? drvf_fft3d_get_string(o, key, len) : drvf_fft2d_get_string(o, key, len));
  return kind ? fft3d_get_string(o, key, len) : fft2d_get_string(o, key, len);
}
const int *drv_getiv(int kind, int iface, void *o, const char *key, int *len) {
  if (iface == 0) { *len = kind ? ((FFT3d *) o)->ntrial : ((FFT2d *) o)->ntrial; return kind ? ivec((FFT3d *) o, key) : ivec((FFT2d *) o, key); }
  if (iface == 3) return (const int *) (kind ? drvf_fft3d_get_int_vector(o, key, len) : drvf_fft2d_get_int_vector(o, key, len));
  return kind ? fft3d_get_int_vector(o, key, len) : fft2d_get_int_vector(o, key, len);
}
const double *drv_getdv(int kind, int iface, void *o, const char *key, int *len) {
  if (iface == 0) { *len = kind ? ((FFT3d *) o)->ntrial : ((FFT2d *) o)->ntrial; return kind ? dvec3((FFT3d *) o, key) : dvec((FFT2d *) o, key); }
  if (iface == 3) return (const double *) (kind ? drvf_fft3d_get_double_vector(o, key, len) : drvf_fft2d_get_double_vector(o, key, len));
  return kind ? fft3d_get_double_vector(o, key, len) : fft2d_get_double_vector(o, key, len);
}
}

// The Python classes (src/fftmpi.py), reached from the simulated ranks.  One Python thread state per rank; ctypes gives up
// the interpreter lock for the duration of every library call, so ranks interleave at MPI calls only.
#ifndef DRVPY_H
#define DRVPY_H
struct DrvPy {
  void *(*create)(int kind, int comm, int precision);
  void (*destroy)(void *o);
  void (*set)(void *o, const char *key, int v);
  void (*setup)(void *o, const int *a, int na, int *sizes, int ns);
  void (*tune)(void *o, const int *a, int na, int *sizes, int flag, int niter, double tmax, int tflag);
  void (*setup_memory)(void *o, void *s, void *r);
  void (*compute)(void *o, void *in, void *out, int flag);
  void (*only_1d)(void *o, void *in, int flag);
  void (*only_remaps)(void *o, void *in, void *out, int flag);
  void (*only_one_remap)(void *o, void *in, void *out, int flag, int which);
  void (*remap)(void *o, void *in, void *out, void *s, void *r);
  long (*geti)(void *o, const char *key);
  double (*getd)(void *o, const char *key);
  const char *(*gets)(void *o, const char *key, int *len);
  const int *(*getiv)(void *o, const char *key, int *len);
  const double *(*getdv)(void *o, const char *key, int *len);
};
// services of the harness
struct DrvPyHost {
  int (*me)();
  long (*bytes)(const void *p);               // length of the caller's array at p
  void (*fail)(const char *cls, const char *detail);
  int scalar;
};
extern "C" const DrvPy *drvpy_start(const DrvPyHost *, const char *gluedir, const char *fftmpi_py, const char *libpath, int world);
#endif

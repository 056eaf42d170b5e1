// Stand-ins for the 1d transform libraries that are not installed here (FFTW 2, Intel MKL): what their
// documentation says about the calls, with FFTW 3 behind them, line by line in a buffer of their own.
#include <cstdarg>
#include <cstring>
#include <fftw3.h>
extern "C" void sim_count_plan(int);
namespace {
struct Line {                                    // both directions of one length and precision
  long n = 0; bool single = false;
  fftw_plan d[2] = {nullptr, nullptr}; fftwf_plan f[2] = {nullptr, nullptr};
  fftw_complex *db = nullptr; fftwf_complex *fb = nullptr;
  void prepare(long len, bool s) {
    release(); n = len; single = s;
    if (s) { fb = (fftwf_complex *) fftwf_malloc(sizeof *fb * (size_t) n); for (int i = 0; i < 2; i++) f[i] = fftwf_plan_dft_1d((int) n, fb, fb, i ? FFTW_BACKWARD : FFTW_FORWARD, FFTW_ESTIMATE); }
    else { db = (fftw_complex *) fftw_malloc(sizeof *db * (size_t) n); for (int i = 0; i < 2; i++) d[i] = fftw_plan_dft_1d((int) n, db, db, i ? FFTW_BACKWARD : FFTW_FORWARD, FFTW_ESTIMATE); }
  }
  void release() {
    for (int i = 0; i < 2; i++) { if (d[i]) fftw_destroy_plan(d[i]); if (f[i]) fftwf_destroy_plan(f[i]); d[i] = nullptr; f[i] = nullptr; }
    if (db) fftw_free(db);
    if (fb) fftwf_free(fb);
    db = nullptr; fb = nullptr;
  }
  ~Line() { release(); n = -1; }
  template<class T> static void move(T *b, const T *in, long is, T *out, long os, long n, double sc) {
    if (in) for (long k = 0; k < n; k++) { b[2 * k] = in[2 * k * is]; b[2 * k + 1] = in[2 * k * is + 1]; }
    else for (long k = 0; k < n; k++) { out[2 * k * os] = sc == 1 ? b[2 * k] : (T) (b[2 * k] * sc); out[2 * k * os + 1] = sc == 1 ? b[2 * k + 1] : (T) (b[2 * k + 1] * sc); }
  }
  void run(const void *in, long is, void *out, long os, bool back, double sc) {
    if (single) { move<float>((float *) fb, (const float *) in, is, nullptr, 0, n, sc); fftwf_execute(f[back]); move<float>((float *) fb, nullptr, 0, (float *) out, os, n, sc); }
    else { move<double>((double *) db, (const double *) in, is, nullptr, 0, n, sc); fftw_execute(d[back]); move<double>((double *) db, nullptr, 0, (double *) out, os, n, sc); }
  }
};
}
#ifdef FFT_FFTW2
#ifdef FFT_SINGLE
typedef float fftw_real;
#else
typedef double fftw_real;
#endif
struct verif_plan { Line l; bool back = false, inplace = true; int alive = 1; };
extern "C" {
verif_plan *fftw_create_plan(int n, int dir, int flags) {
  if (n <= 0) return NULL;
  verif_plan *p = new verif_plan;
  p->back = dir == 1; p->inplace = flags & 8; p->l.prepare(n, sizeof(fftw_real) == 4); sim_count_plan(1);
  return p;
}
void sim_fftw_destroy_plan(verif_plan *p) { p->alive--; delete p; sim_count_plan(-1); }     // as the build renames it
void fftw(verif_plan *p, int howmany, fftw_real *in, int is, int id, fftw_real *out, int os, int od) {
  for (int i = 0; i < howmany; i++) {
    fftw_real *a = in + 2 * (long) i * id;
    if (p->inplace) p->l.run(a, is, a, is, p->back, 1.0);
    else p->l.run(a, is, out + 2 * (long) i * od, os, p->back, 1.0);
  }
}
void fftw_one(verif_plan *p, fftw_real *in, fftw_real *out) { fftw(p, 1, in, 1, 0, out, 1, 0); }
}
#endif
#ifdef FFT_MKL
#include "mkl_dfti.h"
struct DFTI_DESCRIPTOR { Line l; long n = 0, many = 1, idist = 0, odist = 0; int place = DFTI_INPLACE; bool single = false, committed = false; double sc[2] = {1, 1}; };
extern "C" {
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *h, enum DFTI_CONFIG_VALUE prec, enum DFTI_CONFIG_VALUE dom, MKL_LONG dim, ...) {
  va_list ap; va_start(ap, dim); MKL_LONG n = va_arg(ap, MKL_LONG); va_end(ap);
  *h = NULL;
  if (dim != 1 || dom != DFTI_COMPLEX || n < 1) return DFTI_INCONSISTENT_CONFIGURATION;
  *h = new DFTI_DESCRIPTOR; (*h)->n = n; (*h)->single = prec == DFTI_SINGLE; sim_count_plan(1);
  return DFTI_NO_ERROR;
}
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE h, enum DFTI_CONFIG_PARAM k, ...) {
  va_list ap; va_start(ap, k);
  h->committed = false;
  switch (k) {
  case DFTI_NUMBER_OF_TRANSFORMS: h->many = va_arg(ap, MKL_LONG); break;
  case DFTI_PLACEMENT: h->place = va_arg(ap, int); break;
  case DFTI_INPUT_DISTANCE: h->idist = va_arg(ap, MKL_LONG); break;
  case DFTI_OUTPUT_DISTANCE: h->odist = va_arg(ap, MKL_LONG); break;
  case DFTI_FORWARD_SCALE: h->sc[0] = va_arg(ap, double); break;
  case DFTI_BACKWARD_SCALE: h->sc[1] = va_arg(ap, double); break;
  default: break;
  }
  va_end(ap);
  return DFTI_NO_ERROR;
}
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE h) {
  if (h->many < 1 || (h->many > 1 && (h->idist < 1 || h->odist < 1))) return DFTI_INCONSISTENT_CONFIGURATION;
  h->l.prepare(h->n, h->single); h->committed = true;
  return DFTI_NO_ERROR;
}
static MKL_LONG compute(DFTI_DESCRIPTOR_HANDLE h, void *in, void *out, bool back) {
  if (!h || !h->committed) return DFTI_BAD_DESCRIPTOR;
  size_t sz = h->single ? 8 : 16;
  for (long i = 0; i < h->many; i++) h->l.run((char *) in + i * h->idist * sz, 1, (char *) out + i * h->odist * sz, 1, back, h->sc[back]);
  return DFTI_NO_ERROR;
}
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void *in, ...) {
  void *out = in;
  if (h && h->place != DFTI_INPLACE) { va_list ap; va_start(ap, in); out = va_arg(ap, void *); va_end(ap); }
  return compute(h, in, out, false);
}
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void *in, ...) {
  void *out = in;
  if (h && h->place != DFTI_INPLACE) { va_list ap; va_start(ap, in); out = va_arg(ap, void *); va_end(ap); }
  return compute(h, in, out, true);
}
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *h) {
  if (!*h) return DFTI_BAD_DESCRIPTOR;
  delete *h; *h = NULL; sim_count_plan(-1);
  return DFTI_NO_ERROR;
}
}
#endif

/* Stand-in for the interface of FFTW 2, as far as a 1d transform in place needs it.  Not FFTW. */
#ifndef VERIF_FFTW2_H
#define VERIF_FFTW2_H
#include <stddef.h>
#ifdef FFT_SINGLE
typedef float fftw_real;
#else
typedef double fftw_real;
#endif
typedef struct { fftw_real re, im; } fftw_complex;
#define FFTW_REAL fftw_real
#define FFTW_COMPLEX fftw_complex
#define c_re(c) ((c).re)
#define c_im(c) ((c).im)
typedef enum { FFTW_FORWARD = -1, FFTW_BACKWARD = 1 } fftw_direction;
#define FFTW_ESTIMATE (0)
#define FFTW_MEASURE (1)
#define FFTW_OUT_OF_PLACE (0)
#define FFTW_IN_PLACE (8)
#define FFTW_USE_WISDOM (16)
#define FFTW_THREADSAFE (128)
typedef struct verif_plan *fftw_plan;
#ifdef __cplusplus
extern "C" {
#endif
fftw_plan fftw_create_plan(int n, fftw_direction dir, int flags);
void fftw_destroy_plan(fftw_plan plan);
void fftw(fftw_plan plan, int howmany, fftw_complex *in, int istride, int idist, fftw_complex *out, int ostride, int odist);
void fftw_one(fftw_plan plan, fftw_complex *in, fftw_complex *out);
#ifdef __cplusplus
}
#endif
#endif

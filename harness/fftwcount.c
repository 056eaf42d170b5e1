/* counts the 1d plans the library holds in FFTW; everything else is FFTW itself */
#include <fftw3.h>
void sim_count_plan(int);
#define W(P, T, C) \
  T sim_##P##_plan_many_dft(int r, const int *n, int hm, C *i, const int *ie, int is, int id, C *o, const int *oe, int os, int od, int s, unsigned f) { \
    T p = P##_plan_many_dft(r, n, hm, i, ie, is, id, o, oe, os, od, s, f); if (p) sim_count_plan(1); return p; } \
  T sim_##P##_plan_dft_1d(int n, C *i, C *o, int s, unsigned f) { T p = P##_plan_dft_1d(n, i, o, s, f); if (p) sim_count_plan(1); return p; } \
  T sim_##P##_plan_dft(int r, const int *n, C *i, C *o, int s, unsigned f) { T p = P##_plan_dft(r, n, i, o, s, f); if (p) sim_count_plan(1); return p; } \
  void sim_##P##_destroy_plan(T p) { if (p) sim_count_plan(-1); P##_destroy_plan(p); }
#ifdef FFT_SINGLE
W(fftwf, fftwf_plan, fftwf_complex)
#else
W(fftw, fftw_plan, fftw_complex)
#endif

/* Stand-in for the DFTI interface of Intel MKL, as far as batches of 1d transforms need it.  Not MKL. */
#ifndef VERIF_MKL_DFTI_H
#define VERIF_MKL_DFTI_H
#define MKL_LONG long
typedef struct DFTI_DESCRIPTOR DFTI_DESCRIPTOR;
typedef DFTI_DESCRIPTOR *DFTI_DESCRIPTOR_HANDLE;
enum DFTI_CONFIG_PARAM { DFTI_FORWARD_SCALE = 4, DFTI_BACKWARD_SCALE = 5, DFTI_NUMBER_OF_TRANSFORMS = 7, DFTI_PLACEMENT = 11, DFTI_INPUT_STRIDES = 12, DFTI_OUTPUT_STRIDES = 13,
  DFTI_INPUT_DISTANCE = 14, DFTI_OUTPUT_DISTANCE = 15 };
enum DFTI_CONFIG_VALUE { DFTI_COMPLEX = 32, DFTI_REAL = 33, DFTI_SINGLE = 35, DFTI_DOUBLE = 36, DFTI_INPLACE = 43, DFTI_NOT_INPLACE = 44 };
#define DFTI_NO_ERROR 0
#define DFTI_INCONSISTENT_CONFIGURATION 4
#define DFTI_BAD_DESCRIPTOR 3
#ifdef __cplusplus
extern "C" {
#endif
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *, enum DFTI_CONFIG_VALUE, enum DFTI_CONFIG_VALUE, MKL_LONG, ...);
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE, enum DFTI_CONFIG_PARAM, ...);
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE);
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *);
#ifdef __cplusplus
}
#endif
#endif

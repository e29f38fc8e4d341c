// see mex.h
#ifndef MATRIX_H
#define MATRIX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mxArray_tag mxArray ;
typedef size_t mwSize ;
typedef size_t mwIndex ;
typedef ptrdiff_t mwSignedIndex ;
typedef double mxDouble ;
typedef char mxChar8 ;
typedef bool mxLogical ;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity ;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS,
    mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS } mxClassID ;
void *mxMalloc (size_t n) ;
void *mxCalloc (size_t n, size_t s) ;
void *mxRealloc (void *p, size_t n) ;
void mxFree (void *p) ;
size_t mxGetM (const mxArray *a) ;
size_t mxGetN (const mxArray *a) ;
size_t mxGetNumberOfElements (const mxArray *a) ;
mwSize mxGetNumberOfDimensions (const mxArray *a) ;
void mxSetM (mxArray *a, mwSize m) ;
void mxSetN (mxArray *a, mwSize n) ;
mwIndex *mxGetJc (const mxArray *a) ;
mwIndex *mxGetIr (const mxArray *a) ;
mwSize mxGetNzmax (const mxArray *a) ;
mxDouble *mxGetDoubles (const mxArray *a) ;
int mxSetDoubles (mxArray *a, mxDouble *x) ;
double *mxGetPr (const mxArray *a) ;
void mxSetPr (mxArray *a, double *x) ;
void *mxGetData (const mxArray *a) ;
double mxGetScalar (const mxArray *a) ;
mxClassID mxGetClassID (const mxArray *a) ;
bool mxIsEmpty (const mxArray *a) ;
bool mxIsStruct (const mxArray *a) ;
bool mxIsCell (const mxArray *a) ;
bool mxIsChar (const mxArray *a) ;
bool mxIsDouble (const mxArray *a) ;
bool mxIsLogical (const mxArray *a) ;
bool mxIsNumeric (const mxArray *a) ;
bool mxIsComplex (const mxArray *a) ;
bool mxIsSparse (const mxArray *a) ;
bool mxIsScalar (const mxArray *a) ;
bool mxIsInf (double x) ;
bool mxIsNaN (double x) ;
bool mxIsFinite (double x) ;
double mxGetInf (void) ;
double mxGetNaN (void) ;
double mxGetEps (void) ;
mxArray *mxGetField (const mxArray *a, mwIndex k, const char *name) ;
int mxGetFieldNumber (const mxArray *a, const char *name) ;
mxArray *mxGetFieldByNumber (const mxArray *a, mwIndex k, int f) ;
int mxGetNumberOfFields (const mxArray *a) ;
int mxGetString (const mxArray *a, char *buf, mwSize len) ;
char *mxArrayToString (const mxArray *a) ;
mxArray *mxCreateDoubleMatrix (mwSize m, mwSize n, mxComplexity c) ;
mxArray *mxCreateUninitNumericMatrix (size_t m, size_t n, mxClassID id, mxComplexity c) ;
mxArray *mxCreateDoubleScalar (double x) ;
mxArray *mxCreateCellMatrix (mwSize m, mwSize n) ;
mxArray *mxCreateString (const char *s) ;
void mxSetCell (mxArray *a, mwIndex k, mxArray *v) ;
mxArray *mxGetCell (const mxArray *a, mwIndex k) ;
void mxDestroyArray (mxArray *a) ;
#ifdef __cplusplus
}
#endif
#endif

// The part of MATLAB's C interface that a MEX file can call, as provided by the
// simulated MATLAB host (ops_mex.cpp).  Not MATLAB's header.
#ifndef MEX_H
#define MEX_H
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include "matrix.h"
#ifdef __cplusplus
extern "C" {
#endif
void mexFunction (int nargout, mxArray *pargout [ ], int nargin, const mxArray *pargin [ ]) ;
int mexPrintf (const char *fmt, ...) ;
void mexErrMsgTxt (const char *msg) ;
void mexErrMsgIdAndTxt (const char *id, const char *fmt, ...) ;
void mexWarnMsgTxt (const char *msg) ;
void mexWarnMsgIdAndTxt (const char *id, const char *fmt, ...) ;
void mexMakeMemoryPersistent (void *p) ;
void mexMakeArrayPersistent (mxArray *a) ;
int mexAtExit (void (*f) (void)) ;
void mexLock (void) ;
void mexUnlock (void) ;
bool mexIsLocked (void) ;
const char *mexFunctionName (void) ;
#ifdef __cplusplus
}
#else
// MATLAB's header does the same
#define printf mexPrintf
#endif
#endif

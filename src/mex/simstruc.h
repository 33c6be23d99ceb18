/* A model of the part of the SimStruct interface a level-2 S-function without parameters can use. */
#ifndef simstruc_h
#define simstruc_h
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#ifdef MATLAB_MEX_FILE
#include "mex.h"
#endif
#ifdef __cplusplus
extern "C" {
#endif
typedef double real_T; typedef int int_T; typedef unsigned int uint_T; typedef char char_T; typedef double time_T; typedef unsigned char boolean_T; typedef const real_T *const *InputRealPtrsType; typedef const void *const *InputPtrsType; typedef int DTypeId;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#ifndef UNUSED_ARG
#define UNUSED_ARG(a) ((void)(a))
#endif
#ifndef SS_UINT
#define SS_DOUBLE 0
#endif
#define DYNAMICALLY_SIZED (-1)
#define INHERITED_SAMPLE_TIME (-1.0)
#define CONTINUOUS_SAMPLE_TIME 0.0
#define FIXED_IN_MINOR_STEP_OFFSET 1.0
#define SS_OPTION_EXCEPTION_FREE_CODE 1
#define SS_OPTION_WORKS_WITH_CODE_REUSE 2
#define SS_OPTION_USE_TLC_WITH_ACCELERATOR 4
#define SS_OPTION_RUNTIME_EXCEPTION_FREE_CODE 8
#define SS_OPTION_CALL_TERMINATE_ON_EXIT 16
typedef struct { int width, numDims; int *dims; void *nextSigDims; } DimsInfo_T;
typedef struct SimStruct_tag SimStruct;
enum { SSP = 16 };
struct SimStruct_tag {
    int nin, nout, npar, ncont, ndisc, nst; double st, ot; const char *err; unsigned opts; int phase; /* 1 sizes, 2 dims, 3 start, 4 outputs, 5 terminate */
    struct { int width, declared, direct, contig, fixeddims; const real_T *data; const real_T **ptrs; } in[SSP];
    struct { int width, declared; real_T *data; } out[SSP];
    int nrw, niw, npw, ndw; real_T *rw; int *iw; void **pw; void *ud; char misuse[200];
};
int ssm_num(SimStruct *, int, int), ssm_width(SimStruct *, int, int), ssm_setwidth(SimStruct *, int, int, int), ssm_dims(SimStruct *, int, int, const DimsInfo_T *);
InputRealPtrsType ssm_ptrs(SimStruct *, int); const real_T *ssm_sig(SimStruct *, int); real_T *ssm_out(SimStruct *, int); int *ssm_flag(SimStruct *, int, int); const int *ssm_getdims(SimStruct *, int, int);
void *ssm_work(SimStruct *, int);
#define ssSetNumContStates(S, k) ((S)->ncont = (k))
#define ssSetNumDiscStates(S, k) ((S)->ndisc = (k))
#define ssGetNumContStates(S) ((S)->ncont)
#define ssGetNumDiscStates(S) ((S)->ndisc)
#define ssSetNumSFcnParams(S, k) ((S)->npar = (k))
#define ssGetNumSFcnParams(S) ((S)->npar)
#define ssGetSFcnParamsCount(S) (0)
#define ssSetNumInputPorts(S, k) ssm_num(S, 0, k)
#define ssSetNumOutputPorts(S, k) ssm_num(S, 1, k)
#define ssGetNumInputPorts(S) ((S)->nin)
#define ssGetNumOutputPorts(S) ((S)->nout)
#define ssSetInputPortWidth(S, p, w) ssm_setwidth(S, 0, p, w)
#define ssSetOutputPortWidth(S, p, w) ssm_setwidth(S, 1, p, w)
#define ssSetInputPortVectorDimension(S, p, w) ssm_setwidth(S, 0, p, w)
#define ssSetOutputPortVectorDimension(S, p, w) ssm_setwidth(S, 1, p, w)
#define ssGetInputPortWidth(S, p) ssm_width(S, 0, p)
#define ssGetOutputPortWidth(S, p) ssm_width(S, 1, p)
#define ssGetInputPortDimensions(S, p) ssm_getdims(S, 0, p)
#define ssGetOutputPortDimensions(S, p) ssm_getdims(S, 1, p)
#define ssGetInputPortNumDimensions(S, p) (1)
#define ssSetInputPortDimensionInfo(S, p, d) ssm_dims(S, 0, p, d)
#define ssSetOutputPortDimensionInfo(S, p, d) ssm_dims(S, 1, p, d)
#define ssSetInputPortDirectFeedThrough(S, p, v) (*ssm_flag(S, 0, p) = (v))
#define ssGetInputPortDirectFeedThrough(S, p) (*ssm_flag(S, 0, p))
#define ssSetInputPortRequiredContiguous(S, p, v) (*ssm_flag(S, 1, p) = (v))
#define ssGetInputPortRequiredContiguous(S, p) (*ssm_flag(S, 1, p))
#define ssSetInputPortDataType(S, p, t) ((void)(t))
#define ssSetOutputPortDataType(S, p, t) ((void)(t))
#define ssSetInputPortComplexSignal(S, p, t) ((void)(t))
#define ssSetOutputPortComplexSignal(S, p, t) ((void)(t))
#define ssSetInputPortReusable(S, p, t) ((void)(t))
#define ssSetInputPortOverWritable(S, p, t) ((void)(t))
#define ssSetOutputPortReusable(S, p, t) ((void)(t))
#define COMPLEX_NO 0
#define ssSetNumSampleTimes(S, k) ((S)->nst = (k))
#define ssSetSampleTime(S, i, t) ((S)->st = (t))
#define ssSetOffsetTime(S, i, t) ((S)->ot = (t))
#define ssSetModelReferenceSampleTimeDefaultInheritance(S) ((void)0)
#define ssSetOptions(S, o) ((S)->opts = (o))
#define ssSetErrorStatus(S, m) ((S)->err = (m))
#define ssGetErrorStatus(S) ((S)->err)
#define ssPrintf printf
#define ssWarning(S, m) ((void)(m))
#define ssGetInputPortRealSignalPtrs(S, p) ssm_ptrs(S, p)
#define ssGetInputPortSignalPtrs(S, p) ((InputPtrsType)ssm_ptrs(S, p))
#define ssGetInputPortRealSignal(S, p) ssm_sig(S, p)
#define ssGetInputPortSignal(S, p) ((const void *)ssm_sig(S, p))
#define ssGetOutputPortRealSignal(S, p) ssm_out(S, p)
#define ssGetOutputPortSignal(S, p) ((void *)ssm_out(S, p))
#define ssSetNumRWork(S, k) ((S)->nrw = (k))
#define ssSetNumIWork(S, k) ((S)->niw = (k))
#define ssSetNumPWork(S, k) ((S)->npw = (k))
#define ssSetNumDWork(S, k) ((S)->ndw = (k))
#define ssSetNumModes(S, k) ((void)(k))
#define ssSetNumNonsampledZCs(S, k) ((void)(k))
#define ssGetRWork(S) ((real_T *)ssm_work(S, 0))
#define ssGetIWork(S) ((int_T *)ssm_work(S, 1))
#define ssGetPWork(S) ((void **)ssm_work(S, 2))
#define ssGetRWorkValue(S, i) (ssGetRWork(S)[i])
#define ssSetRWorkValue(S, i, v) (ssGetRWork(S)[i] = (v))
#define ssGetIWorkValue(S, i) (ssGetIWork(S)[i])
#define ssSetIWorkValue(S, i, v) (ssGetIWork(S)[i] = (v))
#define ssGetPWorkValue(S, i) (ssGetPWork(S)[i])
#define ssSetPWorkValue(S, i, v) (ssGetPWork(S)[i] = (v))
#define ssGetUserData(S) ((S)->ud)
#define ssSetUserData(S, p) ((S)->ud = (p))
#define ssGetT(S) (0.0)
#define ssIsMajorTimeStep(S) (1)
#ifdef __cplusplus
}
#endif
#endif

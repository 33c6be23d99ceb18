/* A model of the part of the MATLAB C API (separate-complex, large array dims) a gateway can use. */
#ifndef mex_h
#define mex_h
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex; typedef bool mxLogical; typedef uint16_t mxChar; typedef double mxDouble; typedef float mxSingle;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX = 1 } mxComplexity;
typedef struct mxArray_tag mxArray;
void mexFunction(int, mxArray *[], int, const mxArray *[]);
void *mxMalloc(size_t); void *mxCalloc(size_t, size_t); void *mxRealloc(void *, size_t); void mxFree(void *);
void mexMakeMemoryPersistent(void *); void mexMakeArrayPersistent(mxArray *);
int mexPrintf(const char *, ...); void mexErrMsgTxt(const char *); void mexErrMsgIdAndTxt(const char *, const char *, ...); void mexWarnMsgTxt(const char *); void mexWarnMsgIdAndTxt(const char *, const char *, ...);
int mexAtExit(void (*)(void)); void mexLock(void); void mexUnlock(void); bool mexIsLocked(void);
mxClassID mxGetClassID(const mxArray *); const char *mxGetClassName(const mxArray *); bool mxIsClass(const mxArray *, const char *);
bool mxIsDouble(const mxArray *); bool mxIsSingle(const mxArray *); bool mxIsSparse(const mxArray *); bool mxIsComplex(const mxArray *); bool mxIsStruct(const mxArray *); bool mxIsCell(const mxArray *); bool mxIsChar(const mxArray *); bool mxIsLogical(const mxArray *); bool mxIsLogicalScalar(const mxArray *); bool mxIsNumeric(const mxArray *); bool mxIsEmpty(const mxArray *); bool mxIsScalar(const mxArray *);
bool mxIsInt8(const mxArray *); bool mxIsUint8(const mxArray *); bool mxIsInt16(const mxArray *); bool mxIsUint16(const mxArray *); bool mxIsInt32(const mxArray *); bool mxIsUint32(const mxArray *); bool mxIsInt64(const mxArray *); bool mxIsUint64(const mxArray *); bool mxIsFunctionHandle(const mxArray *);
mwSize mxGetNumberOfDimensions(const mxArray *); const mwSize *mxGetDimensions(const mxArray *); size_t mxGetM(const mxArray *); size_t mxGetN(const mxArray *); size_t mxGetNumberOfElements(const mxArray *); size_t mxGetElementSize(const mxArray *);
double *mxGetPr(const mxArray *); double *mxGetPi(const mxArray *); mxDouble *mxGetDoubles(const mxArray *); void *mxGetData(const mxArray *); void *mxGetImagData(const mxArray *); mxLogical *mxGetLogicals(const mxArray *); mxChar *mxGetChars(const mxArray *); double mxGetScalar(const mxArray *);
mwIndex *mxGetIr(const mxArray *); mwIndex *mxGetJc(const mxArray *); mwSize mxGetNzmax(const mxArray *);
void mxSetPr(mxArray *, double *); void mxSetData(mxArray *, void *); void mxSetM(mxArray *, mwSize); void mxSetN(mxArray *, mwSize); int mxSetDimensions(mxArray *, const mwSize *, mwSize);
mxArray *mxGetField(const mxArray *, mwIndex, const char *); mxArray *mxGetFieldByNumber(const mxArray *, mwIndex, int); int mxGetFieldNumber(const mxArray *, const char *); int mxGetNumberOfFields(const mxArray *); const char *mxGetFieldNameByNumber(const mxArray *, int); void mxSetField(mxArray *, mwIndex, const char *, mxArray *); void mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *); int mxAddField(mxArray *, const char *);
mxArray *mxGetCell(const mxArray *, mwIndex);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity); mxArray *mxCreateNumericArray(mwSize, const mwSize *, mxClassID, mxComplexity); mxArray *mxCreateUninitNumericMatrix(size_t, size_t, mxClassID, mxComplexity); mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray *mxCreateDoubleScalar(double); mxArray *mxCreateLogicalScalar(mxLogical); mxArray *mxCreateStructArray(mwSize, const mwSize *, int, const char **); mxArray *mxCreateStructMatrix(mwSize, mwSize, int, const char **); mxArray *mxCreateString(const char *); mxArray *mxDuplicateArray(const mxArray *); void mxDestroyArray(mxArray *);
double mxGetNaN(void); double mxGetInf(void); double mxGetEps(void); bool mxIsNaN(double); bool mxIsInf(double); bool mxIsFinite(double);
char *mxArrayToString(const mxArray *);
#define printf mexPrintf
#ifdef __cplusplus
}
#endif
#endif

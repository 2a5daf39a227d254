// The MEX interface of MATLAB/Octave as the bindings see it, implemented by lib/mex/mex.hpp (strict:
// wrong indices, wrong classes, double release and ownership mistakes are violations).
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex; typedef uint16_t mxChar; typedef bool mxLogical;
typedef uint8_t mxUint8; typedef uint16_t mxUint16; typedef double mxDouble; typedef float mxSingle;
struct mxArray;
enum mxClassID { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS };
enum mxComplexity { mxREAL = 0, mxCOMPLEX = 1 };
extern "C" {
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity);
mxArray* mxCreateDoubleScalar(double v);
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID, mxComplexity);
mxArray* mxCreateNumericArray(mwSize n, const mwSize* dims, mxClassID, mxComplexity);
mxArray* mxCreateLogicalScalar(mxLogical v);
mxArray* mxCreateLogicalMatrix(mwSize m, mwSize n);
mxArray* mxCreateLogicalArray(mwSize n, const mwSize* dims);
mxArray* mxCreateString(const char* s);
mxArray* mxCreateCharMatrixFromStrings(mwSize m, const char** s);
mxArray* mxCreateCharArray(mwSize n, const mwSize* dims);
mxArray* mxCreateCellMatrix(mwSize m, mwSize n);
mxArray* mxCreateCellArray(mwSize n, const mwSize* dims);
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int k, const char** names);
mxArray* mxCreateStructArray(mwSize n, const mwSize* dims, int k, const char** names);
mxArray* mxDuplicateArray(const mxArray*);
void mxDestroyArray(mxArray*);
void* mxMalloc(size_t); void* mxCalloc(size_t, size_t); void* mxRealloc(void*, size_t); void mxFree(void*);
bool mxIsChar(const mxArray*); bool mxIsCell(const mxArray*); bool mxIsStruct(const mxArray*); bool mxIsNumeric(const mxArray*); bool mxIsLogical(const mxArray*); bool mxIsLogicalScalar(const mxArray*);
bool mxIsLogicalScalarTrue(const mxArray*); bool mxIsDouble(const mxArray*); bool mxIsSingle(const mxArray*); bool mxIsComplex(const mxArray*); bool mxIsSparse(const mxArray*); bool mxIsEmpty(const mxArray*); bool mxIsScalar(const mxArray*);
bool mxIsUint8(const mxArray*); bool mxIsUint16(const mxArray*); bool mxIsUint32(const mxArray*); bool mxIsUint64(const mxArray*); bool mxIsInt8(const mxArray*); bool mxIsInt16(const mxArray*); bool mxIsInt32(const mxArray*); bool mxIsInt64(const mxArray*);
bool mxIsClass(const mxArray*, const char*); bool mxIsFunctionHandle(const mxArray*);
bool mxIsNaN(double); bool mxIsInf(double); bool mxIsFinite(double); double mxGetNaN(void); double mxGetInf(void); double mxGetEps(void);
mxClassID mxGetClassID(const mxArray*); const char* mxGetClassName(const mxArray*);
mwSize mxGetM(const mxArray*); mwSize mxGetN(const mxArray*); mwSize mxGetNumberOfDimensions(const mxArray*); const mwSize* mxGetDimensions(const mxArray*); size_t mxGetNumberOfElements(const mxArray*); size_t mxGetElementSize(const mxArray*);
double mxGetScalar(const mxArray*); double* mxGetPr(const mxArray*); void* mxGetData(const mxArray*); mxChar* mxGetChars(const mxArray*); mxLogical* mxGetLogicals(const mxArray*); double* mxGetDoubles(const mxArray*);
int mxGetString(const mxArray*, char*, mwSize); char* mxArrayToString(const mxArray*); char* mxArrayToUTF8String(const mxArray*);
mxArray* mxGetCell(const mxArray*, mwIndex); void mxSetCell(mxArray*, mwIndex, mxArray*);
int mxGetNumberOfFields(const mxArray*); const char* mxGetFieldNameByNumber(const mxArray*, int); int mxGetFieldNumber(const mxArray*, const char*); mxArray* mxGetField(const mxArray*, mwIndex, const char*); mxArray* mxGetFieldByNumber(const mxArray*, mwIndex, int);
void mxSetField(mxArray*, mwIndex, const char*, mxArray*); void mxSetFieldByNumber(mxArray*, mwIndex, int, mxArray*); int mxAddField(mxArray*, const char*); void mxRemoveField(mxArray*, int);
mwIndex mxCalcSingleSubscript(const mxArray*, mwSize, const mwIndex*);
void mexErrMsgTxt(const char*); void mexErrMsgIdAndTxt(const char*, const char*, ...); void mexWarnMsgTxt(const char*); void mexWarnMsgIdAndTxt(const char*, const char*, ...); int mexPrintf(const char*, ...);
int mexAtExit(void (*)(void)); void mexLock(void); void mexUnlock(void); int mexIsLocked(void); void mexMakeArrayPersistent(mxArray*); void mexMakeMemoryPersistent(void*); const char* mexFunctionName(void);
int mexCallMATLAB(int, mxArray**, int, mxArray**, const char*); mxArray* mexCallMATLABWithTrap(int, mxArray**, int, mxArray**, const char*);
}

// Implementation of lib/mex/mex.h for a harness (include in one file).
#pragma once
#include "mc.hpp"
#include "mex.h"
#include <math.h>
#include <set>
#include <stdarg.h>
#include <stdexcept>
#include <string.h>
#include <string>
#include <vector>

struct mxArray { mxClassID cls; std::vector<mwSize> dims; char* data = nullptr; std::vector<mxArray*> el; std::vector<std::string> names; mxArray* parent = nullptr; bool given = false; };
namespace mx {
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };   // what mexErrMsgTxt raises; a runtime error, as in Octave
inline std::set<mxArray*> live; inline std::set<void*> memory; inline std::string printed; inline int errors = 0, exits = 0;
inline std::function<void(int, mxArray**, int, mxArray**, const char*)> on_call;
[[noreturn]] inline void misuse(const std::string& what) { throw mc::Violation{"mex:" + what.substr(0, 60), "misuse of the MEX interface: " + what}; }
inline const mxArray* ok(const mxArray* a, const char* f) { if (!a) misuse(std::string(f) + " on a missing array"); if (!live.count((mxArray*)a)) misuse(std::string(f) + " on a released array"); return a; }
inline size_t size_of(mxClassID c) { switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; } }
inline size_t count(const mxArray* a) { size_t n = 1; for (auto d : a->dims) n *= d; return n; }
inline bool held(const mxArray* a) { return a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS; }
inline mxArray* make(mxClassID c, std::vector<mwSize> dims) {
  if (dims.size() == 1) dims.push_back(1); while (dims.size() < 2) dims.push_back(0); while (dims.size() > 2 && dims.back() == 1) dims.pop_back();
  size_t n = 1; for (auto d : dims) { n *= d; if (d > (1u << 24) || n > (1u << 26)) misuse("array of " + std::to_string((long long)d)); }
  auto* a = new mxArray{c, dims}; if (c == mxCELL_CLASS) a->el.assign(n, nullptr); else if (c != mxSTRUCT_CLASS) a->data = (char*)calloc(n ? n * size_of(c) : 1, 1); live.insert(a); return a;
}
inline mxArray* text(const std::string& s) { auto* a = make(mxCHAR_CLASS, {s.empty() ? 0u : 1u, s.size()}); for (size_t i = 0; i < s.size(); i++) ((mxChar*)a->data)[i] = (unsigned char)s[i]; return a; }
inline void drop(mxArray* a) { if (!a || !live.erase(a)) return; for (auto* e : a->el) drop(e); free(a->data); delete a; }
inline std::string str(const mxArray* a) { std::string s; for (size_t i = 0; i < count(a); i++) s += (char)((mxChar*)a->data)[i]; return s; }
inline void put(mxArray* a, size_t i, mxArray* v, const char* f) {
  ok(a, f); if (i >= a->el.size()) misuse(std::string(f) + " behind the end"); if (a->given) misuse(std::string(f) + " on an argument");
  if (v) { ok(v, f); if (v->parent || v->given) misuse(std::string(f) + " of an array that belongs to something else"); v->parent = a; } if (a->el[i]) a->el[i]->parent = nullptr; a->el[i] = v;
}
inline void give(mxArray* a) { if (!a) return; a->given = true; for (auto* e : a->el) give(e); }      // passed to the function: not its own
inline void own(mxArray* a) { if (!a) return; a->given = false; for (auto* e : a->el) own(e); }
inline mxArray* copy(const mxArray* a) { if (!a) return nullptr; auto* b = new mxArray{a->cls, a->dims}; b->names = a->names; for (auto* e : a->el) { auto* x = copy(e); if (x) x->parent = b; b->el.push_back(x); } if (a->data) { size_t n = count(a) * size_of(a->cls); b->data = (char*)malloc(n ? n : 1); memcpy(b->data, a->data, n); } live.insert(b); return b; }
inline void reset() { while (!live.empty()) { mxArray* a = *live.begin(); while (a->parent) a = a->parent; drop(a); } for (auto* p : memory) free(p); memory.clear(); printed.clear(); errors = exits = 0; }
// a readable, unambiguous text of a value
inline std::string show(const mxArray* a) {
  if (!a) return "[]"; std::string s; char b[40];
  if (a->cls == mxCHAR_CLASS) { if (a->dims.size() > 2 || (a->dims[0] != 1 && count(a))) s = "(" + std::to_string(a->dims[0]) + " rows)"; return s + "'" + str(a) + "'"; }
  if (!held(a) && !count(a)) return "[]";
  for (auto d : a->dims) s += (s.empty() ? "" : "x") + std::to_string(d);
  if (a->cls == mxCELL_CLASS) { s += "{"; for (auto* e : a->el) s += show(e) + ","; return s + "}"; }
  if (a->cls == mxSTRUCT_CLASS) { s += "<"; for (size_t i = 0; i < a->el.size(); i++) s += a->names[i % a->names.size()] + "=" + show(a->el[i]) + ","; return s + ">"; }
  static const char* N[] = {"?", "", "", "logical", "", "", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "@"};
  s += N[a->cls]; s += "["; for (size_t i = 0; i < count(a); i++) { switch (a->cls) {
    case mxDOUBLE_CLASS: snprintf(b, sizeof b, "%.9g,", ((double*)a->data)[i]); break; case mxSINGLE_CLASS: snprintf(b, sizeof b, "%.9g,", ((float*)a->data)[i]); break;
    case mxUINT16_CLASS: snprintf(b, sizeof b, "%u,", ((uint16_t*)a->data)[i]); break; default: snprintf(b, sizeof b, "%d,", ((unsigned char*)a->data)[i * size_of(a->cls)]); } s += b; }
  return s + "]";
}
}
extern "C" {
mxArray* mxCreateNumericArray(mwSize n, const mwSize* d, mxClassID c, mxComplexity) { return mx::make(c, std::vector<mwSize>(d, d + n)); }
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity) { return mx::make(c, {m, n}); }
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return mx::make(mxDOUBLE_CLASS, {m, n}); }
mxArray* mxCreateDoubleScalar(double v) { auto* a = mx::make(mxDOUBLE_CLASS, {1, 1}); *(double*)a->data = v; return a; }
mxArray* mxCreateLogicalScalar(mxLogical v) { auto* a = mx::make(mxLOGICAL_CLASS, {1, 1}); *a->data = v; return a; }
mxArray* mxCreateLogicalMatrix(mwSize m, mwSize n) { return mx::make(mxLOGICAL_CLASS, {m, n}); }
mxArray* mxCreateLogicalArray(mwSize n, const mwSize* d) { return mx::make(mxLOGICAL_CLASS, std::vector<mwSize>(d, d + n)); }
mxArray* mxCreateString(const char* s) { return mx::text(s); }
mxArray* mxCreateCharArray(mwSize n, const mwSize* d) { return mx::make(mxCHAR_CLASS, std::vector<mwSize>(d, d + n)); }
mxArray* mxCreateCharMatrixFromStrings(mwSize m, const char** s) { size_t w = 0; for (size_t i = 0; i < m; i++) w = std::max(w, strlen(s[i])); auto* a = mx::make(mxCHAR_CLASS, {m, w}); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < w; j++) ((mxChar*)a->data)[j * m + i] = j < strlen(s[i]) ? (unsigned char)s[i][j] : ' '; return a; }
mxArray* mxCreateCellMatrix(mwSize m, mwSize n) { return mx::make(mxCELL_CLASS, {m, n}); }
mxArray* mxCreateCellArray(mwSize n, const mwSize* d) { return mx::make(mxCELL_CLASS, std::vector<mwSize>(d, d + n)); }
mxArray* mxCreateStructArray(mwSize n, const mwSize* d, int k, const char** names) { auto* a = mx::make(mxSTRUCT_CLASS, std::vector<mwSize>(d, d + n)); for (int i = 0; i < k; i++) { for (auto& x : a->names) if (x == names[i]) mx::misuse("structure with two fields of the same name"); a->names.push_back(names[i]); } a->el.assign(k * mx::count(a), nullptr); return a; }
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int k, const char** names) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, k, names); }
mxArray* mxDuplicateArray(const mxArray* a) { return mx::copy(mx::ok(a, "mxDuplicateArray")); }
void mxDestroyArray(mxArray* a) { if (!a) return; mx::ok(a, "mxDestroyArray"); if (a->given) mx::misuse("release of an argument"); if (a->parent) mx::misuse("release of an element"); mx::drop(a); }
void* mxMalloc(size_t n) { void* p = malloc(n ? n : 1); memset(p, 0xa5, n); mx::memory.insert(p); return p; }
void* mxCalloc(size_t n, size_t m) { void* p = calloc(n * m ? n * m : 1, 1); mx::memory.insert(p); return p; }
void mxFree(void* p) { if (!p) return; if (!mx::memory.erase(p)) mx::misuse("mxFree of foreign memory"); free(p); }
void* mxRealloc(void* p, size_t n) { if (p && !mx::memory.erase(p)) mx::misuse("mxRealloc of foreign memory"); p = realloc(p, n ? n : 1); mx::memory.insert(p); return p; }
mxClassID mxGetClassID(const mxArray* a) { return mx::ok(a, "mxGetClassID")->cls; }
const char* mxGetClassName(const mxArray* a) { static const char* N[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"}; return N[mxGetClassID(a)]; }
bool mxIsClass(const mxArray* a, const char* n) { return !strcmp(mxGetClassName(a), n) || (!strcmp(n, "numeric") && mxGetClassID(a) >= mxDOUBLE_CLASS && mxGetClassID(a) <= mxUINT64_CLASS); }
#define MX_IS(F, C) bool F(const mxArray* a) { return mxGetClassID(a) == C; }
MX_IS(mxIsChar, mxCHAR_CLASS) MX_IS(mxIsCell, mxCELL_CLASS) MX_IS(mxIsStruct, mxSTRUCT_CLASS) MX_IS(mxIsLogical, mxLOGICAL_CLASS) MX_IS(mxIsDouble, mxDOUBLE_CLASS) MX_IS(mxIsSingle, mxSINGLE_CLASS) MX_IS(mxIsUint8, mxUINT8_CLASS) MX_IS(mxIsUint16, mxUINT16_CLASS)
MX_IS(mxIsUint32, mxUINT32_CLASS) MX_IS(mxIsUint64, mxUINT64_CLASS) MX_IS(mxIsInt8, mxINT8_CLASS) MX_IS(mxIsInt16, mxINT16_CLASS) MX_IS(mxIsInt32, mxINT32_CLASS) MX_IS(mxIsInt64, mxINT64_CLASS) MX_IS(mxIsFunctionHandle, mxFUNCTION_CLASS)
bool mxIsNumeric(const mxArray* a) { return mxGetClassID(a) >= mxDOUBLE_CLASS && mxGetClassID(a) <= mxUINT64_CLASS; }
size_t mxGetNumberOfElements(const mxArray* a) { return mx::count(mx::ok(a, "mxGetNumberOfElements")); }
bool mxIsScalar(const mxArray* a) { return mxGetNumberOfElements(a) == 1; }
bool mxIsLogicalScalar(const mxArray* a) { return mxIsLogical(a) && mxIsScalar(a); }
bool mxIsLogicalScalarTrue(const mxArray* a) { return mxIsLogicalScalar(a) && *a->data; }
bool mxIsComplex(const mxArray* a) { mx::ok(a, "mxIsComplex"); return false; }
bool mxIsSparse(const mxArray* a) { mx::ok(a, "mxIsSparse"); return false; }
bool mxIsEmpty(const mxArray* a) { return !mx::count(mx::ok(a, "mxIsEmpty")); }
bool mxIsNaN(double v) { return v != v; }
bool mxIsInf(double v) { return v == HUGE_VAL || v == -HUGE_VAL; }
bool mxIsFinite(double v) { return !mxIsNaN(v) && !mxIsInf(v); }
double mxGetNaN(void) { return NAN; }
double mxGetInf(void) { return HUGE_VAL; }
double mxGetEps(void) { return 2.220446049250313e-16; }
mwSize mxGetM(const mxArray* a) { return mx::ok(a, "mxGetM")->dims[0]; }
mwSize mxGetN(const mxArray* a) { mx::ok(a, "mxGetN"); size_t n = 1; for (size_t i = 1; i < a->dims.size(); i++) n *= a->dims[i]; return n; }
mwSize mxGetNumberOfDimensions(const mxArray* a) { return mx::ok(a, "mxGetNumberOfDimensions")->dims.size(); }
const mwSize* mxGetDimensions(const mxArray* a) { return mx::ok(a, "mxGetDimensions")->dims.data(); }
size_t mxGetElementSize(const mxArray* a) { return mx::size_of(mxGetClassID(a)); }
void* mxGetData(const mxArray* a) { if (mx::held(mx::ok(a, "mxGetData"))) mx::misuse("data of a cell or structure"); return a->data; }
double* mxGetPr(const mxArray* a) { return (double*)mxGetData(a); }
double* mxGetDoubles(const mxArray* a) { if (mxGetClassID(a) != mxDOUBLE_CLASS) mx::misuse("mxGetDoubles of another class"); return (double*)a->data; }
mxChar* mxGetChars(const mxArray* a) { return mxIsChar(a) ? (mxChar*)a->data : nullptr; }
mxLogical* mxGetLogicals(const mxArray* a) { return mxIsLogical(a) ? (mxLogical*)a->data : nullptr; }
double mxGetScalar(const mxArray* a) {
  if (mx::held(mx::ok(a, "mxGetScalar")) || a->cls == mxFUNCTION_CLASS) mx::misuse("mxGetScalar of something that is no number"); if (!mx::count(a)) mx::misuse("mxGetScalar of an empty array");
  switch (a->cls) { case mxDOUBLE_CLASS: return *(double*)a->data; case mxSINGLE_CLASS: return *(float*)a->data; case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *(uint8_t*)a->data; case mxINT8_CLASS: return *(int8_t*)a->data; case mxCHAR_CLASS: case mxUINT16_CLASS: return *(uint16_t*)a->data; case mxINT16_CLASS: return *(int16_t*)a->data; case mxINT32_CLASS: return *(int32_t*)a->data; case mxUINT32_CLASS: return *(uint32_t*)a->data; case mxINT64_CLASS: return (double)*(int64_t*)a->data; default: return (double)*(uint64_t*)a->data; }
}
int mxGetString(const mxArray* a, char* b, mwSize n) { if (!mxIsChar(a) || !n) return 1; std::string s = mx::str(a); size_t k = std::min<size_t>(s.size(), n - 1); memcpy(b, s.data(), k); b[k] = 0; return k < s.size(); }
char* mxArrayToString(const mxArray* a) { if (!mxIsChar(a)) return nullptr; std::string s = mx::str(a); char* p = (char*)mxMalloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
char* mxArrayToUTF8String(const mxArray* a) { return mxArrayToString(a); }
mxArray* mxGetCell(const mxArray* a, mwIndex i) { if (!mxIsCell(a)) mx::misuse("mxGetCell on something else"); if (i >= a->el.size()) mx::misuse("mxGetCell behind the end"); return a->el[i]; }
void mxSetCell(mxArray* a, mwIndex i, mxArray* v) { if (!mxIsCell(a)) mx::misuse("mxSetCell on something else"); mx::put(a, i, v, "mxSetCell"); }
int mxGetNumberOfFields(const mxArray* a) { return mxIsStruct(a) ? (int)a->names.size() : 0; }
const char* mxGetFieldNameByNumber(const mxArray* a, int k) { return mxIsStruct(a) && k >= 0 && k < (int)a->names.size() ? a->names[k].c_str() : nullptr; }
int mxGetFieldNumber(const mxArray* a, const char* n) { if (!mxIsStruct(a)) return -1; for (size_t i = 0; i < a->names.size(); i++) if (a->names[i] == n) return (int)i; return -1; }
mxArray* mxGetFieldByNumber(const mxArray* a, mwIndex i, int k) { if (!mxIsStruct(a)) mx::misuse("field of something else"); if (k < 0 || k >= (int)a->names.size() || i >= mx::count(a)) mx::misuse("mxGetFieldByNumber behind the end"); return a->el[i * a->names.size() + k]; }
mxArray* mxGetField(const mxArray* a, mwIndex i, const char* n) { int k = mxGetFieldNumber(a, n); return k < 0 || i >= mx::count(a) ? nullptr : a->el[i * a->names.size() + k]; }
void mxSetFieldByNumber(mxArray* a, mwIndex i, int k, mxArray* v) { if (!mxIsStruct(a)) mx::misuse("field of something else"); if (k < 0 || k >= (int)a->names.size()) mx::misuse("mxSetFieldByNumber behind the end"); mx::put(a, i * a->names.size() + k, v, "mxSetFieldByNumber"); }
void mxSetField(mxArray* a, mwIndex i, const char* n, mxArray* v) { mxSetFieldByNumber(a, i, mxGetFieldNumber(a, n), v); }
int mxAddField(mxArray* a, const char* n) { if (!mxIsStruct(a)) return -1; int k = mxGetFieldNumber(a, n); if (k >= 0) return k; std::vector<mxArray*> e; size_t f = a->names.size(); for (size_t i = 0; i < mx::count(a); i++) { for (size_t j = 0; j < f; j++) e.push_back(a->el[i * f + j]); e.push_back(nullptr); } a->el = e; a->names.push_back(n); return (int)f; }
mwIndex mxCalcSingleSubscript(const mxArray* a, mwSize n, const mwIndex* s) { mx::ok(a, "mxCalcSingleSubscript"); mwIndex r = 0, m = 1; for (mwSize i = 0; i < n; i++) { r += s[i] * m; m *= i < a->dims.size() ? a->dims[i] : 1; } return r; }
void mexErrMsgTxt(const char* m) { mx::errors++; throw mx::Error(m ? m : ""); }
void mexErrMsgIdAndTxt(const char*, const char* f, ...) { char b[512]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); mexErrMsgTxt(b); }
void mexWarnMsgTxt(const char* m) { mx::printed += m; }
void mexWarnMsgIdAndTxt(const char*, const char* f, ...) { char b[512]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); mx::printed += b; }
int mexPrintf(const char* f, ...) { va_list v; va_start(v, f); char* p = nullptr; int n = vasprintf(&p, f, v); va_end(v); mx::printed += p; free(p); return n; }
int mexAtExit(void (*)(void)) { mx::exits++; return 0; }
void mexLock(void) {} void mexUnlock(void) {} int mexIsLocked(void) { return 0; }
void mexMakeArrayPersistent(mxArray*) {} void mexMakeMemoryPersistent(void*) {}
const char* mexFunctionName(void) { return "trax"; }
int mexCallMATLAB(int n, mxArray** l, int m, mxArray** r, const char* f) { mx::on_call(n, l, m, r, f); return 0; }
mxArray* mexCallMATLABWithTrap(int n, mxArray** l, int m, mxArray** r, const char* f) { try { mexCallMATLAB(n, l, m, r, f); } catch (const mx::Error& e) { return mx::text(e.what()); } return nullptr; }
}

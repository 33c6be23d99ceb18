// C14: the MATLAB gateway and the Simulink blocks, compiled against models of the MATLAB and
// Simulink interfaces, compared with the library driven directly.
#include "prob.hpp"
#include "cat.hpp"
#ifdef MEXMODE
#include "mex/mex.h"
#undef printf
#define MATLAB_MEX_FILE 1
#else
#include "acct.hpp"
#endif
#include "mex/simstruc.h"
#undef printf
#undef MATLAB_MEX_FILE
#include <csetjmp>
#include <dlfcn.h>
using namespace core;
// ---------------------------------------------------------------- virtual clock, solve counter, reference library
static bool vclock = false; static long reads, solves;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *t) { if (!vclock) return __real_clock_gettime(id, t); reads++; long v = 5000000000L + reads * (reads + 1) / 2 * 1000000L; t->tv_sec = v / 1000000000L; t->tv_nsec = v % 1000000000L; return 0; }
extern "C" qp_int __real_QP_SOLVE(QP *);
extern "C" qp_int __wrap_QP_SOLVE(QP *q) { solves++; return __real_QP_SOLVE(q); }
typedef void (*refs_t)(long, long, long, long *, long *, double *, long *, long *, double *, long *, long *, double *, double *, double *, double *, long *, long, double, double, double, double *, double *, double *, double *, double *);
typedef void (*refd_t)(long, long, long, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *);
static refs_t ref_sparse; static refd_t ref_dense;
static void load_ref() {
    char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 32); if (k <= 0) exit(5); b[k] = 0; strcpy(strrchr(b, '/'), "/libref.so");
    void *L = dlopen(b, RTLD_NOW | RTLD_LOCAL); if (!L) { fprintf(stderr, "%s\n", dlerror()); exit(5); } ref_sparse = (refs_t)dlsym(L, "ref_sparse"); ref_dense = (refd_t)dlsym(L, "ref_dense"); if (!ref_sparse || !ref_dense) exit(5);
}
struct Ans { V x, y, z, s; double info[11]; };
static bool beq(const double *a, const double *b, size_t n) { for (size_t i = 0; i < n; i++) if (memcmp(a + i, b + i, 8) && !(a[i] != a[i] && b[i] != b[i])) return false; return true; }
// ---------------------------------------------------------------- read-only arena for the caller's data
static const size_t ARENA = 1 << 23; static char *arena, *atop; static bool use_arena;
static void *in_alloc(size_t n) { if (!use_arena) return malloc(n ? n : 1); n = (n + 15) & ~(size_t)15; if (!arena) arena = atop = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); void *p = atop; atop += n ? n : 16; if (atop > arena + ARENA) { fprintf(stderr, "arena full\n"); _exit(7); } return p; }
static void in_free(void *p) { if (p && !((char *)p >= arena && (char *)p < arena + ARENA)) free(p); }
static void arena_lock() { if (use_arena && arena) mprotect(arena, ARENA, PROT_READ); }
static void arena_unlock() { if (use_arena && arena) mprotect(arena, ARENA, PROT_READ | PROT_WRITE); }
static std::string misuse; static void mis(const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); if (misuse.empty()) misuse = b; }
#ifdef MEXMODE
// ---------------------------------------------------------------- model of the MATLAB API
struct mxArray_tag { int cls; bool cplx, sparse, input, attached; mwSize nd; mwSize *dims; void *data; double *pi; mwIndex *ir, *jc; mwSize nzmax; int nf; char **fn; mxArray **fv; };
static std::map<void *, size_t> heap; static std::set<mxArray *> arrays; static std::string printed; static jmp_buf esc; static bool in_call; static std::string errtext; static int ffill = 0xCB;
static size_t esz(int c) { switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; } }
static bool isnum(int c) { return c >= mxDOUBLE_CLASS && c <= mxUINT64_CLASS; }
extern "C" {
void *mxMalloc(size_t n) { void *p = malloc(n ? n : 1); memset(p, ffill, n); heap[p] = n; return p; }
void *mxCalloc(size_t a, size_t b) { void *p = mxMalloc(a * b); memset(p, 0, a * b); return p; }
void mxFree(void *p) { if (!p) return; if (!heap.erase(p)) { mis("mxFree of a block that was not allocated with mxMalloc or was released already"); return; } free(p); }
void *mxRealloc(void *p, size_t n) { void *q = mxMalloc(n); if (p) { auto it = heap.find(p); if (it == heap.end()) { mis("mxRealloc of a foreign block"); return q; } memcpy(q, p, std::min(n, it->second)); mxFree(p); } return q; }
void mexMakeMemoryPersistent(void *p) { heap.erase(p); } void mexMakeArrayPersistent(mxArray *a) { arrays.erase(a); }
int mexPrintf(const char *f, ...) { char b[8192]; va_list a; va_start(a, f); int k = vsnprintf(b, sizeof b, f, a); va_end(a); printed += b; return k; }
void mexErrMsgTxt(const char *s) { errtext = s ? s : ""; longjmp(esc, 1); }
void mexErrMsgIdAndTxt(const char *, const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); mexErrMsgTxt(b); }
void mexWarnMsgTxt(const char *) {} void mexWarnMsgIdAndTxt(const char *, const char *, ...) {} int mexAtExit(void (*)(void)) { return 0; } void mexLock() {} void mexUnlock() {} bool mexIsLocked() { return false; }
mxClassID mxGetClassID(const mxArray *a) { return (mxClassID)a->cls; }
const char *mxGetClassName(const mxArray *a) { static const char *n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"}; return n[a->cls]; }
bool mxIsClass(const mxArray *a, const char *s) { return !strcmp(mxGetClassName(a), s); }
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; } bool mxIsSingle(const mxArray *a) { return a->cls == mxSINGLE_CLASS; } bool mxIsSparse(const mxArray *a) { return a->sparse; } bool mxIsComplex(const mxArray *a) { return a->cplx; } bool mxIsStruct(const mxArray *a) { return a->cls == mxSTRUCT_CLASS; } bool mxIsCell(const mxArray *a) { return a->cls == mxCELL_CLASS; } bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; } bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsNumeric(const mxArray *a) { return isnum(a->cls); } bool mxIsFunctionHandle(const mxArray *a) { return a->cls == mxFUNCTION_CLASS; }
bool mxIsInt8(const mxArray *a) { return a->cls == mxINT8_CLASS; } bool mxIsUint8(const mxArray *a) { return a->cls == mxUINT8_CLASS; } bool mxIsInt16(const mxArray *a) { return a->cls == mxINT16_CLASS; } bool mxIsUint16(const mxArray *a) { return a->cls == mxUINT16_CLASS; } bool mxIsInt32(const mxArray *a) { return a->cls == mxINT32_CLASS; } bool mxIsUint32(const mxArray *a) { return a->cls == mxUINT32_CLASS; } bool mxIsInt64(const mxArray *a) { return a->cls == mxINT64_CLASS; } bool mxIsUint64(const mxArray *a) { return a->cls == mxUINT64_CLASS; }
size_t mxGetNumberOfElements(const mxArray *a) { size_t k = 1; for (mwSize i = 0; i < a->nd; i++) k *= a->dims[i]; return k; }
bool mxIsEmpty(const mxArray *a) { return mxGetNumberOfElements(a) == 0; } bool mxIsScalar(const mxArray *a) { return mxGetNumberOfElements(a) == 1; } bool mxIsLogicalScalar(const mxArray *a) { return mxIsLogical(a) && mxIsScalar(a); }
mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->nd; } const mwSize *mxGetDimensions(const mxArray *a) { return a->dims; } size_t mxGetM(const mxArray *a) { return a->dims[0]; } size_t mxGetN(const mxArray *a) { size_t k = 1; for (mwSize i = 1; i < a->nd; i++) k *= a->dims[i]; return k; } size_t mxGetElementSize(const mxArray *a) { return esz(a->cls); }
static void *dat(const mxArray *a) { return a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS || a->cls == mxFUNCTION_CLASS ? nullptr : a->data; }
double *mxGetPr(const mxArray *a) { return (double *)dat(a); } double *mxGetPi(const mxArray *a) { return a->pi; } mxDouble *mxGetDoubles(const mxArray *a) { return a->cls == mxDOUBLE_CLASS && !a->cplx ? (double *)a->data : nullptr; } void *mxGetData(const mxArray *a) { return dat(a); } void *mxGetImagData(const mxArray *a) { return a->pi; } mxLogical *mxGetLogicals(const mxArray *a) { return a->cls == mxLOGICAL_CLASS ? (mxLogical *)a->data : nullptr; } mxChar *mxGetChars(const mxArray *a) { return a->cls == mxCHAR_CLASS ? (mxChar *)a->data : nullptr; }
double mxGetScalar(const mxArray *a) { void *p = dat(a); if (!p || (mxIsEmpty(a) && !a->sparse)) return 0; switch (a->cls) { case mxDOUBLE_CLASS: return *(double *)p; case mxSINGLE_CLASS: return *(float *)p; case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *(uint8_t *)p; case mxINT8_CLASS: return *(int8_t *)p; case mxCHAR_CLASS: case mxUINT16_CLASS: return *(uint16_t *)p; case mxINT16_CLASS: return *(int16_t *)p; case mxINT32_CLASS: return *(int32_t *)p; case mxUINT32_CLASS: return *(uint32_t *)p; case mxINT64_CLASS: return *(int64_t *)p; case mxUINT64_CLASS: return *(uint64_t *)p; } return 0; }
mwIndex *mxGetIr(const mxArray *a) { return a->sparse ? a->ir : nullptr; } mwIndex *mxGetJc(const mxArray *a) { return a->sparse ? a->jc : nullptr; } mwSize mxGetNzmax(const mxArray *a) { return a->sparse ? a->nzmax : mxGetNumberOfElements(a); }
static void wr(mxArray *a) { if (a->input) mis("an input array was changed through the API"); }
void mxSetData(mxArray *a, void *p) { wr(a); if (p) { if (!heap.count(p)) mis("mxSetData with a foreign block"); heap.erase(p); } a->data = p; } void mxSetPr(mxArray *a, double *p) { mxSetData(a, p); }
void mxSetM(mxArray *a, mwSize k) { wr(a); a->dims[0] = k; } void mxSetN(mxArray *a, mwSize k) { wr(a); a->dims[1] = k; } int mxSetDimensions(mxArray *a, const mwSize *d, mwSize k) { wr(a); if (k > a->nd) return 1; memcpy(a->dims, d, k * sizeof *d); return 0; }
int mxGetNumberOfFields(const mxArray *a) { return a->cls == mxSTRUCT_CLASS ? a->nf : 0; } const char *mxGetFieldNameByNumber(const mxArray *a, int i) { return a->cls == mxSTRUCT_CLASS && i >= 0 && i < a->nf ? a->fn[i] : nullptr; }
int mxGetFieldNumber(const mxArray *a, const char *s) { if (a->cls == mxSTRUCT_CLASS) for (int i = 0; i < a->nf; i++) if (!strcmp(a->fn[i], s)) return i; return -1; }
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int f) { if (a->cls != mxSTRUCT_CLASS || f < 0 || f >= a->nf || i >= mxGetNumberOfElements(a)) return nullptr; return a->fv[i * a->nf + f]; }
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *s) { return a ? mxGetFieldByNumber(a, i, mxGetFieldNumber(a, s)) : nullptr; }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v) { wr(a); if (a->cls != mxSTRUCT_CLASS || f < 0 || f >= a->nf || i >= mxGetNumberOfElements(a)) { mis("mxSetField with a bad index"); return; } if (v && v->attached) mis("one array stored in two places"); a->fv[i * a->nf + f] = v; if (v) v->attached = true; }
void mxSetField(mxArray *a, mwIndex i, const char *s, mxArray *v) { mxSetFieldByNumber(a, i, mxGetFieldNumber(a, s), v); }
int mxAddField(mxArray *a, const char *s) { wr(a); int k = mxGetFieldNumber(a, s); if (k >= 0) return k; size_t ne = mxGetNumberOfElements(a); char **fn = (char **)malloc(sizeof(char *) * (a->nf + 1)); mxArray **fv = (mxArray **)calloc(ne * (a->nf + 1) + 1, sizeof *fv); for (int i = 0; i < a->nf; i++) fn[i] = a->fn[i]; fn[a->nf] = strdup(s); for (size_t e = 0; e < ne; e++) for (int i = 0; i < a->nf; i++) fv[e * (a->nf + 1) + i] = a->fv[e * a->nf + i]; free(a->fn); free(a->fv); a->fn = fn; a->fv = fv; return a->nf++; }
mxArray *mxGetCell(const mxArray *, mwIndex) { return nullptr; }
static mxArray *mk(int cls, mwSize nd, const mwSize *d, bool cplx, bool zero) { mxArray *a = (mxArray *)calloc(1, sizeof *a); a->cls = cls; a->nd = nd; a->dims = (mwSize *)malloc(nd * sizeof *d); memcpy(a->dims, d, nd * sizeof *d); size_t n = mxGetNumberOfElements(a); a->cplx = cplx; if (cls != mxSTRUCT_CLASS && cls != mxCELL_CLASS && n) { a->data = malloc(n * esz(cls)); memset(a->data, zero ? 0 : ffill, n * esz(cls)); if (cplx) a->pi = (double *)calloc(n, 8); } arrays.insert(a); return a; }
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity f) { return mk(c, nd, d, f == mxCOMPLEX, true); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f) { mwSize d[2] = {m, n}; return mk(c, 2, d, f == mxCOMPLEX, true); } mxArray *mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity f) { mwSize d[2] = {m, n}; return mk(c, 2, d, f == mxCOMPLEX, false); } mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, f); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->data = v; return a; } mxArray *mxCreateLogicalScalar(mxLogical v) { mwSize d[2] = {1, 1}; mxArray *a = mk(mxLOGICAL_CLASS, 2, d, false, true); *(mxLogical *)a->data = v; return a; }
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **fn) { mxArray *a = mk(mxSTRUCT_CLASS, nd, d, false, true); a->nf = nf; a->fn = (char **)malloc(sizeof(char *) * (nf + 1)); for (int i = 0; i < nf; i++) a->fn[i] = strdup(fn[i]); a->fv = (mxArray **)calloc(nf * mxGetNumberOfElements(a) + 1, sizeof *a->fv); return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **fn) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, nf, fn); }
mxArray *mxCreateString(const char *s) { mwSize d[2] = {1, strlen(s)}; mxArray *a = mk(mxCHAR_CLASS, 2, d, false, true); for (size_t i = 0; s[i]; i++) ((mxChar *)a->data)[i] = s[i]; return a; }
void mxDestroyArray(mxArray *a) { if (!a) return; if (a->input) { mis("mxDestroyArray of an input"); return; } if (!arrays.erase(a)) { mis("mxDestroyArray of an array that does not exist"); return; } size_t ne = mxGetNumberOfElements(a); if (a->fn) { for (int i = 0; i < a->nf; i++) free(a->fn[i]); for (size_t i = 0; i < ne * a->nf; i++) mxDestroyArray(a->fv[i]); free(a->fn); free(a->fv); } free(a->data); free(a->pi); free(a->ir); free(a->jc); free(a->dims); free(a); }
mxArray *mxDuplicateArray(const mxArray *a) { mxArray *r = mk(a->cls, a->nd, a->dims, a->cplx, true); size_t n = mxGetNumberOfElements(a); if (a->sparse) { free(r->data); mwSize nz = a->nzmax; r->sparse = true; r->nzmax = nz; r->data = malloc(nz * 8); memcpy(r->data, a->data, nz * esz(a->cls)); r->ir = (mwIndex *)malloc(nz * 8); memcpy(r->ir, a->ir, nz * 8); r->jc = (mwIndex *)malloc((a->dims[1] + 1) * 8); memcpy(r->jc, a->jc, (a->dims[1] + 1) * 8); } else if (a->data && r->data) memcpy(r->data, a->data, n * esz(a->cls)); if (a->pi && r->pi) memcpy(r->pi, a->pi, (a->sparse ? a->nzmax : n) * 8); if (a->cls == mxSTRUCT_CLASS) { r->nf = a->nf; r->fn = (char **)malloc(sizeof(char *) * (a->nf + 1)); for (int i = 0; i < a->nf; i++) r->fn[i] = strdup(a->fn[i]); r->fv = (mxArray **)calloc(a->nf * n + 1, sizeof *r->fv); for (size_t i = 0; i < n * a->nf; i++) if (a->fv[i]) { r->fv[i] = mxDuplicateArray(a->fv[i]); r->fv[i]->attached = true; } } return r; }
double mxGetNaN() { return NAN; } double mxGetInf() { return INFINITY; } double mxGetEps() { return 2.220446049250313e-16; } bool mxIsNaN(double d) { return d != d; } bool mxIsInf(double d) { return std::isinf(d); } bool mxIsFinite(double d) { return std::isfinite(d); }
char *mxArrayToString(const mxArray *a) { size_t n = mxGetNumberOfElements(a); char *s = (char *)mxMalloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = (char)((mxChar *)a->data)[i]; s[n] = 0; return s; }
}
// ---------------------------------------------------------------- argument descriptions
struct Spec { int cls = mxDOUBLE_CLASS; bool cplx = false, sparse = false; std::vector<size_t> d; V v; std::vector<std::pair<std::string, Spec>> f; // v: all elements, column major
    size_t ne() const { size_t k = 1; for (size_t x : d) k *= x; return k; } };
static std::string sshow(const Spec &s) { char b[100]; std::string o = s.sparse ? "sparse " : ""; static const char *n[] = {"?", "cell", "struct", "logical", "char", "?", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function"}; o += s.cplx ? "complex " : ""; o += n[s.cls]; for (size_t i = 0; i < s.d.size(); i++) { snprintf(b, 100, "%s%zu", i ? "x" : " ", s.d[i]); o += b; } if (s.cls == mxSTRUCT_CLASS) { o += "{"; for (auto &k : s.f) o += k.first + "=" + sshow(k.second) + " "; return o + "}"; } if (s.v.size() <= 24) o += vs(s.v); return o; }
static std::string show_args(const std::vector<Spec> &a) { std::string s; for (size_t i = 0; i < a.size(); i++) s += (i ? ", " : "") + sshow(a[i]); return s; }
struct Blob { const char *p; size_t n; std::string copy; }; static std::vector<Blob> blobs; static std::vector<void *> inblocks;
static void *keep(size_t n, bool leaf = true) { void *p = in_alloc(n); inblocks.push_back(p); blobs.push_back({(char *)p, n, ""}); return p; }
static mxArray *build(const Spec &s) {
    mxArray *a = (mxArray *)keep(sizeof(mxArray)); memset(a, 0, sizeof *a); a->cls = s.cls; a->cplx = s.cplx; a->sparse = s.sparse; a->input = true; a->nd = s.d.size(); a->dims = (mwSize *)keep(a->nd * sizeof(mwSize)); for (size_t i = 0; i < a->nd; i++) a->dims[i] = s.d[i]; size_t ne = s.ne();
    auto put = [&](void *p, size_t i, double v) { switch (s.cls) { case mxDOUBLE_CLASS: ((double *)p)[i] = v; break; case mxSINGLE_CLASS: ((float *)p)[i] = v; break; case mxLOGICAL_CLASS: ((uint8_t *)p)[i] = v != 0; break; case mxINT8_CLASS: case mxUINT8_CLASS: ((uint8_t *)p)[i] = (uint8_t)(int64_t)v; break; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: ((uint16_t *)p)[i] = (uint16_t)(int64_t)v; break; case mxINT32_CLASS: case mxUINT32_CLASS: ((uint32_t *)p)[i] = (uint32_t)(int64_t)v; break; case mxINT64_CLASS: case mxUINT64_CLASS: ((int64_t *)p)[i] = (int64_t)v; break; } };
    if (s.cls == mxSTRUCT_CLASS) { a->nf = s.f.size(); a->fn = (char **)keep(a->nf * sizeof(char *)); a->fv = (mxArray **)keep(a->nf * ne * sizeof(mxArray *)); for (int i = 0; i < a->nf; i++) { a->fn[i] = (char *)keep(s.f[i].first.size() + 1); strcpy(a->fn[i], s.f[i].first.c_str()); for (size_t e = 0; e < ne; e++) a->fv[e * a->nf + i] = build(s.f[i].second); } return a; }
    if (s.cls == mxCELL_CLASS || s.cls == mxFUNCTION_CLASS) return a;
    if (s.sparse) { size_t r = s.d[0], c = s.d[1], nz = 0; for (double v : s.v) nz += v != 0; a->nzmax = nz ? nz : 1; a->data = keep(a->nzmax * esz(s.cls)); memset(a->data, ffill, a->nzmax * esz(s.cls)); a->ir = (mwIndex *)keep(a->nzmax * 8); memset(a->ir, ffill, a->nzmax * 8); a->jc = (mwIndex *)keep((c + 1) * 8); size_t k = 0; for (size_t j = 0; j < c; j++) { a->jc[j] = k; for (size_t i = 0; i < r; i++) if (s.v[j * r + i] != 0) { put(a->data, k, s.v[j * r + i]); a->ir[k++] = i; } } a->jc[c] = k; if (s.cplx) { a->pi = (double *)keep(a->nzmax * 8); for (size_t i = 0; i < a->nzmax; i++) a->pi[i] = 1; } return a; }
    if (ne) { a->data = keep(ne * esz(s.cls)); for (size_t i = 0; i < ne; i++) put(a->data, i, i < s.v.size() ? s.v[i] : 0); if (s.cplx) { a->pi = (double *)keep(ne * 8); for (size_t i = 0; i < ne; i++) a->pi[i] = 1; } }
    return a;
}
// ---------------------------------------------------------------- what the documentation promises
static bool isMat(const Spec &s) { return s.cls == mxDOUBLE_CLASS && s.sparse && !s.cplx && s.d.size() == 2; }
static bool isVec(const Spec &s) { return s.cls == mxDOUBLE_CLASS && !s.sparse && !s.cplx && s.d.size() == 2 && std::min(s.d[0], s.d[1]) == 1; }
static bool isVec0(const Spec &s) { return s.cls == mxDOUBLE_CLASS && !s.sparse && !s.cplx && s.d.size() == 2 && s.ne() == 0 && std::max(s.d[0], s.d[1]) <= 1; } // an empty vector: 0x0, 0x1, 1x0
struct Conf { double mi = -1, at = -1, rt = -1, sg = -1, vb = 0; bool perm = false; std::vector<long> pm; };
struct Exp { bool err = false, ok = true; std::vector<Conf> c; const Spec *P = 0, *cc = 0, *A = 0, *b = 0, *G = 0, *h = 0; long n = 0, m = 0, p = 0; std::string why; };
static Exp expect(int nlhs, const std::vector<Spec> &a) {
    Exp E; auto no = [&](const char *w) { E.err = true; E.ok = false; E.why = w; return E; }; int k = a.size();
    if (nlhs > 3) return no("too many outputs"); if (k < 4 || k > 7) return no("number of arguments");
    bool eq = k >= 6; E.P = &a[0]; E.cc = &a[1]; if (eq) { E.A = &a[2]; E.b = &a[3]; } E.G = &a[eq ? 4 : 2]; E.h = &a[eq ? 5 : 3]; const Spec *o = k == 5 ? &a[4] : k == 7 ? &a[6] : nullptr; bool empty = false;
    if (!isMat(*E.P)) return no("P"); if (!isVec(*E.cc)) return no("c"); E.n = E.cc->ne(); if (E.P->d[0] != (size_t)E.n || E.P->d[1] != (size_t)E.n) return no("size of P");
    if (!isMat(*E.G)) return no("G"); if (!isVec(*E.h)) { if (!isVec0(*E.h)) return no("h"); empty = true; } E.m = E.h->ne(); if (E.G->d[0] != (size_t)E.m || (E.G->d[1] != (size_t)E.n && !(E.G->ne() == 0 && empty))) return no("size of G");
    if (eq) { if (!isMat(*E.A)) return no("A"); bool e0 = false; if (!isVec(*E.b)) { if (!isVec0(*E.b)) return no("b"); empty = e0 = true; } E.p = E.b->ne(); if (E.A->d[0] != (size_t)E.p || (E.A->d[1] != (size_t)E.n && !(E.A->ne() == 0 && e0))) return no("size of A"); }
    if (empty) E.err = true; // empty constraint data: refusing it is fine
    E.c.push_back(Conf());
    if (!o) return E;
    if (o->cls != mxSTRUCT_CLASS) { if (o->ne() == 0) { E.err = true; return E; } return no("options that are not a structure"); }
    if (o->ne() != 1) { E.err = true; if (!o->ne()) return E; }
    auto get = [&](std::initializer_list<const char *> names) -> const Spec * { for (auto nm : names) for (auto &f : o->f) if (f.first == nm) return &f.second; return nullptr; };
    auto opt = [&](const Spec *s, double lo, double hi, double Conf::*fld, bool integer) { // alternatives of one option
        if (!s) return true; std::vector<double> alt; bool num = isnum(s->cls) || s->cls == mxLOGICAL_CLASS;
        if (!num) return false; if (s->ne() == 0) { E.err = true; return true; }
        double v = s->v.size() ? s->v[0] : 0; if (s->cls == mxSINGLE_CLASS) v = (float)v;
        bool plain = s->cls == mxDOUBLE_CLASS && s->ne() == 1 && !s->sparse && !s->cplx; if (!plain) E.err = true; // other numeric kinds may be refused, but if accepted they mean their value
        if (!(v >= lo && v <= hi)) return false;
        if (integer && v != std::floor(v)) { E.err = true; alt = {std::floor(v), std::ceil(v)}; } else alt = {v};
        std::vector<Conf> out; for (auto &c : E.c) for (double x : alt) { Conf d = c; d.*fld = x == 0 ? 0 : x; out.push_back(d); } E.c = out; return true; };
    const Spec *pm = get({"PERMUT", "permut", "Permut"});
    if (pm) { long N = E.n + E.m + E.p; if (pm->ne() == 0) E.err = true; else { if (!isVec(*pm)) return no("permutation is not a real dense vector"); if ((long)pm->ne() != N) return no("length of the permutation"); std::vector<long> q; std::vector<char> s(N, 0); for (double v : pm->v) { if (!(v >= 1 && v <= N) || v != std::floor(v) || s[(long)v - 1]) return no("not a permutation of 1..N"); s[(long)v - 1] = 1; q.push_back((long)v - 1); } for (auto &c : E.c) { c.perm = true; c.pm = q; } } }
    if (!opt(get({"MAXITER", "maxiter"}), 0, 200, &Conf::mi, true)) return no("MAXITER"); if (!opt(get({"ABSTOL", "abstol"}), 0, 1, &Conf::at, false)) return no("ABSTOL"); if (!opt(get({"RELTOL", "reltol"}), 0, 1, &Conf::rt, false)) return no("RELTOL");
    if (!opt(get({"SIGMA", "sigma"}), 0, INFINITY, &Conf::sg, false)) return no("SIGMA"); if (!opt(get({"VERBOSE", "verbose"}), 0, INFINITY, &Conf::vb, true)) return no("VERBOSE");
    return E;
}
static Ans reference(const Exp &E, const Conf &c) {
    auto colm = [](const Spec &s, int r, int cc) { Ccs o; o.jc.push_back(0); for (int j = 0; j < cc; j++) { for (int i = 0; i < r; i++) if (s.v[(size_t)j * r + i] != 0) { o.ir.push_back(i); o.pr.push_back(s.v[(size_t)j * r + i]); } o.jc.push_back(o.ir.size()); } o.ir.reserve(o.ir.size() + 1); o.pr.reserve(o.pr.size() + 1); return o; };
    Ccs P = colm(*E.P, E.n, E.n), G = colm(*E.G, E.m, E.n), A; if (E.p) A = colm(*E.A, E.p, E.n); V cc = E.cc->v, h = E.h->v, b; if (E.p) b = E.b->v; h.reserve(1); std::vector<long> pm = c.pm;
    Ans r; r.x.resize(E.n); r.y.resize(E.p + 1); r.z.resize(E.m + 1); r.s.resize(E.m + 1);
    ref_sparse(E.n, E.m, E.p, P.jc.data(), P.ir.data(), P.pr.data(), E.p ? A.jc.data() : 0, E.p ? A.ir.data() : 0, E.p ? A.pr.data() : 0, G.jc.data(), G.ir.data(), G.pr.data(), cc.data(), h.data(), E.p ? b.data() : 0, c.perm ? pm.data() : 0, (long)c.mi, c.at, c.rt, c.sg, r.x.data(), r.y.data(), r.z.data(), r.s.data(), r.info); return r;
}
// ---------------------------------------------------------------- one call of the gateway
struct Out { bool err = false; V x, y, z, s; double info[7]; int nlhs = 0; std::string bad; bool hasy = false; };
static bool numeric(const mxArray *a, size_t r, size_t c, V &o) { if (!a || a->cls != mxDOUBLE_CLASS || a->cplx || a->sparse || a->nd != 2 || a->dims[0] != r || a->dims[1] != c) return false; o.assign((double *)a->data, (double *)a->data + r * c); return true; }
static Out call(int nlhs, const std::vector<Spec> &args, long n, long m, long p, bool ro) {
    Out O; O.nlhs = nlhs; blobs.clear(); inblocks.clear(); use_arena = ro; atop = arena; heap.clear(); arrays.clear(); printed.clear(); misuse.clear(); errtext.clear(); solves = 0; reads = 0;
    const mxArray **prhs = (const mxArray **)malloc(std::max<size_t>(1, args.size()) * sizeof *prhs); for (size_t i = 0; i < args.size(); i++) prhs[i] = build(args[i]);
    std::vector<const mxArray *> prc(prhs, prhs + args.size()); for (auto &b : blobs) b.copy.assign(b.p, b.n);
    mxArray **plhs = (mxArray **)malloc(std::max(1, nlhs) * sizeof *plhs); for (int i = 0; i < std::max(1, nlhs); i++) plhs[i] = nullptr;
    arena_lock(); vclock = true; if (!setjmp(esc)) mexFunction(nlhs, plhs, (int)args.size(), prhs); else O.err = true; vclock = false; arena_unlock();
    for (auto &b : blobs) if (memcmp(b.p, b.copy.data(), b.n)) { O.bad = "an input array was modified"; break; }
    for (size_t i = 0; i < prc.size(); i++) if (prhs[i] != prc[i]) O.bad = "the argument list was modified";
    if (!misuse.empty()) O.bad = misuse;
    if (!O.err && !O.bad.size() && !heap.empty()) { char b[100]; snprintf(b, 100, "%zu blocks allocated by the call were not released", heap.size()); O.bad = b; }
    if (O.err && solves && O.bad.empty()) O.bad = "error raised only after a solve: " + errtext;
    if (!O.err && nlhs >= 1 && O.bad.empty()) {
        auto sc = [&](const mxArray *st, const char *f, double &v) { V t; if (O.bad.size()) return; if (!st || st->cls != mxSTRUCT_CLASS || mxGetNumberOfElements(st) != 1) { O.bad = "information output is not a 1x1 structure"; return; } if (!numeric(mxGetField(st, 0, f), 1, 1, t)) { O.bad = std::string("field ") + f + " is missing or not a real scalar"; return; } v = t[0]; };
        auto ve = [&](const mxArray *st, const char *f, size_t k, V &v) { if (O.bad.size()) return; const mxArray *q = mxGetField(st, 0, f); if (!k) { if (q && mxGetNumberOfElements(q)) O.bad = std::string("field ") + f + " should be empty"; v.clear(); return; } if (!numeric(q, k, 1, v)) O.bad = std::string("field ") + f + " is missing or has the wrong shape"; };
        if (!numeric(plhs[0], n, 1, O.x)) O.bad = "the solution is not a real column vector of length n";
        if (nlhs >= 2) { sc(plhs[1], "Iterations", O.info[0]); sc(plhs[1], "ExitFlag", O.info[1]); sc(plhs[1], "Setup_Time", O.info[3]); sc(plhs[1], "Solve_Time", O.info[4]); }
        if (nlhs >= 3) { sc(plhs[2], "Fval", O.info[2]); sc(plhs[2], "KKT_Time", O.info[5]); sc(plhs[2], "LDL_Time", O.info[6]); ve(plhs[2], "y", p, O.y); ve(plhs[2], "z", m, O.z); ve(plhs[2], "s", m, O.s); }
    }
    for (int i = 0; i < std::max(1, nlhs); i++) if (plhs[i] && arrays.count(plhs[i]) && O.bad.empty() && !O.err) mxDestroyArray(plhs[i]);
    while (!arrays.empty()) { mxArray *a = nullptr; for (auto *q : arrays) if (!q->attached) { a = q; break; } if (!a) a = *arrays.begin(); if (a->attached) { arrays.erase(a); continue; } mxDestroyArray(a); }
    for (auto &x : heap) free(x.first); heap.clear(); for (void *q : inblocks) in_free(q); free(prhs); free(plhs); return O;
}
static std::map<std::string, Ans> memo; // reference answers of the current case
static std::string differ(const Out &O, const Ans &r, const Exp &E) {
    char b[200]; static const char *nm[] = {"Iterations", "ExitFlag", "Fval", "Setup_Time", "Solve_Time", "KKT_Time", "LDL_Time"}; std::vector<int> f; if (O.nlhs >= 2) f = {0, 1, 3, 4}; if (O.nlhs >= 3) f = {0, 1, 2, 3, 4, 5, 6};
    for (int i : f) if (!beq(&O.info[i], &r.info[i], 1)) { snprintf(b, 200, "%s = %.17g, the library gives %.17g", nm[i], O.info[i], r.info[i]); return b; }
    if (!beq(O.x.data(), r.x.data(), E.n)) return "solution " + vs(O.x) + ", the library gives " + vs(r.x);
    if (O.nlhs >= 3) { if (!beq(O.y.data(), r.y.data(), E.p)) return "y = " + vs(O.y) + ", the library gives " + vs(r.y); if (!beq(O.z.data(), r.z.data(), E.m)) return "z = " + vs(O.z) + ", the library gives " + vs(r.z); if (!beq(O.s.data(), r.s.data(), E.m)) return "s = " + vs(O.s) + ", the library gives " + vs(r.s); }
    return "";
}
#ifdef MEXMODE
// the settings printed before the iterations are those in force
static std::string setline(const Ans &r, const Conf &c) {
    static const char *nm[] = {"Maximum Iterations", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE"};
    for (int i = 0; i < 5; i++) { double want = i < 4 ? r.info[7 + i] : c.vb; size_t at = printed.find(nm[i]); char b[200]; if (at == std::string::npos) { snprintf(b, 200, "%s is not printed", nm[i]); return b; } at = printed.find(':', at); if (at == std::string::npos) return "settings without values"; double v = strtod(printed.c_str() + at + 1, nullptr); if (!(v == want || std::fabs(v - want) <= 1e-6 * std::fabs(want))) { snprintf(b, 200, "%s is printed as %g, the value in force is %.17g", nm[i], v, want); return b; } }
    size_t at = printed.find("Permutation vector"); if (at == std::string::npos || (printed.substr(at, 45).find("User") != std::string::npos) != c.perm) return "the origin of the permutation is printed wrongly"; return "";
}
#endif
// calls the gateway once (or twice, the second time with write-protected inputs) and judges the outcome
static void judge(int nlhs, const std::vector<Spec> &a, int modes = 3) {
    Exp E = expect(nlhs, a); count("evaluations");
    for (int ro = 0; ro < 2; ro++) if (modes >> ro & 1) {
        detail("%d outputs, arguments (%s)", nlhs, show_args(a).substr(0, 340).c_str()); Out O = call(nlhs, a, E.n, E.m, E.p, ro); count("transitions"); std::string ar = show_args(a);
        auto bad = [&](const std::string &m) { violation("%s | %d outputs, arguments (%s)", m.c_str(), nlhs, ar.c_str()); };
        if (O.bad.size()) { bad(O.bad); return; }
        if (nlhs == 0) { if (O.err || solves) bad("a call without outputs should only print the help text"); else if (printed.find("qpSWIFT") == std::string::npos) bad("a call without outputs printed no help"); count("help_calls"); continue; }
        if (O.err) { if (!E.err) bad("documented arguments were rejected: " + errtext); count("rejected"); continue; }
        if (!E.ok) { bad("arguments that are not documented (" + E.why + ") were accepted"); return; }
        if (solves != 1) { char t[80]; snprintf(t, 80, "%ld solves in one call", solves); bad(t); return; }
        std::string d; bool pr = false, quiet = false; for (auto &c : E.c) { Ans r = reference(E, c); d = differ(O, r, E); if (d.empty() && c.vb > 0 && printed.size()) d = setline(r, c); if (d.empty()) { (c.vb > 0 ? pr : quiet) = true; if (r.info[0] > 0 && !ro) count("nontrivial"); } }
        if (!pr && !quiet) { bad(d); return; }
        if (printed.size() ? !pr : !quiet) { bad(printed.size() ? "printed text although no printing was asked for" : "printed nothing although printing was asked for"); return; }
        count("solved");
    }
}
// ---------------------------------------------------------------- menus
static Spec dense(V v, std::vector<size_t> d) { Spec s; s.v = v; s.d = d; return s; }
static Spec sparse_(const V &rowmajor, size_t r, size_t c) { Spec s; s.sparse = true; s.d = {r, c}; s.v.resize(r * c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) s.v[j * r + i] = rowmajor[i * c + j]; return s; }
static Spec sc_(double v) { return dense({v}, {1, 1}); }
static Spec str_() { Spec s; s.cls = mxSTRUCT_CLASS; s.d = {1, 1}; return s; }
static Spec col(const V &v) { return dense(v, {v.size(), 1}); } static Spec row(const V &v) { return dense(v, {1, v.size()}); }
static std::vector<Spec> base(const Prob &q, bool eq, bool opts) { std::vector<Spec> a = {sparse_(q.P, q.n, q.n), col(q.c)}; if (eq) { a.push_back(sparse_(q.A, q.p, q.n)); a.push_back(col(q.b)); } a.push_back(sparse_(q.G, q.m, q.n)); a.push_back(col(q.h)); if (opts) a.push_back(str_()); return a; }
static Spec cls(Spec s, int c) { s.cls = c; return s; }
static Spec resize(const Spec &s, size_t r, size_t c) { Spec o = s; o.d = {r, c}; o.v.assign(r * c, 0); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) o.v[j * r + i] = i < s.d[0] && j < s.d[1] ? s.v[j * s.d[0] + i] : (double)((i * 3 + j) % 3); return o; }
static std::vector<Spec> matmenu(const Spec &s) { size_t r = s.d[0], c = s.d[1]; Spec dn = s; dn.sparse = false; Spec cx = s; cx.cplx = true; std::vector<Spec> M = {s, dn, cx, cls(s, mxLOGICAL_CLASS), cls(dn, mxSINGLE_CLASS), cls(dn, mxINT32_CLASS), cls(dn, mxCELL_CLASS), cls(dn, mxSTRUCT_CLASS), cls(dn, mxCHAR_CLASS), cls(dn, mxLOGICAL_CLASS), resize(s, r + 1, c), resize(s, r - 1, c), resize(s, r, c + 1), resize(s, r, c - 1), resize(s, c, r), resize(s, 0, 0), resize(s, 0, c), resize(s, r, 0), resize(s, r + 1, c + 1), resize(s, r - 1, c - 1)};
    Spec t = dn; t.d = {r, c, 2}; t.v.resize(2 * r * c, 1); M.push_back(t); Spec z = s; std::fill(z.v.begin(), z.v.end(), 0); M.push_back(z); Spec dc = dn; dc.cplx = true; M.push_back(dc); return M; }
static std::vector<Spec> vecmenu(const Spec &s) { size_t k = s.ne(); Spec cx = s; cx.cplx = true; Spec sp = s; sp.sparse = true; std::vector<Spec> M = {s, row(s.v), sp, cx, cls(s, mxSINGLE_CLASS), cls(s, mxINT32_CLASS), cls(s, mxLOGICAL_CLASS), cls(s, mxCELL_CLASS), cls(s, mxSTRUCT_CLASS), cls(s, mxCHAR_CLASS), resize(s, k + 1, 1), resize(s, k - 1, 1), resize(s, 1, k + 1), resize(s, k, 2), resize(s, 2, k), resize(s, 0, 0), resize(s, 0, 1), resize(s, 1, 0), resize(s, 1, 1), resize(s, k, 0), resize(s, 0, k), cls(s, mxINT64_CLASS), cls(s, mxUINT8_CLASS)};
    for (auto d : std::vector<std::vector<size_t>>{{k, 1, 2}, {1, k, 2}, {1, 1, k}, {k, 1, 0}}) { Spec t = s; t.d = d; t.v.resize(t.ne(), 1); if (d[2] != 1) M.push_back(t); } Spec sc = sp; sc.cplx = true; M.push_back(sc); Spec ni = s; if (k) ni.v[0] = NAN; M.push_back(ni); if (k) ni.v[0] = INFINITY; M.push_back(ni); return M; }
static std::vector<Spec> optmenu() { Spec e = str_(), e0 = e; e0.d = {0, 0}; Spec e2 = e; e2.d = {1, 2}; Spec f = e; f.f = {{"MAXITER", sc_(3)}}; Spec g = f; g.f.push_back({"unrelated", sc_(7)}); Spec f2 = f; f2.d = {1, 2}; Spec f0 = f; f0.d = {0, 0}; Spec em = dense({}, {0, 0}); Spec sp = sparse_({1, 0, 2, 3}, 2, 2); Spec se = sp; se.d = {0, 0}; se.v.clear();
    Spec ch = cls(dense({77, 65}, {1, 2}), mxCHAR_CLASS), ce = cls(dense({}, {1, 1}), mxCELL_CLASS), ce0 = cls(dense({}, {0, 0}), mxCELL_CLASS), fu = cls(dense({}, {1, 1}), mxFUNCTION_CLASS); return {e, f, g, e0, e2, f2, f0, em, se, sc_(5), sc_(0), sp, ch, ce, ce0, fu, cls(sc_(1), mxLOGICAL_CLASS), col({1, 2, 3}), cls(sc_(3), mxINT32_CLASS)}; }
struct ON { const char *up, *lo; V v; };
static std::vector<ON> ONS = {{"MAXITER", "maxiter", {-1, -0.5, -0.0, 0, 1, 2, 2.5, 7, 100, 199.5, 200, 200.5, 201, 1e10, 1e300, NAN, INFINITY, -INFINITY}}, {"ABSTOL", "abstol", {-1, -1e-300, -0.0, 0, 1e-300, 1e-9, 0.01, 1, 1 + 2.3e-16, 1.1, NAN, INFINITY, -INFINITY}}, {"RELTOL", "reltol", {-1, -1e-300, -0.0, 0, 1e-300, 1e-9, 0.01, 1, 1 + 2.3e-16, 1.1, NAN, INFINITY, -INFINITY}},
    {"SIGMA", "sigma", {-1, -1e-300, -0.0, 0, 1e-9, 0.3, 1, 100, 1e6, INFINITY, NAN, -INFINITY}}, {"VERBOSE", "verbose", {-1, -0.25, -0.0, 0, 1, 2, 3, NAN, -INFINITY}}};
static std::vector<Spec> valmenu(const ON &o) { std::vector<Spec> M; for (double v : o.v) M.push_back(sc_(v)); for (double v : {1.0, 0.0}) { for (int c : {(int)mxINT32_CLASS, (int)mxSINGLE_CLASS, (int)mxLOGICAL_CLASS, (int)mxINT64_CLASS, (int)mxUINT8_CLASS, (int)mxCHAR_CLASS, (int)mxCELL_CLASS, (int)mxSTRUCT_CLASS, (int)mxFUNCTION_CLASS}) M.push_back(cls(sc_(v), c)); Spec s = sc_(v); s.sparse = true; M.push_back(s); s = sc_(v); s.cplx = true; M.push_back(s); M.push_back(row({v, 2})); M.push_back(dense({v, 2, 3, 4}, {2, 2})); } M.push_back(dense({}, {0, 0})); M.push_back(dense({}, {1, 0})); M.push_back(cls(dense({}, {0, 0}), mxCHAR_CLASS)); M.push_back(cls(dense({}, {0, 0}), mxINT32_CLASS)); Spec es = dense({}, {0, 0}); es.sparse = true; M.push_back(es); M.push_back(cls(sc_(-1), mxSINGLE_CLASS)); M.push_back(cls(sc_(-3), mxINT32_CLASS)); return M; }
#endif
// ---------------------------------------------------------------- model of Simulink's side of an S-function
extern "C" {
int ssm_num(SimStruct *S, int out, int k) { if (k < 0 || k > SSP) return 0; (out ? S->nout : S->nin) = k; return 1; }
int ssm_width(SimStruct *S, int out, int p) { if (p < 0 || p >= (out ? S->nout : S->nin)) { mis("width of port %d that does not exist", p); return 0; } return out ? S->out[p].width : S->in[p].width; }
int ssm_setwidth(SimStruct *S, int out, int p, int w) { if (p < 0 || p >= (out ? S->nout : S->nin)) { mis("width set for port %d that does not exist", p); return 0; } if (out) { S->out[p].width = w; S->out[p].declared = 1; } else { S->in[p].width = w; S->in[p].declared = 1; } return 1; }
int ssm_dims(SimStruct *S, int out, int p, const DimsInfo_T *d) { return ssm_setwidth(S, out, p, d->width); }
static int dummy_flag; int *ssm_flag(SimStruct *S, int which, int p) { if (p < 0 || p >= S->nin) { mis("flag of input port %d that does not exist", p); return &dummy_flag; } return which ? &S->in[p].contig : &S->in[p].direct; }
const int *ssm_getdims(SimStruct *S, int out, int p) { return out ? &S->out[p].width : &S->in[p].width; }
static bool usable(SimStruct *S, int p) { if (p < 0 || p >= S->nin) { mis("input port %d does not exist", p); return false; } if (S->phase != 4) { mis("input signal accessed outside the output method"); return false; } if (!S->in[p].direct) { mis("input port %d is read in the output method without direct feedthrough", p); return false; } return true; }
InputRealPtrsType ssm_ptrs(SimStruct *S, int p) { if (!usable(S, p)) return nullptr; if (S->in[p].contig) { mis("signal pointers requested for port %d, which requires a contiguous signal", p); return nullptr; } return S->in[p].ptrs; }
const real_T *ssm_sig(SimStruct *S, int p) { if (!usable(S, p)) return nullptr; if (!S->in[p].contig) { mis("contiguous signal requested for port %d without requiring contiguity", p); return nullptr; } return S->in[p].data; }
real_T *ssm_out(SimStruct *S, int p) { if (p < 0 || p >= S->nout) { mis("output port %d does not exist", p); return nullptr; } return S->out[p].data; }
void *ssm_work(SimStruct *S, int k) { if (k == 0 && !S->rw) S->rw = (real_T *)calloc(S->nrw + 1, 8); if (k == 1 && !S->iw) S->iw = (int *)calloc(S->niw + 1, 4); if (k == 2 && !S->pw) S->pw = (void **)calloc(S->npw + 1, 8); return k == 0 ? (void *)S->rw : k == 1 ? (void *)S->iw : (void *)S->pw; }
#define DECL(b, v) void b##_call_##v(SimStruct *, int, int, const DimsInfo_T *);
#define DECLS(b) DECL(b, 3) DECL(b, 1) DECL(b, 2) DECL(b, 5)
DECLS(qpSWIFT_sfunc) DECLS(qpSWIFT_sfunc_e)
}
typedef void (*blk_t)(SimStruct *, int, int, const DimsInfo_T *);
static blk_t BLK[2][4] = {{qpSWIFT_sfunc_call_3, qpSWIFT_sfunc_call_1, qpSWIFT_sfunc_call_2, qpSWIFT_sfunc_call_5}, {qpSWIFT_sfunc_e_call_3, qpSWIFT_sfunc_e_call_1, qpSWIFT_sfunc_e_call_2, qpSWIFT_sfunc_e_call_5}};
static int NVS[4] = {3, 1, 2, 5};
struct Block { // one simulation of one block
    SimStruct S; int eq, nv; blk_t f; bool scat; std::string err;
    Block(int e, int v, long n, long m, long p, bool scattered) : eq(e), nv(0), f(BLK[e][v]), scat(scattered) {
        memset(&S, 0, sizeof S); misuse.clear(); S.phase = 1; f(&S, 0, 0, nullptr); int want = e ? 6 : 4; if (S.err) { err = S.err; return; } if (S.nin != want || S.nout != 5) { err = "the block does not have its documented ports"; return; }
        long w4[] = {n * n, n, m * n, m}, w6[] = {n * n, n, p * n, p, m * n, m}; long *w = e ? w6 : w4; S.phase = 2;
        for (int i = 0; i < want; i++) { if (S.in[i].width == DYNAMICALLY_SIZED) { int d = (int)w[i]; DimsInfo_T D = {d, 1, &d, nullptr}; f(&S, 2, i, &D); } if (S.in[i].width != w[i]) { err = "an input port does not take the size of its signal"; return; } }
        for (int i = 0; i < 5; i++) if (S.out[i].width < 1) { err = "an output port has no size"; return; } nv = S.out[0].width; for (int i = 1; i < 5; i++) if (S.out[i].width != 1) { err = "a scalar output port is not scalar"; return; }
        f(&S, 1, 0, nullptr); S.phase = 3; f(&S, 4, 0, nullptr); f(&S, 5, 0, nullptr); if (S.err) err = S.err;
    }
    // returns what is wrong, if anything
    std::string step(const Prob &q) {
        if (!err.empty()) return err; auto cm = [](const V &M, int r, int c) { V o(M.size()); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[(size_t)j * r + i] = M[(size_t)i * c + j]; return o; };
        std::vector<V> sig = eq ? std::vector<V>{cm(q.P, q.n, q.n), q.c, cm(q.A, q.p, q.n), q.b, cm(q.G, q.m, q.n), q.h} : std::vector<V>{cm(q.P, q.n, q.n), q.c, cm(q.G, q.m, q.n), q.h};
        Ans r; r.x.resize(q.n); r.y.resize(q.p + 1); r.z.resize(q.m); r.s.resize(q.m); { std::vector<V> t = sig; ref_dense(q.n, q.m, eq ? q.p : 0, t[0].data(), eq ? t[2].data() : 0, t[eq ? 4 : 2].data(), t[1].data(), t[eq ? 5 : 3].data(), eq ? t[3].data() : 0, r.x.data(), r.y.data(), r.z.data(), r.s.data(), r.info); }
        std::string bad; std::vector<void *> mem; use_arena = !scat; if (!use_arena) {} else { if (!arena) { void *p = in_alloc(1); (void)p; } atop = arena; }
        misuse.clear();
        for (int i = 0; i < S.nin; i++) { double *d = (double *)in_alloc(sig[i].size() * 8); mem.push_back(d); memcpy(d, sig[i].data(), sig[i].size() * 8); S.in[i].data = d; const real_T **pp = (const real_T **)in_alloc(sig[i].size() * 8); mem.push_back(pp); for (size_t k = 0; k < sig[i].size(); k++) { if (scat) { double *e = (double *)in_alloc(8); mem.push_back(e); *e = sig[i][k]; pp[k] = e; } else pp[k] = d + k; } S.in[i].ptrs = pp; }
        for (int i = 0; i < 5; i++) { S.out[i].data = (double *)malloc(S.out[i].width * 8); for (int k = 0; k < S.out[i].width; k++) S.out[i].data[k] = -987654321.25; }
        reads = 0; solves = 0; long left = 0; arena_lock(); vclock = true; S.phase = 4;
#ifdef MEXMODE
        heap.clear(); printed.clear(); bool esc_ = false; if (!setjmp(esc)) { f(&S, 6, 0, nullptr); f(&S, 7, 0, nullptr); } else esc_ = true; left = heap.size(); if (esc_) bad = "error raised in the output method";
#else
        { acctn::live.clear(); acctn::In in(1); f(&S, 6, 0, nullptr); f(&S, 7, 0, nullptr); } left = acctn::outstanding(1);
#endif
        S.phase = 3; vclock = false; arena_unlock();
        if (S.err) bad = std::string("block reported: ") + S.err; if (!misuse.empty()) bad = misuse; if (bad.empty() && left && !S.npw && !S.ud) { char b[80]; snprintf(b, 80, "%ld blocks of memory were not released in this step", left); bad = b; }
        if (bad.empty()) { V o[5]; for (int i = 0; i < 5; i++) o[i].assign(S.out[i].data, S.out[i].data + S.out[i].width); char b[200]; static const char *nm[] = {"x", "exitflag", "iter", "tsetup", "tsolve"}; double want[] = {0, r.info[1], r.info[0], r.info[3], r.info[4]};
            for (int i = 1; i < 5 && bad.empty(); i++) if (!beq(o[i].data(), want + i, 1)) { snprintf(b, 200, "output %s = %.17g, the library gives %.17g", nm[i], o[i][0], want[i]); bad = b; }
            if (bad.empty() && !beq(o[0].data(), r.x.data(), std::min<long>(nv, q.n))) bad = "output x = " + vs(o[0]) + ", the library gives " + vs(r.x); }
        for (int i = 0; i < S.nin && bad.empty(); i++) { if (memcmp(S.in[i].data, sig[i].data(), sig[i].size() * 8)) bad = "an input signal was modified"; for (size_t k = 0; k < sig[i].size(); k++) if (memcmp(S.in[i].ptrs[k], &sig[i][k], 8)) bad = "an input signal was modified"; }
        if (r.info[0] > 0) count("nontrivial"); count("transitions");
        for (void *p : mem) in_free(p); for (int i = 0; i < 5; i++) { free(S.out[i].data); S.out[i].data = nullptr; }
#ifdef MEXMODE
        for (auto &x : heap) free(x.first); heap.clear();
#endif
        return bad;
    }
    std::string end() { S.phase = 5; f(&S, 8, 0, nullptr); free(S.rw); free(S.iw); free(S.pw); return misuse; }
};
static Prob vary(const Prob &q, int k) { // another problem of the same shape
    Prob r = q; r.hasopt = false; char t[40]; snprintf(t, 40, " variation %d", k); r.tag += t; if (k == 0) return q; if (k == 1) for (auto &x : r.c) x = -x + 0.5; if (k == 2) { for (size_t i = 0; i < r.h.size(); i++) r.h[i] += 1 + (double)i; for (auto &x : r.b) x *= 2; } if (k == 3) { for (int i = 0; i < r.n; i++) r.P[(size_t)i * r.n + i] += 1; for (auto &x : r.G) x = -x; } if (k == 4) { std::fill(r.P.begin(), r.P.end(), 0); for (auto &x : r.h) x = -1; } if (k == 5) { r.c[0] = NAN; } return r; }
int main(int argc, char **argv) {
    load_ref();
    static std::vector<Prob> B; // distinct n, m, p
    { Prob q; q.tag = "n3m4p2"; q.n = 3; q.m = 4; q.p = 2; q.P = {4, 1, 0, 1, 3, 0, 0, 0, 2}; q.c = {-1, 2, -3}; q.G = {1, 0, 0, 0, 1, 1, -1, 0, 2, 0, -1, 0}; q.h = {1, 2, 3, 4}; q.A = {1, 1, 1, 0, 1, -1}; q.b = {1, 0.25}; B.push_back(q);
      q = Prob(); q.tag = "n2m1p1"; q.n = 2; q.m = 1; q.p = 1; q.P = {2, 0, 0, 1}; q.c = {1, -1}; q.G = {1, 2}; q.h = {1}; q.A = {1, -1}; q.b = {0.5}; B.push_back(q);
      q = Prob(); q.tag = "n1m2p1"; q.n = 1; q.m = 2; q.p = 1; q.P = {1}; q.c = {-1}; q.G = {1, -1}; q.h = {2, 3}; q.A = {2}; q.b = {1}; B.push_back(q);
      q = Prob(); q.tag = "n2m2p2"; q.n = q.m = q.p = 2; q.P = {3, 1, 1, 2}; q.c = {1, 2}; q.G = {1, 0, 0, -1}; q.h = {5, 6}; q.A = {1, 2, 3, 5}; q.b = {1, 2}; B.push_back(q); }
    std::vector<Family> F; static std::vector<Prob> C = catalogue(true); C.push_back(structured(2, 7, 1)); 
#ifdef MEXMODE
    static const int FORMS[4][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}};
    { auto menu = [](const std::vector<Spec> &a, bool eq, int i) { if (i == (eq ? 6 : 4)) return optmenu(); bool mat = eq ? i == 0 || i == 2 || i == 4 : i == 0 || i == 2; return mat ? matmenu(a[i]) : vecmenu(a[i]); };
      // every argument count with every number of outputs
      F.push_back({"counts", [](bool) { return (long)B.size() * 6 * 10 * 2; }, [](long k) { const Prob &q = B[k % B.size()]; k /= B.size(); int nl = k % 6; k /= 6; int nr = k % 10; bool eq = k / 10; auto a = base(q, eq, true); while ((int)a.size() < nr) a.push_back(sc_(1)); a.resize(nr); judge(nl, a); }, 16});
      // every class of one, two (thorough: three) arguments
      F.push_back({"shapes", [](bool) { return (long)B.size() * 4 * 7 * 7 * 32; }, [=](long k) {
          const Prob &q = B[k % B.size()]; k /= B.size(); const int *fo = FORMS[k % 4]; k /= 4; auto a = base(q, fo[0], fo[1]); int i = k % 7; k /= 7; int j = k % 7; k /= 7; if (i > j || j >= (int)a.size()) return;
          auto mi = menu(a, fo[0], i), mj = menu(a, fo[0], j); if (k >= (long)mi.size()) return;
          for (size_t t = 0; t < (i == j ? 1 : mj.size()); t++) { auto b = a; b[i] = mi[k]; if (i != j) b[j] = mj[t]; judge(1 + (int)(k + t) % 3, b); if (viol_in_case) return;
              if (thorough && i != j) for (int l = j + 1; l < (int)a.size(); l++) { auto ml = menu(a, fo[0], l); for (auto &x : ml) { auto c = b; c[l] = x; judge(1 + (int)(k + t) % 3, c, 1); if (viol_in_case) return; } } } }, 4});
      // single options: every name x every value; pairs of options
      F.push_back({"option-values", [](bool) { return (long)B.size() * 2 * 2 * (long)ONS.size(); }, [](long k) { const Prob &q = B[k % B.size()]; k /= B.size(); bool eq = k & 1; bool lo = k & 2; auto &o = ONS[k / 4]; for (auto &v : valmenu(o)) for (int nl = 1; nl <= 3; nl++) { auto a = base(q, eq, true); a.back().f.push_back({lo ? o.lo : o.up, v}); judge(nl, a); if (viol_in_case) return; } }, 1});
      F.push_back({"option-pairs", [](bool) { return (long)B.size() * 2 * 4 * 5 * 5; }, [](long k) { const Prob &q = B[k % B.size()]; k /= B.size(); bool eq = k & 1; int cs = (k >> 1) & 3; k >>= 3; int i = k % 5, j = k / 5; if (i == j) return; auto mi = valmenu(ONS[i]), mj = valmenu(ONS[j]); for (size_t s = 0; s < mi.size(); s++) for (size_t t = 0; t < mj.size(); t++) { if (!thorough && (s * 7 + t * 3 + cs) % 4) continue; auto a = base(q, eq, true); a.back().f.push_back({cs & 1 ? ONS[i].lo : ONS[i].up, mi[s]}); a.back().f.push_back({cs & 2 ? ONS[j].lo : ONS[j].up, mj[t]}); judge(3, a, 1); if (viol_in_case) return; } }, 1});
      static const std::vector<V> PV = {{0, 1, 3, 100, 200}, {0, 1e-9, 0.01, 1}, {0, 1e-9, 0.01, 1}, {0, 0.3, 100}, {0, 1}};
      F.push_back({"option-combinations", [](bool) { return (long)B.size() * 2 * 5 * 4; }, [](long k) { const Prob &q = B[k % B.size()]; k /= B.size(); bool eq = k & 1; k >>= 1; int i0 = k % 5, i1 = k / 5; for (double rt : PV[2]) for (double sg : PV[3]) for (double vb : PV[4]) for (int mask = 0; mask < 32; mask++) { double v[] = {PV[0][i0], PV[1][i1], rt, sg, vb}; auto a = base(q, eq, true); bool dup = false; for (int o = 0; o < 5; o++) if (mask >> o & 1) a.back().f.push_back({ONS[o].up, sc_(v[o])}); else dup |= v[o] != PV[o][0]; if (dup) continue; if (mask & 1) std::reverse(a.back().f.begin(), a.back().f.end()); judge(3, a, 1); if (viol_in_case) return; } }, 1});
      // permutations
      static const char *PN[] = {"PERMUT", "permut", "Permut"};
      F.push_back({"permutations", [](bool th) { return 3L * 2 * (th ? 5040 + 120 : 120 + 120) + 24; }, [](long k) { // all permutations of small KKT systems
          std::vector<std::pair<Prob, int>> S; Prob q5 = B[3]; q5.p = 1; q5.A = {1, 2}; q5.b = {1}; Prob q7 = B[3]; q7.m = 3; q7.G = {1, 0, 0, -1, 1, 1}; q7.h = {5, 6, 2}; const Prob &q = k % 2 ? B[2] : (thorough && k >= 6 * 120) ? q7 : q5; (void)S; int N = q.n + q.m + (int)q.p; bool eq = true; std::vector<int> pm; for (int i = 0; i < N; i++) pm.push_back(i + 1); long u = k / 6; int nm = (k / 2) % 3; std::vector<int> pool = pm; pm.clear(); for (int i = N; i >= 1; i--) { int d = u % i; u /= i; pm.push_back(pool[d]); pool.erase(pool.begin() + d); }
          V v(pm.begin(), pm.end()); for (int rw = 0; rw < 2; rw++) { auto a = base(q, eq, true); a.back().f.push_back({PN[nm], rw ? row(v) : col(v)}); if (rw && k % 5 == 0) a.back().f.push_back({"VERBOSE", sc_(k % 2 + 1)}); judge(3, a); if (viol_in_case) return; } }, 8});
      F.push_back({"permutation-vectors", [](bool th) { return th ? 3L * 4096 : 3L * 1296; }, [](long k) { // all vectors over a small alphabet, KKT size 3 and 4
          int nm = k % 3; k /= 3; Prob q; q.n = 1; q.m = 2; q.P = {2}; q.c = {-1}; q.G = {1, -1}; q.h = {3, 1}; Prob q4 = B[2]; int Bs = thorough ? 8 : 6; static const double al[] = {0, 1, 2, 3, 4, 5, 1.5, -1};
          V v; long t = k; for (int i = 0; i < 4; i++) { v.push_back(al[t % Bs]); t /= Bs; } auto a = base(q4, true, true); a.back().f.push_back({PN[nm], col(v)}); judge(2, a, 1); if (viol_in_case) return;
          if (v[3] == 0) { V w(v.begin(), v.begin() + 3); auto b = base(q, false, true); b.back().f.push_back({PN[nm], row(w)}); judge(2, b, 1); } }, 32});
      F.push_back({"permutation-kinds", [](bool) { return (long)B.size() * 2 * 3; }, [](long k) { const Prob &q = B[k % B.size()]; k /= B.size(); bool eq = k & 1; int nm = k / 2; int N = q.n + q.m + (eq ? q.p : 0); V id; for (int i = 0; i < N; i++) id.push_back(N - i); std::vector<Spec> M = vecmenu(col(id)); for (double d : {0.5, -0.5, 1e-9, -1e-9, 1e300, (double)NAN, (double)INFINITY, -(double)INFINITY, 4294967296.0, 1.8446744073709552e19, 9.2233720368547758e18}) for (int i : {0, N - 1}) { V w = id; w[i] += d; M.push_back(col(w)); } V z = id; for (auto &x : z) x -= 1; M.push_back(col(z)); V sh = id; for (auto &x : sh) x += 0.5; M.push_back(col(sh)); for (auto &x : sh) x -= 1; M.push_back(col(sh)); V big = id; for (auto &x : big) x += 4294967296.0; M.push_back(col(big));
          for (auto &s : M) for (int nl = 1; nl <= 3; nl++) { auto a = base(q, eq, true); a.back().f.push_back({PN[nm], s}); judge(nl, a); if (viol_in_case) return; a.back().f.push_back({"MAXITER", sc_(nl == 1 ? -1 : nl == 2 ? 4 : 201)}); judge(nl, a, 1); if (viol_in_case) return; } }, 1});
      // problem data
      auto sweep = [](const Prob &q, long k) { bool eq = q.p > 0; auto a = base(q, eq, k % 3 == 1); if (k % 2) a[1] = row(q.c); if (k % 5 == 1) a[eq ? 5 : 3] = row(q.h); if (eq && k % 7 < 3) a[3] = row(q.b); if (k % 3 == 1 && k % 4 == 0) { int N = q.n + q.m + q.p; V pm; for (int i = 0; i < N; i++) pm.push_back((i + k / 12) % N + 1); a.back().f.push_back({"PERMUT", col(pm)}); } judge(k % 4 == 1 ? 1 : k % 4 == 2 ? 2 : 3, a, k % 16 == 0 ? 3 : 1); };
      F.push_back({"catalogue", [](bool) { return (long)C.size() * 24; }, [=](long k) { const Prob &q = C[k / 24]; if (!q.m) return; sweep(q, k % 24); sample("gateway call for " + show(q)); }, 1});
      static auto *U1 = new Universe(2, 1, 1, -1, 1); static auto *U2 = new Universe(1, 2, 0, -1, 1); static auto *U3 = new Universe(2, 2, 0, -1, 1);
      F.push_back({"n2m1p1", [](bool th) { return U1->size() / (th ? 1 : 8); }, [=](long k) { sweep(from_int(U1->get(thorough ? k : k * 8 + k % 8)), k); }, 128});
      F.push_back({"n1m2", [](bool) { return U2->size(); }, [=](long k) { sweep(from_int(U2->get(k)), k); }, 64});
      F.push_back({"n2m2", [](bool th) { return U3->size() / (th ? 1 : 64); }, [=](long k) { sweep(from_int(U3->get(thorough ? k : k * 64 + k % 64)), k); }, 128});
      { static std::vector<SCase> SW = sweep_menu(false); F.push_back({"sizes", [](bool) { return (long)SW.size(); }, [=](long k) { auto &s = SW[k]; Prob q = structured(s.kind, s.N, s.pat); if (!q.m || q.n > 300) return; sample(q.tag); sweep(q, s.N <= 150 ? k : k - k % 12 + k % 4); }, 4}); }
      // special values in every position of every argument
      F.push_back({"special-values", [](bool) { long k = 0; for (auto &q : B) k += special_count(q); return k * 2; }, [](long k) { bool eq = k & 1; k >>= 1; size_t i = 0; while (k >= special_count(B[i])) k -= special_count(B[i++]); Prob q = special(B[i], k); auto a = base(q, eq, k % 3 == 0); if (k % 2) a[1] = row(q.c); judge(3, a); if (!viol_in_case) judge(1 + k % 2, a, 1); }, 16});
      // sequences of calls
      F.push_back({"call-sequences", [](bool th) { return th ? 10000L : 1000L; }, [](long k) { std::string w; for (int s = 0; s < (thorough ? 4 : 3); s++) { int t = k % 10; k /= 10; auto a = base(B[t % 4], t < 5, true); int nl = 1 + t % 3; if (t == 5) a[0].sparse = false; if (t == 6) a.back().f.push_back({"RELTOL", sc_(2)}); if (t == 7) nl = 0; if (t == 8) a.back().f.push_back({"MAXITER", sc_(1)}); if (t == 3) { int N = B[3].n + B[3].m + B[3].p; V pm; for (int i = 0; i < N; i++) pm.push_back(N - i); a.back().f.push_back({"PERMUT", col(pm)}); } if (t == 9) { V pm(B[1].n + B[1].m, 1); a.back().f.push_back({"PERMUT", col(pm)}); } judge(nl, a, 1); if (viol_in_case) return; } }, 8});
    }
#endif
    { static std::vector<Prob> SQ; for (auto &q : C) if (q.n >= 3 && q.m && q.n <= 12) SQ.push_back(q); SQ.push_back(B[0]); static std::vector<Prob> SM; for (auto &q : C) if (q.n < 3 && q.m) SM.push_back(q); for (auto &q : B) if (q.n < 3) SM.push_back(q);
      auto strip = [](Prob q) { q.p = 0; q.A.clear(); q.b.clear(); return q; };
      auto run = [](Block &b, const Prob &q, const std::string &hist) { detail("block %s with %d outputs, %s signals, %s | %s", b.eq ? "qpSWIFT_sfunc_e" : "qpSWIFT_sfunc", b.nv, b.scat ? "scattered" : "contiguous write-protected", hist.c_str(), show(q).substr(0, 200).c_str()); std::string e = b.step(q); count("evaluations"); if (e.size()) violation("%s | %s", e.c_str(), show(q).c_str()); return e.empty(); };
      // all sequences of steps
      F.push_back({"block-steps", [](bool) { return (long)SQ.size() * 2 * 2 * 6; }, [=](long k) { int first = k % 6; k /= 6; Prob q = SQ[k % SQ.size()]; k /= SQ.size(); bool scat = k & 1; int eq = k >> 1; if (eq && !q.p) return; if (!eq) q = strip(q); int D = thorough ? 4 : 3; long tot = 1; for (int i = 1; i < D; i++) tot *= 6;
          for (long u = 0; u < tot; u++) { Block b(eq, 0, q.n, q.m, q.p, scat); long t = u; std::string h = "steps"; for (int i = 0; i < D; i++) { int v = i ? t % 6 : first; if (i) t /= 6; h += " " + std::to_string(v); if (i + 1 < D && u >= 1 && i == 0 && false) continue; if (!run(b, vary(q, v), h)) return; } std::string e = b.end(); if (e.size()) { violation("%s", e.c_str()); return; } count("traces"); if (u == 0) sample(h + " of block for " + q.tag); } }, 1});
      { static std::vector<SCase> SW = sweep_menu(false); F.push_back({"block-sizes", [](bool) { return (long)SW.size(); }, [=](long k) { auto &s = SW[k]; Prob q = structured(s.kind, s.N, s.pat); if (!q.m || q.n > 300) return; bool eq = q.p && k % 2; if (!eq) q = strip(q); sample(q.tag); Block b(eq, q.n >= 3 ? 0 : q.n == 2 ? 2 : 1, q.n, q.m, q.p, k & 1); for (int i = 0; i < 3; i++) if (!run(b, vary(q, i), "step of a large block")) return; b.end(); }, 4}); }
      // special values in every signal, between two ordinary steps
      F.push_back({"block-special-values", [=](bool) { long k = 0; for (auto &q : SM) k += special_count(q); k += special_count(B[0]); return k * 4; }, [=](long k) { bool scat = k & 1; int eq = k >> 1 & 1; k >>= 2; size_t i = 0; while (i < SM.size() && k >= special_count(SM[i])) k -= special_count(SM[i++]); Prob o = i < SM.size() ? SM[i] : B[0], q = special(o, k); if (eq && !q.p) return; if (!eq) { o = strip(o); q = strip(q); } Block b(eq, o.n >= 3 ? 0 : o.n == 2 ? 2 : 1, q.n, q.m, q.p, scat); if (b.nv > q.n) return; if (run(b, o, "first step") && run(b, q, "second step, special value")) run(b, o, "third step"); b.end(); }, 16});
      // two blocks with different sizes, interleaved
      F.push_back({"two-blocks", [](bool) { return (long)SQ.size() * SQ.size() * 4; }, [=](long k) { Prob a = SQ[k % SQ.size()]; k /= SQ.size(); Prob c = SQ[k % SQ.size()]; k /= SQ.size(); int ea = k & 1, ec = k >> 1; if ((ea && !a.p) || (ec && !c.p)) return; if (!ea) a = strip(a); if (!ec) c = strip(c); const int L = thorough ? 8 : 6; for (int w = 0; w < (1 << L); w++) { if (__builtin_popcount(w) != L / 2) continue; Block x(ea, 0, a.n, a.m, a.p, w & 1), y(ec, 0, c.n, c.m, c.p, !(w & 1)); int ia = 0, ic = 0; std::string h = "two blocks, order "; for (int i = 0; i < L; i++) { bool s = w >> i & 1; h += s ? "B" : "A"; if (!run(s ? y : x, vary(s ? c : a, (s ? ic++ : ia++) % 6), h)) return; } x.end(); y.end(); count("traces"); } }, 2});
      // other numbers of outputs
      F.push_back({"output-counts", [](bool) { return (long)(SQ.size() + SM.size()) * 4 * 2 * 2; }, [=](long k) { Prob q = k % (SQ.size() + SM.size()) < SQ.size() ? SQ[k % (SQ.size() + SM.size())] : SM[k % (SQ.size() + SM.size()) - SQ.size()]; k /= SQ.size() + SM.size(); int v = k % 4; k /= 4; bool scat = k & 1; int eq = k >> 1; if (eq && !q.p) return; if (!eq) q = strip(q); Block b(eq, v, q.n, q.m, q.p, scat); if (b.nv > q.n) return; for (int i = 0; i < 6; i++) if (!run(b, vary(q, i), "other number of outputs")) return; b.end(); }, 2});
      static auto *S3 = new Strata3(2, 2, false); static auto *U4 = new Universe(2, 1, 1, -1, 1); static auto *U5 = new Universe(1, 2, 0, -1, 1);
      F.push_back({"n3-blocks", [](bool th) { return S3->size() / (th ? 1 : 5); }, [=](long k) { Prob q = from_int(S3->get(thorough ? k : k * 5 + k % 5)); Block b(q.p > 0, 0, q.n, q.m, q.p, k & 1); run(b, q, "single step"); b.end(); }, 64});
      F.push_back({"n2-blocks", [](bool th) { return U4->size() / (th ? 1 : 8); }, [=](long k) { Prob q = from_int(U4->get(thorough ? k : k * 8 + k % 8)); Block b(1, 2, q.n, q.m, q.p, k & 1); if (b.nv > q.n) return; run(b, q, "single step"); b.end(); }, 64});
      F.push_back({"n1-blocks", [](bool th) { return U5->size(); }, [=](long k) { Prob q = from_int(U5->get(k)); Block b(0, 1, q.n, q.m, q.p, k & 1); if (b.nv > q.n) return; run(b, q, "single step"); b.end(); }, 64});
    }
    return main_(argc, argv, F);
}

/* model of the performance counter of Windows */
#ifndef MODEL_WINDOWS_H
#define MODEL_WINDOWS_H
typedef int BOOL; typedef long long LONGLONG;
typedef union { struct { unsigned LowPart; int HighPart; }; struct { unsigned LowPart; int HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
#ifdef __cplusplus
extern "C" {
#endif
BOOL QueryPerformanceFrequency(LARGE_INTEGER *); BOOL QueryPerformanceCounter(LARGE_INTEGER *);
#ifdef __cplusplus
}
#endif
#endif

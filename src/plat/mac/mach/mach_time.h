/* model of the absolute time of macOS */
#ifndef MODEL_MACH_TIME_H
#define MODEL_MACH_TIME_H
#include <stdint.h>
typedef struct mach_timebase_info { uint32_t numer, denom; } mach_timebase_info_data_t, *mach_timebase_info_t;
#ifdef __cplusplus
extern "C" {
#endif
uint64_t mach_absolute_time(void); int mach_timebase_info(mach_timebase_info_t);
#ifdef __cplusplus
}
#endif
#endif

// allocation accounting by link-time interposition (-Wl,--wrap=malloc,...): blocks allocated by library code and not yet released
#pragma once
#include <unordered_map>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#if MSAN
#include <sanitizer/msan_interface.h>
extern "C" { extern __thread unsigned long long __msan_param_tls[100]; extern __thread unsigned long long __msan_va_arg_tls[100]; }
#endif
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
namespace acctn {
inline bool on = false; inline int owner = 0; inline std::unordered_map<void *, int> live; inline long nalloc = 0, nfree = 0; inline int fill = -1;
inline void *reg(void *p, size_t n, bool f) { if (p && on) { live[p] = owner; nalloc++; if (f && fill >= 0 && n) memset(p, fill, n);
#if MSAN
    if (f) __msan_poison(p, n); else __msan_unpoison(p, n);
#endif
    } return p; }
inline long outstanding(int o) { long k = 0; for (auto &x : live) k += x.second == o; return k; }
struct In { bool o; In(int who) { o = on; on = true; owner = who;
#if MSAN
    memset(__msan_param_tls, 0, sizeof __msan_param_tls); memset(__msan_va_arg_tls, 0, sizeof __msan_va_arg_tls);
#endif
    } ~In() { on = o;
#if MSAN
    char c; __msan_unpoison(&c - 65536, 65536 + 4096); // stale shadow of the library's frames
#endif
    } };
}
#if MSAN
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
extern "C" int __sanitizer_get_ownership(const volatile void *);
inline void unpoison(void *p) { if (p && __sanitizer_get_ownership(p)) __msan_unpoison(p, __sanitizer_get_allocated_size(p)); } // the block may be handed to the (uninstrumented) harness next
#else
inline void unpoison(void *) {}
#endif
extern "C" {
inline void *aw_malloc(size_t n) { return acctn::reg(__real_malloc(n), n, true); }
void *__wrap_malloc(size_t n) { return aw_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return acctn::reg(__real_calloc(a, b), a * b, false); }
void *__wrap_realloc(void *p, size_t n) { unpoison(p); if (p) acctn::live.erase(p); return acctn::reg(__real_realloc(p, n), n, false); }
void __wrap_free(void *p) { if (p) { unpoison(p); acctn::nfree += (long)acctn::live.erase(p); } __real_free(p); }
}

// Atomic operations and locks of the code under test take a little while now and then, so that other threads come in between.
// The linker sends the calls of the instrumented code here (--wrap); the race detector sees them all the same.
#include <pthread.h>
#include <stdint.h>
#include <time.h>

static void pause_now_and_then()
{
    static thread_local uint32_t x = 0, n = 0;
    if (!x)
        x = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(&x) >> 4) | 1;
    x ^= x << 13, x ^= x >> 17, x ^= x << 5;
    if (x % (++n < 1000 ? 4 : 1024) == 0)        // (often in the beginning of a history)
    {
        timespec t = {0, static_cast<long>(x / 4 % 20000)};
        nanosleep(&t, nullptr);
    }
}
#define ATOMICS(N, T)                                                                                              \
    extern "C" T __real___tsan_atomic##N##_load(const volatile T*, int);                                           \
    extern "C" T __wrap___tsan_atomic##N##_load(const volatile T* p, int m)                                        \
    {                                                                                                              \
        pause_now_and_then();                                                                                      \
        return __real___tsan_atomic##N##_load(p, m);                                                               \
    }                                                                                                              \
    extern "C" void __real___tsan_atomic##N##_store(volatile T*, T, int);                                          \
    extern "C" void __wrap___tsan_atomic##N##_store(volatile T* p, T v, int m)                                     \
    {                                                                                                              \
        pause_now_and_then();                                                                                      \
        __real___tsan_atomic##N##_store(p, v, m);                                                                  \
    }                                                                                                              \
    extern "C" T __real___tsan_atomic##N##_exchange(volatile T*, T, int);                                          \
    extern "C" T __wrap___tsan_atomic##N##_exchange(volatile T* p, T v, int m)                                     \
    {                                                                                                              \
        pause_now_and_then();                                                                                      \
        return __real___tsan_atomic##N##_exchange(p, v, m);                                                        \
    }                                                                                                              \
    extern "C" T __real___tsan_atomic##N##_fetch_add(volatile T*, T, int);                                         \
    extern "C" T __wrap___tsan_atomic##N##_fetch_add(volatile T* p, T v, int m)                                    \
    {                                                                                                              \
        pause_now_and_then();                                                                                      \
        return __real___tsan_atomic##N##_fetch_add(p, v, m);                                                       \
    }                                                                                                              \
    extern "C" T __real___tsan_atomic##N##_fetch_sub(volatile T*, T, int);                                         \
    extern "C" T __wrap___tsan_atomic##N##_fetch_sub(volatile T* p, T v, int m)                                    \
    {                                                                                                              \
        pause_now_and_then();                                                                                      \
        return __real___tsan_atomic##N##_fetch_sub(p, v, m);                                                       \
    }                                                                                                              \
    extern "C" int __real___tsan_atomic##N##_compare_exchange_strong(volatile T*, T*, T, int, int);                \
    extern "C" int __wrap___tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int m, int f)       \
    {                                                                                                              \
        pause_now_and_then();                                                                                      \
        return __real___tsan_atomic##N##_compare_exchange_strong(p, e, v, m, f);                                   \
    }                                                                                                              \
    extern "C" int __real___tsan_atomic##N##_compare_exchange_weak(volatile T*, T*, T, int, int);                  \
    extern "C" int __wrap___tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int m, int f)         \
    {                                                                                                              \
        pause_now_and_then();                                                                                      \
        return __real___tsan_atomic##N##_compare_exchange_weak(p, e, v, m, f);                                     \
    }
ATOMICS(8, char)
ATOMICS(16, short)
ATOMICS(32, int)
ATOMICS(64, long)

extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    pause_now_and_then();
    return __real_pthread_mutex_lock(m);
}
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    const int r = __real_pthread_mutex_unlock(m);
    pause_now_and_then();
    return r;
}

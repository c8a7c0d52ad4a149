// Linked with --wrap into what is built with the race detector: every atomic operation is a
// scheduling point of the simulation (sim.hpp), except within the initialisation of static
// variables, in which other threads would wait unseen.
#define SIM_RAW __attribute__((no_sanitize("thread")))

extern "C" {
void verif_atomic_point() __attribute__((weak));
void verif_static_initialization(int) __attribute__((weak));
}

SIM_RAW static void point()
{
    if (verif_atomic_point != nullptr)
        verif_atomic_point();
}

#define SIM_ATOMICS(bits, type)                                                                    \
    extern "C" type __real___tsan_atomic##bits##_load(type const volatile *, int);                 \
    extern "C" void __real___tsan_atomic##bits##_store(type volatile *, type, int);                \
    extern "C" type __real___tsan_atomic##bits##_exchange(type volatile *, type, int);             \
    extern "C" type __real___tsan_atomic##bits##_fetch_add(type volatile *, type, int);            \
    extern "C" type __real___tsan_atomic##bits##_fetch_sub(type volatile *, type, int);            \
    extern "C" int __real___tsan_atomic##bits##_compare_exchange_strong(type volatile *, type *, type, int, int); \
    extern "C" int __real___tsan_atomic##bits##_compare_exchange_weak(type volatile *, type *, type, int, int); \
    extern "C" SIM_RAW type __wrap___tsan_atomic##bits##_load(type const volatile *p, int o)       \
    {                                                                                              \
        point();                                                                                   \
        return __real___tsan_atomic##bits##_load(p, o);                                            \
    }                                                                                              \
    extern "C" SIM_RAW void __wrap___tsan_atomic##bits##_store(type volatile *p, type v, int o)    \
    {                                                                                              \
        point();                                                                                   \
        __real___tsan_atomic##bits##_store(p, v, o);                                               \
    }                                                                                              \
    extern "C" SIM_RAW type __wrap___tsan_atomic##bits##_exchange(type volatile *p, type v, int o) \
    {                                                                                              \
        point();                                                                                   \
        return __real___tsan_atomic##bits##_exchange(p, v, o);                                     \
    }                                                                                              \
    extern "C" SIM_RAW type __wrap___tsan_atomic##bits##_fetch_add(type volatile *p, type v, int o) \
    {                                                                                              \
        point();                                                                                   \
        return __real___tsan_atomic##bits##_fetch_add(p, v, o);                                    \
    }                                                                                              \
    extern "C" SIM_RAW type __wrap___tsan_atomic##bits##_fetch_sub(type volatile *p, type v, int o) \
    {                                                                                              \
        point();                                                                                   \
        return __real___tsan_atomic##bits##_fetch_sub(p, v, o);                                    \
    }                                                                                              \
    extern "C" SIM_RAW int __wrap___tsan_atomic##bits##_compare_exchange_strong(type volatile *p, type *e, type v, int o, int f) \
    {                                                                                              \
        point();                                                                                   \
        return __real___tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f);                \
    }                                                                                              \
    extern "C" SIM_RAW int __wrap___tsan_atomic##bits##_compare_exchange_weak(type volatile *p, type *e, type v, int o, int f) \
    {                                                                                              \
        point();                                                                                   \
        return __real___tsan_atomic##bits##_compare_exchange_weak(p, e, v, o, f);                  \
    }
SIM_ATOMICS(8, unsigned char)
SIM_ATOMICS(32, unsigned int)
SIM_ATOMICS(64, unsigned long)

extern "C" int __real___cxa_guard_acquire(long *);
extern "C" void __real___cxa_guard_release(long *);
extern "C" void __real___cxa_guard_abort(long *);
extern "C" SIM_RAW int __wrap___cxa_guard_acquire(long *guard)
{
    int const first = __real___cxa_guard_acquire(guard);
    if (verif_static_initialization != nullptr)
        verif_static_initialization(first);
    return first;
}
extern "C" SIM_RAW void __wrap___cxa_guard_release(long *guard)
{
    if (verif_static_initialization != nullptr)
        verif_static_initialization(-1);
    __real___cxa_guard_release(guard);
}
extern "C" SIM_RAW void __wrap___cxa_guard_abort(long *guard)
{
    if (verif_static_initialization != nullptr)
        verif_static_initialization(-1);
    __real___cxa_guard_abort(guard);
}


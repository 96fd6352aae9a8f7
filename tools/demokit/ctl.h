// Controlled-execution runtime.
//
// Code under test is compiled with -fsanitize=thread (or with
// -fsanitize-coverage for the ASan build) but NOT linked with the sanitizer
// runtime of that name: this file's .cpp supplies the __tsan_* entry points.
// Every atomic operation (and, with a lower rate, every plain access) becomes
// a scheduling point; only one registered thread runs at a time; time is
// virtual; blocking calls (pthread mutex/cond, futex, sleeps) are emulated, so
// "nobody can run" is an exact deadlock verdict and not a timeout.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct ctl_config {
    uint64_t seed;
    int      strategy;      // 0 = random by seed, 1 = random walk, 2 = PCT, 3 = freeze one thread
    uint64_t max_points;    // bounded progress: more than this is a livelock
    int      race;          // 0 off, 1 watched ranges only, 2 whole memory
    uint64_t leap_ns;       // upper bound of random clock leaps (0 = none)
    int      single;        // no preemption (cooperative): only blocking switches
} ctl_config;

typedef struct ctl_stats {
    uint64_t points, switches, preemptions, sched_hash, vtime, leaps, accesses, syncops, spurious, blocks;
} ctl_stats;

void     ctl_init(void);                       // once per process
void     ctl_run(const ctl_config*, int n, void (*fn)(void*), void** args, ctl_stats* out);
int      ctl_active(void);                     // calling thread is controlled
void     ctl_point(void);                      // explicit scheduling point
uint64_t ctl_rnd(void);                        // deterministic random (schedule stream)
uint64_t ctl_now(void);                        // virtual or real steady clock, no advance
void     ctl_advance(uint64_t ns);             // advance virtual clock
int      ctl_tid(void);                        // controlled thread index or -1

// watched plain ranges (race level 1)
void     ctl_watch(const void* p, size_t n);
void     ctl_unwatch_all(void);

// event log: totally ordered; safe from any thread; bounded
typedef struct ctl_event { uint64_t t; int32_t kind, actor; int64_t a, b; } ctl_event;
void       ctl_log_reset(void);
uint64_t   ctl_log(int kind, int actor, int64_t a, int64_t b);
uint64_t   ctl_log_n(void);
ctl_event* ctl_log_data(void);

// failure hooks: what a failing run prints before it dies
void     ctl_set_fail_hook(void (*)(const char* kind, const char* detail));
void     ctl_fail(const char* kind, const char* fmt, ...) __attribute__((noreturn, format(printf,2,3)));
extern int ctl_force_plain;                    // >0: plain-access preemption 1 in n
#ifdef __cplusplus
}
#endif

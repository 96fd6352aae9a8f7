// Controlled-execution runtime; see ctl.h.  Compiled WITHOUT instrumentation,
// in C style: it must not share inline STL code with instrumented objects.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "ctl.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>

#define MAXT 8
#define NOINL __attribute__((noinline))
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uintptr_t uptr;

// ------------------------------------------------------------------ helpers
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void fwait(volatile int* p, int v) { raw6(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void fwake(volatile int* p) { raw6(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
static u64 real_now() { struct timespec ts; raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return (u64)ts.tv_sec * 1000000000ull + ts.tv_nsec; }

static inline u64 splitmix(u64* s) {
    u64 z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}

enum St { RUN, BL_MUTEX, BL_COND, BL_FUTEX, BL_SLEEP, DONE };
static const char* st_name[] = { "runnable", "mutex", "cond", "futex", "sleep", "done" };

struct Thr {
    int id; volatile int go; int st; void* waddr; u64 deadline; int timedout; long prio; u64 burst;
    u32 vc[MAXT]; u32 acqf[MAXT]; u32 relf[MAXT]; int has_acqf, has_relf;
    void (*fn)(void*); void* arg; pthread_t pt; u64 spins;
};
static Thr  T[MAXT];
static int  N;
static volatile int g_active;
static volatile int g_alldone;
static ctl_config C;
static ctl_stats  S;
static u64 rs;                       // schedule rng
static u64 vnow = 1000000000000ull;
static u64 vmin_deadline;
static u32 gen = 1;
static int strat; static u32 p_atomic, p_plain; static u64 jitter; static u64 leap_in;
static u64 pct_change[8]; static int pct_n; static long pct_low;
static int frozen; static u64 freeze_at, freeze_len;
static u64 burst_max;
int ctl_force_plain = 0;
static __thread Thr* self __attribute__((tls_model("initial-exec")));
static pthread_key_t exit_key;
static void (*fail_hook)(const char*, const char*);

extern "C" void ctl_set_fail_hook(void (*h)(const char*, const char*)) { fail_hook = h; }

static volatile int failing;
extern "C" void ctl_fail(const char* kind, const char* fmt, ...) {
    if (__atomic_exchange_n(&failing, 1, __ATOMIC_SEQ_CST)) { for (;;) pause(); }
    Thr* me = self; self = 0;        // everything below runs unhooked
    static char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    g_active = 0;
    fflush(stdout);
    fprintf(stderr, "CTLFAIL kind=%s tid=%d strat=%d frozen=%d patomic=%u points=%llu vtime=%llu\n%s\n", kind, me ? me->id : -1, strat, frozen, p_atomic,
            (unsigned long long)S.points, (unsigned long long)(vnow), buf);
    for (int i = 0; i < N; ++i)
        fprintf(stderr, "  thread %d: %s addr=%p deadline=%lld\n", i, st_name[T[i].st], T[i].waddr, (long long)T[i].deadline);
    void* bt[32]; int n = backtrace(bt, 32);
    fprintf(stderr, "BT"); for (int i = 0; i < n; ++i) fprintf(stderr, " %p", bt[i]); fprintf(stderr, "\n");
    if (fail_hook) fail_hook(kind, buf);
    fflush(stderr);
    _exit(77);
}

extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept { ctl_fail("assert", "assertion '%s' failed in %s (%s:%u)", e, fn, f, l); }
static void on_signal(int sig, siginfo_t* si, void*) { ctl_fail("crash", "signal %d (%s) at address %p", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort/terminate" : sig == SIGBUS ? "SIGBUS" : "other", si->si_addr); }
static void alt_stack() {
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 256 * 1024;
    ss.ss_sp = (void*)raw6(SYS_mmap, 0, (long)ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, 0);
}
static void free_alt_stack() { stack_t o, d; memset(&d, 0, sizeof d); d.ss_flags = SS_DISABLE; if (!sigaltstack(&d, &o) && o.ss_sp) raw6(SYS_munmap, (long)o.ss_sp, (long)o.ss_size, 0, 0, 0, 0); }
static void install_signals() {
#ifndef CTL_NO_MALLOC
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE }; for (int i = 0; i < 5; ++i) sigaction(sg[i], &sa, 0);
    alt_stack();
#endif
}

extern "C" int ctl_active() { return self != 0; }
extern "C" int ctl_tid() { return self ? self->id : -1; }
extern "C" u64 ctl_rnd() { return splitmix(&rs); }
extern "C" u64 ctl_now() { return self ? vnow : real_now(); }
static inline u32 rnd(u32 n) { return n ? (u32)((splitmix(&rs) >> 32) * (u64)n >> 32) : 0; }

// ------------------------------------------------------------------ event log
#define LOGMAX (1u << 20)
static ctl_event* elog; static u64 elog_n;
extern "C" void ctl_log_reset() { if (!elog) elog = (ctl_event*)mmap(0, sizeof(ctl_event) * (size_t)LOGMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); elog_n = 0; }
extern "C" u64 ctl_log(int kind, int actor, int64_t a, int64_t b) {
    u64 i = __atomic_fetch_add(&elog_n, 1, __ATOMIC_RELAXED);
    if (i < LOGMAX) { ctl_event* e = elog + i; e->t = ctl_now(); e->kind = kind; e->actor = actor; e->a = a; e->b = b; }
    return i;
}
extern "C" u64 ctl_log_n() { return elog_n < LOGMAX ? elog_n : LOGMAX; }
extern "C" ctl_event* ctl_log_data() { return elog; }

// ------------------------------------------------------------------ scheduler
static void recompute_deadline() {
    vmin_deadline = ~0ull;
    for (int i = 0; i < N; ++i) if (T[i].st > RUN && T[i].st < DONE && T[i].deadline < vmin_deadline) vmin_deadline = T[i].deadline;
}
static void make_run(Thr* t, int timedout) { t->st = RUN; t->timedout = timedout; t->deadline = ~0ull; t->waddr = 0; recompute_deadline(); }
static void fire_deadlines() {
    if (vnow < vmin_deadline) return;
    for (int i = 0; i < N; ++i) if (T[i].st > RUN && T[i].st < DONE && T[i].deadline <= vnow) make_run(&T[i], 1);
}
static void transfer(Thr* me, Thr* to) {
    if (me == to) return;
    ++S.switches; S.sched_hash = (S.sched_hash ^ (S.points * 8 + to->id)) * 0x100000001b3ull;
    // burst is not reset here: a thread interrupted again and again by short bursts of others must be demoted all the same
    __atomic_store_n(&to->go, 1, __ATOMIC_RELEASE); fwake(&to->go);
    if (me->st == DONE) return;
    while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) fwait(&me->go, 0);
    me->go = 0;
}
// choose somebody to run; me may be blocked or done
static Thr* choose(Thr* me, int avoid_me) {
    for (;;) {
        Thr* cand[MAXT]; int n = 0;
        for (int i = 0; i < N; ++i) if (T[i].st == RUN && !(avoid_me && &T[i] == me)) cand[n++] = &T[i];
        if (n) {
            if (frozen >= 0 && n > 1) { int m = 0; for (int i = 0; i < n; ++i) if (cand[i]->id != frozen) cand[m++] = cand[i]; n = m; }
            if (strat == 2) { Thr* b = cand[0]; for (int i = 1; i < n; ++i) if (cand[i]->prio > b->prio) b = cand[i]; return b; }
            return cand[rnd(n)];
        }
        if (avoid_me && me->st == RUN) return me;
        // nobody runnable: advance time
        int alldone = 1; for (int i = 0; i < N; ++i) if (T[i].st != DONE) alldone = 0;
        if (alldone) return 0;
        recompute_deadline();
        if (vmin_deadline == ~0ull)
            ctl_fail("stall", "every controlled thread is blocked without a deadline: a wakeup was lost or a wait can never end");
        if (vmin_deadline > vnow) vnow = vmin_deadline;
        fire_deadlines();
    }
}
static void NOINL do_point(Thr* me, int plain) {
    ++S.points; ++me->burst;
    if (S.points > C.max_points) ctl_fail("livelock", "no completion within %llu scheduling points", (unsigned long long)C.max_points);
    if (leap_in && --leap_in == 0) { vnow += rnd((u32)C.leap_ns) + 1; ++S.leaps; leap_in = 1 + rnd(4000); }
    fire_deadlines();
    if (N < 2 || C.single) return;
    int sw = 0;
    if (strat == 2) {
        for (int i = 0; i < pct_n; ++i) if (pct_change[i] == S.points) me->prio = --pct_low;
        if (me->burst > burst_max) { me->prio = --pct_low; me->burst = 0; burst_max = 200 + rnd(4000); }
        Thr* t = choose(me, 0); if (t != me) { ++S.preemptions; transfer(me, t); }
        return;
    }
    if (strat == 3) {
        if (frozen < 0 && S.points == freeze_at) { frozen = me->id; sw = 1; }
        else if (frozen >= 0 && S.points > freeze_at + freeze_len) { frozen = -1; freeze_at = S.points + 1 + rnd(3000); freeze_len = 50 + rnd(3000); }
    }
    if (!sw) sw = rnd(1u << 16) < (plain ? p_plain : p_atomic);
    if (sw) { Thr* t = choose(me, 0); if (t != me) { ++S.preemptions; transfer(me, t); } }
}
static inline void point(Thr* me) { do_point(me, 0); }
extern "C" void ctl_point() { if (self) point(self); }
extern "C" void ctl_advance(u64 ns) { if (self) { vnow += ns; fire_deadlines(); } }
static void sb_flush_n(Thr* t, u32 k);
static void spin(Thr* me) {
    if (C.tso) sb_flush_n(me, 99);
    ++S.points; ++me->spins; vnow += 50 + rnd(200); fire_deadlines();
    if (S.points > C.max_points) ctl_fail("livelock", "no completion within %llu scheduling points (spinning)", (unsigned long long)C.max_points);
    if (strat == 2) me->prio = --pct_low;
    Thr* t = choose(me, 1); if (t != me) transfer(me, t);
}
static void block(Thr* me, int st, void* a, u64 deadline) {
    if (C.tso) sb_flush_n(me, 99);
    ++S.blocks; me->st = st; me->waddr = a; me->deadline = deadline; me->timedout = 0;
    if (deadline < vmin_deadline) vmin_deadline = deadline;
    Thr* t = choose(me, 0); transfer(me, t);
}
static void wake_addr(int st, void* a, int max) {
    while (max-- > 0) {
        Thr* c[MAXT]; int n = 0;
        for (int i = 0; i < N; ++i) if (T[i].st == st && T[i].waddr == a) c[n++] = &T[i];
        if (!n) return;
        make_run(c[rnd(n)], 0);
    }
}

// ------------------------------------------------------------------ HB engine
static void vc_join(u32* a, const u32* b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
struct Sync { uptr addr; u32 gen; u32 vc[MAXT]; };
#define NSYNC (1u << 15)
static Sync* syncs;
static Sync* sync_get(uptr a, int create) {
    u32 h = (u32)((a >> 2) * 0x9e3779b97f4a7c15ull >> 40) & (NSYNC - 1);
    for (u32 i = 0; i < NSYNC; ++i, h = (h + 1) & (NSYNC - 1)) {
        Sync* s = &syncs[h];
        if (s->gen != gen) { if (!create) return 0; s->gen = gen; s->addr = a; memset(s->vc, 0, sizeof s->vc); return s; }
        if (s->addr == a) return s;
    }
    return 0;
}
static void hb_acquire(Thr* t, uptr a) { Sync* s = sync_get(a, 0); if (s) vc_join(t->vc, s->vc); ++S.syncops; }
static void hb_release(Thr* t, uptr a, int join) {
    Sync* s = sync_get(a, 1); if (!s) return; ++S.syncops;
    if (!join) memset(s->vc, 0, sizeof s->vc);
    vc_join(s->vc, t->vc); ++t->vc[t->id];
}
// relaxed accesses with fences
static void hb_rlx_load(Thr* t, uptr a) { Sync* s = sync_get(a, 0); if (s) { vc_join(t->acqf, s->vc); t->has_acqf = 1; } }
static void hb_rlx_store(Thr* t, uptr a, int rmw) {
    if (t->has_relf) { Sync* s = sync_get(a, 1); if (s) { if (!rmw) memset(s->vc, 0, sizeof s->vc); vc_join(s->vc, t->relf); } }
    else if (!rmw) { Sync* s = sync_get(a, 0); if (s) memset(s->vc, 0, sizeof s->vc); }  // head of a new, empty release sequence
}

struct Slot { u32 wclk, rclk; u8 wmask, rmask, fl, pad; u32 wpc, rpc; };   // fl bit0: write atomic, bit1: read atomic
struct Blk { uptr key; u32 gen; Slot s[64][6]; };
#define NBLK (1u << 14)
static Blk** blks; static u32 nblk_used;
static Blk* blk_get(uptr key, int create) {
    u32 h = (u32)(key * 0x9e3779b97f4a7c15ull >> 40) & (NBLK - 1);
    for (u32 i = 0; i < NBLK; ++i, h = (h + 1) & (NBLK - 1)) {
        Blk* b = blks[h];
        if (!b) {
            if (!create) return 0;
            b = (Blk*)raw6(SYS_mmap, 0, (long)sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            blks[h] = b; b->gen = 0;
        }
        if (b->gen != gen) { if (!create) return 0; memset(b->s, 0, sizeof b->s); b->gen = gen; b->key = key; return b; }
        if (b->key == key) return b;
    }
    return 0;
}
// shadow of memory nobody may touch (freed blocks, zones around heap blocks): one bit per 8 bytes.
// Addresses are not randomised, so two windows cover heap, mappings and stacks.
#define SH_LOW (4ull << 30)
#define SH_HIGH 0x7ff000000000ull
static u8* sh_low; static u8* sh_high;
static inline u8* shp(uptr a) { if (!sh_low) return 0; if (a < SH_LOW) return sh_low + (a >> 6); if (a >= SH_HIGH && a < 0x800000000000ull) return sh_high + ((a - SH_HIGH) >> 6); return 0; }
static inline int is_bad(uptr a) { u8* p = shp(a); return p && (*p >> ((a >> 3) & 7) & 1); }
static void mark_freed(uptr a, size_t n, int on) {
    uptr w = (a + 7) & ~7ull, e = (a + n) & ~7ull;
    if (w >= e || !sh_low || !shp(w) || !shp(e - 8)) return;
    for (; w < e && (w & 63); w += 8) { u8* p = shp(w); u8 m = (u8)(1u << ((w >> 3) & 7)); if (on) *p |= m; else *p &= (u8)~m; }
    if (w < e && e - w >= 64) { size_t k = (e - w) >> 6; memset(shp(w), on ? 255 : 0, k); w += k << 6; }
    for (; w < e; w += 8) { u8* p = shp(w); u8 m = (u8)(1u << ((w >> 3) & 7)); if (on) *p |= m; else *p &= (u8)~m; }
}
static void NOINL bad_access(const char* what, uptr pc, uptr a, size_t n);
static struct { uptr lo, hi; } watch[64]; static int nwatch; static uptr wlo = ~0ul, whi = 0;
extern "C" void ctl_watch(const void* p, size_t n) {
    if (nwatch < 64) { watch[nwatch].lo = (uptr)p; watch[nwatch].hi = (uptr)p + n; ++nwatch; if ((uptr)p < wlo) wlo = (uptr)p; if ((uptr)p + n > whi) whi = (uptr)p + n; }
}
extern "C" void ctl_unwatch_all() { nwatch = 0; wlo = ~0ul; whi = 0; }
static int watched(uptr a) { if (a < wlo || a >= whi) return 0; for (int i = 0; i < nwatch; ++i) if (a >= watch[i].lo && a < watch[i].hi) return 1; return 0; }
static void race_reset(uptr a, size_t n) {
    if (C.race == 0) return;
    if (C.race == 1 && (a + n <= wlo || a >= whi)) return;
    uptr w = a >> 3, e = (a + n + 7) >> 3;
    while (w < e) {
        Blk* b = blk_get(w >> 6, 0); uptr be = ((w >> 6) + 1) << 6; if (be > e) be = e;
        if (b) memset(&b->s[w & 63], 0, (be - w) * sizeof b->s[0]);
        w = be;
    }
}
static void NOINL race_check1(Thr* t, uptr a, unsigned off, unsigned n, int write, int atomic, uptr pc) {
    Blk* b = blk_get(a >> 9, 1); if (!b) return;
    Slot* s = b->s[(a >> 3) & 63]; u8 m = (u8)(((1u << n) - 1) << off);
    for (int u = 0; u < N && u < 6; ++u) {
        if (u == t->id) continue;
        int bad = 0; u32 opc = 0;
        if (s[u].wclk > t->vc[u] && (s[u].wmask & m) && !(atomic && (s[u].fl & 1))) { bad = 1; opc = s[u].wpc; }
        else if (write && s[u].rclk > t->vc[u] && (s[u].rmask & m) && !(atomic && (s[u].fl & 2))) { bad = 2; opc = s[u].rpc; }
        if (bad) {
            ctl_fail("race", "RACE %s%s pc=%p vs earlier %s%s by thread %d pc=%p addr=%p size=%u",
                     atomic ? "atomic-" : "", write ? "write" : "read", (void*)pc,
                     (s[u].fl & (bad == 1 ? 1 : 2)) ? "atomic-" : "", bad == 1 ? "write" : "read", u, (void*)(uptr)opc, (void*)(a + off), n);
        }
    }
    Slot* me = &s[t->id]; u32 clk = t->vc[t->id];
    if (write) {
        if (me->wclk == clk && !!(me->fl & 1) == atomic) me->wmask |= m; else { me->wmask = m; me->wclk = clk; }
        me->wpc = (u32)pc; if (atomic) me->fl |= 1; else me->fl &= ~1;
    } else {
        if (me->rclk == clk && !!(me->fl & 2) == atomic) me->rmask |= m; else { me->rmask = m; me->rclk = clk; }
        me->rpc = (u32)pc; if (atomic) me->fl |= 2; else me->fl &= ~2;
    }
}
static void race_check(Thr* t, uptr a, size_t n, int write, int atomic, uptr pc) {
    if (t->id >= 6) return;
    while (n) {
        unsigned off = a & 7, k = 8 - off; if (k > n) k = (unsigned)n;
        race_check1(t, a & ~(uptr)7, off, k, write, atomic, pc);
        a += k; n -= k;
    }
}
static void sb_plain(Thr* t, uptr a, size_t n); static void sb_flush_n(Thr* t, u32 k); static int sb_any(Thr* t);
static inline void access(Thr* t, uptr a, size_t n, int write, uptr pc) {
    if (C.tso && sb_any(t)) sb_plain(t, a, n);
    if (++S.accesses > 250000000ull) ctl_fail("livelock", "no completion within %llu memory accesses", (unsigned long long)S.accesses);
    if (is_bad(a) || (n > 8 && is_bad(a + n - 1))) bad_access(write ? "write" : "read", pc, a, n);
    if (C.race == 2 || (C.race == 1 && watched(a))) {
        if (p_plain || strat == 2) {
            if (C.race == 1 || rnd(64) == 0) do_point(t, 1);
        }
        race_check(t, a, n, write, 0, pc);
    } else if (p_plain && (p_plain > 64 || rnd(16) == 0)) do_point(t, 1);
}
#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** a, void*) { Thr* t = self; if (t) access(t, (uptr)a, 8, 1, PC); }
void __tsan_vptr_read(void** a) { Thr* t = self; if (t) access(t, (uptr)a, 8, 0, PC); }
#define ACC(n) \
  void __tsan_read##n(void* a) { Thr* t = self; if (t) access(t, (uptr)a, n, 0, PC); } \
  void __tsan_write##n(void* a) { Thr* t = self; if (t) access(t, (uptr)a, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* a) { Thr* t = self; if (t) access(t, (uptr)a, n, 0, PC); } \
  void __tsan_unaligned_write##n(void* a) { Thr* t = self; if (t) access(t, (uptr)a, n, 1, PC); } \
  void __tsan_volatile_read##n(void* a) { Thr* t = self; if (t) access(t, (uptr)a, n, 0, PC); } \
  void __tsan_volatile_write##n(void* a) { Thr* t = self; if (t) access(t, (uptr)a, n, 1, PC); } \
  void __tsan_read_write##n(void* a) { Thr* t = self; if (t) { access(t, (uptr)a, n, 0, PC); access(t, (uptr)a, n, 1, PC); } } \
  void __tsan_unaligned_read_write##n(void* a) { Thr* t = self; if (t) { access(t, (uptr)a, n, 0, PC); access(t, (uptr)a, n, 1, PC); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { Thr* t = self; if (t && n) access(t, (uptr)a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { Thr* t = self; if (t && n) access(t, (uptr)a, n, 1, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { Thr* t = self; if (t && n) { access(t, (uptr)s, n, 0, PC); access(t, (uptr)d, n, 1, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { Thr* t = self; if (t && n) { access(t, (uptr)s, n, 0, PC); access(t, (uptr)d, n, 1, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { Thr* t = self; if (t && n) access(t, (uptr)d, n, 1, PC); return memset(d, c, n); }

// ---- store buffer: an atomic store weaker than seq_cst may become visible late (in order, as on x86)
struct SBent { uptr a; u64 v; u32 n; u32 vc[MAXT]; int rel; };
#define SBMAX 6
static struct { SBent e[SBMAX]; u32 n; } SB[MAXT];
}
static void sb_write(SBent* e) {
    if (is_bad(e->a)) bad_access("delayed atomic store", 0, e->a, e->n);
    switch (e->n) { case 1: __atomic_store_n((u8*)e->a, (u8)e->v, __ATOMIC_SEQ_CST); break; case 2: __atomic_store_n((uint16_t*)e->a, (uint16_t)e->v, __ATOMIC_SEQ_CST); break;
        case 4: __atomic_store_n((u32*)e->a, (u32)e->v, __ATOMIC_SEQ_CST); break; default: __atomic_store_n((u64*)e->a, e->v, __ATOMIC_SEQ_CST); }
    Sync* s = sync_get(e->a, e->rel); if (s) { memset(s->vc, 0, sizeof s->vc); if (e->rel) vc_join(s->vc, e->vc); }
}
static void NOINL sb_flush_n(Thr* t, u32 k) { u32& n = SB[t->id].n; SBent* e = SB[t->id].e; if (k > n) k = n; for (u32 i = 0; i < k; ++i) sb_write(e + i); for (u32 i = k; i < n; ++i) e[i - k] = e[i]; n -= k; }
static inline void sb_flush(Thr* t) { if (SB[t->id].n) sb_flush_n(t, SBMAX); }
static int NOINL sb_store(Thr* t, uptr a, u64 v, u32 n, int rel) {
    uptr sp = (uptr)__builtin_frame_address(0);
    if (rnd(2) || (a > sp - 512 && a < sp + 65536)) { sb_flush(t); return 0; }   // never the own stack: its memory is reused by code nobody watches
    if (SB[t->id].n == SBMAX) sb_flush_n(t, 1 + rnd(SBMAX));
    SBent* e = &SB[t->id].e[SB[t->id].n++]; e->a = a; e->v = v; e->n = n; e->rel = 0; ++S.delayed;
    if (rel) { memcpy(e->vc, t->vc, sizeof t->vc); e->rel = 1; ++t->vc[t->id]; } else if (t->has_relf) { memcpy(e->vc, t->relf, sizeof t->vc); e->rel = 1; }
    return 1;
}
static int sb_any(Thr* t) { return SB[t->id].n != 0; }
static int NOINL sb_load(Thr* t, uptr a, u32 n, u64* v) {
    SBent* e = SB[t->id].e;
    for (int i = (int)SB[t->id].n - 1; i >= 0; --i) if (a < e[i].a + e[i].n && e[i].a < a + n) { if (e[i].a == a && e[i].n == n) { *v = e[i].v; return 1; } sb_flush(t); return 0; }
    return 0;
}
static void NOINL sb_plain(Thr* t, uptr a, size_t n) { SBent* e = SB[t->id].e; for (u32 i = 0; i < SB[t->id].n; ++i) if (a < e[i].a + e[i].n && e[i].a < a + n) { sb_flush(t); return; } }
extern "C" {
// ---- atomics
enum { MO_RLX = 0, MO_CONS, MO_ACQ, MO_REL, MO_AR, MO_SC };
static inline int is_acq(int mo) { return mo == MO_ACQ || mo == MO_CONS || mo == MO_AR || mo == MO_SC; }
static inline int is_rel(int mo) { return mo == MO_REL || mo == MO_AR || mo == MO_SC; }
static void at_pre(Thr* t, uptr a, size_t n, int write, uptr pc) {
    point(t); if (SB[t->id].n && rnd(6) == 0) sb_flush_n(t, 1);
    if (is_bad(a)) bad_access(write ? "atomic write" : "atomic read", pc, a, n);
    if (C.race == 2) race_check(t, a, n, write, 1, pc);
}
static void at_load(Thr* t, uptr a, int mo) { if (is_acq(mo)) hb_acquire(t, a); else hb_rlx_load(t, a); }
static void at_store(Thr* t, uptr a, int mo) { if (is_rel(mo)) hb_release(t, a, 0); else hb_rlx_store(t, a, 0); }
static void at_rmw(Thr* t, uptr a, int mo) {
    if (is_acq(mo)) hb_acquire(t, a); else hb_rlx_load(t, a);
    if (is_rel(mo)) hb_release(t, a, 1); else hb_rlx_store(t, a, 1);
}
#define RMW(sz, ty, name, expr) \
  ty __tsan_atomic##sz##_##name(volatile ty* a, ty v, int mo) { Thr* t = self; if (t) { at_pre(t, (uptr)a, sizeof(ty), 1, PC); sb_flush(t); } \
    ty r = expr; if (t) at_rmw(t, (uptr)a, mo); return r; }
#define ATOM(sz, ty) \
  ty __tsan_atomic##sz##_load(const volatile ty* a, int mo) { Thr* t = self; if (t) { at_pre(t, (uptr)a, sizeof(ty), 0, PC); u64 bv; if (SB[t->id].n && sb_load(t, (uptr)a, sizeof(ty), &bv)) return (ty)bv; } \
    ty r = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (t) at_load(t, (uptr)a, mo); return r; } \
  void __tsan_atomic##sz##_store(volatile ty* a, ty v, int mo) { Thr* t = self; if (t) { at_pre(t, (uptr)a, sizeof(ty), 1, PC); if (C.tso) { if (mo == MO_SC) sb_flush(t); else if (sb_store(t, (uptr)a, (u64)v, sizeof(ty), is_rel(mo))) return; } at_store(t, (uptr)a, mo); } \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  RMW(sz, ty, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST)) \
  RMW(sz, ty, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST)) \
  RMW(sz, ty, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST)) \
  RMW(sz, ty, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST)) \
  RMW(sz, ty, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST)) \
  RMW(sz, ty, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST)) \
  RMW(sz, ty, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST)) \
  static int cas##sz(volatile ty* a, ty* e, ty v, int weak, int mo, int fmo, uptr pc) { Thr* t = self; \
    if (!t) return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    point(t); sb_flush(t); if (weak && rnd(64) == 0) { /* spurious failure of a weak CAS */ ty cur = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        at_load(t, (uptr)a, fmo); *e = cur; return 0; } \
    int ok = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (is_bad((uptr)a)) bad_access("atomic cas", pc, (uptr)a, sizeof(ty)); \
    if (C.race == 2) race_check(t, (uptr)a, sizeof(ty), ok, 1, pc); \
    if (ok) at_rmw(t, (uptr)a, mo); else at_load(t, (uptr)a, fmo); return ok; } \
  int __tsan_atomic##sz##_compare_exchange_strong(volatile ty* a, ty* e, ty v, int mo, int fmo) { return cas##sz(a, e, v, 0, mo, fmo, PC); } \
  int __tsan_atomic##sz##_compare_exchange_weak(volatile ty* a, ty* e, ty v, int mo, int fmo) { return cas##sz(a, e, v, 1, mo, fmo, PC); } \
  ty __tsan_atomic##sz##_compare_exchange_val(volatile ty* a, ty e, ty v, int mo, int fmo) { cas##sz(a, &e, v, 0, mo, fmo, PC); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    __atomic_thread_fence(__ATOMIC_SEQ_CST); Thr* t = self; if (!t) return; point(t); if (mo == MO_SC) sb_flush(t);
    if (is_acq(mo) && t->has_acqf) vc_join(t->vc, t->acqf);
    if (is_rel(mo)) { memcpy(t->relf, t->vc, sizeof t->vc); t->has_relf = 1; ++t->vc[t->id]; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- sanitizer-coverage front end (ASan build)
void __sanitizer_cov_trace_pc_guard(u32*) { Thr* t = self; if (t) do_point(t, 1); }
void __sanitizer_cov_trace_pc_guard_init(u32*, u32*) {}
#define COV(n) void __sanitizer_cov_load##n(void*) { Thr* t = self; if (t && p_plain) do_point(t, 1); } \
               void __sanitizer_cov_store##n(void*) { Thr* t = self; if (t && p_plain) do_point(t, 1); }
COV(1) COV(2) COV(4) COV(8) COV(16)
}

// ------------------------------------------------------------------ interposers
template <class F> static F next_sym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
typedef int (*pm_t)(pthread_mutex_t*);
static pm_t r_lock, r_trylock, r_unlock;
typedef int (*pc1_t)(pthread_cond_t*);
static pc1_t r_sig, r_bc;
static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*);
static int (*r_ctimed)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
static int (*r_cclock)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
static int (*r_once)(pthread_once_t*, void (*)());
static void resolve() {
    if (r_lock) return;
    r_trylock = next_sym<pm_t>("pthread_mutex_trylock"); r_unlock = next_sym<pm_t>("pthread_mutex_unlock");
    r_sig = next_sym<pc1_t>("pthread_cond_signal"); r_bc = next_sym<pc1_t>("pthread_cond_broadcast");
    r_cwait = next_sym<decltype(r_cwait)>("pthread_cond_wait"); r_ctimed = next_sym<decltype(r_ctimed)>("pthread_cond_timedwait");
    r_cclock = next_sym<decltype(r_cclock)>("pthread_cond_clockwait"); r_once = next_sym<decltype(r_once)>("pthread_once");
    r_lock = next_sym<pm_t>("pthread_mutex_lock");
}
static void m_lock(Thr* t, pthread_mutex_t* m) {
    sb_flush(t);
    int* o = &m->__data.__lock;
    while (*o) {
        if (*o == t->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; return; }
        if (*o == t->id + 1) ctl_fail("stall", "thread relocks a std::mutex it already holds");
        block(t, BL_MUTEX, m, ~0ull);
    }
    *o = t->id + 1; hb_acquire(t, (uptr)m);
}
static void m_unlock(Thr* t, pthread_mutex_t* m) {
    sb_flush(t);
    if (m->__data.__count) { --m->__data.__count; return; }
    m->__data.__lock = 0; hb_release(t, (uptr)m, 1); wake_addr(BL_MUTEX, m, 1);
}
static u64 ts_ns(const struct timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
static const u64 SYS_OFF = 1700000000ull * 1000000000ull;
static int c_wait(Thr* t, pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    point(t);
    m_unlock(t, m);
    int r = 0;
    if (rnd(64) == 0) { ++S.spurious; point(t); }                 // POSIX-permitted spurious wakeup
    else { block(t, BL_COND, c, deadline); r = t->timedout ? ETIMEDOUT : 0; }
    m_lock(t, m); t->timedout = 0;
    return r;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { Thr* t = self; if (!t) { resolve(); return r_lock(m); } point(t); m_lock(t, m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { Thr* t = self; if (!t) { resolve(); return r_trylock(m); } point(t); if (m->__data.__lock) return EBUSY; m_lock(t, m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { Thr* t = self; if (!t) { resolve(); return r_unlock(m); } point(t); m_unlock(t, m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { Thr* t = self; if (!t) { resolve(); return r_cwait(c, m); } return c_wait(t, c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { Thr* t = self; if (!t) { resolve(); return r_ctimed(c, m, ts); } u64 d = ts_ns(ts); return c_wait(t, c, m, d > SYS_OFF ? d - SYS_OFF : 0); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
    Thr* t = self; if (!t) { resolve(); return r_cclock(c, m, ck, ts); }
    u64 d = ts_ns(ts); if (ck == CLOCK_REALTIME) d = d > SYS_OFF ? d - SYS_OFF : 0; return c_wait(t, c, m, d);
}
int pthread_cond_signal(pthread_cond_t* c) { Thr* t = self; if (!t) { resolve(); return r_sig(c); } point(t); wake_addr(BL_COND, c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { Thr* t = self; if (!t) { resolve(); return r_bc(c); } point(t); wake_addr(BL_COND, c, MAXT); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    Thr* t = self; if (!t) { resolve(); return r_once(o, f); }
    int* s = (int*)o;                                             // glibc: 2 == done
    for (;;) { point(t); sb_flush(t); if (*s == 2) { hb_acquire(t, (uptr)o); return 0; } if (*s == 0) break; spin(t); }
    *s = 1; f(); *s = 2; hb_release(t, (uptr)o, 1); return 0;
}
int __cxa_guard_acquire(u64* g) {
    Thr* t = self; u8* b = (u8*)g;
    for (;;) {
        if (t) { point(t); sb_flush(t); }
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (t) hb_acquire(t, (uptr)g); return 0; }
        u8 z = 0; if (__atomic_compare_exchange_n(b + 1, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1;
        if (t) spin(t); else sched_yield();
    }
}
void __cxa_guard_release(u64* g) { Thr* t = self; u8* b = (u8*)g; if (t) sb_flush(t); if (t) hb_release(t, (uptr)g, 1); __atomic_store_n(b, 1, __ATOMIC_RELEASE); __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(u64* g) { __atomic_store_n((u8*)g + 1, 0, __ATOMIC_RELEASE); }
int sched_yield() { Thr* t = self; if (!t) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); spin(t); return 0; }
int clock_gettime(clockid_t ck, struct timespec* ts) {
    Thr* t = self;
    if (!t) { long r = raw6(SYS_clock_gettime, ck, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
    vnow += 1 + rnd((u32)jitter); fire_deadlines();
    u64 v = ck == CLOCK_REALTIME ? vnow + SYS_OFF : vnow; ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0;
}
int nanosleep(const struct timespec* rq, struct timespec* rm) {
    Thr* t = self; if (!t) { long r = raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
    block(t, BL_SLEEP, 0, vnow + ts_ns(rq)); return 0;
}
int usleep(useconds_t us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, 0); }
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    Thr* t = self;
    if (t && n == SYS_futex) {
        sb_flush(t);
        int op = (int)b & FUTEX_CMD_MASK; int* p = (int*)a; point(t);
        if (op == FUTEX_WAIT) {
            if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
            if (rnd(64) == 0) { ++S.spurious; return 0; }
            block(t, BL_FUTEX, p, ~0ull); return 0;
        }
        if (op == FUTEX_WAKE) { int w = 0; for (int i = 0; i < N; ++i) if (T[i].st == BL_FUTEX && T[i].waddr == p) ++w; if (w > (int)c) w = (int)c; wake_addr(BL_FUTEX, p, (int)c); return w; }
    }
    long r = raw6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
}
// std::random_device must not break replay
extern "C" u32 _ZNSt13random_device9_M_getvalEv(void*) { Thr* t = self; static u64 s0 = 88172645463325252ull; return t ? (u32)(splitmix(&rs) >> 16) : (u32)(splitmix(&s0) >> 16); }

// ------------------------------------------------------------------ memory
#ifndef CTL_NO_MALLOC
// every heap block made by instrumented code: [header | block | zone], header and zone are off limits
struct Hdr { Hdr *prev, *next; u64 serial; u64 pc; size_t total; int quarantined, pad; u64 size; u64 magic; };   // 64 bytes
#define RZ 64
#define MAGIC 0x5ca1ab1e0ddba11dull
static Hdr live = { &live, &live }; static u64 serial, nlive; static u64 live_maps;
struct Q { Hdr* h; };
#define NQ 4096
static Q q[NQ]; static u32 qh, qt; static size_t qbytes;
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real___cxa_allocate_exception(size_t) noexcept;
int __real_munmap(void*, size_t); void* __real_mmap(void*, size_t, int, int, int, off_t);
}
static void NOINL bad_access(const char* what, uptr pc, uptr a, size_t n) {
    for (u32 i = qt; i != qh; ++i) { Hdr* h = q[i % NQ].h; uptr b = (uptr)h; if (a >= b && a < b + h->total) ctl_fail("uaf", "USE-AFTER-FREE %s pc=%p addr=%p size=%zu: %zu bytes into a block of %zu bytes, allocated at pc=%p", what, (void*)pc, (void*)a, n, (size_t)(a - b - RZ), (size_t)h->size, (void*)h->pc); }
    for (Hdr* h = live.next; h != &live; h = h->next) { uptr b = (uptr)h; if (a >= b && a < b + h->total) ctl_fail("overflow", "OUT-OF-BOUNDS %s pc=%p addr=%p size=%zu: offset %ld of a block of %zu bytes, allocated at pc=%p", what, (void*)pc, (void*)a, n, (long)(a - b) - RZ, (size_t)h->size, (void*)h->pc); }
    ctl_fail("uaf", "BAD ACCESS %s pc=%p addr=%p size=%zu", what, (void*)pc, (void*)a, n);
}
static void* NOINL h_alloc(size_t n, size_t al, u64 pc) {
    size_t off = al > RZ ? al : RZ, total = off + ((n + 7) & ~7ull) + 32; void* p = 0;
    if (n > (1ull << 40)) return 0;
    if (al > 16) { if (posix_memalign(&p, al, total)) return 0; } else p = __real_malloc(total);
    if (!p) return 0;
    if (self) race_reset((uptr)p, total);
    char* u = (char*)p + off; Hdr* h = (Hdr*)(u - RZ); mark_freed((uptr)p, total, 0);
    h->serial = ++serial; h->pc = pc; h->total = total - (off - RZ); h->quarantined = 0; h->pad = (int)(off - RZ); h->size = n; h->magic = MAGIC ^ (u64)h;
    h->prev = live.prev; h->next = &live; live.prev->next = h; live.prev = h; ++nlive;
    memset(u, 0xa5, n < 4096 ? n : 4096);                         // reading it before writing it gives nonsense
    mark_freed((uptr)p, off, 1); mark_freed((uptr)u + ((n + 7) & ~7ull), 32, 1);
    return u;
}
static Hdr* hdr_of(void* p) { if ((uptr)p & 15) return 0; Hdr* h = (Hdr*)((char*)p - RZ); return *(u64*)((char*)p - 8) == (MAGIC ^ (u64)h) ? h : 0; }
static void h_release(Hdr* h) { mark_freed((uptr)h - (u64)h->pad, h->total + (u64)h->pad, 0); h->magic = 0; __real_free((char*)h - h->pad); }
static void q_pop() { Hdr* h = q[qt++ % NQ].h; qbytes -= h->total; h_release(h); }
static void q_flush() { while (qt != qh) q_pop(); }
extern "C" {
void* __wrap_malloc(size_t n) { return h_alloc(n, 16, (u64)__builtin_return_address(0)); }
void* __wrap_calloc(size_t a, size_t b) { void* p = h_alloc(a * b, 16, (u64)__builtin_return_address(0)); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) {
    if (!p) return;
    Hdr* h = hdr_of(p); if (!h) { __real_free(p); return; }
    if (h->quarantined) ctl_fail("uaf", "DOUBLE-FREE pc=%p addr=%p, allocated at pc=%p", __builtin_return_address(0), p, (void*)h->pc);
    h->prev->next = h->next; h->next->prev = h->prev; --nlive;
    if (!self) { h_release(h); return; }
    sb_flush(self);
    h->quarantined = 1; mark_freed((uptr)p, (h->size + 7) & ~7ull, 1);
    if (qh - qt == NQ) q_pop();
    while (qbytes + h->total > (16u << 20) && qt != qh) q_pop();
    q[qh++ % NQ].h = h; qbytes += h->total;
}
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return h_alloc(n, 16, (u64)__builtin_return_address(0));
    Hdr* h = hdr_of(p); if (!h) { static void* (*r)(void*, size_t); if (!r) r = next_sym<void* (*)(void*, size_t)>("realloc"); return r(p, n); }
    void* u = h_alloc(n, 16, (u64)__builtin_return_address(0)); if (u) { memcpy(u, p, h->size < n ? h->size : n); __wrap_free(p); } return u;
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { void* p = __real_mmap(a, n, pr, fl, fd, o); if (p != MAP_FAILED) { if (self) { race_reset((uptr)p, n); mark_freed((uptr)p, n, 0); } live_maps += (n + 4095) & ~4095ull; } return p; }
int __wrap_munmap(void* p, size_t n) { if (self) sb_flush(self); int r = __real_munmap(p, n); if (!r) live_maps -= (n + 4095) & ~4095ull; return r; }
void* __wrap___cxa_allocate_exception(size_t n) noexcept { void* p = __real___cxa_allocate_exception(n); if (self) race_reset((uptr)p - 128, n + 128); return p; }
#define NEW(n, al) void* p = h_alloc((n) ? (n) : 1, al, (u64)__builtin_return_address(0)); if (!p) { fprintf(stderr, "out of memory\n"); abort(); } return p
void* _Znwm(size_t n) { NEW(n, 16); }
void* _Znam(size_t n) { NEW(n, 16); }
void* _ZnwmRKSt9nothrow_t(size_t n, void*) { return h_alloc(n ? n : 1, 16, (u64)__builtin_return_address(0)); }
void* _ZnamRKSt9nothrow_t(size_t n, void*) { return h_alloc(n ? n : 1, 16, (u64)__builtin_return_address(0)); }
void _ZdlPv(void* p) { __wrap_free(p); }
void _ZdaPv(void* p) { __wrap_free(p); }
void _ZdlPvm(void* p, size_t) { __wrap_free(p); }
void _ZdaPvm(void* p, size_t) { __wrap_free(p); }
void _ZdlPvRKSt9nothrow_t(void* p, void*) { __wrap_free(p); }
void _ZdaPvRKSt9nothrow_t(void* p, void*) { __wrap_free(p); }
void* _ZnwmSt11align_val_t(size_t n, size_t al) { NEW(n, al); }
void* _ZnamSt11align_val_t(size_t n, size_t al) { NEW(n, al); }
void _ZdlPvSt11align_val_t(void* p, size_t) { __wrap_free(p); }
void _ZdlPvmSt11align_val_t(void* p, size_t, size_t) { __wrap_free(p); }
void _ZdaPvSt11align_val_t(void* p, size_t) { __wrap_free(p); }
void _ZdaPvmSt11align_val_t(void* p, size_t, size_t) { __wrap_free(p); }
// balance of the heap, for the leak monitor
u64 ctl_heap_mark(u64* maps, u64* blocks) { *maps = live_maps; *blocks = nlive; return serial; }
// live blocks made after the mark; writes a description of the first few
u64 ctl_heap_since(u64 mark, char* buf, size_t bn) {
    u64 n = 0; size_t o = 0; if (bn) *buf = 0;
    for (Hdr* h = live.prev; h != &live && h->serial > mark; h = h->prev) { ++n; if (n <= 8 && o + 64 < bn) o += (size_t)snprintf(buf + o, bn - o, " %zu bytes from pc=%p;", (size_t)h->size, (void*)h->pc); }
    return n;
}
}
#else
static void q_flush() {}
static void NOINL bad_access(const char*, uptr, uptr, size_t) {}
extern "C" { u64 ctl_heap_mark(u64* m, u64* b) { *m = *b = 0; return 0; } u64 ctl_heap_since(u64, char*, size_t) { return 0; } }
#endif

// ------------------------------------------------------------------ run
static void on_exit_key(void* v) {
    Thr* t = (Thr*)v;
    // runs after the thread_local destructors of the thread (scheduler teardown)
    sb_flush(t); t->st = DONE; self = 0;
    Thr* nx = choose(t, 0);
#ifndef CTL_NO_MALLOC
    free_alt_stack();
#endif
    if (nx) transfer(t, nx); else { g_alldone = 1; fwake(&g_alldone); }
}
static void* tmain(void* v) {
    Thr* t = (Thr*)v; pthread_setspecific(exit_key, t);
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) fwait(&t->go, 0);
    t->go = 0; 
#ifndef CTL_NO_MALLOC
    alt_stack();
#endif
    self = t;
    t->fn(t->arg);
    return 0;
}
extern "C" void ctl_init() {
    resolve();
    if (syncs) return;
    syncs = (Sync*)mmap(0, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    blks = (Blk**)mmap(0, sizeof(Blk*) * NBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#ifndef CTL_NO_MALLOC
    sh_high = (u8*)mmap(0, (0x800000000000ull - SH_HIGH) >> 6, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh_low = (u8*)mmap(0, SH_LOW >> 6, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh_high == MAP_FAILED || sh_low == MAP_FAILED) { fprintf(stderr, "no shadow memory\n"); _exit(70); }
#endif
    pthread_key_create(&exit_key, on_exit_key);
    install_signals();
    void* b[4]; backtrace(b, 4);                                   // preload libgcc
    ctl_log_reset();
}
extern "C" void ctl_run(const ctl_config* c, int n, void (*fn)(void*), void** args, ctl_stats* out) {
    ctl_init();
    C = *c; N = n; memset(&S, 0, sizeof S); S.sched_hash = 0xcbf29ce484222325ull; ++gen; rs = c->seed * 0x9e3779b97f4a7c15ull + 12345;
    if (!C.max_points) C.max_points = 4000000;
    vnow = 1000000000000ull; vmin_deadline = ~0ull; u64 v0 = vnow;
    strat = C.strategy; if (!strat) { u32 r = rnd(10); strat = r < 5 ? 1 : r < 8 ? 2 : 3; }
    static const u32 pa[] = { 32768, 16384, 6554, 2000, 600 }; p_atomic = pa[rnd(5)];
    static const u32 pp[] = { 0, 0, 40, 400, 3000 }; p_plain = pp[rnd(5)];
    if (ctl_force_plain) p_plain = 65536 / ctl_force_plain;
    static const u32 jt[] = { 20, 200, 2000, 10000 }; jitter = jt[rnd(4)];
    leap_in = (C.leap_ns && rnd(3) == 0) ? 1 + rnd(2000) : 0;
    pct_n = 1 + rnd(5); pct_low = 0; static const u32 hz[] = { 200, 1000, 4000, 20000 }; u32 h = hz[rnd(4)];
    for (int i = 0; i < pct_n; ++i) pct_change[i] = 1 + rnd(h);
    burst_max = 300 + rnd(4000);
    frozen = -1; freeze_at = 1 + rnd(3000); freeze_len = 50 + rnd(4000);
    for (int i = 0; i < n; ++i) {
        Thr* t = &T[i]; memset((void*)t, 0, sizeof *t); t->id = i; t->st = RUN; t->deadline = ~0ull; t->fn = fn; t->arg = args[i];
        t->vc[i] = 1; SB[i].n = 0; t->prio = 1 + rnd(1000);
    }
    g_alldone = 0; g_active = 1;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    for (int i = 0; i < n; ++i) if (pthread_create(&T[i].pt, &at, tmain, &T[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(70); }
    pthread_attr_destroy(&at);
    Thr* first = choose(&T[0], 0);
    __atomic_store_n(&first->go, 1, __ATOMIC_RELEASE); fwake(&first->go);
    u64 w0 = real_now();
    while (!__atomic_load_n(&g_alldone, __ATOMIC_ACQUIRE)) { struct timespec ts = { 1, 0 }; raw6(SYS_futex, (long)&g_alldone, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, (long)&ts, 0, 0); (void)w0; }
    for (int i = 0; i < n; ++i) pthread_join(T[i].pt, 0);
    g_active = 0; q_flush();
    S.vtime = vnow - v0;
    if (out) *out = S;
}

// Harness library shared by all scenario families.
#pragma once
#include "ctl.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <boost/fiber/all.hpp>

namespace vf {
namespace bf = boost::fibers;
using clk = std::chrono::steady_clock;
using ns = std::chrono::nanoseconds;
using us = std::chrono::microseconds;

// a clock of the user's: own epoch, coarse
struct odd_clock {
    typedef std::chrono::milliseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<odd_clock> time_point; static constexpr bool is_steady = true;
    static time_point now() { return time_point(std::chrono::duration_cast<duration>(clk::now().time_since_epoch()) - std::chrono::hours(7)); }
};
// f(a deadline d from now, on one of the clocks other than steady_clock); what is a bit more than an hour for system_clock's coarser forms stays exact to the unit
template <class R, class F> decltype(auto) other_clock(R& r, int64_t d, F&& f) {
    switch (r.below(3)) {
    case 0: return f(std::chrono::system_clock::now() + ns(d));
    case 1: return f(std::chrono::time_point_cast<std::chrono::microseconds>(std::chrono::system_clock::now()) + us(d / 1000));
    default: return f(odd_clock::now() + std::chrono::milliseconds(d / 1000000));
    }
}
static const int64_t OTHER_SLACK = 2100000;     // odd_clock counts whole milliseconds: one lost in the duration, one in reading the clock

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
    uint64_t u() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? uint32_t((u() >> 32) * n >> 32) : 0; }
    int range(int a, int b) { return a + int(below(uint32_t(b - a + 1))); }
    bool chance(int num, int den) { return int(below(den)) < num; }
};

// results area, shared with the runner through a mmapped file
struct Shared {
    uint64_t magic, cur, done, nontrivial, events, points, switches, preempt, blocks, leaps, spurious, vtime, inconclusive;
    uint64_t nctr; struct { char name[48]; uint64_t v; } ctr[128];
    uint64_t nsamples; char samples[6][4096];
    uint64_t nhash; uint64_t hash[1u << 20];
};
extern Shared* sh;
extern bool real_mode;
extern std::map<std::string, std::string> opts;
inline int opt_int(const char* k, int d) { auto i = opts.find(k); return i == opts.end() ? d : std::atoi(i->second.c_str()); }
inline std::string opt_str(const char* k, const char* d) { auto i = opts.find(k); return i == opts.end() ? d : i->second; }

void count(const char* name, uint64_t n = 1);
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void logev(int kind, int actor, int64_t a = 0, int64_t b = 0) { ctl_log(kind, actor, a, b); }
void name_event(int kind, const char* name);

enum Algo { RR = 0, CHAOS, SHARED, WS, ALGO_N };
const char* algo_name(int);

struct Case {
    uint64_t index, seed; Rng rng;
    std::atomic<bool> nontrivial_{ false }; struct NT { std::atomic<bool>& b; void operator=(bool v) { b.store(v, std::memory_order_relaxed); } operator bool() const { return b.load(std::memory_order_relaxed); } } nontrivial{ nontrivial_ }; std::string desc; uint64_t sig = 0;
    uint64_t leap_ns = 0; uint64_t max_points = 0; int force_race = -1; bool single = false;
    Case(uint64_t i, uint64_t s) : index(i), seed(s), rng(s) {}
    // runs fns as OS threads in the controlled world (or for real)
    void run(std::vector<std::function<void()>> const& fns);
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};
typedef void (*family_fn)(Case&);
struct Reg { Reg(const char* name, family_fn f, bool needs_fork = false); };

// a scenario number, restricted by the option "what" to a list such as 2,3
inline uint32_t pick_what(Case& c, uint32_t n) { static const std::string w = opt_str("what", ""); if (w.empty()) return c.rng.below(n); std::vector<uint32_t> v; for (const char* p = w.c_str(); *p;) { char* e; v.push_back(uint32_t(std::strtoul(p, &e, 10))); p = *e ? e + 1 : e; } return v[c.rng.below(uint32_t(v.size()))]; }

// A hostile but contract-abiding scheduling algorithm: picks ready fibers in
// random order and checks the contract the library must honour towards any
// algorithm (see property on custom schedulers).
class chaos_algo : public bf::algo::algorithm {
    std::vector<bf::context*> rq_; Rng rng_;
    std::mutex mtx_; std::condition_variable cnd_; bool flag_ = false;
    std::thread::id owner_; int bias_;
public:
    explicit chaos_algo(uint64_t seed) : rng_(seed), owner_(std::this_thread::get_id()), bias_(int(seed % 3)) {}
    void awakened(bf::context* c) noexcept override {
        if (std::this_thread::get_id() != owner_) fail("sched.awakened_foreign_thread", "awakened() called from a foreign thread");
        for (auto* x : rq_) if (x == c) fail("sched.awakened_twice", "a fiber already in the ready list was made ready again");
        rq_.push_back(c);
    }
    bf::context* pick_next() noexcept override {
        if (std::this_thread::get_id() != owner_) fail("sched.pick_foreign_thread", "pick_next() called from a foreign thread");
        if (rq_.empty()) return nullptr;
        std::size_t i = bias_ == 0 ? rng_.below(uint32_t(rq_.size())) : bias_ == 1 ? rq_.size() - 1 : 0;
        if (bias_ && rng_.chance(1, 3)) i = rng_.below(uint32_t(rq_.size()));
        bf::context* c = rq_[i]; rq_.erase(rq_.begin() + std::ptrdiff_t(i)); return c;
    }
    bool has_ready_fibers() const noexcept override { return !rq_.empty(); }
    void suspend_until(clk::time_point const& tp) noexcept override {
        std::unique_lock<std::mutex> lk(mtx_);
        if (tp == (clk::time_point::max)()) cnd_.wait(lk, [this] { return flag_; });
        else cnd_.wait_until(lk, tp, [this] { return flag_; });
        flag_ = false;
    }
    void notify() noexcept override { std::unique_lock<std::mutex> lk(mtx_); flag_ = true; lk.unlock(); cnd_.notify_all(); }
};

// An idle thread sleeps: the built-in algorithms come back from suspend_until() before the deadline only for a notify().
template <class A> class idle_watch : public A {
    std::atomic<uint64_t> notes_{ 0 }; uint64_t early_ = 0;
public:
    using A::A;
    void suspend_until(clk::time_point const& tp) noexcept override {
        A::suspend_until(tp);
        if (tp == (clk::time_point::max)() || clk::now() < tp) if (++early_ > notes_.load()) fail("sched.idle_spin", "suspend_until() returned early %llu times for %llu notifications: an idle thread spins", (unsigned long long)early_, (unsigned long long)notes_.load());
    }
    void notify() noexcept override { notes_.fetch_add(1); A::notify(); }
};

struct Opts { int threads = 1; int algo = RR; bool suspend = true; uint64_t seed = 0; };
// install the algorithm on the calling thread
void install(Opts const&, int ti);
Opts pick_world(Case& c, int max_threads, bool allow_migrating = true);

// n fibers, spread over the threads; each thread launches and joins its own.
// With migrating algorithms every thread stays until all fibers completed.
struct FiberSet {
    Case& c; Opts o; int n; std::function<void(int)> body;
    std::function<void(int)> thread_pre, thread_post;  // run on each thread's main fiber
    bool use_post = false, mix_launch = true;
    void run();
};
std::size_t stack_size();
template <class F> bf::fiber spawn(Rng& r, F&& f, int mix = 1) {
    bf::launch l = (mix && r.chance(1, 2)) ? bf::launch::dispatch : bf::launch::post;
    return bf::fiber(l, std::allocator_arg, bf::fixedsize_stack(stack_size()), std::forward<F>(f));
}
inline uint64_t tick() { return ctl_now(); }
inline clk::time_point in_ns(int64_t d) { return clk::now() + ns(d); }
inline int64_t since(clk::time_point a) { return std::chrono::duration_cast<ns>(clk::now() - a).count(); }
// random local disturbance between operations
void jitter(Rng& r);
uint64_t mix(uint64_t a, uint64_t b);
} // namespace vf
#define VF_FAMILY(name) static void fam_##name(vf::Case& c); static vf::Reg reg_##name(#name, fam_##name); static void fam_##name(vf::Case& c)
#define VF_FAMILY_FORK(name) static void fam_##name(vf::Case& c); static vf::Reg reg_##name(#name, fam_##name, true); static void fam_##name(vf::Case& c)
#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf::fail(key, __VA_ARGS__); } while (0)

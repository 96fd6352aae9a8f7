// Support for the demonstrations: in ctl modes every case runs n "OS threads" under a seeded scheduler with virtual time.
#pragma once
#include <boost/fiber/all.hpp>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
namespace bf = boost::fibers; namespace tf = boost::this_fiber;
using clk = std::chrono::steady_clock; using ns = std::chrono::nanoseconds; using ms = std::chrono::milliseconds;
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9e3779b97f4a7c15ull + 77) {} uint64_t u() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } uint32_t below(uint32_t n) { return uint32_t((u() >> 16) % n); } bool chance(int a, int b) { return int(below(uint32_t(b))) < a; } };
#define REQUIRE(c, ...) do { if (!(c)) { std::fprintf(stderr, "BROKEN: %s: ", #c); std::fprintf(stderr, __VA_ARGS__); std::fprintf(stderr, "\n"); std::fflush(nullptr); _Exit(3); } } while (0)
#ifdef DEMO_CTL
#include "ctl.h"
#include <sys/personality.h>
#include <unistd.h>
typedef std::vector<std::function<void()>> Threads;
inline void run(uint64_t seed, Threads t, uint64_t leap = 0, int race = 0) {
    ctl_config c; std::memset(&c, 0, sizeof c); c.seed = seed * 7919 + 13; c.max_points = 3000000; c.race = race; c.leap_ns = leap;
    std::vector<void*> a; for (auto& f : t) a.push_back(&f); ctl_stats st;
    ctl_run(&c, int(t.size()), [](void* p) { (*static_cast<std::function<void()>*>(p))(); }, a.data(), &st);
}
void scenario(uint64_t seed);
int main(int argc, char** argv) {
    if (argc < 3) { personality(ADDR_NO_RANDOMIZE); char* av[] = { argv[0], argv[1], const_cast<char*>("x"), nullptr }; execv("/proc/self/exe", av); }
    ctl_init(); int n = std::atoi(argv[1]); for (int i = 1; i <= n; ++i) { ctl_log_reset(); scenario(uint64_t(i)); } std::printf("ok: %d cases\n", n); std::fflush(nullptr); _exit(0);
}
#else
void scenario(uint64_t seed);
int main(int argc, char** argv) { int n = std::atoi(argv[1]); for (int i = 1; i <= n; ++i) scenario(uint64_t(i)); std::printf("ok: %d cases\n", n); return 0; }
#endif

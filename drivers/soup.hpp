// A mixed workload in which every operation checks itself; used to drive schedulers.
#pragma once
#include "vf.hpp"
namespace soup {
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_SEG = 201, E_SLEEP, E_CRIT, E_CHILD, E_FUT, E_SEMW, E_CHPUSH, E_CHPOP, E_DONE };
inline int names() { name_event(E_SEG, "seg"); name_event(E_SLEEP, "slept"); name_event(E_CRIT, "crit"); name_event(E_CHILD, "child"); name_event(E_FUT, "future"); name_event(E_SEMW, "sem"); name_event(E_CHPUSH, "push"); name_event(E_CHPOP, "pop"); name_event(E_DONE, "done"); return 0; }
static int names_init = names();

struct Hooks { std::function<void(clk::time_point)> sleep_begin, sleep_end; };

struct Soup {
    Case& c; Opts o; uint64_t seed; int steps; unsigned mask;
    bf::mutex mx[2]; long counter[2] = { 0, 0 }; std::atomic<long> expect[2] = { { 0 }, { 0 } };
    bf::mutex sm; bf::condition_variable scv; long tokens = 0;
    bf::buffered_channel<long> ch{ 4 }; std::atomic<long> in_sum{ 0 }, out_sum{ 0 }, in_n{ 0 }, out_n{ 0 };
    struct Fib { std::atomic<int> running{ 0 }; std::atomic<int> entered{ 0 }, left{ 0 }; };
    std::vector<std::unique_ptr<Fib>> fib; std::atomic<int> nchild{ 0 }; Hooks hooks;
    enum { OP_SLEEP = 1, OP_CRIT = 2, OP_CHILD = 4, OP_FUT = 8, OP_SEM = 16, OP_CHAN = 32, OP_ALL = 63 };
    Soup(Case& cc, Opts oo, int nf, int st, unsigned m = OP_ALL) : c(cc), o(oo), seed(cc.rng.u()), steps(st), mask(m) {
        for (int i = 0; i < nf; ++i) fib.emplace_back(new Fib);
        ctl_watch(counter, sizeof counter);
    }
    // a stretch of code between two scheduling operations: runs on one thread, never twice at once
    struct Seg {
        Fib& f; int id; std::thread::id t; bf::fiber::id fid;
        Seg(Fib& ff, int i) : f(ff), id(i), t(std::this_thread::get_id()), fid(boost::this_fiber::get_id()) { VF_CHECK(f.running.exchange(1, rlx) == 0, "sched.two_threads", "fiber %d executes on two threads at once", id); }
        void end() { VF_CHECK(f.running.load(rlx) == 1 && std::this_thread::get_id() == t && boost::this_fiber::get_id() == fid, "sched.two_threads", "fiber %d changed thread or identity inside straight-line code", id); f.running.store(0, rlx); }
    };
    static void work(Rng& r) { int n = int(r.below(4)); for (int i = 0; i < n; ++i) ctl_point(); }
    template <class F> void blocking(Fib& f, int id, F&& fn) { f.running.store(0, rlx); fn(); VF_CHECK(f.running.exchange(1, rlx) == 0, "sched.two_threads", "fiber %d resumed while it executes elsewhere", id); }
    // k steps of fiber number id (children use the parent's Rng stream but their own Fib)
    void run(Fib& f, int id, Rng& r, int k, int depth) {
        auto tid0 = std::this_thread::get_id(); bool pinned = id < 0;
        VF_CHECK(f.entered.fetch_add(1, rlx) == 0, "sched.run_twice", "function of fiber %d entered twice", id);
        auto me = boost::this_fiber::get_id();
        { Seg s(f, id); work(r); s.end(); } f.running.store(1, rlx);
        for (int i = 0; i < k; ++i) {
            uint32_t op = r.below(16);
            if (op < 5) { blocking(f, id, [&] { boost::this_fiber::yield(); }); }
            else if (op == 5 && (mask & OP_SLEEP)) {
                auto dl = clk::now() + ns(r.chance(1, 5) ? -int(r.below(50)) : int(r.below(15000)));
                if (hooks.sleep_begin) hooks.sleep_begin(dl);
                blocking(f, id, [&] { boost::this_fiber::sleep_until(dl); });
                if (hooks.sleep_end) hooks.sleep_end(dl);
                VF_CHECK(clk::now() >= dl, "sleep.early", "fiber %d slept until %lld ns before its deadline", id, (long long)std::chrono::duration_cast<ns>(dl - clk::now()).count()); logev(E_SLEEP, id); c.nontrivial = true;
            } else if (op < 8 && (mask & OP_CRIT)) {
                int m = int(r.below(2)); int y = int(r.below(3));
                blocking(f, id, [&] { std::unique_lock<bf::mutex> lk(mx[m]); long v = counter[m]; for (int q = 0; q < y; ++q) boost::this_fiber::yield(); VF_CHECK(counter[m] == v, "mutex.exclusion", "protected data changed under fiber %d", id); counter[m] = v + 1; expect[m].fetch_add(1, rlx); });
                logev(E_CRIT, id, m); c.nontrivial = true;
            } else if (op < 10 && (mask & OP_CHILD) && depth < 2) {
                auto cf = std::make_shared<Fib>(); int cid = 1000 + nchild.fetch_add(1); uint64_t cs = r.u(); int ck = int(r.below(4)); bool det = false; (void)det;
                blocking(f, id, [&] { bf::fiber h = spawn(r, [this, cf, cid, cs, ck, depth] { Rng cr(cs); run(*cf, cid, cr, ck, depth + 1); }); if (r.chance(1, 2)) boost::this_fiber::yield(); h.join(); });
                VF_CHECK(cf->left.load(rlx) == 1, "life.join_early", "join of child %d returned before it finished", cid); logev(E_CHILD, id, cid);
            } else if (op < 11 && (mask & OP_FUT) && depth < 2) {
                long want = long(r.below(100000)); uint64_t cs = r.u(); int cid = 1000 + nchild.fetch_add(1); auto cf = std::make_shared<Fib>();
                blocking(f, id, [&] {
                    bf::future<long> fu = bf::async(r.chance(1, 2) ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, bf::fixedsize_stack(stack_size()), [this, want, cs, cf, cid, depth] { Rng cr(cs); run(*cf, cid, cr, int(cr.below(3)), depth + 1); return want; });
                    if (r.chance(1, 3)) { auto dl = clk::now() + ns(r.below(4000)); if (hooks.sleep_begin) hooks.sleep_begin(dl); auto st = fu.wait_until(dl); if (hooks.sleep_end) hooks.sleep_end(dl); if (st == bf::future_status::timeout) VF_CHECK(clk::now() >= dl, "fut.early_timeout", "future wait timed out early"); }
                    long got = fu.get(); VF_CHECK(got == want, "fut.value", "async result %ld, expected %ld", got, want); });
                logev(E_FUT, id, want);
            } else if (op < 13 && (mask & OP_SEM)) {
                blocking(f, id, [&] { { std::unique_lock<bf::mutex> lk(sm); ++tokens; } scv.notify_one(); if (r.chance(1, 2)) boost::this_fiber::yield(); std::unique_lock<bf::mutex> lk(sm); while (tokens == 0) scv.wait(lk); VF_CHECK(tokens > 0, "cv.lock", "wait returned without the lock"); --tokens; });
                logev(E_SEMW, id); c.nontrivial = true;
            } else if (op < 15 && (mask & OP_CHAN)) {
                long v = long(r.below(1000)) + 1;
                blocking(f, id, [&] {
                    if (ch.try_push(v) == bf::channel_op_status::success) { in_sum.fetch_add(v, rlx); in_n.fetch_add(1, rlx); }
                    if (r.chance(1, 3)) boost::this_fiber::yield();
                    long x = 0; auto st = r.chance(1, 2) ? ch.try_pop(x) : ch.pop_wait_for(x, ns(r.below(3000)));
                    if (st == bf::channel_op_status::success) { out_sum.fetch_add(x, rlx); out_n.fetch_add(1, rlx); } });
                logev(E_CHPOP, id);
            } else work(r);
            VF_CHECK(boost::this_fiber::get_id() == me, "life.id", "fiber %d changed its id", id);
            if (pinned) VF_CHECK(std::this_thread::get_id() == tid0, "sched.pinned_moved", "the main fiber of a thread moved to another thread");
        }
        f.running.store(0, rlx); f.left.fetch_add(1, rlx); logev(E_DONE, id);
    }
    void body(int i) { Rng r(mix(seed, uint64_t(i))); run(*fib[std::size_t(i)], i, r, r.range(1, steps), 0); }
    void main_body(int t) { Fib f; Rng r(mix(seed, 5000 + uint64_t(t))); run(f, -1 - t, r, r.range(0, steps), 0); }
    void finish() {
        for (int m = 0; m < 2; ++m) VF_CHECK(counter[m] == expect[m].load(), "mutex.lost_update", "counter %ld after %ld increments", counter[m], expect[m].load());
        for (auto& f : fib) VF_CHECK(f->entered == 1 && f->left == 1, "sched.lost_fiber", "a fiber ran %d times and finished %d times", f->entered.load(), f->left.load());
        VF_CHECK(tokens == 0, "cv.tokens", "token count off by %ld", tokens);
    }
    void drain() { long x; while (ch.try_pop(x) == bf::channel_op_status::success) { out_sum += x; ++out_n; } VF_CHECK(in_sum == out_sum && in_n == out_n, "chan.conservation", "pushed %ld values (sum %ld), popped %ld (sum %ld)", in_n.load(), in_sum.load(), out_n.load(), out_sum.load()); }
};
} // namespace soup

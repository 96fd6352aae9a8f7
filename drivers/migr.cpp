// Fibers that migrate between threads: shared_work, work_stealing, and a custom pool using detach()/attach().
#include "soup.hpp"
#include <deque>
using namespace vf;
static const auto rlx = std::memory_order_relaxed;

class pool_algo : public bf::algo::algorithm {
    std::deque<bf::context*> lq_; std::mutex m_; std::condition_variable cnd_; bool flag_ = false; Rng rng_; int me_;
public:
    static std::mutex gm; static std::vector<bf::context*> shared; static std::vector<pool_algo*> all; static std::atomic<uint64_t> moved;
    pool_algo(uint64_t s, int me) : rng_(s), me_(me) { std::lock_guard<std::mutex> g(gm); all.push_back(this); }
    ~pool_algo() { std::lock_guard<std::mutex> g(gm); for (auto& a : all) if (a == this) { a = all.back(); all.pop_back(); break; } }
    void awakened(bf::context* c) noexcept override {
        if (c->is_context(bf::type::pinned_context)) { lq_.push_back(c); return; }
        if (!c->get_scheduler()) fail("migr.no_scheduler", "a ready fiber belongs to no scheduler");
        c->detach(); if (c->get_scheduler()) fail("migr.detach", "a detached fiber still belongs to a scheduler");
        std::lock_guard<std::mutex> g(gm); for (auto* x : shared) if (x == c) fail("migr.ready_twice", "a fiber was made ready twice");
        shared.push_back(c); pool_algo* w = all[rng_.below(uint32_t(all.size()))]; if (w != this) w->pool_algo::notify();   // not virtual: w may be in its destructor, waiting for gm
    }
    bf::context* pick_next() noexcept override {
        bf::context* c = nullptr;
        { std::lock_guard<std::mutex> g(gm); if (!shared.empty() && (lq_.empty() || rng_.chance(4, 5))) { std::size_t i = rng_.below(uint32_t(shared.size())); c = shared[i]; shared.erase(shared.begin() + long(i)); } }
        if (c) { bf::context::active()->attach(c); if (c->get_scheduler() != bf::context::active()->get_scheduler()) fail("migr.attach", "an attached fiber belongs to another scheduler"); return c; }
        if (!lq_.empty()) { c = lq_.front(); lq_.pop_front(); }
        return c;
    }
    bool has_ready_fibers() const noexcept override { std::lock_guard<std::mutex> g(gm); return !shared.empty() || !lq_.empty(); }
    void suspend_until(clk::time_point const& tp) noexcept override {
        std::unique_lock<std::mutex> lk(m_);
        if (tp == (clk::time_point::max)()) cnd_.wait(lk, [this] { return flag_; }); else cnd_.wait_until(lk, tp, [this] { return flag_; });
        flag_ = false;
    }
    void notify() noexcept override { std::unique_lock<std::mutex> lk(m_); flag_ = true; lk.unlock(); cnd_.notify_all(); }
};
std::mutex pool_algo::gm; std::vector<bf::context*> pool_algo::shared; std::vector<pool_algo*> pool_algo::all; std::atomic<uint64_t> pool_algo::moved{ 0 };

static void run_migr(Case& c, int kind) {   // 0 shared_work, 1 work_stealing, 2 pool
    Opts o; o.seed = c.rng.u(); o.threads = c.rng.chance(1, 12) ? 1 : c.rng.range(kind == 1 ? 2 : 1, 4); o.suspend = c.rng.chance(1, 2); o.algo = kind == 0 ? SHARED : kind == 1 ? WS : CHAOS;
    int nf = c.rng.range(2, 10); c.note("%s threads=%d suspend=%d fibers=%d ", kind == 0 ? "shared_work" : kind == 1 ? "work_stealing" : "pool", o.threads, int(o.suspend), nf);
    if (kind == 1 && o.threads == 1) count("alone");
    unsigned mask = c.rng.chance(1, 3) ? soup::Soup::OP_CRIT | soup::Soup::OP_CHILD : c.rng.chance(1, 2) ? soup::Soup::OP_ALL : unsigned(c.rng.below(64));
    soup::Soup s(c, o, nf, c.rng.range(2, 10), mask);
    pool_algo::shared.clear();
    struct Gate { bf::mutex m; bf::condition_variable cv; int left, mains; } g; g.left = nf; g.mains = o.threads;
    std::vector<std::atomic<int>> seen(std::size_t(nf) * 4); for (auto& x : seen) x = 0;
    bool joinall = c.rng.chance(1, 2); std::atomic<int> ran_on[4]; for (auto& x : ran_on) x = 0;
    std::atomic<int> launcher{ c.rng.chance(1, 2) ? 0 : -1 };
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
        if (kind == 2) bf::use_scheduling_algorithm<pool_algo>(mix(o.seed, uint64_t(t)), t); else install(o, t);
        Rng r(mix(o.seed, 100 + uint64_t(t))); auto tid = std::this_thread::get_id(); std::vector<bf::fiber> fs;
        for (int i = 0; i < nf; ++i) if (launcher == 0 ? t == 0 : i % o.threads == t) {
            auto b = [&, i] { int a = ctl_tid(); s.body(i); int e = ctl_tid(); if (a != e) { c.nontrivial = true; count("migrated"); } if (e >= 0 && e < 4) ran_on[e].fetch_add(1, rlx);
                std::unique_lock<bf::mutex> lk(g.m); if (--g.left == 0) { lk.unlock(); g.cv.notify_all(); } };
            fs.push_back(spawn(r, b)); if (!joinall) fs.back().detach();
            if (r.chance(1, 5)) boost::this_fiber::yield();
        }
        s.main_body(t);
        for (auto& f : fs) if (f.joinable()) f.join();
        { std::unique_lock<bf::mutex> lk(g.m); if (--g.mains == 0) { lk.unlock(); g.cv.notify_all(); lk.lock(); } while (g.left || g.mains) g.cv.wait(lk); }
        VF_CHECK(std::this_thread::get_id() == tid, "sched.pinned_moved", "main fiber moved");
    });
    c.run(fns); s.finish();
    int used = 0; for (auto& x : ran_on) if (x) ++used; if (used > 1) { c.nontrivial = true; count("ran_on_several_threads"); }
    if (kind == 2) VF_CHECK(pool_algo::shared.empty(), "migr.left", "%zu fibers left in the pool", pool_algo::shared.size());
    // the channel belongs to this thread now: drain it without scheduling anything
}
VF_FAMILY(migshared) { run_migr(c, 0); }
VF_FAMILY(migpool) { run_migr(c, 2); }
VF_FAMILY_FORK(migsteal) { run_migr(c, 1); }

// work conservation: ready fibers of a thread whose running fiber does not give way are run by the idle threads
static void run_hog(Case& c, int kind) {
    Opts o; o.seed = c.rng.u(); o.threads = c.rng.range(2, 4); o.suspend = false; o.algo = kind ? WS : SHARED; int nf = c.rng.range(1, 5), hog = int(c.rng.below(uint32_t(o.threads))), hog2 = o.threads > 2 && c.rng.chance(1, 2) ? (hog + (c.rng.chance(1, 2) ? 1 : o.threads - 1)) % o.threads : -1;    // hog2 is busy with something else
    c.note("hog %s threads=%d fibers=%d ", algo_name(o.algo), o.threads, nf); c.nontrivial = true;
    struct Gate { bf::mutex m; bf::condition_variable cv; int mains; } g; g.mains = o.threads; std::atomic<int> done{ 0 }, ready{ 0 }; std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
        install(o, t); Rng r(mix(o.seed, uint64_t(t))); (void)boost::this_fiber::get_id(); ready.fetch_add(1); std::vector<bf::fiber> fs;
        if (t == hog) {      // fiber 0 keeps its thread to itself (a pinned dispatcher at the head of a queue would keep thieves off: it runs first)
            while (ready.load() < o.threads) std::this_thread::yield();
            for (int i = 0; i <= nf; ++i) { uint64_t s = r.u(); fs.emplace_back(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&, s, i] {
                if (i == 0) { while (done.load(rlx) < nf) std::this_thread::yield(); return; }
                Rng q(s); logev(1, i, ctl_tid()); for (int k = q.range(0, 4); k > 0; --k) boost::this_fiber::yield(); done.fetch_add(1, rlx); }); if (r.chance(1, 3)) ctl_point(); }
            count("taken_over", uint64_t(nf));
        }
        if (t == hog2) while (done.load(rlx) < nf) std::this_thread::yield();
        for (auto& f : fs) f.join();
        std::unique_lock<bf::mutex> lk(g.m); if (--g.mains == 0) { lk.unlock(); g.cv.notify_all(); lk.lock(); } while (g.mains) g.cv.wait(lk);
    });
    c.run(fns);
}
VF_FAMILY(hogshared) { run_hog(c, 0); }
VF_FAMILY_FORK(hogsteal) { run_hog(c, 1); }

// a fiber that yields lets all others of its thread have their turn: workers wait for each other, and main fibers for the workers, by nothing but yielding
static void run_fair(Case& c, int kind) {
    Opts o; o.seed = c.rng.u(); o.threads = c.rng.range(1, 3); o.suspend = c.rng.chance(1, 2); o.algo = kind == 2 ? RR : kind ? WS : SHARED; int nf = c.rng.range(2, 6), rounds = c.rng.range(1, 4);
    c.note("fair %s threads=%d fibers=%d rounds=%d ", algo_name(o.algo), o.threads, nf, rounds); c.nontrivial = true;
    std::vector<std::atomic<int>> at(static_cast<std::size_t>(nf)); for (auto& a : at) a = 0;
    std::atomic<int> done{ 0 }, mains{ 0 }; bool one = c.rng.chance(1, 3); std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
        install(o, t); Rng r(mix(o.seed, uint64_t(t))); std::vector<bf::fiber> fs;
        for (int i = 0; i < nf; ++i) if (one ? t == 0 : i % o.threads == t) fs.push_back(bf::fiber(kind == 0 || r.chance(1, 2) ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&, i] {   // (shared_work runs main only when no worker is ready)
            for (int k = 1; k <= rounds; ++k) { at[std::size_t(i)].store(k); logev(1, i, k, ctl_tid());
                for (int j = 0; j < nf; ++j) while (at[std::size_t(j)].load() < k) { count("waited"); std::this_thread::yield(); boost::this_fiber::yield(); } }
            done.fetch_add(1); }));
        while (done.load() < nf) { std::this_thread::yield(); boost::this_fiber::yield(); }
        for (auto& f : fs) f.join();
        mains.fetch_add(1); while (mains.load() < o.threads) { std::this_thread::yield(); boost::this_fiber::yield(); }
    });
    c.run(fns);
}
VF_FAMILY(fairshared) { run_fair(c, 0); }
VF_FAMILY_FORK(fairsteal) { run_fair(c, 1); }
VF_FAMILY(fairrr) { run_fair(c, 2); }

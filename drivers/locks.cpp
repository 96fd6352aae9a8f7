// The pieces under everything else: spinlocks, work-stealing queues, the thread barrier.
#include "vf.hpp"
#include <boost/fiber/detail/spinlock.hpp>
#include <boost/fiber/detail/spinlock_ttas.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
#include <boost/fiber/detail/context_spinlock_queue.hpp>
#include <boost/fiber/detail/context_spmc_queue.hpp>
#include <boost/fiber/detail/thread_barrier.hpp>
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_LOCK = 1, E_TRY, E_UNLOCK, E_PUSH, E_POP, E_STEAL, E_ROUND };
static int init = (name_event(E_LOCK, "lock"), name_event(E_TRY, "try"), name_event(E_UNLOCK, "unlock"), name_event(E_PUSH, "push"), name_event(E_POP, "pop"), name_event(E_STEAL, "steal"), name_event(E_ROUND, "round"), 0);

// threads (not fibers) contending for spinlocks of the configured kind; what they guard is plain data
VF_FAMILY(splk) {
    int threads = c.rng.range(2, 4), nl = c.rng.range(1, 2), steps = c.rng.range(1, 10); uint64_t seed = c.rng.u(); c.note("spinlock threads=%d locks=%d steps=%d ", threads, nl, steps);
    struct L { bf::detail::spinlock s; std::atomic<int> owner{ -1 }; long a = 0, b = 0; }; std::vector<std::unique_ptr<L>> ls; for (int i = 0; i < nl; ++i) ls.emplace_back(new L); std::atomic<long> want{ 0 }; std::atomic<int> trying{ 0 };
    std::vector<std::function<void()>> fns; bool hold = c.rng.chance(1, 3);
    for (int t = 0; t < threads; ++t) fns.push_back([&, t] {
        Rng r(mix(seed, uint64_t(t)));
        auto crit = [&](L& l) {
            int o = l.owner.exchange(t, rlx); VF_CHECK(o == -1, "spin.exclusion", "threads %d and %d hold a spinlock at once", t, o);
            long v = l.a; VF_CHECK(l.b == -v, "spin.visibility", "half of an update is visible"); if (hold) for (int k = int(r.below(4)); k > 0; --k) ctl_point(); l.a = v + 1; if (r.chance(1, 3)) ctl_point(); l.b = -(v + 1);
            o = l.owner.exchange(-1, rlx); VF_CHECK(o == t, "spin.exclusion", "owner changed inside"); want.fetch_add(1, rlx);
        };
        for (int i = 0; i < steps; ++i) {
            L& l = *ls[r.below(uint32_t(nl))];
            switch (r.below(4)) {
            case 0: case 1: { if (l.owner.load(rlx) >= 0) { c.nontrivial = true; count("contended"); } bf::detail::spinlock_lock lk{ l.s }; logev(E_LOCK, t); crit(l); break; }
            case 2: { trying.fetch_add(1, rlx); if (l.s.try_lock()) { logev(E_TRY, t, 1); crit(l); l.s.unlock(); } else { logev(E_TRY, t, 0); count("try_failed"); } trying.fetch_sub(1, rlx); break; }
            default: l.s.lock(); crit(l); l.s.unlock(); logev(E_UNLOCK, t); break;
            }
        }
    });
    c.run(fns); long sum = 0; for (auto& l : ls) { sum += l->a; VF_CHECK(l->s.try_lock(), "spin.stuck", "a spinlock nobody holds cannot be locked"); VF_CHECK(!l->s.try_lock(), "spin.exclusion", "locked twice"); l->s.unlock(); }
    VF_CHECK(sum == want.load(), "spin.lost_update", "%ld updates, %ld seen", want.load(), sum);
}
// contexts that are never run: tokens for the queues
static std::vector<bf::context*>& tokens() { static std::vector<bf::context*> v = [] { std::vector<bf::context*> x; for (int i = 0; i < 64; ++i) { auto p = bf::make_worker_context(bf::launch::post, bf::fixedsize_stack(16 * 1024), [] {}); intrusive_ptr_add_ref(p.get()); x.push_back(p.get()); } return x; }(); return v; }
template <class Q> static void run_queue(Case& c, const char* name) {
    auto& tk = tokens(); int thieves = c.rng.range(1, 3), steps = c.rng.range(2, 40); std::size_t cap = std::size_t(1) << c.rng.range(1, 3); uint64_t seed = c.rng.u(); c.note("%s capacity=%zu thieves=%d steps=%d ", name, cap, thieves, steps);
    Q q(cap); static long data[64]; static int where[64]; for (auto& d : data) d = 0; for (auto& w : where) w = 0;   // where: 0 free, 1 queued; plain on purpose
    std::atomic<bool> done{ false }; std::atomic<long> pushes{ 0 }, pops{ 0 }, steals{ 0 }; std::vector<std::vector<int>> got(std::size_t(thieves) + 1); std::size_t maxlen = 0;
    auto idx = [&](bf::context* x) { for (int i = 0; i < 64; ++i) if (tk[std::size_t(i)] == x) return i; fail("queue.invented", "the queue returned something never put into it"); };
    auto take = [&](bf::context* x, int t) { int i = idx(x); VF_CHECK(where[i] == 1, "queue.twice", "an element was taken twice, or before it was put in"); where[i] = 0; VF_CHECK(data[i] == i * 10 + 1, "queue.data", "data written before the push is not visible"); data[i] = 0; got[std::size_t(t)].push_back(i); return i; };
    std::vector<std::function<void()>> fns; bool pin = c.rng.chance(1, 3);
    fns.push_back([&] {
        Rng r(seed); std::set<int> free; for (int i = 0; i < 64; ++i) free.insert(i); bf::context* me = pin ? bf::context::active() : nullptr; bool min = false; std::size_t len = 0;
        { q.push(bf::context::active()); auto* x = q.pop(); VF_CHECK(x == bf::context::active(), "queue.pinned", "a pinned context was stolen or lost"); }   // schedulers enqueue their dispatcher before anything else
        for (int s = 0; s < steps; ++s) {
            uint32_t op = r.below(10);
            if (op < 6 && !free.empty()) { int i = *free.begin(); free.erase(free.begin()); data[i] = i * 10 + 1; where[i] = 1; logev(E_PUSH, 0, i); q.push(tk[std::size_t(i)]); pushes.fetch_add(1, rlx); ++len; maxlen = std::max(maxlen, len); }
            else if (op == 6 && me && !min) { q.push(me); min = true; }
            else if (auto* x = q.pop()) { if (len) --len; if (x == me) { VF_CHECK(min, "queue.twice", "the pinned context was popped twice"); min = false; } else { logev(E_POP, 0, take(x, 0)); pops.fetch_add(1, rlx); } }
        }
        if (r.chance(1, 2)) done.store(true);      // thieves may still be inside steal()
        int idle = 0; while (idle < 2) { auto* x = q.pop(); if (!x) { ++idle; continue; } if (x == me) { VF_CHECK(min, "queue.twice", "the pinned context was popped twice"); min = false; } else { logev(E_POP, 0, take(x, 0)); pops.fetch_add(1, rlx); } }
        done.store(true); if (pin) VF_CHECK(!min, "queue.lost", "a pinned context was stolen or lost");
    });
    for (int t = 1; t <= thieves; ++t) fns.push_back([&, t] {
        Rng r(mix(seed, uint64_t(t))); bf::context* mine = r.chance(1, 8) ? bf::context::active() : nullptr; (void)mine; 
        for (int k = 0; k < 60 && !done.load(rlx); ++k) { if (r.chance(1, 5)) { if (q.empty()) count("seen_empty"); } if (auto* x = q.steal()) { VF_CHECK(!x->is_context(bf::type::pinned_context), "queue.pinned", "a pinned context was stolen"); logev(E_STEAL, t, take(x, t)); steals.fetch_add(1, rlx); c.nontrivial = true; } }
    });
    c.run(fns);
    bool lost = pops + steals != pushes; for (int i = 0; i < 64; ++i) lost |= where[i] != 0;
    VF_CHECK(!lost, "queue.lost", "%ld pushed, %ld popped, %ld stolen", pushes.load(), pops.load(), steals.load()); VF_CHECK(q.empty(), "queue.empty", "empty() is false for an empty queue"); VF_CHECK(q.pop() == nullptr && q.steal() == nullptr, "queue.invented", "an empty queue returned something");
    if (maxlen > cap) count("grown"); count("stolen", uint64_t(steals.load())); count("popped", uint64_t(pops.load()));
}
VF_FAMILY(spinq) { run_queue<bf::detail::context_spinlock_queue>(c, "spinlock queue"); }
VF_FAMILY(spmcq) { run_queue<bf::detail::context_spmc_queue>(c, "spmc queue"); }
// the barrier the work-stealing schedulers meet at
VF_FAMILY(tbar) {
    int n = c.rng.range(1, 4), rounds = c.rng.range(1, 4); c.note("thread barrier n=%d rounds=%d ", n, rounds); bf::detail::thread_barrier b{ std::size_t(n) }; std::atomic<int> arrived[4]; for (auto& a : arrived) a = 0; std::atomic<int> elected{ 0 }; long plain[4] = { 0, 0, 0, 0 };
    std::vector<std::function<void()>> fns; for (int t = 0; t < n; ++t) fns.push_back([&, t] { for (int k = 0; k < rounds; ++k) { plain[t] = k + 1; arrived[k].fetch_add(1, rlx); bool e = b.wait(); logev(E_ROUND, t, k, e); VF_CHECK(arrived[k].load(rlx) == n, "tbar.early", "a thread passed the barrier before all had arrived"); if (e) elected.fetch_add(1, rlx); for (int j = 0; j < n; ++j) VF_CHECK(plain[j] == k + 1, "tbar.visibility", "effects before the barrier are not visible after it"); b.wait() ? elected.fetch_add(1, rlx) : 0; } });
    c.run(fns); VF_CHECK(elected == rounds * 2, "tbar.elect", "%d elected in %d rounds", elected.load(), rounds * 2); if (n > 1) c.nontrivial = true; count("rounds", uint64_t(rounds));
}

// Threads that never become idle; objects destroyed by whoever is last to use them.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_DUE = 1, E_SENT, E_RESUMED, E_LINK, E_LAST };
static int init = (name_event(E_DUE, "due"), name_event(E_SENT, "sent"), name_event(E_RESUMED, "resumed"), name_event(E_LINK, "link"), name_event(E_LAST, "last"), 0);

struct CStack { typedef boost::context::stack_traits traits_type; std::atomic<long>* live; bf::fixedsize_stack impl; explicit CStack(std::atomic<long>* l) : live(l), impl(stack_size()) {}
    boost::context::stack_context allocate() { auto c = impl.allocate(); live->fetch_add(1, rlx); return c; }
    void deallocate(boost::context::stack_context& c) { live->fetch_sub(1, rlx); impl.deallocate(c); } };
// One thread always has a fiber ready.  Whoever waits there, for a deadline or for another thread, gets on all the same,
// under round_robin within a few rounds; and the stacks of fibers that end are given back meanwhile.
VF_FAMILY(busy) {
    struct Item { int kind; int64_t d; bf::promise<int> p; bf::future<int> f; std::atomic<long> since{ -1 }; std::atomic<bool> done{ false }; clk::time_point dl; };
    Opts o; o.algo = c.rng.chance(2, 3) ? RR : CHAOS; o.seed = c.rng.u(); bool remote = c.rng.chance(2, 3); int style = int(c.rng.below(6)), bg = c.rng.range(1, 3), ni = c.rng.range(1, 4); uint64_t seed = c.rng.u(); c.nontrivial = true;
    static const char* styles[] = { "yield", "chain", "dispatch_chain", "join_chain", "pingpong", "main" }; c.note("busy %s x%d algo=%s items=%d remote=%d ", styles[style], bg, algo_name(o.algo), ni, int(remote)); count(styles[style]);
    std::vector<std::unique_ptr<Item>> it; bf::mutex m; bf::condition_variable cv; bf::timed_mutex tm; bf::buffered_channel<int> bc(16); int tokens = 0; std::atomic<long> steps{ 0 }, live{ 0 }; std::atomic<int> left{ ni }, up{ 0 }; long most = 0; std::atomic<bool> locked{ false };
    for (int i = 0; i < ni; ++i) { it.emplace_back(new Item); Item& x = *it.back(); x.kind = remote ? c.rng.range(0, 7) : c.rng.range(0, 3); x.d = int64_t(c.rng.below(60000)) + 300; x.f = x.p.get_future(); }
    bool chain = style >= 1 && style <= 3; long bound = 8 * (bg * 2 + ni + 4);
    auto step = [&] { long s = steps.fetch_add(1, rlx) + 1; logev(E_LINK, 0, s); ctl_advance(200); auto now = clk::now(); count("busy_steps");
        for (auto& x : it) if (x->kind < 4 && !x->done.load(rlx) && x->dl.time_since_epoch().count() && now >= x->dl && x->since.load(rlx) < 0) { x->since.store(s, rlx); logev(E_DUE, 0, s); }
        if (o.algo == RR) for (auto& x : it) { long k = x->since.load(); if (k >= 0 && !x->done.load()) VF_CHECK(s - k <= bound, x->kind < 4 ? "busy.sleeper" : "busy.remote", "a fiber that %s %ld turns of other fibers ago has still not had its own", x->kind < 4 ? "was due" : "was woken by another thread", s - k); }
        long l = live.load(rlx); if (l > most) most = l; if (o.algo == RR && chain) VF_CHECK(l <= bound, "busy.stacks", "%ld stacks outstanding although at most %d fibers are alive at a time", l, bg * 2 + ni);
        return left.load() == 0; };
    std::function<void(int)> link = [&](int k) { if (step()) return; auto nx = [&, k] { link(k + 1); };
        if (style == 1) { bf::fiber(bf::launch::post, std::allocator_arg, CStack(&live), nx).detach(); }
        else if (style == 2) { boost::this_fiber::yield(); bf::fiber(bf::launch::dispatch, std::allocator_arg, CStack(&live), nx).detach(); }
        else { while (!step()) { bf::fiber f(k % 2 ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, CStack(&live), [&] { step(); }); f.join(); } } };
    std::vector<std::function<void()>> fns;
    fns.push_back([&] { install(o, 0); Rng r(seed); std::vector<bf::fiber> fs;
        for (int i = 0; i < ni; ++i) fs.push_back(spawn(r, [&, i] { Item& x = *it[std::size_t(i)]; if (x.kind < 4) x.dl = clk::now() + ns(x.d); up.fetch_add(1);
            switch (x.kind) {
            case 0: boost::this_fiber::sleep_until(x.dl); break;
            case 1: { bf::mutex pm; bf::condition_variable pc; std::unique_lock<bf::mutex> lk(pm); pc.wait_until(lk, x.dl); break; }
            case 2: { bf::unbuffered_channel<int> uc; int v; VF_CHECK(uc.pop_wait_until(v, x.dl) == bf::channel_op_status::timeout, "busy.status", "pop"); break; }
            case 3: VF_CHECK(x.f.wait_until(x.dl) == bf::future_status::timeout, "busy.status", "future"); break;
            case 4: VF_CHECK(x.f.get() == i, "busy.value", "future"); break;
            case 5: { std::unique_lock<bf::mutex> lk(m); while (!tokens) cv.wait(lk); --tokens; break; }
            case 6: { int v; VF_CHECK(bc.pop(v) == bf::channel_op_status::success, "busy.status", "pop"); break; }
            default: VF_CHECK(x.f.wait_for(std::chrono::hours(1)) == bf::future_status::ready, "busy.status", "future"); break;
            }
            if (x.kind < 4) VF_CHECK(clk::now() >= x.dl, "busy.early", "resumed early"); x.done.store(true); logev(E_RESUMED, i, steps.load()); left.fetch_sub(1); }, 0));
        bf::fiber a, b; std::vector<bf::fiber> bgf; bf::buffered_channel<int> q1(2), q2(2);
        if (style == 0) for (int i = 0; i < bg; ++i) bgf.push_back(spawn(r, [&] { while (!step()) boost::this_fiber::yield(); }));
        else if (chain) for (int i = 0; i < bg; ++i) bgf.push_back(bf::fiber(bf::launch::post, std::allocator_arg, CStack(&live), [&] { link(0); }));
        else if (style == 4) { a = spawn(r, [&] { int v; do { q1.push(1); } while (q2.pop(v) == bf::channel_op_status::success && v); q1.close(); }); b = spawn(r, [&] { int v; while (q1.pop(v) == bf::channel_op_status::success) q2.push(step() ? 0 : 1); }); }
        if (style == 5) while (!step()) boost::this_fiber::yield();
        for (auto& f : fs) f.join(); for (auto& f : bgf) f.join(); if (a.joinable()) { a.join(); b.join(); }
        while (left.load()) boost::this_fiber::yield(); });
    if (remote) fns.push_back([&] { install(o, 1); Rng r(mix(seed, 9)); while (up.load() < ni) boost::this_fiber::sleep_for(ns(2000)); int cvs = 0;
        for (int i = 0; i < ni; ++i) { Item& x = *it[std::size_t(i)]; if (r.chance(1, 2)) boost::this_fiber::sleep_for(ns(r.below(20000))); bool plain = true;
            switch (x.kind) {
            case 4: case 7: x.p.set_value(i); break;
            case 5: { { std::unique_lock<bf::mutex> lk(m); ++tokens; } cv.notify_one(); ++cvs; plain = false; break; }       // any of the waiters
            case 6: VF_CHECK(bc.try_push(i) == bf::channel_op_status::success, "busy.status", "push"); plain = false; break;
            default: plain = false; break;
            }
            if (plain) { long s = steps.load(); x.since.store(s); logev(E_SENT, i, s); count("busy_wakes"); } } });
    c.run(fns);
    VF_CHECK(live.load() == 0, "busy.stack_leak", "%ld stacks left", live.load()); count("busy_items", uint64_t(ni));
}
// Threads with nothing to do sleep: while one fiber sleeps for a long time nothing else may keep a processor, whatever woke the threads before.
VF_FAMILY_FORK(idle) {
    static const int64_t LONG = 20000000000ll; static const int algos[] = { RR, SHARED, WS, WS }; Opts o; o.algo = algos[c.rng.below(4)]; int fa = opt_int("algo", -1); if (fa >= 0) o.algo = fa; o.seed = c.rng.u(); o.suspend = true; o.threads = c.rng.range(2, 3); int rounds = c.rng.range(1, 3); uint64_t seed = c.rng.u();
    c.note("idle algo=%s threads=%d rounds=%d ", algo_name(o.algo), o.threads, rounds); c.nontrivial = true; c.max_points = 400000;
    struct Seat { bf::mutex m; bf::condition_variable cv; int asked = 0, answered = 0; }; std::vector<std::unique_ptr<Seat>> seats; for (int i = 0; i < o.threads; ++i) seats.emplace_back(new Seat); bf::mutex em; bf::condition_variable ec; int left = o.threads; std::atomic<int> lasts{ 0 };
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
        install(o, t); Rng r(mix(seed, uint64_t(t)));
        // a deadline that does not matter, or none
        auto wait = [&](bf::condition_variable& cv, std::unique_lock<bf::mutex>& lk, auto pred) { switch (r.below(3)) { case 0: cv.wait(lk, pred); break; case 1: VF_CHECK(cv.wait_for(lk, std::chrono::hours(10), pred), "idle.timeout", "a wait of hours ended within minutes"); break; default: while (!pred()) cv.wait(lk); break; } };
        std::vector<bf::fiber> fs; int own = r.range(0, 2);
        for (int k = 0; k < own; ++k) { uint64_t s = r.u(); fs.push_back(spawn(r, [&, s] { Rng q(s); for (int i = 0; i < 2; ++i) { int64_t d = q.chance(1, 2) ? LONG + int64_t(q.below(1000000)) : int64_t(q.below(50000)); auto dl = clk::now() + ns(d); boost::this_fiber::sleep_until(dl); auto n = clk::now(); VF_CHECK(n >= dl && n < dl + std::chrono::seconds(1), "idle.late", "a sleep ended %lld ns off its deadline", (long long)(n - dl).count()); count("idle_sleeps"); } })); }
        if (t == 0) {
            for (int i = 0; i < rounds; ++i) {
                for (auto& s : seats) if (s != seats[0] && r.chance(3, 4)) { { std::unique_lock<bf::mutex> lk(s->m); ++s->asked; logev(E_SENT, 0); if (r.chance(1, 2)) { lk.unlock(); s->cv.notify_all(); } else s->cv.notify_all(); } std::unique_lock<bf::mutex> lk(s->m); wait(s->cv, lk, [&] { return s->answered == s->asked; }); count("idle_wakes"); }
                auto dl = clk::now() + ns(LONG); if (r.chance(1, 2)) boost::this_fiber::sleep_until(dl); else { bf::promise<int> p; p.get_future().wait_until(dl); } auto n = clk::now(); VF_CHECK(n >= dl && n < dl + std::chrono::seconds(1), "idle.late", "a sleep ended %lld ns off its deadline", (long long)(n - dl).count()); count("idle_sleeps");
            }
            for (auto& s : seats) { std::unique_lock<bf::mutex> lk(s->m); s->asked = -1; s->cv.notify_all(); }
        } else {
            Seat& s = *seats[std::size_t(t)]; std::unique_lock<bf::mutex> lk(s.m);
            for (;;) { wait(s.cv, lk, [&] { return s.asked < 0 || s.asked > s.answered; }); if (s.asked < 0) break; s.answered = s.asked; logev(E_RESUMED, t); s.cv.notify_all(); }
        }
        for (auto& f : fs) f.join();
        std::unique_lock<bf::mutex> lk(em); if (--left == 0) ec.notify_all(); else ec.wait(lk, [&] { return left == 0; }); lasts.fetch_add(1); });
    c.run(fns); VF_CHECK(lasts == o.threads, "idle.count", "threads lost");
}
// Several fibers wait for the same fiber to end: all are resumed, first come first served.
VF_FAMILY(joiners) {
    int n = c.rng.range(2, 6), threads = c.rng.chance(1, 2) ? 1 : 2; uint64_t seed = c.rng.u(); bool expl = c.rng.chance(1, 2), remote = threads == 2; c.note("joiners n=%d threads=%d ", n, threads); c.nontrivial = true;
    std::vector<int> began, resumed; boost::intrusive_ptr<bf::context> target; std::atomic<bool> end{ false }; std::atomic<int> waiting{ 0 };
    std::vector<std::function<void()>> fns;
    fns.push_back([&] { if (expl) bf::use_scheduling_algorithm<bf::algo::round_robin>(); Rng r(seed); std::vector<bf::fiber> fs; int how = int(r.below(3)); bf::promise<void> pr; auto fu = pr.get_future(); bool ended = false;
        bf::fiber t(bf::launch::post, [&] { target.reset(bf::context::active()); if (remote) while (!end.load()) boost::this_fiber::sleep_for(ns(500)); else if (how == 0) fu.wait(); else if (how == 1) while (waiting.load() < n) boost::this_fiber::yield(); else boost::this_fiber::sleep_for(ns(20000)); ended = true; });
        while (!target) boost::this_fiber::yield();
        for (int i = 0; i < n; ++i) { uint64_t s = r.u(); fs.push_back(spawn(r, [&, i, s] { Rng q(s); if (q.chance(1, 3)) boost::this_fiber::yield(); began.push_back(i); logev(E_LINK, i); bool was = ended; waiting.fetch_add(1); target->join(); VF_CHECK(ended, "join.early", "join returned although the fiber has not ended"); if (!was) resumed.push_back(i); else began.erase(std::find(began.begin(), began.end(), i)); logev(E_RESUMED, i); })); }
        if (how == 0) { while (waiting.load() < n) boost::this_fiber::yield(); pr.set_value(); }
        for (auto& f : fs) f.join(); t.join(); target.reset(); });
    if (remote) fns.push_back([&] { while (waiting.load() < n) boost::this_fiber::sleep_for(ns(700)); end.store(true); });
    c.run(fns); VF_CHECK(began == resumed, "rr.join_order", "%d fibers waited for one fiber's end, %d were resumed, not in the order they began to wait", int(began.size()), int(resumed.size())); count("joiners", uint64_t(n));
}
// Whoever is the last to use an object destroys it, as reference counted objects do.
template <class M> struct Obj { M m; bf::condition_variable_any cv; int refs, turn = 0; long data[4] = { 0, 0, 0, 0 }; explicit Obj(int n) : refs(n) {} };
template <class M> static void last_lock(Case& c) {
    int threads = c.rng.range(2, 3), per = c.rng.range(1, 3), rounds = c.rng.range(1, 4); int n = threads * per; uint64_t seed = c.rng.u(); int algo = c.rng.chance(1, 2) ? RR : CHAOS; c.note("last of %d (%d threads) ", n, threads);
    std::vector<Obj<M>*> ob; for (int i = 0; i < rounds; ++i) ob.push_back(new Obj<M>(n)); std::atomic<int> gone{ 0 };
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < threads; ++t) fns.push_back([&, t] { Opts o; o.algo = algo; o.seed = seed; install(o, t); Rng r(mix(seed, uint64_t(t))); std::vector<bf::fiber> fs;
        for (int k = 0; k < per; ++k) { uint64_t s = r.u(); fs.push_back(spawn(r, [&, s] { Rng q(s); for (auto* x : ob) { if (q.chance(1, 3)) jitter(q); x->m.lock(); bool last = --x->refs == 0; for (long& d : x->data) ++d; if (q.chance(1, 6)) boost::this_fiber::yield(); x->m.unlock(); if (last) { logev(E_LAST, 0); delete x; gone.fetch_add(1); } } })); }
        for (auto& f : fs) f.join(); });
    c.run(fns); VF_CHECK(gone == rounds, "last.count", "%d of %d objects destroyed", gone.load(), rounds); count("last_owner", uint64_t(rounds));
}
// the notifier does everything under the lock, the waiter destroys mutex and condition after its unlock
template <class M> static void last_wait(Case& c) {
    int rounds = c.rng.range(1, 4); uint64_t seed = c.rng.u(); std::vector<Obj<M>*> ob; for (int i = 0; i < rounds; ++i) ob.push_back(new Obj<M>(2)); bool timed = c.rng.chance(1, 2), all = c.rng.chance(1, 2); c.note("waiter destroys ");
    c.run({ [&] { Opts o; o.seed = seed; install(o, 0); Rng r(seed); for (auto* x : ob) { if (r.chance(1, 2)) jitter(r); x->m.lock(); while (!x->turn) { if (timed) { auto s = x->cv.wait_until(x->m, clk::now() + std::chrono::seconds(100000)); VF_CHECK(s == bf::cv_status::no_timeout, "last.timeout", "far deadline"); } else x->cv.wait(x->m); } x->m.unlock(); delete x; } },
            [&] { Opts o; o.seed = seed + 1; install(o, 1); Rng r(mix(seed, 5)); for (auto* x : ob) { if (r.chance(1, 2)) jitter(r); x->m.lock(); x->turn = 1; if (all) x->cv.notify_all(); else x->cv.notify_one(); x->m.unlock(); } } });
    count("last_waiter", uint64_t(rounds));
}
// the consumer that finds the channel closed and empty destroys it
static void last_pop(Case& c) {
    int n = c.rng.range(0, 5); bool all = c.rng.chance(1, 2); uint64_t seed = c.rng.u(); c.note("consumer destroys, %d values ", n); auto* ch = new bf::buffered_channel<int>(std::size_t(2) << c.rng.below(2)); int sum = 0;
    c.run({ [&] { Opts o; o.seed = seed; install(o, 0); int v; if (all) { while (ch->pop(v) == bf::channel_op_status::success) ++sum; } else for (int i = 0; i < n; ++i) if (ch->pop(v) == bf::channel_op_status::success) ++sum; delete ch; },
            [&] { Opts o; o.seed = seed + 1; install(o, 1); for (int i = 0; i < n; ++i) VF_CHECK(ch->push(i) == bf::channel_op_status::success, "last.status", "push"); if (all) ch->close(); } });
    VF_CHECK(sum == n, "last.count", "%d of %d", sum, n); count("last_consumer");
}
// the requester owns promise or task and destroys it once it has the answer
template <class P> static void last_get(Case& c, std::function<void(P&, int)> give, std::function<P()> make) {
    int n = c.rng.range(1, 3); uint64_t seed = c.rng.u(); c.note("requester destroys promise or task, %d requests ", n); bf::buffered_channel<P*> q(4);
    c.run({ [&] { Opts o; o.seed = seed; install(o, 0); Rng r(seed); for (int i = 0; i < n; ++i) { std::unique_ptr<P> p(new P(make())); auto f = p->get_future(); bool other = r.chance(1, 3); VF_CHECK(q.push(p.get()) == bf::channel_op_status::success, "last.status", "push"); if (r.chance(1, 2)) jitter(r);
                if (other) { bf::fiber w([&] { f.wait(); }); w.join(); } VF_CHECK(f.get() == 70 + i, "last.value", "answer"); f = decltype(f)(); p.reset(); logev(E_LAST, 0); } q.close(); },
            [&] { Opts o; o.seed = seed + 1; install(o, 1); P* p; int i = 0; while (q.pop(p) == bf::channel_op_status::success) give(*p, 70 + i++); } });
    count("last_requester", uint64_t(n));
}
VF_FAMILY(lastone) {
    c.nontrivial = true;
    switch (c.rng.below(10)) {
    case 0: last_lock<bf::mutex>(c); break; case 1: last_lock<bf::timed_mutex>(c); break; case 2: last_lock<bf::recursive_mutex>(c); break; case 3: last_lock<bf::recursive_timed_mutex>(c); break;
    case 4: last_wait<bf::mutex>(c); break; case 5: last_wait<bf::recursive_timed_mutex>(c); break;
    case 6: last_get<bf::promise<int>>(c, [](bf::promise<int>& p, int v) { p.set_value(v); }, [] { return bf::promise<int>(); }); break;
    case 7: last_get<bf::packaged_task<int(int)>>(c, [](bf::packaged_task<int(int)>& p, int v) { p(v); }, [] { return bf::packaged_task<int(int)>([](int v) { return v; }); }); break;
    default: last_pop(c); break;
    }
}

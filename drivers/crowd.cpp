// Large numbers: hundreds of fibers at one object, deep recursion, big buffers, many owners of one state.
#include "vf.hpp"
#include <deque>
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_IN = 1, E_OUT };
static int init = (name_event(E_IN, "in"), name_event(E_OUT, "out"), 0);
enum Kind { LOCK, RECURSION, CV, BARRIER, BUFFERED, BIGBUF, UNBUF, FUTURE, OWNERS, TASKS, LIFE, SLEEP, FSS, ORDER, LONGLIFE, CYCLE, REMOTE, KINDS };
static const char* kn[] = { "lock", "recursion", "cv", "barrier", "buffered", "bigbuf", "unbuffered", "future", "owners", "tasks", "life", "sleep", "fss", "order", "longlife", "cycle", "remote" };

// n fibers, all at once, over the threads of a world
static void crowd(Case& c, int n, int maxt, std::function<void(int)> body0, std::function<void(int)> post = nullptr) {
    Opts o = pick_world(c, maxt); c.nontrivial = true; std::function<void(int)> body = body0; uint64_t ls = c.rng.u();
    // now and then some come much later than the others
    if (o.suspend && c.rng.chance(1, 3)) { int some = c.rng.chance(1, 2) ? 3 : 60; c.note("latecomers "); count("latecomers"); body = [body0, ls, some](int f) { Rng r(mix(ls, uint64_t(f))); if (r.chance(1, f ? some : 2)) { int64_t d = 1; for (int k = r.range(2, 13); k > 0; --k) d *= 10; boost::this_fiber::sleep_for(ns(d + r.below(100))); } body0(f); }; }
    FiberSet fs{ c, o, n, body }; fs.thread_post = post; fs.run();
}
template <class M> static void locks(Case& c, int n) {
    M m; long in = 0, sum = 0; uint64_t seed = c.rng.u(); bool yields = c.rng.chance(1, 2);
    crowd(c, n, 2, [&](int f) { Rng r(mix(seed, uint64_t(f))); std::unique_lock<M> lk(m); VF_CHECK(++in == 1, "crowd.exclusion", "%ld fibers inside", in); logev(E_IN, f); if (yields && r.chance(1, 4)) boost::this_fiber::yield(); sum += f; VF_CHECK(--in == 0, "crowd.exclusion", "%ld fibers still inside", in); });
    VF_CHECK(sum == long(n) * (n - 1) / 2, "crowd.lost", "critical sections lost"); VF_CHECK(m.try_lock(), "crowd.left_locked", "mutex left locked"); m.unlock();
}
template <class M> static void recursion(Case& c) {
    int d = c.rng.chance(1, 6) ? 65536 + c.rng.range(-1, 3) : c.rng.chance(1, 2) ? 256 + c.rng.range(-2, 3) : c.rng.range(100, 1000); c.note("depth=%d ", d); c.nontrivial = true; count("deep_recursions"); Opts o; o.seed = c.rng.u(); uint64_t seed = c.rng.u(); c.max_points = 60000000;
    M m; bool held = false, got = false;
    c.run({ [&] { install(o, 0); Rng r(seed); bf::fiber other;
        for (int i = 0; i < d; ++i) if (r.chance(1, 2)) m.lock(); else VF_CHECK(m.try_lock(), "crowd.recursive", "the owner's attempt at depth %d failed", i);
        held = true; other = bf::fiber(bf::launch::dispatch, [&] { VF_CHECK(!m.try_lock(), "crowd.exclusion", "another fiber got a mutex locked %d times", d); m.lock(); VF_CHECK(!held, "crowd.exclusion", "another fiber got the mutex before it was unlocked %d times", d); got = true; m.unlock(); });
        for (int i = 0; i < d; ++i) { VF_CHECK(!got, "crowd.exclusion", "the mutex was free after %d of %d unlocks", i, d); if (i + 1 == d) held = false; else if (i % 64 == 3 || i + 5 > d) boost::this_fiber::yield(); m.unlock(); }
        other.join(); VF_CHECK(got, "crowd.lost", "the other fiber never got the mutex");
        bool err = false; try { m.unlock(); } catch (bf::lock_error const&) { err = true; } VF_CHECK(err, "crowd.recursive", "one unlock too many was accepted"); } });
}
static void cvs(Case& c, int n) {
    bf::mutex m; bf::condition_variable cv; int waiting = 0, woken = 0, tokens = 0; bool all = c.rng.chance(1, 2), open = false; uint64_t seed = c.rng.u();
    crowd(c, n + 1, 2, [&](int f) {
        Rng r(mix(seed, uint64_t(f))); std::unique_lock<bf::mutex> lk(m);
        if (f) { ++waiting; if (all) { while (!open) cv.wait(lk); } else { while (!tokens) cv.wait(lk); --tokens; } ++woken; logev(E_OUT, f); return; }
        for (int64_t w = 10; waiting < n; w *= 2) { lk.unlock(); boost::this_fiber::sleep_for(us(w)); lk.lock(); }
        if (all) { open = true; cv.notify_all(); } else for (int i = 0; i < n; ++i) { ++tokens; cv.notify_one(); if (r.chance(1, 20)) { lk.unlock(); boost::this_fiber::yield(); lk.lock(); } }
    });
    VF_CHECK(woken == n && tokens == 0, "crowd.lost", "%d of %d waiters woken, %d notifications left", woken, n, tokens);
}
static void barriers(Case& c, int n) {
    bf::barrier b(static_cast<std::size_t>(n)); std::atomic<int> trues{ 0 }, in{ 0 }; int rounds = c.rng.range(1, 3);
    crowd(c, n, 2, [&](int f) { for (int k = 0; k < rounds; ++k) { in.fetch_add(1); bool t = b.wait(); VF_CHECK(in.load() >= n * (k + 1), "crowd.barrier", "fiber %d left round %d when %d of %d had arrived", f, k, in.load() - n * k, n); if (t) trues.fetch_add(1); } });
    VF_CHECK(trues.load() == rounds, "crowd.barrier", "%d fibers elected in %d rounds", trues.load(), rounds);
}
template <class Ch> static void chans(Case& c, Ch& ch, int n, bool producers) {      // n fibers on one side, one on the other
    std::vector<char> seen(static_cast<std::size_t>(n), 0); std::atomic<int> left{ n };
    crowd(c, n + 1, 2, [&](int f) {
        int v = -1;
        if (f == 0) { for (int i = 0; i < n; ++i) { if (producers) { VF_CHECK(ch.pop(v) == bf::channel_op_status::success && v >= 0 && v < n && !seen[std::size_t(v)], "crowd.channel", "popped %d", v); seen[std::size_t(v)] = 1; } else VF_CHECK(ch.push(i) == bf::channel_op_status::success, "crowd.channel", "push failed"); } }
        else if (producers) { VF_CHECK(ch.push(f - 1) == bf::channel_op_status::success, "crowd.channel", "push failed"); }
        else { VF_CHECK(ch.pop(v) == bf::channel_op_status::success && v >= 0 && v < n, "crowd.channel", "popped %d", v); static bf::mutex m; std::unique_lock<bf::mutex> lk(m); VF_CHECK(!seen[std::size_t(v)], "crowd.channel", "value %d delivered twice", v); seen[std::size_t(v)] = 1; }
        logev(E_OUT, f, v);
    });
    for (int i = 0; i < n; ++i) VF_CHECK(seen[std::size_t(i)], "crowd.channel", "value %d lost", i);
}
struct alignas(64) Wide { long id = -1; char pad[100]; Wide() = default; Wide(long i) : id(i) { std::memset(pad, int(i & 127), sizeof pad); } bool good() const { for (char x : pad) if (x != char(id & 127)) return false; return (reinterpret_cast<uintptr_t>(this) & 63) == 0; } };
template <class T> static void bigbuf(Case& c, T (*mk)(long), bool (*is)(T const&, long)) {
    int lg = c.rng.chance(1, 5) ? c.rng.range(15, 17) : c.rng.range(5, 12); if (opt_int("race", 0) && lg > 12) lg = 12; std::size_t cap = std::size_t(1) << lg; uint64_t seed = c.rng.u(); c.note("capacity=%zu ", cap); c.nontrivial = true; c.max_points = 200000000; Opts o; count("big_buffers");
    c.run({ [&] { install(o, 0); Rng r(seed); auto chp = std::make_unique<bf::buffered_channel<T>>(cap); auto& ch = *chp; std::deque<long> model; long next = 0; std::size_t room = 0;
        auto push = [&] { T v = mk(next); auto s = model.size() + 1 < cap && r.chance(1, 3) ? ch.push(v) : r.chance(1, 2) ? ch.try_push(std::move(v)) : ch.try_push(v); if (s == bf::channel_op_status::success) { model.push_back(next++); return true; } VF_CHECK(s == bf::channel_op_status::full, "crowd.channel", "push reports neither success nor full"); return false; };
        auto pop = [&] { T v = mk(-1); auto s = !model.empty() && r.chance(1, 3) ? ch.pop(v) : ch.try_pop(v); if (model.empty()) { VF_CHECK(s == bf::channel_op_status::empty, "crowd.channel", "pop from an empty channel did not report empty"); return false; } VF_CHECK(s == bf::channel_op_status::success && is(v, model.front()), "crowd.channel", "popped something else than the oldest element %ld", model.front()); model.pop_front(); return true; };
        for (std::size_t k = r.below(uint32_t(cap)); k > 0; --k) { push(); pop(); }            // somewhere inside the ring
        while (push()) { } room = model.size(); VF_CHECK(room >= cap - 1 && room <= cap, "crowd.channel", "a channel of capacity %zu took %zu elements", cap, room); VF_CHECK(!push(), "crowd.channel", "full, then not full");
        for (std::size_t k = 0; k < cap / 2; ++k) { if (r.chance(1, 2)) push(); else pop(); }
        while (push()) { } VF_CHECK(model.size() == room, "crowd.channel", "a channel that took %zu elements takes %zu now", room, model.size());
        ch.close(); T x = mk(0); VF_CHECK(ch.try_push(x) == bf::channel_op_status::closed, "crowd.channel", "push after close"); std::size_t n = 0;
        for (T const& v : ch) { VF_CHECK(!model.empty() && is(v, model.front()), "crowd.channel", "the iterator delivers something else than the oldest element"); model.pop_front(); ++n; }
        VF_CHECK(model.empty() && n == room, "crowd.channel", "%zu of %zu elements delivered after close", n, room); VF_CHECK(ch.pop(x) == bf::channel_op_status::closed, "crowd.channel", "pop on a drained closed channel"); } });
}
static void futures(Case& c, int n) {
    bf::promise<long> p; bf::shared_future<long> fu = p.get_future().share(); long v = long(c.rng.below(100000)); bool exc = c.rng.chance(1, 3); std::atomic<int> at{ 0 };
    crowd(c, n + 1, 2, [&](int f) {
        if (f == 0) { for (int64_t w = 10; at.load() < n; w *= 2) boost::this_fiber::sleep_for(us(w)); if (exc) p.set_exception(std::make_exception_ptr(v)); else p.set_value(v); return; }
        bf::shared_future<long> mine = fu; at.fetch_add(1); if (f % 3 == 0) mine.wait(); long got; try { got = mine.get(); VF_CHECK(!exc, "crowd.future", "value instead of exception"); } catch (long x) { VF_CHECK(exc, "crowd.future", "exception instead of value"); got = x; } VF_CHECK(got == v, "crowd.future", "got %ld instead of %ld", got, v);
    });
}
struct Tracked { static std::atomic<long> live; long x; Tracked(long v) : x(v) { live.fetch_add(1, rlx); } Tracked(Tracked const& o) : x(o.x) { live.fetch_add(1, rlx); } ~Tracked() { x = -77; live.fetch_sub(1, rlx); } };
std::atomic<long> Tracked::live{ 0 };
static void owners(Case& c) {
    int n = c.rng.chance(1, 5) ? 65536 + c.rng.range(-1, 2) : 256 + c.rng.range(-2, 3); c.note("owners=%d ", n); c.nontrivial = true; c.max_points = 60000000; Opts o; uint64_t seed = c.rng.u(); Tracked::live = 0; count("many_owners");
    c.run({ [&] { install(o, 0); Rng r(seed); std::vector<bf::shared_future<Tracked>> v; v.reserve(std::size_t(n)); { bf::promise<Tracked> p; v.push_back(p.get_future().share()); p.set_value(Tracked(5)); }
        while (int(v.size()) < n) v.push_back(v[r.below(uint32_t(v.size()))]);
        VF_CHECK(Tracked::live.load() == 1, "crowd.future", "%ld results alive", Tracked::live.load());
        while (v.size() > 1) { v.pop_back(); if (r.chance(1, 200) || v.size() < 300) VF_CHECK(v[r.below(uint32_t(v.size()))].get().x == 5 && Tracked::live.load() == 1, "crowd.future", "the result is gone while %zu futures refer to it", v.size()); }
        v.clear(); VF_CHECK(Tracked::live.load() == 0, "crowd.future", "the result outlives all its owners"); } });
}
static void tasks(Case& c, int n) {
    Opts o = pick_world(c, 2); c.nontrivial = true; std::vector<std::function<void()>> fns; int per = n / o.threads; std::atomic<int> mains{ 0 };
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] { install(o, t); std::vector<bf::future<long>> fu; for (int i = 0; i < per; ++i) fu.push_back(bf::async(i % 3 ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, bf::fixedsize_stack(stack_size()), [i](long k) { if (i % 5 == 0) boost::this_fiber::yield(); return i + k; }, 1000L * t));
        for (int i = per; i-- > 0;) VF_CHECK(fu[std::size_t(i)].get() == i + 1000L * t, "crowd.task", "async %d delivered a wrong result", i); mains.fetch_add(1); while (mains.load() < o.threads) { std::this_thread::yield(); boost::this_fiber::yield(); } });
    c.run(fns);
}
static void lives(Case& c, int n) {
    std::vector<std::atomic<int>> runs(static_cast<std::size_t>(n)); for (auto& r : runs) r = 0; std::atomic<int> done{ 0 }; Tracked::live = 0; uint64_t seed = c.rng.u(); Opts o; o.seed = seed; int algo = c.rng.chance(1, 2) ? RR : CHAOS; o.algo = algo; c.nontrivial = true;
    c.run({ [&] { install(o, 0); Rng r(seed); std::vector<bf::fiber> v; std::set<bf::fiber::id> ids; bool wait = r.chance(1, 2); bf::mutex m; bf::condition_variable cv; bool open = !wait;
        for (int i = 0; i < n; ++i) { v.push_back(spawn(r, [&, i, t = Tracked(i)] { if (!open) { std::unique_lock<bf::mutex> lk(m); while (!open) cv.wait(lk); } VF_CHECK(t.x == i, "crowd.argument", "fiber %d sees %ld", i, t.x); runs[std::size_t(i)].fetch_add(1); done.fetch_add(1); })); VF_CHECK(wait ? ids.insert(v.back().get_id()).second : true, "crowd.ids", "two live fibers share an id"); }
        if (wait) { for (int i = 0; i < 3; ++i) boost::this_fiber::yield(); std::unique_lock<bf::mutex> lk(m); open = true; cv.notify_all(); }
        for (std::size_t k = v.size(); k-- > 0;) { std::size_t j = r.below(uint32_t(k + 1)); std::swap(v[j], v[k]); if (r.chance(1, 4)) v[k].detach(); else v[k].join(); }
        while (done.load() < n) boost::this_fiber::yield(); } });
    for (int i = 0; i < n; ++i) VF_CHECK(runs[std::size_t(i)].load() == 1, "crowd.runs", "fiber %d ran %d times", i, runs[std::size_t(i)].load());
    VF_CHECK(Tracked::live.load() == 0, "crowd.leak", "%ld arguments left", Tracked::live.load());
}
static void sleepers(Case& c, int n) {
    Opts o; o.seed = c.rng.u(); o.algo = c.rng.chance(1, 2) ? RR : CHAOS; c.nontrivial = true; uint64_t seed = c.rng.u(); int64_t spread = c.rng.chance(1, 2) ? 20 : 1000000; std::vector<int64_t> order; std::vector<int64_t> early;
    c.run({ [&] { install(o, 0); Rng r(seed); auto t0 = clk::now() + std::chrono::milliseconds(50); std::vector<bf::fiber> v; bf::mutex m; bf::condition_variable cv;
        for (int i = 0; i < n; ++i) { int64_t d = int64_t(r.below(uint32_t(spread))) * 1000; bool w = r.chance(1, 4); v.push_back(spawn(r, [&, d, w] { auto dl = t0 + ns(d); if (w) { std::unique_lock<bf::mutex> lk(m); VF_CHECK(cv.wait_until(lk, dl) == bf::cv_status::timeout, "crowd.sleep", "a wait nobody notified did not time out"); } else boost::this_fiber::sleep_until(dl);
            VF_CHECK(clk::now() >= dl, "crowd.sleep", "woke early"); VF_CHECK(clk::now() < dl + std::chrono::seconds(1), "crowd.sleep", "woke a second late"); if (!w && o.algo == RR) { VF_CHECK(order.empty() || order.back() <= d, "crowd.sleep_order", "a fiber due at %lld resumed after one due at %lld", (long long)d, (long long)order.back()); order.push_back(d); } })); }
        for (auto& f : v) f.join(); } });
}
static void fsses(Case& c, int n) {
    c.nontrivial = true; Opts o; o.seed = c.rng.u(); uint64_t seed = c.rng.u(); std::atomic<int> cleaned{ 0 }, made{ 0 };
    c.run({ [&] { install(o, 0); Rng r(seed); struct V { std::atomic<int>* k; int x; ~V() { k->fetch_add(1); } }; std::vector<std::unique_ptr<bf::fiber_specific_ptr<V>>> ps; for (int i = 0; i < n; ++i) ps.push_back(std::make_unique<bf::fiber_specific_ptr<V>>());
        auto body = [&](int f) { for (int i = 0; i < n; ++i) { VF_CHECK(!ps[std::size_t(i)]->get(), "crowd.fss", "a new fiber starts with a value"); ps[std::size_t(i)]->reset(new V{ &cleaned, f * 1000 + i }); made.fetch_add(1); } boost::this_fiber::yield(); for (int i = n; i-- > 0;) VF_CHECK(ps[std::size_t(i)]->get() && (*ps[std::size_t(i)])->x == f * 1000 + i, "crowd.fss", "fiber %d lost value %d", f, i); };
        bf::fiber a = spawn(r, [&] { body(1); }), b = spawn(r, [&] { body(2); }); body(3); a.join(); b.join(); VF_CHECK(cleaned.load() == 2 * n, "crowd.fss", "%d of %d values cleaned up after their fibers ended", cleaned.load(), 2 * n);
        for (int i = 0; i < n; ++i) ps[std::size_t(i)]->reset(nullptr); VF_CHECK(cleaned.load() == 3 * n, "crowd.fss", "%d of %d values cleaned up", cleaned.load(), 3 * n); } });
}
static void order(Case& c, int n) {     // FIFO among hundreds
    c.nontrivial = true; Opts o; uint64_t seed = c.rng.u(); int rounds = c.rng.range(1, 4); long turn = 0;
    c.run({ [&] { bf::use_scheduling_algorithm<bf::algo::round_robin>(); std::vector<bf::fiber> v; for (int i = 0; i < n; ++i) v.emplace_back(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&, i] { for (int k = 0; k < rounds; ++k) { VF_CHECK(turn == long(k) * n + i, "crowd.order", "fiber %d runs at turn %ld instead of %ld", i, turn, long(k) * n + i); ++turn; boost::this_fiber::yield(); } });
        for (auto& f : v) f.join(); } });
}
// two fibers that block many thousand times
static void longlife(Case& c) {
    int what = int(pick_what(c, 9)); int n = c.rng.chance(1, 12) ? 65536 + c.rng.range(0, 600) : c.rng.chance(1, 4) ? c.rng.range(1000, 3000) : c.rng.range(256, 600); c.note("long life %d rounds=%d ", what, n); c.nontrivial = true; c.max_points = 400000000; count("blockings", uint64_t(n)); Opts o; o.seed = c.rng.u(); o.algo = c.rng.chance(2, 3) ? RR : CHAOS;
    c.run({ [&] { install(o, 0); Rng r(o.seed); int turn = 0, d1 = 0, d2 = 0; bf::mutex m; bf::timed_mutex tm; bf::condition_variable cv; bf::condition_variable_any cva; bf::buffered_channel<int> bc(2); bf::unbuffered_channel<int> uc; bf::barrier br(2); std::unique_ptr<bf::promise<int>> pr; bf::future<int> fu;
        auto far = [] { return clk::now() + std::chrono::hours(1); }; bool timed = r.chance(1, 2);
        auto side = [&](int me) { int& d = me ? d2 : d1; for (int i = 0; i < n; ++i, ++d) switch (what) {
            case 0: { std::unique_lock<bf::mutex> lk(m); while (turn != 2 * i + me) { if (timed) VF_CHECK(cv.wait_until(lk, far()) == bf::cv_status::no_timeout, "crowd.status", "round %d: a notified wait timed out", i); else cv.wait(lk); } ++turn; cv.notify_one(); break; }
            case 1: { std::unique_lock<bf::timed_mutex> lk(tm); if (timed) { VF_CHECK(cva.wait_until(lk, far(), [&] { return turn == 2 * i + me; }), "crowd.status", "round %d: a notified wait timed out", i); } else cva.wait(lk, [&] { return turn == 2 * i + me; }); ++turn; cva.notify_all(); break; }
            case 2: { int v = -1; if (me) VF_CHECK((timed ? bc.push_wait_until(i, far()) : bc.push(i)) == bf::channel_op_status::success, "crowd.status", "push"); else VF_CHECK((timed ? bc.pop_wait_until(v, far()) : bc.pop(v)) == bf::channel_op_status::success && v == i, "crowd.channel", "round %d: popped %d", i, v); break; }
            case 3: { int v = -1; if (me) VF_CHECK((timed ? uc.push_wait_until(i, far()) : uc.push(i)) == bf::channel_op_status::success, "crowd.status", "push"); else VF_CHECK((timed ? uc.pop_wait_until(v, far()) : uc.pop(v)) == bf::channel_op_status::success && v == i, "crowd.channel", "round %d: popped %d", i, v); break; }
            case 4: { turn++; bool t = br.wait(); VF_CHECK(turn >= 2 * (i + 1), "crowd.barrier", "round %d: released early", i); (void)t; break; }
            case 5: { auto t0 = clk::now(); boost::this_fiber::sleep_for(ns(50)); VF_CHECK(since(t0) >= 50, "crowd.sleep", "woke early"); break; }
            case 6: { if (me == 0) { bf::fiber f = spawn(r, [&] { ++turn; boost::this_fiber::yield(); }); f.join(); VF_CHECK(turn == i + 1, "crowd.runs", "join returned early"); } else boost::this_fiber::yield(); break; }
            case 7: { std::unique_lock<bf::timed_mutex> lk(tm, std::defer_lock); if (timed) VF_CHECK(lk.try_lock_until(far()), "crowd.status", "round %d: timed attempt failed early", i); else lk.lock(); int t = ++turn; boost::this_fiber::yield(); VF_CHECK(turn == t, "crowd.exclusion", "two owners"); break; }
            default: { if (me == 0) { pr.reset(new bf::promise<int>()); fu = pr->get_future(); turn = 1; if (timed) VF_CHECK(fu.wait_until(far()) == bf::future_status::ready, "crowd.status", "round %d: a timed wait for a satisfied future timed out", i); VF_CHECK(fu.get() == i, "crowd.future", "wrong value"); } else { while (!turn) boost::this_fiber::yield(); turn = 0; pr->set_value(i); } break; }
            } };
        bf::fiber a = spawn(r, [&] { side(0); }), b = spawn(r, [&] { side(1); }); a.join(); b.join(); VF_CHECK(d1 == n && d2 == n, "crowd.lost", "rounds"); } });
}
// a fiber released by its group gets on its way however many groups complete before its thread is free to resume it
static void cycle(Case& c) {
    static const int ks[] = { 0, 1, 2, 3, 7, 127, 254, 255, 256, 511, 1023 }; int k = c.rng.chance(1, 25) ? 65535 : ks[c.rng.below(11)], n = c.rng.range(2, 3); c.note("barrier %d, %d groups while a released fiber's thread is busy ", n, k); c.nontrivial = true; c.max_points = 400000000; bf::barrier b(static_cast<std::size_t>(n)); std::atomic<int> trues{ 0 }, st{ 0 }; std::atomic<bool> waited{ false };
    c.run({ [&] { Opts o; install(o, 0); while (st.load() != 1) std::this_thread::yield();         // the waiter is in and its thread busy
                std::vector<bf::fiber> v; for (int i = 0; i < n; ++i) v.emplace_back(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&, i] { if (i + 1 < n) if (b.wait()) trues++; for (int j = 0; j < k; ++j) if (b.wait()) trues++; }); for (auto& f : v) f.join(); st = 2; },
            [&] { Opts o; install(o, 1); bf::fiber w(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&] { if (b.wait()) trues++; waited = true; }); bf::fiber h(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&] { st = 1; while (st.load() != 2) std::this_thread::yield(); }); w.join(); h.join(); } });
    VF_CHECK(waited.load() && trues.load() == k + 1, "crowd.barrier", "%d fibers elected in %d groups", trues.load(), k + 1); count("groups", uint64_t(k + 1));
}
// hundreds of fibers of a busy (or sleeping) thread become ready from another thread at once
static void remotes(Case& c, int n) {
    bool busy = c.rng.chance(2, 3); int how = int(pick_what(c, 4)); c.note("remote %d busy=%d ", how, int(busy)); c.nontrivial = true; bf::mutex m; bf::condition_variable cv; bool open = false; bf::promise<int> pr; bf::shared_future<int> fu = pr.get_future().share(); bf::buffered_channel<int> ch(1024); bf::barrier br(static_cast<std::size_t>(n) + 1); std::atomic<int> in{ 0 }, out{ 0 }; std::atomic<int> st{ 0 }; uint64_t s1 = c.rng.u(); Opts o; o.seed = c.rng.u(); o.algo = c.rng.chance(1, 2) ? RR : CHAOS;
    c.run({ [&] { install(o, 0); Rng r(s1); std::vector<bf::fiber> v;
                for (int i = 0; i < n; ++i) v.push_back(spawn(r, [&] { in++; int x; switch (how) { case 0: { std::unique_lock<bf::mutex> lk(m); while (!open) cv.wait(lk); break; } case 1: VF_CHECK(fu.get() == 3, "crowd.future", "value"); break; case 2: VF_CHECK(ch.pop(x) == bf::channel_op_status::success, "crowd.channel", "pop"); break; default: br.wait(); } out++; }));
                while (in.load() < n) boost::this_fiber::yield();
                for (int i = 0; i < 2; ++i) boost::this_fiber::yield();
                st = 1; if (busy) while (st.load() != 2) std::this_thread::yield(); for (auto& f : v) f.join(); VF_CHECK(out.load() == n, "crowd.lost", "out"); },
            [&] { install(o, 1); while (st.load() != 1) std::this_thread::yield(); switch (how) { case 0: { std::unique_lock<bf::mutex> lk(m); open = true; cv.notify_all(); break; } case 1: pr.set_value(3); break; case 2: for (int i = 0; i < n; ++i) VF_CHECK(ch.try_push(i) == bf::channel_op_status::success, "crowd.channel", "push"); break; default: br.wait(); } st = 2; } });
}
VF_FAMILY(crowd) {
    int k = opt_int("kind", -1); if (k < 0) k = int(c.rng.below(KINDS)); int n = c.rng.chance(1, 3) ? 255 + c.rng.range(0, 4) : c.rng.range(40, 330); c.note("crowd %s n=%d ", kn[k], n); count(kn[k]);
    switch (k) {
    case LOCK: switch (c.rng.below(4)) { case 0: locks<bf::mutex>(c, n); break; case 1: locks<bf::timed_mutex>(c, n); break; case 2: locks<bf::recursive_mutex>(c, n); break; default: locks<bf::recursive_timed_mutex>(c, n); } break;
    case RECURSION: if (c.rng.chance(1, 2)) recursion<bf::recursive_mutex>(c); else recursion<bf::recursive_timed_mutex>(c); break;
    case CV: cvs(c, n); break;
    case BARRIER: barriers(c, n); break;
    case BUFFERED: { bf::buffered_channel<int> ch(std::size_t(1) << c.rng.range(1, 4)); chans(c, ch, n, c.rng.chance(1, 2)); break; }
    case BIGBUF: if (c.rng.chance(1, 4)) bigbuf<Wide>(c, [](long i) { return Wide(i); }, [](Wide const& w, long i) { return w.id == i && w.good(); }); else bigbuf<long>(c, [](long i) { return i; }, [](long const& v, long i) { return v == i; }); break;
    case UNBUF: { bf::unbuffered_channel<int> ch; chans(c, ch, n, c.rng.chance(1, 2)); break; }
    case FUTURE: futures(c, n); break;
    case OWNERS: owners(c); break;
    case TASKS: tasks(c, n); break;
    case LIFE: lives(c, n); break;
    case SLEEP: sleepers(c, n); break;
    case FSS: fsses(c, n); break;
    case ORDER: order(c, n); break;
    case LONGLIFE: longlife(c); break;
    case CYCLE: cycle(c); break;
    default: remotes(c, n); break;
    }
}

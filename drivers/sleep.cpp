// Sleeping and timed waits: never early, never much late, in deadline order, unaffected by earlier waits.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_SLEEP = 1, E_AWAKE, E_TIMED, E_TOUT, E_SIGNAL, E_NOTIFIED };
static int init = (name_event(E_SLEEP, "sleep"), name_event(E_AWAKE, "awake"), name_event(E_TIMED, "timed_wait"), name_event(E_TOUT, "timed_out"), name_event(E_SIGNAL, "signal"), name_event(E_NOTIFIED, "notified"), 0);
static const int64_t LATE = 1000000000;      // one virtual second; every "long" wait is ten times that and more
static int64_t nsof(clk::time_point a) { return std::chrono::duration_cast<ns>(a.time_since_epoch()).count(); }

struct Rec { int thread; int64_t t0, dl; uint64_t seq; };    // one sleep_until(steady) on a thread: called at t0, due at dl, resumed seq-th
struct W {
    Case& c; Opts o; uint64_t seed; bool leaps; std::vector<Rec> recs[8]; std::atomic<uint64_t> seqs[8];
    std::vector<int64_t> pts;                // shared set of instants: several fibers due at the same time
    struct Slot { bf::timed_mutex tm; bf::mutex m; bf::condition_variable cv; bool waiting = false, sig = false; bf::buffered_channel<int> ch{ 2 }; };
    std::vector<std::unique_ptr<Slot>> slots; std::atomic<int> left{ 0 };
    W(Case& cc) : c(cc), seed(cc.rng.u()) { for (auto& s : seqs) s = 0; }
    int64_t dur(Rng& r) { switch (r.below(10)) { case 0: return 0; case 1: return -int64_t(r.below(100000)); case 2: case 3: return int64_t(r.below(2000)); case 4: case 5: case 6: return int64_t(r.below(50000)); case 7: return int64_t(r.below(5000000)); case 8: return 10 * LATE + int64_t(r.below(1000000)); default: return int64_t(r.below(20)) * 1000; } }
    void after(int f, int64_t dl, int64_t slack, const char* what) {
        int64_t n = nsof(clk::now());
        VF_CHECK(n + slack >= dl, "sleep.early", "fiber %d: %s ended %lld ns before its deadline", f, what, (long long)(dl - n));
        int64_t late = n - dl; VF_CHECK(late < LATE, "sleep.late", "fiber %d: %s ended %lld ns after its deadline", f, what, (long long)late);
        count("waits_checked");
    }
    // migration makes "thread" meaningless for the ordering rule
    void sleeps(int f, Rng& r, int thr, bool ordered) {
        int64_t d = dur(r); auto t0 = clk::now(); logev(E_SLEEP, f, d); if (d > 0) c.nontrivial = true;
        switch (r.below(8)) {
        case 0: { boost::this_fiber::sleep_for(ns(d)); after(f, std::max(nsof(t0), nsof(t0) + d), 0, "sleep_for(ns)"); break; }
        case 1: { auto u = std::chrono::microseconds(d / 1000); boost::this_fiber::sleep_for(u); after(f, nsof(t0) + std::max<int64_t>(0, d / 1000 * 1000), 0, "sleep_for(us)"); break; }
        case 2: { std::chrono::duration<double, std::milli> fd(double(d) / 1e6); (void)fd; auto ms = std::chrono::milliseconds(d / 1000000); boost::this_fiber::sleep_for(ms); after(f, nsof(t0) + std::max<int64_t>(0, d / 1000000 * 1000000), 0, "sleep_for(ms)"); break; }
        case 3: { other_clock(r, d, [](auto dl) { boost::this_fiber::sleep_until(dl); }); bool exact = o.threads == 1 && !leaps; after(f, nsof(t0) + std::max<int64_t>(0, d), exact ? OTHER_SLACK : LATE, "sleep_until(other clock)"); count("other_clocks"); break; }
        default: {
            auto dl = r.chance(1, 2) && !pts.empty() ? clk::time_point(ns(pts[r.below(uint32_t(pts.size()))])) : t0 + ns(d);
            boost::this_fiber::sleep_until(dl);
            if (ordered) recs[thr].push_back({ thr, nsof(t0), nsof(dl), seqs[thr].fetch_add(1, rlx) });
            after(f, std::max(nsof(t0), nsof(dl)), 0, "sleep_until(steady)"); break; }
        }
        logev(E_AWAKE, f);
    }
    // a timed wait nobody ends: its deadline does
    void lonely(int f, Rng& r, Slot& s) {
        int64_t d = r.chance(1, 8) ? 10 * LATE : std::min<int64_t>(dur(r), 9000000); auto t0 = clk::now(); auto dl = t0 + ns(d); int64_t due = std::max(nsof(t0), nsof(dl)); logev(E_TIMED, f, d);
        bool other = r.chance(1, 3); int64_t slack = other ? o.threads == 1 && !leaps ? OTHER_SLACK : LATE : 0; if (other) count("other_clocks");
        auto until = [&](auto&& g) { return other ? other_clock(r, d, g) : g(dl); };
        switch (r.below(8)) {
        case 0: { bf::condition_variable cv; bf::mutex m; std::unique_lock<bf::mutex> lk(m); auto st = other || r.chance(1, 2) ? until([&](auto t) { return cv.wait_until(lk, t); }) : cv.wait_for(lk, ns(d)); VF_CHECK(st == bf::cv_status::timeout, "sleep.status", "a wait nobody notified reported no_timeout"); after(f, due, slack, "condition_variable timed wait"); break; }
        case 1: { bf::promise<int> p; auto fu = p.get_future(); auto st = other || r.chance(1, 2) ? until([&](auto t) { return fu.wait_until(t); }) : fu.wait_for(ns(d)); VF_CHECK(st == bf::future_status::timeout, "sleep.status", "a future nobody satisfied is ready"); after(f, due, slack, "future timed wait"); break; }
        case 2: { bf::buffered_channel<int> ch(2); int v; auto st = other || r.chance(1, 2) ? until([&](auto t) { return ch.pop_wait_until(v, t); }) : ch.pop_wait_for(v, ns(d)); VF_CHECK(st == bf::channel_op_status::timeout, "sleep.status", "pop from an empty channel did not time out"); after(f, due, slack, "pop_wait"); break; }
        case 3: { bf::unbuffered_channel<int> ch; auto st = other || r.chance(1, 2) ? until([&](auto t) { return ch.push_wait_until(7, t); }) : ch.push_wait_for(7, ns(d)); VF_CHECK(st == bf::channel_op_status::timeout, "sleep.status", "push without a consumer did not time out"); after(f, due, slack, "push_wait"); break; }
        case 4: { bf::unbuffered_channel<int> ch; int v = 3; auto st = other || r.chance(1, 2) ? until([&](auto t) { return ch.pop_wait_until(v, t); }) : ch.pop_wait_for(v, ns(d)); VF_CHECK(st == bf::channel_op_status::timeout && v == 3, "sleep.status", "pop without a producer did not time out"); after(f, due, slack, "pop_wait"); break; }
        case 5: { bf::buffered_channel<int> ch(2); while (ch.try_push(1) == bf::channel_op_status::success) { } const int v = 7; auto st = other || r.chance(1, 2) ? until([&](auto t) { return r.chance(1, 2) ? ch.push_wait_until(v, t) : ch.push_wait_until(8, t); }) : ch.push_wait_for(v, ns(d)); VF_CHECK(st == bf::channel_op_status::timeout, "sleep.status", "push into a full channel did not time out"); after(f, due, slack, "push_wait"); break; }
        case 6: { bf::condition_variable cv; bf::mutex m; std::unique_lock<bf::mutex> lk(m); int asked = 0; bool b = other || r.chance(1, 2) ? until([&](auto t) { return cv.wait_until(lk, t, [&asked] { ++asked; return false; }); }) : cv.wait_for(lk, ns(d), [&asked] { ++asked; return false; }); VF_CHECK(!b && asked > 0, "sleep.status", "predicate wait invented success"); after(f, due, slack, "condition_variable predicate wait"); break; }
        default: { bf::condition_variable_any cv; bf::timed_mutex m; std::unique_lock<bf::timed_mutex> lk(m); bool b = until([&](auto t) { return cv.wait_until(lk, t, [] { return false; }); }); VF_CHECK(!b, "sleep.status", "predicate wait invented success"); after(f, due, slack, "condition_variable_any timed wait"); break; }
        }
        logev(E_TOUT, f); (void)s; c.nontrivial = true; count("lonely_timeouts");
    }
    // a long timed wait ended early by a notification; the sleep after it must not inherit anything
    void notified(int f, Rng& r, int thr, bool ordered) {
        Slot& s = *slots[std::size_t(f)]; auto t0 = clk::now(); int64_t d = r.chance(1, 3) ? int64_t(r.below(40000)) : 10 * LATE; auto dl = d >= LATE && r.chance(1, 2) ? (clk::time_point::max)() : t0 + ns(d); bool ok;
        if (d < LATE && r.chance(1, 2)) { boost::this_fiber::yield(); }
        { std::unique_lock<bf::mutex> lk(s.m); s.waiting = true; s.sig = false; logev(E_TIMED, f, d);
          ok = s.cv.wait_until(lk, dl, [&s] { return s.sig; }); s.waiting = false;
          if (!ok) { VF_CHECK(dl != (clk::time_point::max)(), "sleep.early", "fiber %d: a wait without end timed out", f); after(f, nsof(dl), 0, "timed wait"); } else { logev(E_NOTIFIED, f); count("notified_early"); if (d >= LATE) VF_CHECK(clk::now() < dl, "sleep.late", "fiber %d: a notified wait ended only at its deadline", f); } }
        c.nontrivial = true;
        if (r.chance(2, 3)) sleeps(f, r, thr, ordered); else if (r.chance(1, 2)) lonely(f, r, s);
    }
    void body(int f, int thr, bool ordered, int n) {
        Rng r(mix(seed, uint64_t(f)));
        for (int i = 0; i < n; ++i) { uint32_t x = r.below(10); if (x < 5) sleeps(f, r, thr, ordered); else if (x < 7) lonely(f, r, *slots[std::size_t(f)]); else notified(f, r, thr, ordered); if (r.chance(1, 3)) jitter(r); }
        left.fetch_sub(1);
    }
    // keeps signalling whoever waits; stays awake or sleeps in short steps
    void signaller(uint64_t s) {
        Rng r(s);
        while (left.load() > 0) {
            for (auto& p : slots) { std::unique_lock<bf::mutex> lk(p->m); if (p->waiting && !p->sig && r.chance(1, 3)) { p->sig = true; logev(E_SIGNAL, -1); if (r.chance(1, 2)) lk.unlock(); if (r.chance(1, 2)) p->cv.notify_one(); else p->cv.notify_all(); } }
            if (r.chance(1, 4)) boost::this_fiber::yield(); else boost::this_fiber::sleep_for(ns(r.below(600000000)));
        }
    }
    // always ready: the thread never idles, and time passes only as these fibers burn it
    void busy(uint64_t s) { Rng r(s); while (left.load() > 0) { ctl_advance(r.below(r.chance(1, 4) ? 20000000 : 3000)); boost::this_fiber::yield(); count("busy_rounds"); } }
    void judge() {
        for (int t = 0; t < 8; ++t) for (auto& a : recs[t]) for (auto& b : recs[t])
            if (&a != &b && a.t0 < b.dl && a.dl < b.dl) { VF_CHECK(a.seq < b.seq, "sleep.order", "thread %d: a sleep due %lld ns earlier was resumed later", t, (long long)(b.dl - a.dl)); count("ordered_pairs"); }
    }
};
VF_FAMILY(sleep) {
    Opts o = pick_world(c, 3); o.suspend = true;      /* a busy-waiting scheduler would burn the long waits */ W w(c); w.o = o; int nf = c.rng.range(1, 6), n = c.rng.range(1, 5); w.leaps = c.rng.chance(1, 4); if (w.leaps) c.leap_ns = 20000;
    int nbusy = o.algo == RR && o.threads == 1 && c.rng.chance(1, 2) ? c.rng.range(1, 3) : 0;
    bool mains = c.rng.chance(1, 2); bool sig_main = c.rng.chance(1, 3) && !mains; bool ordered = o.algo == RR;
    for (int i = 0, k = c.rng.range(0, 3); i < k; ++i) w.pts.push_back(1000000000000ll + int64_t(c.rng.below(300000)));
    int total = nf + (mains ? o.threads : 0); w.left = total; for (int i = 0; i < nf + 4; ++i) w.slots.emplace_back(new W::Slot);
    c.note("sleep fibers=%d per=%d mains=%d busy=%d ", nf, n, int(mains), nbusy); uint64_t sd = c.rng.u(); c.max_points = 30000000;   // the busy fibers turn round while the others wait
    struct Gate { bf::mutex m; bf::condition_variable cv; int left; } g; g.left = o.threads; bool mig = o.algo >= SHARED;
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
        install(o, t); Rng r(mix(sd, uint64_t(t))); std::vector<bf::fiber> fs;
        for (int f = t; f < nf; f += o.threads) fs.push_back(spawn(r, [&w, f, t, n, ordered] { w.body(f, t, ordered, n); }));
        if (!sig_main && t == 0) fs.push_back(spawn(r, [&w, sd] { w.signaller(sd); }));
        for (int b = 0; b < nbusy; ++b) fs.push_back(spawn(r, [&w, q = r.u()] { w.busy(q); }));
        if (mains) w.body(nf + t, t, ordered, n);
        if (sig_main && t == 0) w.signaller(sd);
        for (auto& f : fs) f.join();
        if (mig) { std::unique_lock<bf::mutex> lk(g.m); if (--g.left == 0) g.cv.notify_all(); while (g.left) g.cv.wait(lk); }
    });
    c.run(fns); w.judge();
}

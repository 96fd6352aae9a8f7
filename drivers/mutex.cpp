// Mutex family: exclusion, ownership, recursion, errors, timed attempts, no stranded waiter.
#include "vf.hpp"
using namespace vf;
enum { E_LOCKED = 1, E_UNLOCK, E_TRY_FAIL, E_TIMEOUT, E_ERR, E_REQ };
static int init = (name_event(E_LOCKED, "own"), name_event(E_UNLOCK, "release"), name_event(E_TRY_FAIL, "try_fail"), name_event(E_TIMEOUT, "timeout"), name_event(E_ERR, "lock_error"), name_event(E_REQ, "request"), 0);

template <class M> constexpr bool is_timed() { return std::is_same<M, bf::timed_mutex>::value || std::is_same<M, bf::recursive_timed_mutex>::value; }
template <class M> constexpr bool is_rec() { return std::is_same<M, bf::recursive_mutex>::value || std::is_same<M, bf::recursive_timed_mutex>::value; }

// observer of one mutex; relaxed atomics only, so that it adds no ordering the mutex should provide
struct Obs {
    std::atomic<int> owner{ -1 }, level{ 0 }, inflight{ 0 }; std::atomic<uint64_t> version{ 0 };
    long data[4] = { 0, 0, 0, 0 };  // plain, watched: protected by the mutex
    std::atomic<long> expect{ 0 };
};
static const auto rlx = std::memory_order_relaxed;

template <class M> struct Prog {
    Case& c; int nm; M* ms; Obs* ob; uint64_t seed; int tmax;
    struct Call { Obs& o; bool free_at_start; uint64_t v; Call(Obs& ob) : o(ob) { uint64_t v0 = o.version.load(rlx); bool alone = o.inflight.fetch_add(1, rlx) == 0; v = o.version.fetch_add(1, rlx) + 1;
            free_at_start = alone && v == v0 + 1 && o.owner.load(rlx) < 0; }
        ~Call() { o.inflight.fetch_sub(1, rlx); }
        bool must_succeed() const { return free_at_start && o.version.load(rlx) == v; } };
    void acquired(int f, int k) {
        Obs& o = ob[k];
        int prev = o.owner.exchange(f, rlx);
        VF_CHECK(prev < 0, "mutex.exclusion", "fiber %d acquired mutex %d while fiber %d owned it", f, k, prev);
        o.level.store(1, rlx); logev(E_LOCKED, f, k, 1);
        for (long& d : o.data) ++d;
        o.expect.fetch_add(1, rlx);
    }
    void critical(int f, int k, Rng& r) {
        Obs& o = ob[k]; long a = o.data[0];
        int n = r.below(4); for (int i = 0; i < n; ++i) jitter(r);
        if (r.chance(1, 8)) boost::this_fiber::sleep_for(ns(r.below(20000)));
        VF_CHECK(o.owner.load(rlx) == f, "mutex.exclusion", "fiber %d inside mutex %d but owner is %d", f, k, o.owner.load(rlx));
        VF_CHECK(o.data[0] == a && o.data[1] == a && o.data[2] == a && o.data[3] == a, "mutex.exclusion", "data protected by mutex %d changed under its owner %d", k, f);
    }
    void release(int f, int k, Rng& r) {
        Obs& o = ob[k]; Call cl(o);      // in flight before the model releases: the real release happens inside
        if (o.level.load(rlx) == 1) { o.owner.store(-1, rlx); o.level.store(0, rlx); } else o.level.fetch_sub(1, rlx);
        logev(E_UNLOCK, f, k, o.level.load(rlx));
        ms[k].unlock();
    }
    bool attempt(int f, int k, int kind, Rng& r) {   // 0 lock 1 try_lock 2 try_lock_for 3 try_lock_until
        Obs& o = ob[k]; logev(E_REQ, f, k, kind);
        if (kind == 0) { if (o.owner.load(rlx) >= 0) { c.nontrivial = true; count("lock_contended"); } Call cl(o); ms[k].lock(); acquired(f, k); return true; }
        if (kind == 1) {
            Call cl(o); bool ok = ms[k].try_lock();
            if (ok) { acquired(f, k); count("try_ok"); return true; }
            VF_CHECK(!cl.must_succeed(), "mutex.try_lock_spurious", "try_lock on mutex %d failed although nobody held or wanted it", k);
            logev(E_TRY_FAIL, f, k); count("try_fail"); c.nontrivial = true; return false;
        }
        if constexpr (is_timed<M>()) {
            int64_t d = r.chance(1, 6) ? -int64_t(r.below(1000)) : int64_t(r.below(uint32_t(tmax)));
            Call cl(o); auto t0 = clk::now(); auto dl = t0 + ns(d); bool ok, other = false;
            if (kind == 2) ok = ms[k].try_lock_for(ns(d));
            else if (r.chance(1, 3)) { other = true; if (r.chance(1, 4)) d = 100000000000ll; ok = other_clock(r, d, [&](auto t) { return ms[k].try_lock_until(t); }); if (!ok && d > 1000000000) { VF_CHECK(clk::now() + std::chrono::seconds(1) > t0 + ns(d), "mutex.early_timeout", "timed attempt on mutex %d gave up much before its deadline", k); } }
            else ok = ms[k].try_lock_until(dl);
            if (ok) { acquired(f, k); count("timed_ok"); return true; }
            auto t1 = clk::now();
            VF_CHECK(other || t1 >= dl, "mutex.early_timeout", "timed attempt on mutex %d gave up %lld ns before its deadline", k, (long long)std::chrono::duration_cast<ns>(dl - t1).count());
            VF_CHECK(!cl.must_succeed(), "mutex.timed_spurious", "timed attempt (d=%lld) on mutex %d failed although nobody held or wanted it", (long long)d, k);
            logev(E_TIMEOUT, f, k, d); count("timed_out"); c.nontrivial = true; return false;
        }
        return false;
    }
    void errors(int f, int k, Rng& r, bool own) {
        auto expect_err = [&](std::errc e, auto&& op, const char* what) {
            bool got = false;
            try { op(); } catch (bf::lock_error const& x) { got = x.code() == std::make_error_code(e); if (!got) fail("mutex.wrong_error", "%s on mutex %d: wrong error code %d", what, k, x.code().value()); }
            VF_CHECK(got, "mutex.missing_error", "%s on mutex %d by fiber %d raised no lock_error", what, k, f);
            logev(E_ERR, f, k, int(e)); count("lock_errors");
        };
        if (own) { if (!is_rec<M>()) { if constexpr (is_timed<M>()) if (r.chance(1, 2)) { auto d = ns(r.chance(1, 3) ? -1 : int(r.below(20000))); if (r.chance(1, 2)) expect_err(std::errc::resource_deadlock_would_occur, [&] { ms[k].try_lock_for(d); }, "timed try_lock by owner"); else expect_err(std::errc::resource_deadlock_would_occur, [&] { ms[k].try_lock_until(clk::now() + d); }, "timed try_lock by owner"); count("timed_self"); return; }
            if (r.chance(1, 2)) expect_err(std::errc::resource_deadlock_would_occur, [&] { ms[k].lock(); }, "relock by owner"); else expect_err(std::errc::resource_deadlock_would_occur, [&] { ms[k].try_lock(); }, "try_lock by owner"); } }
        else expect_err(std::errc::operation_not_permitted, [&] { ms[k].unlock(); }, "unlock by non-owner");
    }
    void hold(int f, int k, Rng& r, int depth) {
        critical(f, k, r);
        if (r.chance(1, 6)) { errors(f, k, r, true); critical(f, k, r); }
        if (is_rec<M>()) {
            int extra = r.below(4);
            for (int i = 0; i < extra; ++i) {
                int kind = is_timed<M>() ? int(r.below(3)) : int(r.below(2)); bool ok = true;
                if (kind == 0) ms[k].lock(); else if (kind == 1) ok = ms[k].try_lock(); else if constexpr (is_timed<M>()) ok = ms[k].try_lock_for(ns(r.chance(1, 3) ? 0 : 5000));
                // an expired deadline behaves like try_lock: the owner still succeeds
                VF_CHECK(ok, "mutex.recursive_try", "owner's recursive attempt kind %d on mutex %d failed", kind, k);
                ob[k].level.fetch_add(1, rlx); count("recursive"); logev(E_LOCKED, f, k, ob[k].level.load(rlx)); critical(f, k, r);
            }
            for (int i = 0; i < extra; ++i) { release(f, k, r); critical(f, k, r); }   // still exclusive until the last unlock
        }
        if (depth == 0 && k + 1 < nm && r.chance(1, 4)) if (attempt(f, k + 1, pick(r), r)) { hold(f, k + 1, r, 1); }   // ordered: no user deadlock
        release(f, k, r);
    }
    int pick(Rng& r) { uint32_t x = r.below(10); if (is_timed<M>()) return x < 4 ? 0 : x < 5 ? 1 : x < 8 ? 2 : 3; return x < 7 ? 0 : 1; }
    void body(int f, int iters) {
        Rng r(mix(seed, uint64_t(f)));
        for (int i = 0; i < iters; ++i) {
            int k = int(r.below(uint32_t(nm)));
            if (r.chance(1, 12)) errors(f, k, r, false);
            if (attempt(f, k, pick(r), r)) hold(f, k, r, 0);
            if (r.chance(1, 10)) boost::this_fiber::sleep_for(ns(r.below(10000)));
            jitter(r);
        }
    }
};
template <class M> static void scenario(Case& c, Opts o, const char* tn) {
    int nm = c.rng.range(1, 2), nf = c.rng.range(2, 6), iters = c.rng.range(2, 6), tmax = c.rng.chance(1, 2) ? 8000 : 60000;
    c.note("%s mutexes=%d fibers=%d iters=%d ", tn, nm, nf, iters);
    auto ms = std::make_unique<M[]>(nm); auto ob = std::make_unique<Obs[]>(nm);
    for (int i = 0; i < nm; ++i) ctl_watch(ob[i].data, sizeof ob[i].data);
    Prog<M> p{ c, nm, ms.get(), ob.get(), c.rng.u(), tmax };
    FiberSet fs{ c, o, nf, [&](int i) { p.body(i, iters); } };
    fs.thread_post = [&](int t) { if (t == 0) return; };
    c.leap_ns = is_timed<M>() ? 20000 : 0;
    fs.run();
    for (int i = 0; i < nm; ++i) {
        VF_CHECK(ob[i].owner.load() == -1, "mutex.exclusion", "mutex %d owned at the end", i);
        for (long d : ob[i].data) VF_CHECK(d == ob[i].expect.load(), "mutex.lost_update", "mutex %d: %ld critical sections, counter %ld", i, ob[i].expect.load(), d);
    }
}
VF_FAMILY(mutex) {
    Opts o = pick_world(c, opt_int("maxthreads", 3));
    static const int only = opt_int("type", -1);
    switch (only >= 0 ? only : int(c.rng.below(4))) {
    case 0: scenario<bf::mutex>(c, o, "mutex"); break;
    case 1: scenario<bf::timed_mutex>(c, o, "timed_mutex"); break;
    case 2: scenario<bf::recursive_mutex>(c, o, "recursive_mutex"); break;
    default: scenario<bf::recursive_timed_mutex>(c, o, "recursive_timed_mutex"); break;
    }
}

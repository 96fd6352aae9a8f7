// Condition variable family: atomic release-and-block, no lost and no invented wakeups,
// truthful status, lock owned on return; plus predicate overloads in a bounded buffer.
#include "vf.hpp"
using namespace vf;
static bool always_timed = false;
static const auto rlx = std::memory_order_relaxed;
enum { E_WAIT = 1, E_WAKE, E_TO, E_N1, E_NALL, E_PUT, E_GET };
static int init = (name_event(E_WAIT, "wait"), name_event(E_WAKE, "woken"), name_event(E_TO, "timeout"), name_event(E_N1, "notify_one"), name_event(E_NALL, "notify_all"), name_event(E_PUT, "put"), name_event(E_GET, "get"), 0);

template <class M, class CV> static void credits(Case& c, Opts o, const char* nm) {
    struct W { bool active = false, timed = false, released = false; };
    struct St { M m; CV cv; std::vector<W> ws; int untimed = 0, outstanding = 0, pend_out = 0, done = 0; long guard[2] = { 0, 0 }; std::atomic<int> holder{ -1 }; };
    auto st = std::make_unique<St>(); St* s = st.get();
    int nw = c.rng.range(1, 5), nn = c.rng.range(1, 2), iters = c.rng.range(1, 5); bool timed = c.rng.chance(1, 2) || always_timed; int tmax = c.rng.chance(1, 2) ? 3000 : 60000;
    if (timed) c.leap_ns = 30000;
    c.note("%s waiters=%d notifiers=%d iters=%d timed=%d ", nm, nw, nn, iters, int(timed));
    s->ws.resize(nw); ctl_watch(s->guard, sizeof s->guard); ctl_watch(&s->untimed, 4 * sizeof(int));
    uint64_t seed = c.rng.u();
    auto enter = [s](int f) { int p = s->holder.exchange(f, rlx); VF_CHECK(p == -1, "cv.lock_not_held", "fiber %d is inside the lock together with fiber %d", f, p); VF_CHECK(s->guard[0] == s->guard[1], "cv.lock_not_held", "torn critical section"); ++s->guard[0]; };
    auto leave = [s](int) { ++s->guard[1]; s->holder.store(-1, rlx); };
    FiberSet fs{ c, o, nw + nn, [&](int f) {
        Rng r(mix(seed, uint64_t(f)));
        if (f < nw) {
            W& w = s->ws[f];
            for (int i = 0; i < iters; ++i) {
                jitter(r);
                std::unique_lock<M> lk(s->m); enter(f);
                w.active = true; w.released = false; w.timed = timed && r.chance(2, 3); if (!w.timed) ++s->untimed;
                logev(E_WAIT, f, w.timed); c.nontrivial = true;
                bool to = false; auto dl = (clk::time_point::max)(); bool other = false;
                leave(f);
                if (!w.timed) s->cv.wait(lk);
                else {
                    int64_t d = r.chance(1, 8) ? 0 : int64_t(r.below(uint32_t(tmax)));
                    auto t0 = clk::now(); dl = t0 + ns(d); int k = r.below(3); bf::cv_status cs;
                    if (k == 0) cs = s->cv.wait_for(lk, ns(d)); else if (k == 1) cs = s->cv.wait_until(lk, dl); else { other = true; if (r.chance(1, 4)) d = 100000000000ll; cs = other_clock(r, d, [&](auto t) { return s->cv.wait_until(lk, t); }); dl = t0 + ns(d); if (cs == bf::cv_status::timeout && d > 1000000000) VF_CHECK(clk::now() + std::chrono::seconds(1) > dl, "cv.early_timeout", "a wait timed out much before its deadline"); }
                    to = cs == bf::cv_status::timeout;
                }
                VF_CHECK(lk.owns_lock(), "cv.lock_not_held", "unique_lock not owning after wait");
                enter(f);
                w.active = false; if (!w.timed) --s->untimed;
                if (to) { logev(E_TO, f); count("timeouts"); auto t1 = clk::now(); VF_CHECK(other || t1 >= dl, "cv.early_timeout", "wait timed out %lld ns early", (long long)std::chrono::duration_cast<ns>(dl - t1).count()); }
                else {
                    logev(E_WAKE, f, w.released); count("wakeups");
                    if (!w.released) { VF_CHECK(s->outstanding > 0, "cv.spurious_wakeup", "fiber %d woke (no_timeout) although no notification was outstanding", f); --s->outstanding; }
                }
                if (i + 1 == iters) ++s->done;
                leave(f);
            }
        } else {
            for (;;) {
                std::unique_lock<M> lk(s->m); enter(f);
                if (s->done == nw) { leave(f); break; }
                bool outside = false;
                if (s->untimed > s->outstanding + 0 && (s->untimed - s->outstanding) > 0) {
                    int rel = 0; for (W& w : s->ws) if (w.active && w.released && !w.timed) ++rel;
                    int avail = s->untimed - rel - s->outstanding;      // unreleased untimed waiters no credit can be spent on otherwise
                    if (avail > 0) {
                        if (s->pend_out == 0 && r.chance(1, 4)) { logev(E_NALL, f); for (W& w : s->ws) if (w.active) w.released = true; s->outstanding = 0; s->cv.notify_all(); count("notify_all"); }
                        else { ++s->outstanding; logev(E_N1, f); count("notify_one"); if (r.chance(1, 3)) { ++s->pend_out; outside = true; } else s->cv.notify_one(); }
                    }
                } else if (s->untimed == 0 && s->outstanding == 0 && s->pend_out == 0 && r.chance(1, 3)) {
                    // only timed waiters (or none): wake them all, or notify nobody at all
                    bool any = false; for (W& w : s->ws) if (w.active) any = true;
                    if (any) { logev(E_NALL, f); for (W& w : s->ws) if (w.active) w.released = true; s->cv.notify_all(); }
                    else { if (r.chance(1, 2)) s->cv.notify_one(); else s->cv.notify_all(); count("notify_nobody"); }
                }
                leave(f);
                if (outside) { lk.unlock(); jitter(r); s->cv.notify_one(); lk.lock(); enter(f); --s->pend_out; leave(f); }
                lk.unlock();
                if (r.chance(1, 4)) boost::this_fiber::sleep_for(ns(r.below(5000))); else boost::this_fiber::yield();
            }
        }
    } };
    fs.run();
    VF_CHECK(s->outstanding == 0, "cv.lost_notification", "%d notifications issued to waiting fibers woke nobody", s->outstanding);
}
template <class M, class CV> static void buffer(Case& c, Opts o, const char* nm) {
    struct St { M m; CV cv_put, cv_get; long buf[8]; int n = 0, cap; long put = 0, got = 0, sum_put = 0, sum_got = 0; };
    auto st = std::make_unique<St>(); St* s = st.get(); s->cap = c.rng.range(1, 4);
    int np = c.rng.range(1, 3), nc = c.rng.range(1, 3), per = c.rng.range(1, 8); bool timed = c.rng.chance(1, 2) || always_timed, all = c.rng.chance(1, 3);
    long total = long(np) * per; ctl_watch(s->buf, sizeof s->buf); ctl_watch(&s->n, 4); ctl_watch(&s->put, 32);
    if (timed) c.leap_ns = 20000;
    c.note("%s buffer cap=%d prod=%d cons=%d per=%d timed=%d all=%d ", nm, s->cap, np, nc, per, int(timed), int(all));
    uint64_t seed = c.rng.u();
    FiberSet fs{ c, o, np + nc, [&](int f) {
        Rng r(mix(seed, uint64_t(f)));
        auto waitp = [&](CV& cv, std::unique_lock<M>& lk, auto pred) -> bool {
            c.nontrivial = true;
            if (!timed || r.chance(1, 2)) { cv.wait(lk, pred); VF_CHECK(pred(), "cv.pred", "wait(pred) returned with a false predicate"); return true; }
            int64_t d = r.below(20000); auto dl = clk::now() + ns(d);
            bool ok = r.chance(1, 2) ? cv.wait_for(lk, ns(d), pred) : cv.wait_until(lk, dl, pred);
            VF_CHECK(ok == pred(), "cv.pred_result", "timed wait(pred) returned %d but the predicate is %d", int(ok), int(pred()));
            if (!ok) VF_CHECK(clk::now() >= dl, "cv.early_timeout", "timed wait(pred) gave up early");
            return ok;
        };
        if (f < np) for (int i = 0; i < per;) {
            std::unique_lock<M> lk(s->m);
            if (!waitp(s->cv_put, lk, [&] { return s->n < s->cap; })) { lk.unlock(); continue; }
            long v = long(f) * 1000 + i; s->buf[s->n++] = v; s->sum_put += v; ++s->put; ++i; logev(E_PUT, f, v);
            if (r.chance(1, 2)) lk.unlock();
            all ? s->cv_get.notify_all() : s->cv_get.notify_one();
            if (lk.owns_lock()) lk.unlock();
            jitter(r);
        } else for (;;) {
            std::unique_lock<M> lk(s->m);
            if (s->got == total) break;
            if (!waitp(s->cv_get, lk, [&] { return s->n > 0 || s->got == total; })) { lk.unlock(); continue; }
            if (s->n == 0) break;
            long v = s->buf[--s->n]; s->sum_got += v; ++s->got; logev(E_GET, f, v);
            bool last = s->got == total;
            if (r.chance(1, 2)) lk.unlock();
            all ? s->cv_put.notify_all() : s->cv_put.notify_one();
            if (last) s->cv_get.notify_all();
            if (lk.owns_lock()) lk.unlock();
            jitter(r);
        }
    } };
    fs.run();
    VF_CHECK(s->got == total && s->sum_got == s->sum_put, "cv.conservation", "put %ld got %ld", s->put, s->got);
}
VF_FAMILY(cv) {
    static const int force_timed = opt_int("timed", 0); always_timed = force_timed;
    Opts o = pick_world(c, opt_int("maxthreads", 3));
    bool b = c.rng.chance(1, 3);
    switch (c.rng.below(4)) {
    case 0: case 1: b ? buffer<bf::mutex, bf::condition_variable>(c, o, "cv") : credits<bf::mutex, bf::condition_variable>(c, o, "cv"); break;
    case 2: b ? buffer<bf::timed_mutex, bf::condition_variable_any>(c, o, "cv_any<timed>") : credits<bf::timed_mutex, bf::condition_variable_any>(c, o, "cv_any<timed>"); break;
    default: b ? buffer<bf::recursive_mutex, bf::condition_variable_any>(c, o, "cv_any<rec>") : credits<bf::recursive_mutex, bf::condition_variable_any>(c, o, "cv_any<rec>"); break;
    }
}

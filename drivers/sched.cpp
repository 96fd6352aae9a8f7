// Scheduling: round-robin order and launch policies; the contract towards custom algorithms.
#include "soup.hpp"
#include <deque>
using namespace vf;
enum { E_ENTER = 1, E_YIELD, E_POST, E_DISPATCH, E_JOINB, E_RESUME, E_TERM };
static int init = (name_event(E_ENTER, "enter"), name_event(E_YIELD, "yield"), name_event(E_POST, "post"), name_event(E_DISPATCH, "dispatch"), name_event(E_JOINB, "join"), name_event(E_RESUME, "resume"), name_event(E_TERM, "end"), 0);

// exact model of FIFO scheduling, advanced in lock step with the real thing
struct Model {
    std::deque<int> ready; int cur = 0; std::map<int, std::vector<int>> waiters; std::set<int> done; int next = 1, maxn; Case& c; bool fixed_api; uint64_t seed;
    Model(Case& cc, int m) : maxn(m), c(cc), seed(cc.rng.u()) {}
    void here(int me, const char* why) { logev(E_RESUME, me); VF_CHECK(cur == me, "rr.order", "fiber %d runs (%s) but fiber %d is first in the ready queue", me, why, cur); }
    void pick() { VF_CHECK(!ready.empty(), "rr.harness", "model has nobody to run"); cur = ready.front(); ready.pop_front(); }
    void body(int me, int depth) {
        here(me, "entered"); Rng r(mix(seed, uint64_t(me))); std::vector<std::pair<int, bf::fiber>> hs;
        int steps = r.range(0, me == 0 ? 12 : 7);
        for (int i = 0; i < steps; ++i) {
            if (!ready.empty()) VF_CHECK(bf::has_ready_fibers(), "rr.has_ready", "has_ready_fibers() is false while %zu fibers are ready", ready.size());
            switch (r.below(6)) {
            case 0: case 1: logev(E_YIELD, me); ready.push_back(me); pick(); boost::this_fiber::yield(); here(me, "after yield"); if (ready.size() > 1) c.nontrivial = true; count("yields"); break;
            case 2: case 3: if (next < maxn && depth < 4) {
                int k = next++; logev(E_POST, me, k); ready.push_back(k); auto fn = [this, k, depth] { body(k, depth + 1); };
                bf::fiber f = r.chance(1, 3) ? bf::fiber(std::allocator_arg, bf::fixedsize_stack(stack_size()), fn) : bf::fiber(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), fn);
                here(me, "after launching a posted fiber"); hs.emplace_back(k, std::move(f)); count("posted"); } break;
            case 4: if (next < maxn && depth < 4) {
                int k = next++; logev(E_DISPATCH, me, k); ready.push_back(me); cur = k; auto fn = [this, k, depth] { body(k, depth + 1); };
                bf::fiber f(bf::launch::dispatch, std::allocator_arg, bf::fixedsize_stack(stack_size()), fn);
                here(me, "after launching a dispatched fiber"); hs.emplace_back(k, std::move(f)); count("dispatched"); c.nontrivial = true; } break;
            default: if (!hs.empty()) { std::size_t j = r.below(uint32_t(hs.size())); join(me, hs[j].first, hs[j].second); hs.erase(hs.begin() + long(j)); } break;
            }
        }
        for (auto& h : hs) if (me != 0 && r.chance(1, 4)) { h.second.detach(); count("detached"); } else join(me, h.first, h.second);
        if (me != 0) { logev(E_TERM, me); done.insert(me); for (int w : waiters[me]) ready.push_back(w); if (r.chance(1, 3)) { } pick(); }
    }
    void join(int me, int k, bf::fiber& f) {
        logev(E_JOINB, me, k);
        if (!done.count(k)) { waiters[k].push_back(me); pick(); }
        f.join(); here(me, "after join"); count("joins");
    }
};
VF_FAMILY(rr) {
    c.note("round robin order "); Model m(c, c.rng.range(2, 16)); bool expl = c.rng.chance(1, 2); int other = c.rng.chance(1, 4) ? 1 : 0;
    std::vector<std::function<void()>> fns;
    fns.push_back([&] { if (expl) bf::use_scheduling_algorithm<bf::algo::round_robin>();
        m.body(0, 0);
        while (!m.ready.empty()) { m.ready.push_back(0); m.pick(); boost::this_fiber::yield(); m.here(0, "after final yield"); }   // detached fibers
        for (int i = 1; i < m.next; ++i) VF_CHECK(m.done.count(i), "rr.lost", "fiber %d is neither ready nor finished", i); });
    if (other) fns.push_back([&] { boost::this_fiber::yield(); });
    c.run(fns);
}

// The same with every way to block and wake: fibers that wait for the same object are woken in the order they began
// to wait, and whoever is woken joins the end of the ready queue at once.  Main never blocks and rescues what is left waiting.
struct WakeModel {
    typedef std::function<bool()> Try; typedef std::deque<int> Q;
    std::deque<int> ready; int cur = 0; std::map<int, Try> again; std::map<int, Q> joiners; std::set<int> done; int next = 1, maxn; Case& c; uint64_t seed; int nval = 0; std::map<int, int> got;
    struct Mx { int owner = -1; Q q; }; struct Ch { std::size_t room; std::deque<int> items; Q pq, cq; }; struct Br { int n, left; Q q; }; struct Fu { bool set = false; Q q; };
    Mx mm[2]; Q cq[2]; Ch cm; Br bm; Fu fm[3];
    bf::mutex m0; bf::timed_mutex m1; bf::condition_variable cv; bf::condition_variable_any cva; bf::buffered_channel<int> ch; bf::barrier br; bf::promise<int> pr[3]; bf::shared_future<int> fu[3];
    WakeModel(Case& cc, int m, int cap, int nb) : maxn(m), c(cc), seed(cc.rng.u()), cm{ std::size_t(cap - 1), {}, {}, {} }, bm{ nb, nb, {} }, ch(std::size_t(cap)), br(std::size_t(nb)) { for (int i = 0; i < 3; ++i) fu[i] = pr[i].get_future().share(); }
    void here(int me, const char* why) { logev(E_RESUME, me); VF_CHECK(cur == me, "rr.order", "fiber %d runs (%s) but fiber %d is the next in turn", me, why, cur); }
    void pick() { for (;;) { VF_CHECK(!ready.empty(), "rr.harness", "model has nobody to run"); int x = ready.front(); ready.pop_front(); auto i = again.find(x); if (i != again.end()) { if (!i->second()) continue; again.erase(x); } cur = x; return; } }
    void block(int me, Try t) { if (t) again[me] = t; pick(); c.nontrivial = true; count("blocked"); }
    void op(int me, Try t) { if (!t()) block(me, t); }
    void one(Q& q) { if (!q.empty()) { ready.push_back(q.front()); q.pop_front(); count("woken"); } } void all(Q& q) { while (!q.empty()) one(q); }
    clk::time_point far() { return clk::now() + std::chrono::seconds(100000); }
    Try trylock(int me, int i) { return [this, me, i] { if (mm[i].owner < 0) { mm[i].owner = me; return true; } mm[i].q.push_back(me); return false; }; }
    void lock(int me, int i, Rng& r) { op(me, trylock(me, i)); if (i == 0) m0.lock(); else if (r.chance(1, 2)) m1.lock(); else VF_CHECK(m1.try_lock_until(far()), "rr.lock", "try_lock with a far deadline failed"); here(me, "has locked"); }
    void unlock(int me, int i) { mm[i].owner = -1; one(mm[i].q); if (i == 0) m0.unlock(); else m1.unlock(); here(me, "after unlock"); }
    void cvwait(int me, int i, Rng& r) {   // holds mutex i
        mm[i].owner = -1; one(mm[i].q); cq[i].push_back(me); block(me, trylock(me, i)); bool timed = r.chance(1, 2), ok = true;
        if (i == 0) { std::unique_lock<bf::mutex> lk(m0, std::adopt_lock); if (timed) ok = cv.wait_until(lk, far()) == bf::cv_status::no_timeout; else cv.wait(lk); lk.release(); }
        else { std::unique_lock<bf::timed_mutex> lk(m1, std::adopt_lock); if (timed) ok = cva.wait_until(lk, far()) == bf::cv_status::no_timeout; else cva.wait(lk); lk.release(); }
        VF_CHECK(ok, "rr.timeout", "a wait with a far deadline timed out"); here(me, "after waiting"); count("cv_waits");
    }
    void notify(int me, Rng& r) { int i = int(r.below(2)); if (r.chance(2, 3)) { one(cq[i]); i ? cva.notify_one() : cv.notify_one(); } else { all(cq[i]); i ? cva.notify_all() : cv.notify_all(); } here(me, "after notify"); }
    void push(int me, Rng& r, bool wait) {
        int v = ++nval; bool can = cm.items.size() < cm.room; Try t = [this, me, v] { if (cm.items.size() >= cm.room) { cm.pq.push_back(me); return false; } cm.items.push_back(v); one(cm.cq); return true; };
        if (!wait) { if (can) t(); VF_CHECK(ch.try_push(v) == (can ? bf::channel_op_status::success : bf::channel_op_status::full), "rr.channel", "try_push"); here(me, "after try_push"); return; }
        op(me, t); auto s = r.chance(1, 2) ? ch.push(v) : ch.push_wait_until(v, far()); VF_CHECK(s == bf::channel_op_status::success, "rr.channel", "push"); here(me, "after push"); count("channel_ops");
    }
    void pop(int me, Rng& r, bool wait) {
        Try t = [this, me] { if (cm.items.empty()) { cm.cq.push_back(me); return false; } got[me] = cm.items.front(); cm.items.pop_front(); one(cm.pq); return true; }; int v = 0; bool can = !cm.items.empty();
        if (!wait) { if (can) t(); VF_CHECK(ch.try_pop(v) == (can ? bf::channel_op_status::success : bf::channel_op_status::empty), "rr.channel", "try_pop"); VF_CHECK(!can || v == got[me], "rr.channel", "fiber %d popped %d instead of %d", me, v, got[me]); here(me, "after try_pop"); return; }
        op(me, t); switch (r.below(3)) { case 0: VF_CHECK(ch.pop(v) == bf::channel_op_status::success, "rr.channel", "pop"); break; case 1: v = ch.value_pop(); break; default: VF_CHECK(ch.pop_wait_until(v, far()) == bf::channel_op_status::success, "rr.channel", "pop"); }
        VF_CHECK(v == got[me], "rr.channel", "fiber %d popped %d instead of %d", me, v, got[me]); here(me, "after pop"); count("channel_ops");
    }
    void barrier(int me) { bool last = --bm.left == 0; if (last) { bm.left = bm.n; all(bm.q); } else { bm.q.push_back(me); block(me, nullptr); } bool l = br.wait(); VF_CHECK(l == last, "rr.barrier", "the barrier elected the wrong fiber"); here(me, "after the barrier"); count("barriers"); }
    void wait_future(int me, Rng& r) { int i = int(r.below(3)); if (!fm[i].set) { fm[i].q.push_back(me); block(me, nullptr); } bf::shared_future<int> f = fu[i]; if (r.chance(1, 2)) VF_CHECK(f.wait_until(far()) == bf::future_status::ready, "rr.timeout", "a wait with a far deadline timed out"); else f.wait(); here(me, "after waiting for a future"); count("futures"); }
    void set(int me, int i) { if (fm[i].set) return; fm[i].set = true; all(fm[i].q); pr[i].set_value(i); here(me, "after setting a future"); }
    void yield(int me) { ready.push_back(me); pick(); boost::this_fiber::yield(); here(me, "after yield"); }
    void join(int me, int k, bf::fiber& f) { if (!done.count(k)) { joiners[k].push_back(me); block(me, nullptr); } f.join(); here(me, "after join"); count("joins"); }
    bf::fiber launch(int me, Rng& r, int& k, int what, int depth) {
        k = next++; bool post = r.chance(1, 2); if (post) ready.push_back(k); else { ready.push_back(me); cur = k; } auto fn = [this, k = k, what, depth] { what ? helper(k) : body(k, depth); };
        bf::fiber f(post ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, bf::fixedsize_stack(stack_size()), fn); here(me, "after launching a fiber"); return f;
    }
    void end(int me) { logev(E_TERM, me); done.insert(me); all(joiners[me]); pick(); }
    void helper(int me) { here(me, "entered"); barrier(me); end(me); }
    void body(int me, int depth) {
        here(me, "entered"); Rng r(mix(seed, uint64_t(me))); std::vector<std::pair<int, bf::fiber>> hs;
        for (int i = 0, n = r.range(1, 7); i < n; ++i) {
            VF_CHECK(ready.empty() || bf::has_ready_fibers(), "rr.has_ready", "has_ready_fibers() is false while %zu fibers are ready", ready.size());
            switch (r.below(12)) {
            case 0: yield(me); break;
            case 1: case 2: case 3: { int q = int(r.below(2)); lock(me, q, r); for (int j = r.range(0, 2); j > 0; --j) switch (r.below(5)) { case 0: yield(me); break; case 1: case 2: cvwait(me, q, r); break; case 3: notify(me, r); break; default: push(me, r, true); } unlock(me, q); break; }
            case 4: case 5: notify(me, r); break;
            case 6: push(me, r, true); break; case 7: pop(me, r, true); break;
            case 8: barrier(me); break;
            case 9: wait_future(me, r); break; case 10: if (r.chance(1, 2)) set(me, int(r.below(3))); break;
            default: if (next < maxn && depth < 3) { int k; bf::fiber f = launch(me, r, k, 0, depth + 1); hs.emplace_back(k, std::move(f)); } else if (!hs.empty()) { join(me, hs.back().first, hs.back().second); hs.pop_back(); } break;
            }
        }
        for (auto& h : hs) if (r.chance(1, 4)) h.second.detach(); else join(me, h.first, h.second);
        end(me);
    }
    void main() {
        Rng r(mix(seed, 0)); std::vector<bf::fiber> hs; int k;
        for (int i = 0, n = r.range(3, 20); i < n; ++i) switch (r.below(8)) {
            case 0: case 1: yield(0); break; case 2: notify(0, r); break; case 3: push(0, r, false); break; case 4: pop(0, r, false); break; case 5: if (r.chance(1, 3)) set(0, int(r.below(3))); break;
            default: if (next < maxn) hs.push_back(launch(0, r, k, 0, 0)); }
        while (int(done.size()) < next - 1) {
            switch (r.below(6)) { case 0: notify(0, r); break; case 1: if (!cm.items.empty()) pop(0, r, false); break; case 2: if (!cm.cq.empty()) push(0, r, false); break; case 3: set(0, int(r.below(3))); break; case 4: if (!bm.q.empty()) hs.push_back(launch(0, r, k, 1, 0)); break; default: break; }
            yield(0);
        }
        for (auto& f : hs) { f.join(); here(0, "after join"); }
    }
};
VF_FAMILY(rrwake) {
    int cap = 2 << c.rng.below(2), nb = c.rng.range(1, 4); c.note("round robin wake order capacity=%d barrier=%d ", cap, nb); bool expl = c.rng.chance(1, 2);
    WakeModel m(c, c.rng.range(2, 14), cap, nb);
    c.run({ [&] { if (expl) bf::use_scheduling_algorithm<bf::algo::round_robin>(); m.main(); } });
}

// ---- the contract of the library towards any algorithm
static thread_local bool draining = false;
class watch_algo : public bf::algo::algorithm {
    std::vector<bf::context*> rq_; Rng rng_; std::mutex mtx_; std::condition_variable cnd_; bool flag_ = false; std::thread::id owner_;
    bf::context* picked_ = nullptr;
public:
    std::multiset<clk::time_point> deadlines; uint64_t picks = 0, suspends = 0; std::atomic<uint64_t> notifies{ 0 };
    static thread_local watch_algo* mine;
    explicit watch_algo(uint64_t s) : rng_(s), owner_(std::this_thread::get_id()) {}
    ~watch_algo() { if (!rq_.empty()) fail("contract.dropped", "an algorithm was destroyed with %zu fibers still ready", rq_.size()); if (mine == this) mine = nullptr; count("picks", picks); count("suspends", suspends); count("notifies", notifies.load()); }
    void hook(const char* w) {
        if (std::this_thread::get_id() != owner_) fail("contract.foreign_thread", "%s called from a foreign thread", w);
        if (draining || !picked_) return;
        auto* a = bf::context::active();
        // whoever was picked runs next; only a freshly launched fiber may run without being picked
        if (a != picked_ && std::find(rq_.begin(), rq_.end(), a) != rq_.end()) fail("contract.picked_not_run", "pick_next() chose one fiber but another one is running (%s)", w);
    }
    void awakened(bf::context* c) noexcept override {
        hook("awakened"); if (!c) fail("contract.null", "awakened(nullptr)");
        for (auto* x : rq_) if (x == c) fail("contract.awakened_twice", "awakened() for a fiber that is already ready");
        if (c == bf::context::active()) fail("contract.awakened_active", "awakened() for the running fiber");
        rq_.push_back(c);
    }
    bf::context* pick_next() noexcept override {
        hook("pick_next"); ++picks; if (rq_.empty()) return nullptr;
        std::size_t i = rng_.below(uint32_t(rq_.size())); auto* c = rq_[i]; rq_.erase(rq_.begin() + long(i)); picked_ = draining ? nullptr : c; return c;
    }
    bool has_ready_fibers() const noexcept override { return !rq_.empty(); }
    void suspend_until(clk::time_point const& tp) noexcept override {
        hook("suspend_until"); ++suspends;
        if (!rq_.empty()) fail("contract.suspend_ready", "suspend_until() called although %zu fibers are ready", rq_.size());
        if (!bf::context::active()->is_context(bf::type::dispatcher_context)) fail("contract.suspend_ctx", "suspend_until() outside of the dispatcher");
        if (!deadlines.empty() && tp > *deadlines.begin()) fail("contract.suspend_deadline", "suspend_until() told to sleep past the deadline of a waiting fiber by %lld ns", (long long)std::chrono::duration_cast<ns>(tp - *deadlines.begin()).count());
        std::unique_lock<std::mutex> lk(mtx_);
        if (tp == (clk::time_point::max)()) cnd_.wait(lk, [this] { return flag_; }); else cnd_.wait_until(lk, tp, [this] { return flag_; });
        flag_ = false;
    }
    void notify() noexcept override { ++notifies; std::unique_lock<std::mutex> lk(mtx_); flag_ = true; lk.unlock(); cnd_.notify_all(); }
};
thread_local watch_algo* watch_algo::mine = nullptr;
static watch_algo* __attribute__((noinline)) mine() { return watch_algo::mine; }
static bool use_watch(uint64_t s, bool first_expect) {
    auto* w = new watch_algo(s); bf::algo::algorithm::ptr_t p(w); draining = true;
    bool r = bf::initialize_thread(p, bf::make_stack_allocator_wrapper<bf::fixedsize_stack>(stack_size())); draining = false; watch_algo::mine = w;
    VF_CHECK(r == first_expect, "contract.initialize", "initialize_thread returned %d on a thread %s", int(r), first_expect ? "without scheduler" : "with a scheduler"); return r;
}
VF_FAMILY(contract) {
    Opts o = pick_world(c, 3, false); int nf = c.rng.range(2, 6);
    soup::Soup s(c, o, nf, c.rng.range(3, 12)); s.hooks.sleep_begin = [](clk::time_point t) { if (mine()) mine()->deadlines.insert(t); };
    s.hooks.sleep_end = [](clk::time_point t) { if (mine()) { auto i = mine()->deadlines.find(t); if (i != mine()->deadlines.end()) mine()->deadlines.erase(i); } };
    bool swap = o.threads == 1 && c.rng.chance(1, 2); if (swap) { s.hooks.sleep_begin = nullptr; s.hooks.sleep_end = nullptr; }
    c.note("contract fibers=%d swap=%d ", nf, int(swap)); uint64_t sd = c.rng.u();
    std::vector<std::function<void()>> fns;
    std::atomic<int> left{ nf };
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
        Rng r(mix(sd, uint64_t(t)));
        bool early = r.chance(3, 4);
        if (!early) (void)boost::this_fiber::get_id();          // default scheduler exists already
        use_watch(r.u(), early);
        std::vector<bf::fiber> fs;
        for (int i = t; i < nf; i += o.threads) { fs.push_back(spawn(r, [&, i] { s.body(i); })); if (swap && r.chance(1, 3)) { use_watch(r.u(), false); count("algo_swaps"); } if (r.chance(1, 4)) boost::this_fiber::yield(); }
        s.main_body(t);
        if (swap) { use_watch(r.u(), false); count("algo_swaps"); if (r.chance(1, 2)) { bf::use_scheduling_algorithm<bf::algo::round_robin>(); watch_algo::mine = nullptr; count("algo_swaps"); } }
        for (auto& f : fs) f.join();
        if (mine()) VF_CHECK(swap || mine()->deadlines.empty(), "contract.harness", "deadlines left");
    });
    c.run(fns); s.finish();
    c.run({ [&] { s.drain(); } });
}

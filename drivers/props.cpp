// Fiber properties and property-driven scheduling.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_NEW = 1, E_PRIO, E_CHANGE, E_RUN, E_PICK };
static int init = (name_event(E_NEW, "new_fiber"), name_event(E_PRIO, "set_priority"), name_event(E_CHANGE, "property_change"), name_event(E_RUN, "run"), name_event(E_PICK, "pick"), 0);
static std::mutex regm; static std::set<void*>* reg; static std::atomic<long> made{ 0 }, gone{ 0 };
class Pr : public bf::fiber_properties {
    int prio_ = 0; uint64_t magic_ = 0xabcdef12345ull;
public:
    std::string name; bool dflt; bf::context* born;
    explicit Pr(bf::context* c, bool d = true) : bf::fiber_properties(c), dflt(d), born(c) { std::lock_guard<std::mutex> g(regm); VF_CHECK(reg->insert(this).second, "props.life", "properties constructed twice"); made.fetch_add(1, rlx); }
    ~Pr() override { VF_CHECK(magic_ == 0xabcdef12345ull, "props.life", "properties destroyed twice"); magic_ = 0; std::lock_guard<std::mutex> g(regm); VF_CHECK(reg->erase(this) == 1, "props.life", "properties destroyed twice"); gone.fetch_add(1, rlx); }
    void check() const { VF_CHECK(magic_ == 0xabcdef12345ull, "props.life", "properties used after destruction"); }
    bf::context* ctx() const { return ctx_; } bf::algo::algorithm* algo() const { return algo_; }
    int priority() const { check(); return prio_; }
    void quiet(int p) { check(); prio_ = p; }
    void set(int p) { check(); if (p != prio_) { prio_ = p; notify(); } }
    void poke() { check(); notify(); }
};
class OtherProps : public bf::fiber_properties { public: explicit OtherProps(bf::context* c) : bf::fiber_properties(c) {} };
class prio_algo : public bf::algo::algorithm_with_properties<Pr> {
    // highest priority first, FIFO among equals; the list is the ready queue of the documentation's example
    bf::scheduler::ready_queue_type rq_; std::map<bf::context*, int> prio_;      // priority as of the last awakened()/property_change()
    std::mutex m_; std::condition_variable cnd_; bool flag_ = false; std::thread::id owner_;
    // out of the list, by the list or by the fiber itself as the documentation's priority_scheduler does
    void take(bf::context* c) {
        VF_CHECK(c->ready_is_linked(), "props.linked", "a fiber in the algorithm's queue says it is in none");
        if (++takes_ & 1) c->ready_unlink(); else rq_.erase(rq_.iterator_to(*c));
        VF_CHECK(!c->ready_is_linked(), "props.linked", "a fiber taken from the ready queue says it is still there"); for (auto& q : rq_) VF_CHECK(&q != c, "props.linked", "a fiber taken from the ready queue is still in it");
    }
    uint64_t takes_ = 0;
    void insert(bf::context* c, Pr& p) { prio_[c] = p.priority(); auto i = rq_.begin(); while (i != rq_.end() && prio_[&*i] >= p.priority()) ++i; rq_.insert(i, *c); }
public:
    uint64_t changes = 0, news = 0; static thread_local prio_algo* mine; bf::context* last_pick = nullptr; bool draining = false;
    prio_algo() : owner_(std::this_thread::get_id()) {}
    ~prio_algo() { if (mine == this) mine = nullptr; VF_CHECK(rq_.empty(), "props.dropped", "an algorithm was destroyed with ready fibers"); count("property_changes", changes); count("made_by_algorithm", news); }
    bool ready(bf::context* c) const { return prio_.count(c) != 0; }
    bf::fiber_properties* new_properties(bf::context* c) override {
        ++news; VF_CHECK(std::this_thread::get_id() == owner_, "props.thread", "new_properties() on a foreign thread"); VF_CHECK(!c->get_properties(), "props.object", "new_properties() for a fiber that has properties"); return new Pr(c);
    }
    void awakened(bf::context* c, Pr& p) noexcept override {
        VF_CHECK(std::this_thread::get_id() == owner_, "props.thread", "awakened() on a foreign thread"); p.check();
        VF_CHECK(c->get_properties() == &p && &properties(c) == &p, "props.object", "awakened() was given other properties than those of the fiber");
        VF_CHECK(p.ctx() == c, "props.context", "properties refer to another fiber than the one they belong to"); VF_CHECK(p.algo() == this, "props.algorithm", "properties of a ready fiber refer to another algorithm");
        VF_CHECK(!ready(c), "props.awakened_twice", "a ready fiber was made ready again"); insert(c, p);
    }
    bf::context* pick_next() noexcept override {
        if (rq_.empty()) return nullptr; auto* c = &rq_.front(); int top = prio_[c];
        for (auto& q : rq_) { Pr& p = properties(&q); p.check(); VF_CHECK(p.priority() == prio_[&q], "props.missed_change", "the priority of a ready fiber changed from %d to %d and the algorithm was not told", prio_[&q], p.priority()); VF_CHECK(p.priority() <= top, "props.missed_change", "order"); }
        take(c); prio_.erase(c); last_pick = draining ? nullptr : c; return c;
    }
    bool has_ready_fibers() const noexcept override { return !rq_.empty(); }
    void property_change(bf::context* c, Pr& p) noexcept override {
        ++changes; logev(E_CHANGE, p.priority()); VF_CHECK(std::this_thread::get_id() == owner_, "props.thread", "property_change() on a foreign thread");
        VF_CHECK(c == p.ctx() && c->get_properties() == &p, "props.object", "property_change() was given other properties than those of the fiber");
        VF_CHECK(ready(c), "props.change_not_ready", "property_change() for a fiber that is not ready"); take(c); insert(c, p);
    }
    void suspend_until(clk::time_point const& tp) noexcept override {
        std::unique_lock<std::mutex> lk(m_); if (tp == (clk::time_point::max)()) cnd_.wait(lk, [this] { return flag_; }); else cnd_.wait_until(lk, tp, [this] { return flag_; }); flag_ = false;
    }
    void notify() noexcept override { std::unique_lock<std::mutex> lk(m_); flag_ = true; lk.unlock(); cnd_.notify_all(); }
};
thread_local prio_algo* prio_algo::mine = nullptr;
static prio_algo* __attribute__((noinline)) mine() { return prio_algo::mine; }
static void use_prio() { auto* a = new prio_algo; a->draining = true; if (mine()) mine()->draining = true; bf::algo::algorithm::ptr_t p(a); bf::initialize_thread(p, bf::make_stack_allocator_wrapper<bf::fixedsize_stack>(stack_size())); a->draining = false; prio_algo::mine = a; }
static void __attribute__((noinline)) picked(const char* w) { auto* a = mine(); if (a && a->last_pick) VF_CHECK(a->last_pick == bf::context::active(), "props.picked_not_run", "the algorithm picked one fiber but another one runs (%s)", w); }

VF_FAMILY(props) {
    int threads = c.rng.chance(1, 2) ? 1 : c.rng.range(2, 3), nf = c.rng.range(1, 6); bool rr = c.rng.chance(1, 6), swap = threads == 1 && !rr && c.rng.chance(1, 2); uint64_t seed = c.rng.u();
    c.note("props threads=%d fibers=%d round_robin=%d swap=%d ", threads, nf, int(rr), int(swap)); std::set<void*> R; reg = &R; made = gone = 0;
    struct F { Pr* given = nullptr; Pr* seen = nullptr; bool running = false, ended = false; int thread; }; std::vector<F> fs_(std::size_t(nf) + 8); for (int i = 0; i < nf; ++i) fs_[std::size_t(i)].thread = i % threads; for (int t = 0; t < threads; ++t) fs_[std::size_t(nf + t)].thread = t;   // the last ones are the main fibers
    bf::mutex m; long shared = 0; std::vector<std::function<void()>> fns;
    for (int t = 0; t < threads; ++t) fns.push_back([&, t] {
        if (!rr) use_prio(); Rng mr(mix(seed, 500 + uint64_t(t))); if (!rr && mr.chance(1, 2)) { Pr& p = boost::this_fiber::properties<Pr>(); fs_[std::size_t(nf + t)].seen = &p; }
        auto change = [&](Rng& r, int me) {        // change somebody's priority on this thread
            int j = int(r.below(uint32_t(nf + threads))); F& f = fs_[std::size_t(j)]; if (f.thread != t || !f.seen || f.ended) return;
            Pr* p = f.seen; p->check(); bool rdy = mine()->ready(p->ctx()); uint64_t before = mine()->changes; int v = int(r.below(6)); bool diff = v != p->priority(), pk = r.chance(1, 4);
            if (pk) p->poke(); else p->set(v);
            uint64_t want = rdy && (pk || diff) ? 1 : 0; VF_CHECK(mine()->changes - before == want, "props.notify", "fiber %d changed the properties of %s fiber %d: property_change() called %llu times", me, rdy ? "ready" : "non-ready", j, (unsigned long long)(mine()->changes - before));
            logev(E_PRIO, me, j, v); if (want) { c.nontrivial = true; count("ready_changed"); } else count("not_ready_changed");
        };
        auto body = [&, t](int i) {
            Rng r(mix(seed, uint64_t(i))); F& f = fs_[std::size_t(i)]; f.running = true; logev(E_RUN, i);
            if (!rr && !f.given && r.chance(1, 4)) boost::this_fiber::yield();
            if (rr && !f.given) { f.ended = true; return; }
            if (!rr && f.given && r.chance(1, 2)) { uint64_t b = mine()->changes; f.given->set(3); VF_CHECK(mine()->changes == b, "props.notify", "a running fiber's change was reported"); }   // possibly before it was ever ready
            Pr& p = boost::this_fiber::properties<Pr>(); p.check();
            VF_CHECK(p.ctx() == bf::context::active(), "props.context", "properties of fiber %d belong to another fiber", i);
            if (f.given) VF_CHECK(&p == f.given, "props.object", "fiber %d does not have the properties it was given", i); else VF_CHECK(p.dflt, "props.object", "fiber %d has properties of somebody else", i);
            f.seen = &p; std::string nm = "fiber" + std::to_string(i); p.name = nm;
            bool threw = false; try { boost::this_fiber::properties<OtherProps>(); } catch (std::bad_cast const&) { threw = true; } VF_CHECK(threw, "props.type", "properties of the wrong type were handed out"); count("bad_casts");
            for (int k = 0, n = r.range(0, 8); k < n; ++k) {
                switch (r.below(6)) {
                case 0: if (!rr) { uint64_t b = mine()->changes; p.set(int(r.below(6))); VF_CHECK(mine()->changes == b, "props.notify", "a running fiber's change was reported"); } break;
                case 1: case 2: if (!rr) change(r, i); break;
                case 3: boost::this_fiber::yield(); if (!swap) picked("after yield"); break;
                case 4: { std::unique_lock<bf::mutex> lk(m); long s = ++shared; if (r.chance(1, 3)) boost::this_fiber::yield(); VF_CHECK(shared == s, "props.mutex", "exclusion"); break; }
                default: boost::this_fiber::sleep_for(ns(r.below(4000))); break;
                }
                VF_CHECK(&boost::this_fiber::properties<Pr>() == &p && p.name == nm, "props.object", "fiber %d lost its properties", i); jitter(r);
            }
            f.ended = true;
        };
        std::vector<std::pair<int, bf::fiber>> hs;
        for (int i = t; i < nf; i += threads) {
            F& f = fs_[std::size_t(i)]; bf::launch l = mr.chance(1, 2) ? bf::launch::dispatch : bf::launch::post; auto fn = [&body, i] { body(i); };
            if (mr.chance(1, 2)) {
                f.given = new Pr(nullptr, false); if (mr.chance(1, 2)) f.given->quiet(int(mr.below(6))); logev(E_NEW, i, 1); count("given_at_launch");
                hs.emplace_back(i, mr.chance(1, 5) && l == bf::launch::post ? bf::fiber(static_cast<bf::fiber_properties*>(f.given), std::allocator_arg, bf::fixedsize_stack(stack_size()), fn) : bf::fiber(l, static_cast<bf::fiber_properties*>(f.given), std::allocator_arg, bf::fixedsize_stack(stack_size()), fn));
                Pr& hp = hs.back().second.template properties<Pr>(); VF_CHECK(&hp == f.given, "props.object", "the handle shows other properties than given");
            } else { logev(E_NEW, i, 0); hs.emplace_back(i, bf::fiber(l, std::allocator_arg, bf::fixedsize_stack(stack_size()), fn)); if (!rr) { Pr& hp = hs.back().second.template properties<Pr>(); VF_CHECK(hp.dflt && (f.ended || hp.ctx()->get_properties() == &hp), "props.object", "handle shows foreign properties"); if (!f.seen) f.seen = &hp; else VF_CHECK(f.seen == &hp, "props.object", "handle and fiber %d see different properties", i); } }
            if (f.given && !f.ended && !rr && mr.chance(1, 2)) f.seen = f.given;
            if (!rr) { for (int k = int(mr.below(3)); k > 0; --k) change(mr, -1 - t); if (mr.chance(1, 3)) boost::this_fiber::yield(); }
            if (swap && mr.chance(1, 3)) { use_prio(); count("algo_swaps"); for (int k = int(mr.below(3)); k > 0; --k) change(mr, -1 - t); }
            if (mr.chance(1, 4)) { Pr* q = f.given ? f.given : f.seen; if (q && !f.ended) { bool th = false; try { hs.back().second.template properties<OtherProps>(); } catch (std::bad_cast const&) { th = true; } VF_CHECK(th, "props.type", "wrong type accepted"); } }
        }
        if (!rr && mr.chance(1, 2)) { Pr& p = boost::this_fiber::properties<Pr>(); p.check(); VF_CHECK(p.dflt && p.ctx() == bf::context::active(), "props.context", "properties of the main fiber belong to another fiber"); p.set(int(mr.below(6))); boost::this_fiber::yield(); VF_CHECK(&boost::this_fiber::properties<Pr>() == &p, "props.object", "main fiber lost its properties"); count("main_properties"); }
        for (auto& h : hs) {
            F& f = fs_[std::size_t(h.first)];
            if (f.ended && (f.given || f.seen) && mr.chance(1, 2)) { Pr& hp = h.second.template properties<Pr>(); hp.check(); VF_CHECK(&hp == (f.given ? f.given : f.seen), "props.object", "properties of an ended fiber changed"); count("read_after_end"); }
            if (!rr && mr.chance(1, 3)) change(mr, -1 - t);
            if (mr.chance(1, 8) && threads == 1 && !swap) { h.second.detach(); while (!f.ended) boost::this_fiber::sleep_for(ns(500)); } else h.second.join();
        }
    });
    c.run(fns);
    VF_CHECK(R.empty() && made == gone, "props.leak", "%ld properties made, %ld destroyed", made.load(), gone.load()); count("properties", uint64_t(made.load()));
}

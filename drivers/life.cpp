// Fiber life cycle: handles, join, detach, identities, misuse errors, fatal misuse.
#include "vf.hpp"
#include <sstream>
#include <unordered_set>
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_SPAWN = 1, E_RUN, E_END, E_JOIN, E_JOINED, E_DETACH, E_ERR, E_SELFJOIN };
static int init = (name_event(E_SPAWN, "spawn"), name_event(E_RUN, "run"), name_event(E_END, "end"), name_event(E_JOIN, "join"), name_event(E_JOINED, "joined"), name_event(E_DETACH, "detach"), name_event(E_ERR, "error"), name_event(E_SELFJOIN, "self_join"), 0);
static std::atomic<long> live{ 0 };
static std::atomic<long> live_of[64];         // per fiber: its function object and arguments still alive
struct Own { int k; bool on = true; explicit Own(long v) : k(v >= 0 && v < 64 ? int(v) : 63) { add(); } Own(Own const& o) : k(o.k), on(o.on) { add(); } Own(Own&& o) noexcept : k(o.k), on(o.on) { add(); o.off(); }
    ~Own() { off(); live.fetch_sub(1, rlx); } void add() { live.fetch_add(1, rlx); if (on) live_of[k].fetch_add(1, rlx); } void off() { if (on) live_of[k].fetch_sub(1, rlx); on = false; } };   // what was moved from does not count
struct Cnt {   // counted, copyable, heap content: an argument or capture of a fiber function
    Own own; long* p; Cnt(long v = 0) : own(v), p(new long(v)) {} Cnt(Cnt const& o) : own(o.own), p(new long(*o.p)) {} Cnt(Cnt&& o) : own(std::move(o.own)), p(o.p) { o.p = nullptr; }
    ~Cnt() { delete p; } long v() const { VF_CHECK(p, "life.arg", "fiber function received a moved-from argument"); return *p; }
};
struct MoveOnly { Own own; std::unique_ptr<long> p; MoveOnly(int k, long v) : own(k), p(new long(v)) {} MoveOnly(MoveOnly&& o) noexcept : own(std::move(o.own)), p(std::move(o.p)) {} };
// stack allocator that accounts for every stack
struct Stacks { std::mutex m; std::map<void*, std::size_t> out; std::atomic<long> allocs{ 0 }, frees{ 0 }; };
struct CountingStack {
    typedef boost::context::stack_traits traits_type; Stacks* s; bf::fixedsize_stack impl;
    explicit CountingStack(Stacks* st) : s(st), impl(stack_size()) {}
    boost::context::stack_context allocate() { auto c = impl.allocate(); std::lock_guard<std::mutex> g(s->m); VF_CHECK(s->out.emplace(c.sp, c.size).second, "life.stack", "stack handed out twice"); ++s->allocs; return c; }
    void deallocate(boost::context::stack_context& c) { { std::lock_guard<std::mutex> g(s->m); auto i = s->out.find(c.sp); VF_CHECK(i != s->out.end() && i->second == c.size, "life.stack", "a stack was released twice or with a wrong size"); s->out.erase(i); ++s->frees; } impl.deallocate(c); }
};
struct Ids {
    std::mutex m; std::map<bf::fiber::id, int> live_; std::map<int, std::string> text;
    void enter(bf::fiber::id id, int k) {
        std::ostringstream o; o << id; std::lock_guard<std::mutex> g(m);
        VF_CHECK(bool(id) && !!id && id != bf::fiber::id(), "life.id", "running fiber %d has the id of no fiber", k);
        auto r = live_.emplace(id, k); VF_CHECK(r.second, "life.id_dup", "fibers %d and %d, both alive, share an id", k, r.first->second);
        for (auto& t : text) VF_CHECK(t.second != o.str(), "life.id_dup", "ids of live fibers %d and %d print alike", k, t.first);
        text[k] = o.str(); VF_CHECK(o.str() != "{not-valid}" && !o.str().empty(), "life.id", "id of a running fiber prints as invalid");
        for (auto& x : live_) { int n = (x.first < id) + (id < x.first) + (x.first == id); VF_CHECK(n == 1 && (x.first != id) == !(x.first == id) && (x.first <= id) == !(id < x.first) && (x.first >= id) == !(x.first < id) && (x.first > id) == (id < x.first), "life.id_order", "id comparison is not a total order");
            if (x.first == id) VF_CHECK(std::hash<bf::fiber::id>()(x.first) == std::hash<bf::fiber::id>()(id), "life.id_hash", "equal ids hash differently"); }
    }
    void leave(bf::fiber::id id, int k) { std::lock_guard<std::mutex> g(m); auto i = live_.find(id); VF_CHECK(i != live_.end() && i->second == k, "life.id", "fiber %d changed its id during its life", k); live_.erase(i); text.erase(k); }
};
struct Node { std::atomic<int> st{ 0 }; long payload[2] = { 0, 0 }; bf::fiber::id id; std::atomic<bool> id_set{ false }; bf::fiber::id born; };   // st: 0 new 1 running 2 done
struct World {
    Case& c; Opts o; uint64_t seed; Stacks st; Ids ids; std::atomic<int> next{ 0 }, running{ 0 }, detached_open{ 0 }; int maxn; std::vector<std::unique_ptr<Node>> nodes;
    bf::mutex pm; std::vector<std::pair<int, bf::fiber>> pool; std::atomic<int> pool_open{ 0 };
    bf::mutex gm; bf::condition_variable gcv; int left = 0, mains = 0;
    World(Case& cc) : c(cc) {}
    template <class E> static void expect(std::errc e, E&& f, const char* what) {
        bool got = false;
        try { f(); } catch (bf::fiber_error const& x) { got = x.code() == std::make_error_code(e); if (!got) fail("life.wrong_error", "%s: wrong error code %d", what, x.code().value()); }
        VF_CHECK(got, "life.missing_error", "%s raised no fiber_error", what); logev(E_ERR, -1, int(e)); count("errors_checked");
    }
    void check_empty(bf::fiber& f, const char* when) {
        VF_CHECK(!f.joinable() && f.get_id() == bf::fiber::id() && !f.get_id(), "life.handle", "handle refers to a fiber %s", when);
    }
    void empty_misuse(bf::fiber& f, Rng& r) { if (r.chance(1, 2)) expect(std::errc::invalid_argument, [&] { f.join(); }, "join on an empty handle"); else expect(std::errc::invalid_argument, [&] { f.detach(); }, "detach on an empty handle"); check_empty(f, "after a failed operation"); }
    void joined(int k, bf::fiber& f, int by) {
        Node& n = *nodes[std::size_t(k)];
        VF_CHECK(n.st.load(rlx) == 2, "life.join_early", "join of fiber %d returned in state %d: its function had not returned", k, n.st.load(rlx));
        VF_CHECK(n.payload[0] == k + 1 && n.payload[1] == ~long(k), "life.join_effects", "effects of fiber %d not visible after join", k);
        VF_CHECK(live_of[k].load(rlx) == 0, "life.fn_alive", "join of fiber %d returned while %ld of its function object and arguments were alive", k, live_of[k].load(rlx));
        check_empty(f, "after join"); logev(E_JOINED, by, k); count("joins");
    }
    void join(int k, bf::fiber& f, int by, Rng& r) {
        logev(E_JOIN, by, k); if (nodes[std::size_t(k)]->st.load(rlx) != 2) { c.nontrivial = true; count("join_blocked"); }
        f.join(); joined(k, f, by); if (r.chance(1, 4)) empty_misuse(f, r);
    }
    struct Fn { World* w; int k; Cnt a; void operator()() { w->body(k, a.v()); } };
    static void free_fn(World* w, int k, Cnt a, MoveOnly m) { VF_CHECK(m.p && *m.p == k + 7, "life.arg", "move-only argument of fiber %d lost its value", k); w->body(k, a.v()); }
    struct Obj { World* w; int k; void run(Cnt const& a) { w->body(k, a.v()); } void runref(int& x) { x = k + 1; w->body(k, k); } };
    int alloc() { int k = next.fetch_add(1); return k < maxn ? k : -1; }
    // create a fiber with one of the constructor and callable shapes
    bf::fiber spawn_node(int k, Rng& r, bool& dispatched, std::vector<std::unique_ptr<Obj>>& keep, int me) {
        bf::launch l = r.chance(1, 2) ? bf::launch::dispatch : bf::launch::post; logev(E_SPAWN, me, k, l == bf::launch::dispatch);
        CountingStack sa(&st); dispatched = l == bf::launch::dispatch;
        switch (r.below(5)) {
        case 0: return bf::fiber(l, std::allocator_arg, sa, Fn{ this, k, Cnt(k) });
        case 1: return bf::fiber(l, std::allocator_arg, sa, &World::free_fn, this, k, Cnt(k), MoveOnly(k, k + 7));
        case 2: { keep.emplace_back(new Obj{ this, k }); return bf::fiber(l, std::allocator_arg, sa, &Obj::run, keep.back().get(), Cnt(k)); }
        case 3: { Cnt a(k); auto fn = [this, k, a] { body(k, a.v()); }; return bf::fiber(l, std::allocator_arg, sa, fn); }     // lvalue callable: copied
        default: { auto p = std::make_unique<Cnt>(k); return bf::fiber(l, std::allocator_arg, sa, [this, k, p = std::move(p)]() mutable { auto q = std::move(p); body(k, q->v()); }); }
        }
    }
    void body(int k, long arg) {
        Node& n = *nodes[std::size_t(k)];
        VF_CHECK(arg == k, "life.arg", "fiber %d got argument %ld", k, arg);
        int s = 0; VF_CHECK(n.st.compare_exchange_strong(s, 1), "life.run_twice", "function of fiber %d entered twice (state %d)", k, s);
        logev(E_RUN, k); auto id = boost::this_fiber::get_id(); n.id = id; n.id_set.store(true); ids.enter(id, k);
        act(k, mix(seed, uint64_t(k)), 2);
        VF_CHECK(boost::this_fiber::get_id() == id, "life.id", "fiber %d changed its id", k);
        ids.leave(id, k); n.payload[0] = k + 1; n.payload[1] = ~long(k); n.st.store(2, rlx); logev(E_END, k);
        if (true) { std::unique_lock<bf::mutex> lk(gm); if (--left == 0) { lk.unlock(); gcv.notify_all(); } }
    }
    // what a fiber (or main, me=-1-thread) does: spawns children and deals with handles
    void act(int me, uint64_t s, int steps) {
        Rng r(s); std::vector<std::pair<int, bf::fiber>> hs; std::vector<std::unique_ptr<Obj>> keep;
        steps = r.range(0, steps + (me < 0 ? 3 : 0));
        for (int i = 0; i < steps; ++i) {
            jitter(r);
            if (r.chance(1, 12)) boost::this_fiber::sleep_for(ns(r.below(10000)));
            int k = -1;
            if (!(r.chance(1, 4))) { { std::unique_lock<bf::mutex> lk(gm); k = alloc(); if (k >= 0) ++left; } }
            if (k >= 0) {
                bool disp; bf::fiber f = spawn_node(k, r, disp, keep, me); Node& n = *nodes[std::size_t(k)];
                VF_CHECK(f.joinable() && f.get_id(), "life.handle", "a new fiber is not joinable"); VF_CHECK(f.get_id() != boost::this_fiber::get_id(), "life.id_dup", "new fiber has its creator's id");
                if (disp && o.algo < SHARED) VF_CHECK(n.st.load(rlx) >= 1, "life.dispatch", "launch::dispatch returned to the creator before fiber %d was entered", k);
                if (!disp && o.algo < SHARED) VF_CHECK(n.st.load(rlx) == 0, "life.post", "launch::post ran fiber %d before its creator gave way", k);
                bf::fiber::id id = f.get_id(); if (n.id_set.load()) VF_CHECK(n.id == id, "life.id", "handle and fiber %d disagree about its id", k);
                switch (r.below(5)) {   // handle gymnastics
                case 0: { bf::fiber g(std::move(f)); check_empty(f, "after being moved from"); VF_CHECK(g.get_id() == id && g.joinable(), "life.handle", "move lost the fiber"); if (r.chance(1, 3)) empty_misuse(f, r); f = std::move(g); check_empty(g, "after being moved from"); break; }
                case 1: { bf::fiber g; check_empty(g, "default constructed"); g.swap(f); check_empty(f, "after swap"); VF_CHECK(g.get_id() == id, "life.handle", "swap lost the fiber"); swap(f, g); VF_CHECK(f.get_id() == id, "life.handle", "swap lost the fiber"); break; }
                case 2: { bf::fiber g; VF_CHECK((g < f) == (g.get_id() < f.get_id()) , "life.id_order", "fiber order disagrees with id order"); break; }
                default: break;
                }
                VF_CHECK(f.get_id() == id && f.joinable(), "life.handle", "handle lost fiber %d", k);
                uint32_t what = r.below(8);
                if (what < 2) { join(k, f, me, r); }
                else if (what == 2) { logev(E_DETACH, me, k); f.detach(); check_empty(f, "after detach"); c.nontrivial = true; count("detached"); if (r.chance(1, 3)) empty_misuse(f, r); }
                else if (what == 3) { std::unique_lock<bf::mutex> lk(pm); pool.emplace_back(k, std::move(f)); count("handed_over"); }
                else hs.emplace_back(k, std::move(f));
            } else if (r.chance(1, 2)) {   // somebody else's fiber, possibly from another thread
                std::unique_lock<bf::mutex> lk(pm);
                for (std::size_t j = 0; j < pool.size(); ++j) if (pool[j].first > me)   /* joins go from lower to higher numbers: no cycle */ { auto e = std::move(pool[j]); pool.erase(pool.begin() + long(j)); lk.unlock(); count("foreign_join"); join(e.first, e.second, me, r); break; }
            } else { bf::fiber f; empty_misuse(f, r); }
        }
        for (std::size_t j = hs.size(); j > 1; --j) std::swap(hs[j - 1], hs[r.below(uint32_t(j))]);
        for (auto& h : hs) join(h.first, h.second, me, r);
        if (me < 0) { std::unique_lock<bf::mutex> lk(gm); if (o.algo >= SHARED) { if (--mains == 0 && !left) { lk.unlock(); gcv.notify_all(); lk.lock(); } } while (left || (o.algo >= SHARED && mains)) gcv.wait(lk); }    // detached and handed-over fibers

        // children hold pointers into keep: member-function targets must outlive detached children
        if (!keep.empty()) { std::lock_guard<std::mutex> g(km); for (auto& x : keep) kept.push_back(std::move(x)); }
    }
    std::mutex km; std::vector<std::unique_ptr<Obj>> kept;
};
VF_FAMILY(life) {
    Opts o = pick_world(c, 3); World w(c); w.o = o; w.mains = o.threads; w.seed = c.rng.u(); w.maxn = c.rng.range(2, 10); live = 0;
    for (int i = 0; i < w.maxn; ++i) { w.nodes.emplace_back(new Node); ctl_watch(w.nodes.back()->payload, sizeof w.nodes.back()->payload); }
    c.note("max fibers=%d ", w.maxn);
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t) fns.push_back([&w, t, &o] {
        install(o, t); auto id = boost::this_fiber::get_id(); w.ids.enter(id, -1 - t);
        w.act(-1 - t, mix(w.seed, 1000 + uint64_t(t)), 5);
        { std::unique_lock<bf::mutex> lk(w.pm); auto p = std::move(w.pool); w.pool.clear(); lk.unlock(); Rng r(1); for (auto& e : p) w.join(e.first, e.second, -1 - t, r); }
        VF_CHECK(boost::this_fiber::get_id() == id, "life.id", "main fiber changed its id"); w.ids.leave(id, -1 - t);
    });
    c.run(fns);
    for (auto& n : w.nodes) VF_CHECK(n->st == 0 || n->st == 2, "life.abandoned", "a fiber never finished");
    VF_CHECK(w.pool.empty(), "life.harness", "pool not drained");
    w.kept.clear();
    VF_CHECK(live == 0, "life.leak", "%ld arguments of fiber functions were never destroyed (or destroyed twice)", live.load());
    VF_CHECK(w.st.allocs == w.st.frees && w.st.out.empty(), "life.stack_leak", "%ld stacks allocated, %ld released", w.st.allocs.load(), w.st.frees.load());
    count("fibers", uint64_t(w.st.allocs.load()));
}
// self-join, deterministic and cross-checked
VF_FAMILY(selfjoin) {
    Opts o = pick_world(c, 2, false); c.note("self join ");
    int n = c.rng.range(1, 4); uint64_t seed = c.rng.u();
    FiberSet fs{ c, o, n, [&](int i) {
        Rng r(mix(seed, uint64_t(i))); bf::fiber h; bool checked = false, go = false; bf::mutex m; bf::condition_variable cv;
        h = bf::fiber(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&] { jitter(r);
            for (int k = 0; k < 2; ++k) { World::expect(std::errc::resource_deadlock_would_occur, [&] { h.join(); }, "a fiber joining itself"); VF_CHECK(h.joinable(), "life.handle", "self-join emptied the handle"); logev(E_SELFJOIN, i); }
            checked = true; });
        (void)go; jitter(r); auto id = h.get_id(); VF_CHECK(id != boost::this_fiber::get_id(), "life.id_dup", "id");
        // the spinning parent must not touch h while the child uses it: wait for the child first
        while (!checked) boost::this_fiber::yield();
        h.join(); World::expect(std::errc::invalid_argument, [&] { h.join(); }, "second join"); c.nontrivial = true; count("self_joins");
    } };
    fs.run();
}
// misuse that must end in std::terminate(), each in a process of its own
static std::atomic<int> fatal_stage{ 0 };
[[noreturn]] static void on_term() { if (fatal_stage.load() == 1) { count("terminated"); ++sh->done; ++sh->nontrivial; sh->hash[sh->nhash++] = mix(sh->cur, 99); std::fflush(nullptr); _exit(0); } fail("life.terminate_early", "std::terminate called before the misuse"); }
VF_FAMILY_FORK(lifefatal) {
    c.force_race = 0; Opts o = pick_world(c, 2, false); int what = int(c.rng.below(5)); c.note("fatal %d ", what); uint64_t seed = c.rng.u(); fatal_stage = 0;
    std::set_terminate(on_term);
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
        install(o, t); Rng r(mix(seed, uint64_t(t)));
        if (t == 1) { for (int i = 0; i < 5; ++i) spawn(r, [&r] { jitter(r); }).join(); boost::this_fiber::sleep_for(std::chrono::seconds(5)); return; }
        auto quiet = [&r] { jitter(r); jitter(r); };
        { bf::fiber a = spawn(r, quiet); a.join(); bf::fiber b = spawn(r, quiet); b.detach(); bf::fiber d = spawn(r, quiet), e; e = std::move(d); e.join(); }   // legal destructions first
        jitter(r);
        switch (what) {
        case 0: { bf::fiber* f = new bf::fiber(spawn(r, quiet)); jitter(r); fatal_stage = 1; delete f; fail("life.no_terminate", "destroying a joinable fiber did not terminate the program"); }
        case 1: { bf::fiber f = spawn(r, quiet); bf::fiber g; if (r.chance(1, 2)) g = spawn(r, quiet); jitter(r); fatal_stage = 1; f = std::move(g); fatal_stage = 2; fail("life.no_terminate", "assigning to a joinable fiber did not terminate the program"); }
        case 2: { bf::fiber* f = new bf::fiber(spawn(r, quiet)); for (int i = 0; i < 6; ++i) boost::this_fiber::yield(); fatal_stage = 1; delete f; fail("life.no_terminate", "destroying a finished but unjoined fiber did not terminate the program"); }
        case 3: { auto b = [&r] { jitter(r); fatal_stage = 1; throw 42; }; bf::fiber f = spawn(r, b); f.join(); fail("life.no_terminate", "an exception left a fiber function and nothing happened"); }
        default: { auto b = [&r] { jitter(r); boost::this_fiber::yield(); fatal_stage = 1; throw std::runtime_error("x"); }; bf::fiber f = spawn(r, b); if (r.chance(1, 2)) f.join(); else f.detach(); for (int i = 0; i < 40; ++i) boost::this_fiber::yield(); fail("life.no_terminate", "an exception left a fiber function and nothing happened"); }
        }
    });
    c.run(fns);
    fail("life.no_terminate", "scenario %d returned", what);
}

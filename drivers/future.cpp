// Promise/future and packaged_task/async families.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_SET = 1, E_SETRET, E_WAIT, E_READY, E_TIMEOUT, E_GOT, E_BROKEN, E_EXC, E_SETFAIL, E_INVOKE };
static int init = (name_event(E_SET, "set"), name_event(E_SETRET, "set_ret"), name_event(E_WAIT, "wait"), name_event(E_READY, "ready"), name_event(E_TIMEOUT, "timeout"), name_event(E_GOT, "got"), name_event(E_BROKEN, "broken"), name_event(E_EXC, "exception"), name_event(E_SETFAIL, "set_refused"), name_event(E_INVOKE, "invoke"), 0);
struct Boom { long id; };
static std::atomic<long> live{ 0 };
struct Box {     // move only, counted, heap content
    std::unique_ptr<long> p; Box() { live.fetch_add(1, rlx); } explicit Box(long i) : p(new long(i)) { live.fetch_add(1, rlx); } Box(Box&& o) noexcept : p(std::move(o.p)) { live.fetch_add(1, rlx); } Box& operator=(Box&&) = default; ~Box() { live.fetch_sub(1, rlx); }
    long val() const { VF_CHECK(p, "fut.value", "delivered object is empty"); return *p; }
};
struct Cpy {     // copyable, counted
    long v; Cpy(long i = -1) : v(i) { live.fetch_add(1, rlx); } Cpy(Cpy const& o) : v(o.v) { live.fetch_add(1, rlx); } Cpy& operator=(Cpy const&) = default; ~Cpy() { v = -77; live.fetch_sub(1, rlx); }
    long val() const { return v; }
};
// counting allocator: what a promise or task allocates it gives back
static std::atomic<long> blocks{ 0 };
template <class T> struct Cal { typedef T value_type; Cal() = default; template <class U> Cal(Cal<U> const&) {} T* allocate(std::size_t n) { blocks.fetch_add(1, rlx); return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, std::size_t) { blocks.fetch_sub(1, rlx); ::operator delete(p); } template <class U> bool operator==(Cal<U> const&) const { return true; } template <class U> bool operator!=(Cal<U> const&) const { return false; } };
template <class Ex, class F> static void expect(F&& f, bf::future_errc e, const char* what) {
    bool ok = false;
    try { f(); } catch (Ex const& x) { ok = x.code() == std::make_error_code(e) || x.code() == std::error_code(int(e), bf::future_category()); VF_CHECK(ok, "fut.wrong_error", "%s: wrong error code", what); } catch (...) { fail("fut.wrong_error", "%s: wrong exception type", what); }
    VF_CHECK(ok, "fut.missing_error", "%s raised nothing", what); count("errors_checked");
}
template <class R> struct Mk { static R make(long i) { return R(i); } static long val(R const& r) { return r.val(); } };
template <> struct Mk<long&> { static long& make(long i) { static long cells[8192]; cells[i] = i; return cells[i]; } static long val(long& r) { return r; } };
template <> struct Mk<long> { static long make(long i) { return i; } static long val(long r) { return r; } };

enum Out { VALUE, EXC, BROKEN };
template <class R> static void scenario(Case& c, const char* tn) {
    typedef typename std::conditional<std::is_void<R>::value, int, R>::type RR;
    Opts o = pick_world(c, 3);
    bool shared = c.rng.chance(1, 2); int nw = shared ? c.rng.range(1, 4) : 1, ns_ = c.rng.chance(1, 4) ? 2 : 1; bool timed = c.rng.chance(1, 2); c.leap_ns = timed ? 10000 : 0;
    bool alloc = c.rng.chance(1, 2), brk = ns_ == 1 && c.rng.chance(1, 4);
    c.note("future<%s> shared=%d waiters=%d setters=%d timed=%d break=%d ", tn, int(shared), nw, ns_, int(timed), int(brk));
    live = 0; blocks = 0;
    struct S { std::unique_ptr<bf::promise<R>> pr; bf::future<R> fu; bf::shared_future<R> sf; std::atomic<bool> started{ false }, done{ false }; std::atomic<int> winners{ 0 }, sets{ 0 }; std::atomic<long> out{ -1 }; std::atomic<int> kind{ -1 }; long payload[2] = { 0, 0 }; };
    S* s = new S; s->pr.reset(alloc ? new bf::promise<R>(std::allocator_arg, Cal<int>()) : new bf::promise<R>());
    ctl_watch(s->payload, sizeof s->payload);
    s->fu = s->pr->get_future(); if (shared) { s->sf = c.rng.chance(1, 2) ? s->fu.share() : bf::shared_future<R>(std::move(s->fu)); VF_CHECK(!s->fu.valid() && s->sf.valid(), "fut.share", "share() did not transfer the state"); }
    uint64_t seed = c.rng.u();
    FiberSet fs{ c, o, nw + ns_, [&](int f) {
        Rng r(mix(seed, uint64_t(f))); c.nontrivial = true;
        if (f < ns_) {
            int k = r.below(8); for (int i = 0; i < k; ++i) jitter(r); if (r.chance(1, 3)) boost::this_fiber::sleep_for(ns(r.below(20000)));
            long id = 1 + f * 1000 + r.below(900);
            if (ns_ == 1) { s->payload[0] = id; s->payload[1] = ~id; }
            Out kind = brk ? BROKEN : r.chance(1, 3) ? EXC : VALUE;
            logev(E_SET, f, kind, id); s->started.store(true);
            if (kind == BROKEN) {
                int how = r.below(4);
                s->kind.store(BROKEN); s->out.store(id);
                if (how == 0) s->pr.reset();
                else if (how == 1) { bf::promise<R> q(std::move(*s->pr)); }
                else if (how == 2) *s->pr = bf::promise<R>();                     // assigning over abandons
                else { bf::promise<R> q; if (r.chance(1, 2)) swap(q, *s->pr); else q.swap(*s->pr); }
                s->done.store(true); logev(E_SETRET, f, kind);
                return;
            }
            if (ns_ == 1) { s->kind.store(kind); s->out.store(id); }
            bf::promise<R> moved; bf::promise<R>* pp = s->pr.get();
            if (ns_ == 1 && r.chance(1, 4)) { moved = std::move(*s->pr); pp = &moved;
                expect<bf::promise_uninitialized>([&] { s->pr->get_future(); }, bf::future_errc::no_state, "get_future of a moved-from promise");
                expect<bf::promise_uninitialized>([&] { s->pr->set_exception(std::make_exception_ptr(Boom{ 0 })); }, bf::future_errc::no_state, "set_exception on a moved-from promise"); }
            bool won = true;
            auto set = [&](long v) { if constexpr (std::is_void<R>::value) pp->set_value(); else if constexpr (std::is_same<R, Cpy>::value) { Cpy x(v); if (r.chance(1, 2)) pp->set_value(x); else pp->set_value(std::move(x)); } else pp->set_value(Mk<RR>::make(v)); };
            auto publish = [&] { if (ns_ == 2) { VF_CHECK(s->winners.fetch_add(1) == 0, "fut.set_twice", "two setters of one promise both succeeded"); } };
            try { if (kind == EXC) pp->set_exception(std::make_exception_ptr(Boom{ id })); else set(id); publish(); s->done.store(true); }
            catch (bf::promise_already_satisfied const& e) { won = false; VF_CHECK(ns_ == 2, "fut.set_refused", "the only set was refused"); VF_CHECK(e.code() == std::make_error_code(bf::future_errc::promise_already_satisfied), "fut.wrong_error", "wrong code"); logev(E_SETFAIL, f); count("set_refused"); }
            if (ns_ == 2 && won) { s->kind.store(kind); s->out.store(id); }
            logev(E_SETRET, f, kind, won);
            if (won && r.chance(1, 2)) {
                expect<bf::promise_already_satisfied>([&] { set(5555); }, bf::future_errc::promise_already_satisfied, "second set_value");
                expect<bf::promise_already_satisfied>([&] { pp->set_exception(std::make_exception_ptr(Boom{ 5555 })); }, bf::future_errc::promise_already_satisfied, "set_exception after set");
            }
            if (ns_ == 1) expect<bf::future_already_retrieved>([&] { pp->get_future(); }, bf::future_errc::future_already_retrieved, "second get_future");
            if (ns_ == 1 && r.chance(1, 2)) { s->pr.reset(); }
            s->sets.fetch_add(1);
            return;
        }
        int k = r.below(6); for (int i = 0; i < k; ++i) jitter(r);
        bf::shared_future<R> mine; if (shared) mine = s->sf;
        auto wait_some = [&](auto& fu) {
            int rounds = r.below(3);
            for (int i = 0; i < rounds; ++i) {
                bool was = s->done.load(); logev(E_WAIT, f, i);
                int64_t d = r.chance(1, 6) ? 0 : int64_t(r.below(15000)); auto t0 = clk::now(); bool other = false; bf::future_status st;
                switch (r.below(timed ? 5 : 2)) {
                case 0: fu.wait(); st = bf::future_status::ready; break;
                case 1: st = fu.get_exception_ptr() ? bf::future_status::ready : bf::future_status::ready; break;
                case 2: st = fu.wait_for(ns(d)); break;
                case 3: st = fu.wait_until(t0 + ns(d)); break;
                default: other = true; if (r.chance(1, 4)) d = 100000000000ll; st = other_clock(r, d, [&](auto t) { return fu.wait_until(t); }); if (st == bf::future_status::timeout && d > 1000000000) VF_CHECK(clk::now() + std::chrono::seconds(1) > t0 + ns(d), "fut.early_timeout", "timed wait gave up much before its deadline"); break;
                }
                VF_CHECK(fu.valid(), "fut.valid", "waiting invalidated the future");
                if (st == bf::future_status::ready) { VF_CHECK(s->started.load(), "fut.ready_early", "future became ready before anything was set"); logev(E_READY, f); count("ready"); if (ns_ == 1) VF_CHECK(s->payload[1] == ~s->payload[0] && s->payload[0] != 0, "fut.visibility", "writes made before set are not visible after wait"); }
                else { VF_CHECK(other || clk::now() >= t0 + ns(d), "fut.early_timeout", "timed wait gave up early"); VF_CHECK(!was, "fut.missed_ready", "timed wait reported timeout although the state was ready before the call"); logev(E_TIMEOUT, f); count("timeouts"); }
            }
        };
        int got = -1; long val = -1;
        auto take = [&](auto& fu) {
            wait_some(fu);
            try { if constexpr (std::is_void<R>::value) { fu.get(); } else { decltype(auto) v = fu.get(); val = Mk<RR>::val(v); } got = VALUE; }
            catch (Boom const& b) { got = EXC; val = b.id; } catch (bf::broken_promise const& e) { got = BROKEN; VF_CHECK(e.code() == std::make_error_code(bf::future_errc::broken_promise), "fut.wrong_error", "broken_promise: wrong code"); }
            VF_CHECK(s->started.load(), "fut.ready_early", "get() returned before anything was set");
            if (ns_ == 1) {
                VF_CHECK(got == s->kind.load(), "fut.outcome", "stored outcome %d, retrieved outcome %d", s->kind.load(), got);
                if (got == EXC || (got == VALUE && !std::is_void<R>::value)) VF_CHECK(val == s->out.load(), "fut.value", "stored %ld, retrieved %ld", s->out.load(), val);
                VF_CHECK(s->payload[1] == ~s->payload[0] && s->payload[0] == s->out.load(), "fut.visibility", "writes made before set are not visible after get");
            }
            logev(got == VALUE ? E_GOT : got == EXC ? E_EXC : E_BROKEN, f, val); count(got == VALUE ? "values" : got == EXC ? "exceptions" : "broken");
        };
        if (shared) {
            take(mine); int g1 = got; long v1 = val; take(mine);
            VF_CHECK(g1 == got && v1 == val && mine.valid(), "fut.shared_get", "repeated get() on a shared_future disagrees");
            bool e = bool(mine.get_exception_ptr()); VF_CHECK(e == (got != VALUE), "fut.exception_ptr", "get_exception_ptr() disagrees with get()");
            bf::shared_future<R> m2; m2 = mine; bf::shared_future<R> m3(std::move(mine)); VF_CHECK(!mine.valid() && m2.valid() && m3.valid(), "fut.move", "copy/move of shared_future");
            if (ns_ == 2) { long expv = -1; if (s->winners.load() == 1 && s->sets.load() == 2) { expv = s->out.load(); if (!(got == VALUE && std::is_void<R>::value)) VF_CHECK(val == expv, "fut.value", "winner stored %ld, retrieved %ld", expv, val); } }
        } else {
            bf::future<R> fu; if (r.chance(1, 2)) { fu = std::move(s->fu); VF_CHECK(!s->fu.valid(), "fut.move", "moved-from future still valid"); } else { bf::future<R> t(std::move(s->fu)); fu = std::move(t); }
            VF_CHECK(fu.valid(), "fut.valid", "future lost its state when moved");
            take(fu);
            VF_CHECK(!fu.valid(), "fut.valid", "get() left the future valid");
            expect<bf::future_uninitialized>([&] { fu.get(); }, bf::future_errc::no_state, "second get()");
            expect<bf::future_uninitialized>([&] { fu.wait(); }, bf::future_errc::no_state, "wait() on an empty future");
            expect<bf::future_uninitialized>([&] { fu.wait_for(ns(1)); }, bf::future_errc::no_state, "wait_for() on an empty future");
            expect<bf::future_uninitialized>([&] { fu.get_exception_ptr(); }, bf::future_errc::no_state, "get_exception_ptr() on an empty future");
            expect<bf::future_uninitialized>([&] { fu.share(); }, bf::future_errc::no_state, "share() on an empty future");
        }
    } };
    fs.run();
    if (ns_ == 2) VF_CHECK(s->winners.load() == 1, "fut.set_twice", "%d of two setters succeeded", s->winners.load());
    delete s;
    VF_CHECK(live.load() == 0, "fut.leak", "%ld result objects alive after promise and futures are gone", live.load());
    VF_CHECK(blocks.load() == 0, "fut.alloc", "%ld blocks of the user's allocator outstanding", blocks.load());
}
VF_FAMILY(future) {
    switch (c.rng.below(5)) { case 0: scenario<long>(c, "long"); break; case 1: scenario<Box>(c, "move-only"); break; case 2: scenario<Cpy>(c, "copyable"); break; case 3: scenario<long&>(c, "long&"); break; default: scenario<void>(c, "void"); }
}

struct Fn {     // move-only callable, counts invocations
    std::atomic<int>* calls; int mode; std::unique_ptr<int> own; Fn(std::atomic<int>* c, int m) : calls(c), mode(m), own(new int(1)) { live.fetch_add(1, rlx); }
    Fn(Fn&& o) noexcept : calls(o.calls), mode(o.mode), own(std::move(o.own)) { live.fetch_add(1, rlx); } ~Fn() { live.fetch_sub(1, rlx); }
    long run(Box b, long k) { VF_CHECK(own, "task.callable", "an empty callable was invoked"); calls->fetch_add(1, rlx); logev(E_INVOKE, 0, b.val(), k); if (mode == 1) throw Boom{ b.val() + k }; boost::this_fiber::yield(); return b.val() + k; }
};
template <class R> static void task_scenario(Case& c, const char* tn) {
    Opts o = pick_world(c, 3); int n = c.rng.range(1, 4); c.leap_ns = 5000; c.note("tasks<%s> n=%d ", tn, n); live = 0; blocks = 0; uint64_t seed = c.rng.u();
    struct F2 { Fn f; R operator()(Box b, long k) { if constexpr (std::is_void<R>::value) f.run(std::move(b), k); else return R(f.run(std::move(b), k)); } };
    FiberSet fs{ c, o, n, [&](int f) {
        Rng r(mix(seed, uint64_t(f))); c.nontrivial = true;
        std::atomic<int> calls{ 0 }; long a = r.below(1000), k = r.below(1000); int mode = r.below(3) == 0;
        auto verify = [&](bf::future<R>& fu, int want /*0 value 1 exc 2 broken*/, const char* what) {
            int got = -1; long v = -1;
            try { if constexpr (std::is_void<R>::value) { fu.get(); } else { auto x = fu.get(); v = Mk<R>::val(x); } got = 0; } catch (Boom const& b) { got = 1; v = b.id; } catch (bf::broken_promise const&) { got = 2; }
            VF_CHECK(got == want, "task.outcome", "%s: expected outcome %d, future delivered %d", what, want, got);
            if (got == 1 || (got == 0 && !std::is_void<R>::value)) VF_CHECK(v == a + k, "task.value", "%s: expected %ld, got %ld", what, a + k, v);
            count(got == 0 ? "task_values" : got == 1 ? "task_exceptions" : "task_broken"); logev(got == 0 ? E_GOT : got == 1 ? E_EXC : E_BROKEN, f, v);
        };
        int kind = r.below(7);
        if (kind == 0) {           // async through every overload
            bf::future<R> fu; bool d = r.chance(1, 2); bf::launch l = d ? bf::launch::dispatch : bf::launch::post;
            switch (r.below(4)) {
            case 0: fu = bf::async(F2{ Fn(&calls, mode) }, Box(a), long(k)); break;
            case 1: fu = bf::async(l, F2{ Fn(&calls, mode) }, Box(a), long(k)); break;
            case 2: fu = bf::async(l, std::allocator_arg, bf::fixedsize_stack(stack_size()), F2{ Fn(&calls, mode) }, Box(a), long(k)); break;
            default: fu = bf::async(l, std::allocator_arg, bf::fixedsize_stack(stack_size()), Cal<int>(), F2{ Fn(&calls, mode) }, Box(a), long(k)); break;
            }
            VF_CHECK(fu.valid(), "task.async", "async returned an invalid future"); jitter(r);
            verify(fu, mode, "async"); VF_CHECK(calls.load() == 1, "task.calls", "async ran its function %d times", calls.load());
        } else {
            typedef bf::packaged_task<R(Box, long)> PT; PT pt = r.chance(1, 2) ? PT(F2{ Fn(&calls, mode) }) : PT(std::allocator_arg, Cal<int>(), F2{ Fn(&calls, mode) });
            VF_CHECK(pt.valid(), "task.valid", "task invalid");
            if (kind == 6) { PT e; VF_CHECK(!e.valid(), "task.valid", "default task valid"); expect<bf::packaged_task_uninitialized>([&] { e(Box(1), 1); }, bf::future_errc::no_state, "invoking an empty task"); expect<bf::packaged_task_uninitialized>([&] { e.get_future(); }, bf::future_errc::no_state, "get_future of an empty task"); expect<bf::packaged_task_uninitialized>([&] { e.reset(); }, bf::future_errc::no_state, "reset of an empty task");
                if (r.chance(1, 2)) swap(e, pt); else e.swap(pt); VF_CHECK(e.valid() && !pt.valid(), "task.swap", "swap"); pt = std::move(e); VF_CHECK(pt.valid() && !e.valid(), "task.move", "move assignment"); }
            bf::future<R> fu = pt.get_future(); expect<bf::future_already_retrieved>([&] { pt.get_future(); }, bf::future_errc::future_already_retrieved, "second get_future");
            switch (kind) {
            case 1: case 6: pt(Box(a), long(k)); verify(fu, mode, "task"); VF_CHECK(calls.load() == 1, "task.calls", "task ran %d times", calls.load()); break;
            case 2: { bf::fiber fb = spawn(r, [t = std::move(pt), a, k]() mutable { t(Box(a), long(k)); }); jitter(r); verify(fu, mode, "task in a fiber"); fb.join(); break; }
            case 3: { PT q(std::move(pt)); VF_CHECK(!pt.valid() && q.valid(), "task.move", "move construction"); expect<bf::packaged_task_uninitialized>([&] { pt.get_future(); }, bf::future_errc::no_state, "get_future of a moved-from task"); expect<bf::packaged_task_uninitialized>([&] { pt(Box(1), 1); }, bf::future_errc::no_state, "invoking a moved-from task"); expect<bf::packaged_task_uninitialized>([&] { pt.reset(); }, bf::future_errc::no_state, "reset of a moved-from task");
                expect<bf::future_already_retrieved>([&] { q.get_future(); }, bf::future_errc::future_already_retrieved, "second get_future after a move"); if (r.chance(1, 2)) { jitter(r); { PT z; z = std::move(q); } } else q = PT(); verify(fu, 2, "destroyed task"); VF_CHECK(calls.load() == 0, "task.calls", "destroyed task ran"); break; }
            case 4: { // reset before running abandons the first state; the new state works
                bf::fiber w; bf::future<R> f2; bool inside = r.chance(1, 2);
                if (inside) { w = spawn(r, [&] { verify(fu, 2, "waiter of a reset task"); }); jitter(r); }
                pt.reset(); if (!inside) verify(fu, 2, "reset task"); else w.join();
                f2 = pt.get_future(); pt(Box(a), long(k)); verify(f2, mode, "task after reset"); VF_CHECK(calls.load() == 1, "task.calls", "task ran %d times", calls.load()); break; }
            default: { pt(Box(a), long(k)); verify(fu, mode, "task"); pt.reset(); bf::future<R> f2 = pt.get_future(); pt(Box(a), long(k)); verify(f2, mode, "task run again after reset"); VF_CHECK(calls.load() == 2, "task.calls", "task ran %d times", calls.load());
                expect<bf::promise_already_satisfied>([&] { pt(Box(a), long(k)); }, bf::future_errc::promise_already_satisfied, "running a task twice"); break; }
            }
        }
        jitter(r);
    } };
    fs.thread_post = [&](int) { for (int i = 0; i < 4; ++i) boost::this_fiber::yield(); };
    fs.run();
    VF_CHECK(live.load() == 0, "task.leak", "%ld callable/argument/result objects leaked", live.load());
    VF_CHECK(blocks.load() == 0, "task.alloc", "%ld blocks of the user's allocator outstanding", blocks.load());
}
VF_FAMILY(ptask) { switch (c.rng.below(4)) { case 0: task_scenario<long>(c, "long"); break; case 1: task_scenario<Box>(c, "move-only"); break; case 2: task_scenario<Cpy>(c, "copyable"); break; default: task_scenario<void>(c, "void"); } }

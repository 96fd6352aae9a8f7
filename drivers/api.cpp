// Small exact scenarios at the edges of the interfaces: every overload, misbehaving element types, user allocators, deadlines with company.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_DO = 1, E_THREW, E_WOKE };
static int init = (name_event(E_DO, "do"), name_event(E_THREW, "threw"), name_event(E_WOKE, "woke"), 0);
static void solo(Case& c, std::function<void(Rng&)> body, bool rr_only = false) {      // one thread, main fiber runs body
    Opts o; o.seed = c.rng.u(); o.algo = rr_only || c.rng.chance(2, 3) ? RR : CHAOS; uint64_t seed = c.rng.u(); c.nontrivial = true; c.run({ [&] { install(o, 0); Rng r(seed); body(r); } });
}
// ---- launching: every constructor and every async honours its policy, its allocator, its properties and its arguments
struct Tally { std::atomic<int> n{ 0 }, freed{ 0 }; char* lo = nullptr; char* hi = nullptr; bool on(void* p) const { return lo <= static_cast<char*>(p) && static_cast<char*>(p) < hi; } };
struct Sal { typedef boost::context::stack_traits traits_type; Tally* t; bf::fixedsize_stack impl; explicit Sal(Tally* x) : t(x), impl(stack_size()) {}
    boost::context::stack_context allocate() { auto s = impl.allocate(); t->n++; t->hi = static_cast<char*>(s.sp); t->lo = t->hi - s.size; return s; } void deallocate(boost::context::stack_context& s) noexcept { t->freed++; impl.deallocate(s); } };
struct Pr : bf::fiber_properties { int tag = 0; static std::atomic<int> alive; explicit Pr(bf::context* c) : bf::fiber_properties(c) { alive++; } ~Pr() override { alive--; } };
std::atomic<int> Pr::alive{ 0 };
struct Arena { std::atomic<long> allocs{ 0 }, out{ 0 }; std::mutex m; std::set<void*> blocks; };
template <class T> struct Aal { typedef T value_type; Arena* a; explicit Aal(Arena* x) : a(x) {} template <class U> Aal(Aal<U> const& o) : a(o.a) {}      // stateful, not default constructible
    T* allocate(std::size_t n) { a->allocs++; a->out++; void* p = ::operator new(n * sizeof(T)); std::lock_guard<std::mutex> g(a->m); a->blocks.insert(p); return static_cast<T*>(p); }
    void deallocate(T* p, std::size_t) { { std::lock_guard<std::mutex> g(a->m); VF_CHECK(a->blocks.erase(p) == 1, "api.allocator", "a block went back to another allocator than it came from"); } a->out--; ::operator delete(p); }
    template <class U> bool operator==(Aal<U> const& o) const { return a == o.a; } template <class U> bool operator!=(Aal<U> const& o) const { return a != o.a; } };
static Arena* dflt_arena;
template <class T> struct Dal : Aal<T> { typedef T value_type; Dal() : Aal<T>(dflt_arena) {} explicit Dal(Arena* x) : Aal<T>(x) {} template <class U> Dal(Dal<U> const& o) : Aal<T>(o.a) {} template <class U> struct rebind { typedef Dal<U> other; }; };
static void launch_case(Case& c) {
    count("launch_overloads"); Tally t; Arena ar; Pr::alive = 0; uint32_t how = pick_what(c, 14), l2 = c.rng.below(2); c.note("launch overload %u policy %u ", how, l2);
    solo(c, [&](Rng& r) {
        bf::launch l = l2 ? bf::launch::dispatch : bf::launch::post; int ran = 0, refd = 0; bool own = false; Pr* given = nullptr; void* where = nullptr; std::string s = "text", copy = s;
        std::unique_ptr<int> mv(new int(41));
        auto fn = [&](std::string a, std::unique_ptr<int> p, int& x, int k) { int here = 0; VF_CHECK(a == "text" && p && *p == 41 && k == 7, "api.argument", "an argument arrived damaged"); x = 5; where = &here; own = t.on(&here); if (given) VF_CHECK(&boost::this_fiber::properties<Pr>() == given && given->tag == 9, "api.properties", "the fiber does not have the properties it was given"); ++ran; boost::this_fiber::yield(); ++ran; return 100 + k; };
        bf::fiber f; bf::future<int> fu; bool sal = false, props = false, alloc = false, pol = false; auto mkp = [&] { given = new Pr(nullptr); given->tag = 9; props = true; return static_cast<bf::fiber_properties*>(given); };
        Sal sa(&t), csa(sa);
        auto args = [&](auto&& g) { return g(copy, std::move(mv), std::ref(refd), 7); };
        switch (how) {
        case 0: f = args([&](auto&&... a) { return bf::fiber(fn, std::forward<decltype(a)>(a)...); }); break;
        case 1: pol = true; f = args([&](auto&&... a) { return bf::fiber(l, fn, std::forward<decltype(a)>(a)...); }); break;
        case 2: sal = true; f = args([&](auto&&... a) { return bf::fiber(std::allocator_arg, sa, fn, std::forward<decltype(a)>(a)...); }); break;
        case 3: sal = pol = true; f = args([&](auto&&... a) { return bf::fiber(l, std::allocator_arg, Sal(&t), fn, std::forward<decltype(a)>(a)...); }); break;
        case 4: f = args([&](auto&&... a) { return bf::fiber(mkp(), fn, std::forward<decltype(a)>(a)...); }); break;
        case 5: pol = true; f = args([&](auto&&... a) { return bf::fiber(l, mkp(), fn, std::forward<decltype(a)>(a)...); }); break;
        case 6: sal = true; f = args([&](auto&&... a) { return bf::fiber(mkp(), std::allocator_arg, sa, fn, std::forward<decltype(a)>(a)...); }); break;
        case 7: sal = pol = true; f = args([&](auto&&... a) { return bf::fiber(l, mkp(), std::allocator_arg, sa, fn, std::forward<decltype(a)>(a)...); }); break;
        case 8: sal = pol = true; f = args([&](auto&&... a) { return bf::fiber(l, std::allocator_arg, csa, fn, std::forward<decltype(a)>(a)...); }); break;
        case 9: fu = args([&](auto&&... a) { return bf::async(fn, std::forward<decltype(a)>(a)...); }); break;
        case 10: pol = true; fu = args([&](auto&&... a) { return bf::async(l, fn, std::forward<decltype(a)>(a)...); }); break;
        case 11: sal = pol = true; fu = args([&](auto&&... a) { return bf::async(l, std::allocator_arg, sa, fn, std::forward<decltype(a)>(a)...); }); break;
        default: sal = pol = alloc = true; fu = args([&](auto&&... a) { return bf::async(l, std::allocator_arg, sa, Dal<int>(&ar), fn, std::forward<decltype(a)>(a)...); }); break;
        }
        bool disp = pol && l2; logev(E_DO, int(how), disp, ran);
        if (disp) VF_CHECK(ran >= 1, "api.dispatch", "launch::dispatch (overload %u) returned before the new fiber ran", how); else VF_CHECK(ran == 0, "api.post", "%s (overload %u) ran the new fiber before its creator gave way", pol ? "launch::post" : "a launch without policy", how);
        VF_CHECK(copy == s, "api.argument", "the caller's argument was damaged");
        if (sal) VF_CHECK(t.n.load() == 1, "api.stack", "the given stack allocator was used %d times for one fiber (overload %u)", t.n.load(), how); else VF_CHECK(t.n.load() == 0, "api.stack", "stack allocator");
        if (alloc) VF_CHECK(ar.allocs.load() > 0, "api.allocator", "async did not use the given allocator");
        if (how < 9) { VF_CHECK(f.joinable(), "api.launch", "not joinable"); if (props && r.chance(1, 2)) VF_CHECK(&f.properties<Pr>() == given, "api.properties", "handle shows other properties than given"); if (r.chance(1, 4)) { f.detach(); while (ran < 2) boost::this_fiber::yield(); } else f.join(); } else VF_CHECK(fu.get() == 107, "api.result", "wrong result");
        VF_CHECK(ran == 2 && refd == 5, "api.launch", "the function did not run to its end, or not with the referenced argument"); if (sal) VF_CHECK(own, "api.stack", "the fiber ran elsewhere than on the stack of the given allocator (overload %u)", how); (void)where;
    });
    VF_CHECK(t.n.load() == t.freed.load(), "api.stack", "%d stacks allocated, %d released", t.n.load(), t.freed.load()); VF_CHECK(Pr::alive.load() == 0, "api.properties", "properties leaked"); VF_CHECK(ar.out.load() == 0, "api.allocator", "%ld blocks of the given allocator outstanding", ar.out.load());
}
struct Kept { int id, sum = 0; explicit Kept(int i) : id(i) {} Kept(Kept const&) = default; Kept(Kept&& o) noexcept : id(o.id), sum(o.sum) { o.id = -9; }
    int operator()(int x) & { VF_CHECK(id > 0, "api.task", "a moved-from callable is called"); sum += x; return id * 1000 + sum * 10 + x; } int operator()(int) && { id = -8; return -1; } };
// ---- results that misbehave
struct Ouch { int id; };
struct Base : std::runtime_error { int id; explicit Base(int i) : std::runtime_error("base"), id(i) {} }; struct Derived : Base { long more; explicit Derived(int i) : Base(i), more(i * 3L) {} };
struct Moody {      // throws on its n-th copy or move while armed
    long v; static int armed; static std::atomic<long> live; static void step() { if (armed > 0 && --armed == 0) { logev(E_THREW, 0); throw Ouch{ 3 }; } }
    explicit Moody(long x = -1) : v(x) { live++; } Moody(Moody const& o) : v(o.v) { step(); live++; } Moody(Moody&& o) : v(o.v) { step(); o.v = -2; live++; } Moody& operator=(Moody const& o) { step(); v = o.v; return *this; } Moody& operator=(Moody&& o) { step(); v = o.v; o.v = -2; return *this; } ~Moody() { live--; v = -3; } };
int Moody::armed = 0; std::atomic<long> Moody::live{ 0 };
template <int A> struct alignas(A) Big { long v; char fill[A]; explicit Big(long x = -1) : v(x) { std::memset(fill, int(x & 63), sizeof fill); } bool ok(long x) const { for (char q : fill) if (q != char(x & 63)) return false; return v == x && (reinterpret_cast<uintptr_t>(this) % A) == 0; } };
template <class F> static int thrown(F&& f) { try { f(); return 0; } catch (Ouch const&) { return 1; } catch (bf::future_error const&) { return 2; } catch (...) { return 3; } }
template <int A> static void aligned(Rng& r) {
    bf::promise<Big<A>> p; bf::shared_future<Big<A>> s = p.get_future().share(); std::unique_ptr<char[]> shift(new char[1 + r.below(40)]); p.set_value(Big<A>(r.below(60)));
    Big<A> const& b = s.get(); VF_CHECK((reinterpret_cast<uintptr_t>(&b) % A) == 0, "api.alignment", "a result that needs %d-byte alignment is stored at %p", A, static_cast<const void*>(&b)); VF_CHECK(b.ok(b.v), "api.value", "damaged result"); auto b2 = s; VF_CHECK(&b2.get() == &b, "api.value", "shared futures show different objects");
}
static void future_case(Case& c) {
    count("odd_results"); Moody::live = 0; Moody::armed = 0; Arena ar, ar2; dflt_arena = &ar2; uint32_t what = pick_what(c, 9); c.note("result case %u ", what);
    solo(c, [&](Rng& r) {
        switch (what) {
        case 0: {       // an assignment that throws leaves the promise as it was
            bf::promise<Moody> p; auto fu = p.get_future(); bf::fiber w; long seen = -5; if (r.chance(1, 2)) { w = spawn(r, [&] { seen = fu.get().v; }); boost::this_fiber::yield(); }
            bool cp = r.chance(1, 2); Moody v(8); Moody::armed = 1; int e = cp ? thrown([&] { p.set_value(v); }) : thrown([&] { p.set_value(std::move(v)); }); Moody::armed = 0; VF_CHECK(e == 1, "api.throwing_set", "the exception of the value's copy did not reach the setter (%d)", e);
            if (r.chance(1, 2)) boost::this_fiber::yield(); VF_CHECK(seen == -5, "api.throwing_set", "a waiter was given a value although setting it failed"); if (!w.joinable()) VF_CHECK(fu.wait_for(ns(0)) == bf::future_status::timeout, "api.throwing_set", "the future is ready although setting its value failed");
            if (!w.joinable() && r.chance(1, 4)) { p.set_exception(std::make_exception_ptr(Ouch{ 1 })); VF_CHECK(thrown([&] { fu.get(); }) == 1, "api.throwing_set", "exception lost"); return; }
            Moody good(11); p.set_value(good); if (w.joinable()) w.join(); else seen = fu.get().v; VF_CHECK(seen == 11, "api.value", "got %ld instead of 11", seen); break; }
        case 1: {       // the exception arrives as what it is, not as one of its bases
            int kind = int(r.below(4)); bool viatask = r.chance(1, 2); bf::future<int> fu; auto ep = kind == 0 ? std::make_exception_ptr(Derived(6)) : kind == 1 ? std::make_exception_ptr(std::out_of_range("oor")) : kind == 2 ? std::make_exception_ptr(42) : std::make_exception_ptr(std::system_error(std::make_error_code(std::errc::no_space_on_device)));
            if (viatask) { auto body = [ep]() -> int { std::rethrow_exception(ep); }; if (r.chance(1, 2)) fu = bf::async(body); else { bf::packaged_task<int()> pt(body); fu = pt.get_future(); pt(); } } else { bf::promise<int> p; fu = p.get_future(); p.set_exception(ep); }
            bf::shared_future<int> sf; bool sh = r.chance(1, 2); if (sh) sf = fu.share(); std::exception_ptr got = sh ? sf.get_exception_ptr() : fu.get_exception_ptr(); VF_CHECK(got != nullptr, "api.exception", "no exception pointer");
            for (int i = 0; i < 2; ++i) { bool ok = false; try { if (i == 0) std::rethrow_exception(got); else if (sh) sf.get(); else fu.get(); } catch (Derived const& d) { ok = kind == 0 && d.id == 6 && d.more == 18; } catch (std::out_of_range const& x) { ok = kind == 1 && std::string(x.what()) == "oor" && typeid(x) == typeid(std::out_of_range); } catch (int k) { ok = kind == 2 && k == 42; } catch (std::system_error const& x) { ok = kind == 3 && x.code() == std::errc::no_space_on_device; } catch (...) {} VF_CHECK(ok, "api.exception", "exception of kind %d was not delivered as thrown", kind); }
            break; }
        case 2: switch (r.below(3)) { case 0: aligned<64>(r); break; case 1: aligned<32>(r); break; default: aligned<256>(r); break; } break;
        case 3: {       // assigning a handle to itself changes nothing
            bf::promise<long> p; auto fu = p.get_future(); auto& fr = fu; fu = std::move(fr); VF_CHECK(fu.valid(), "api.self", "a future assigned to itself lost its state"); auto& pr = p; p = std::move(pr); p.set_value(4);
            bf::shared_future<long> s = fu.share(); auto& sr = s; s = sr; VF_CHECK(s.valid(), "api.self", "shared future"); s = std::move(sr); VF_CHECK(s.valid() && s.get() == 4, "api.self", "a shared future assigned to itself lost its state");
            bf::packaged_task<long()> pt([] { return 9L; }); auto& ptr_ = pt; pt = std::move(ptr_); VF_CHECK(pt.valid(), "api.self", "task"); auto f2 = pt.get_future(); pt(); VF_CHECK(f2.get() == 9, "api.self", "task"); bf::fiber e; auto& er = e; e = std::move(er); VF_CHECK(!e.joinable(), "api.self", "fiber"); break; }
        case 4: {       // user allocators: the very instance given, for promise, task, reset task
            bool d = r.chance(1, 2);
            { if (d) { bf::promise<long> p(std::allocator_arg, Dal<int>(&ar)); auto fu = p.get_future(); VF_CHECK(ar.allocs.load() > 0 && ar2.allocs.load() == 0, "api.allocator", "promise did not use the given allocator"); if (r.chance(1, 2)) { p.set_value(1); fu.get(); } } else { bf::promise<void> p(std::allocator_arg, Dal<int>(&ar)); VF_CHECK(ar.allocs.load() > 0, "api.allocator", "promise did not use the given allocator"); auto fu = p.get_future(); auto sf = fu.share(); p.set_value(); sf.get(); }
              long before = ar.allocs.load(); auto fn = [](int x) { return x + 1L; };
              auto task = [&](auto al) { bf::packaged_task<long(int)> pt(std::allocator_arg, al, fn); VF_CHECK(ar.allocs.load() > before && ar2.allocs.load() == 0, "api.allocator", "packaged_task did not use the given allocator"); auto fu = pt.get_future(); pt(3); VF_CHECK(fu.get() == 4, "api.value", "task"); before = ar.allocs.load(); pt.reset(); VF_CHECK(ar.allocs.load() > before && ar2.allocs.load() == 0, "api.allocator", "reset did not use the task's allocator"); auto f2 = pt.get_future(); if (r.chance(1, 2)) { pt(7); VF_CHECK(f2.get() == 8, "api.value", "task"); } };
              if (d) task(Dal<int>(&ar)); else task(Dal<int>(&ar)); }
            VF_CHECK(ar.out.load() == 0 && ar2.out.load() == 0, "api.allocator", "%ld blocks of the user's allocator outstanding", ar.out.load()); break; }
        case 5: {       // a task whose result cannot be stored fails with that exception
            int at = r.range(1, 2); bf::packaged_task<Moody(int)> pt([at](int x) { Moody m(x); Moody::armed = at == 1 ? 1 : 0; return at == 1 ? Moody(std::move(m)) : Moody(x); }); auto fu = pt.get_future(); pt(5); Moody::armed = 0;
            if (at == 1) VF_CHECK(thrown([&] { fu.get(); }) == 1, "api.exception", "the exception of the result's move was not delivered"); else VF_CHECK(fu.get().v == 5, "api.value", "task"); break; }
        case 6: {       // references
            long cell = 4; bf::promise<long&> p; bf::shared_future<long&> s = p.get_future().share(); p.set_value(cell); VF_CHECK(&s.get() == &cell, "api.value", "a future of a reference delivered another object"); auto fu = bf::async([&cell]() -> long& { return cell; }); VF_CHECK(&fu.get() == &cell, "api.value", "async of a reference delivered another object");
            std::reference_wrapper<long> w = std::ref(cell); auto f2 = bf::async([](long& x) { ++x; return &x; }, w); VF_CHECK(f2.get() == &cell && cell == 5, "api.argument", "reference argument"); struct O { long v = 3; long add(long x) { v += x; return v; } } o; auto f3 = bf::async(&O::add, &o, 4); VF_CHECK(f3.get() == 7 && o.v == 7, "api.value", "member function"); break; }
        case 7: {       // a task calls its own callable, as an object that is kept: with state that lasts from run to run, over reset() and moves
            auto go = [&](auto pt, int per) { int sum = 0; for (int i = 1; i <= 3; ++i) { auto fu = pt.get_future(); if (r.chance(1, 3)) { auto q = std::move(pt); VF_CHECK(!pt.valid() && q.valid(), "api.task", "valid() after a move"); pt = std::move(q); } if (r.chance(1, 3)) { decltype(pt) e; e.swap(pt); VF_CHECK(e.valid() && !pt.valid(), "api.task", "valid() after swap"); std::swap(e, pt); }
                    if (per) pt(i); sum += i; if (per) { int got = fu.get(); VF_CHECK(got == per * 1000 + sum * 10 + i, "api.task", "run %d of a task delivered %d instead of %d", i, got, per * 1000 + sum * 10 + i); } pt.reset(); VF_CHECK(pt.valid(), "api.task", "not valid after reset"); } };
            go(bf::packaged_task<int(int)>(Kept(1)), 1); Kept k(2); go(bf::packaged_task<int(int)>(k), 2); VF_CHECK(k.sum == 0, "api.task", "the callable itself was run instead of the task's copy"); const Kept ck(3); go(bf::packaged_task<int(int)>(ck), 3); go(bf::packaged_task<int(int)>(std::allocator_arg, Dal<int>(&ar), Kept(4)), 4); VF_CHECK(ar.out.load() == 0, "api.allocator", "%ld blocks outstanding", ar.out.load());
            int hits = 0; bf::packaged_task<void(std::unique_ptr<int>, int)> pv([&hits](std::unique_ptr<int> u, int x) { hits += *u + x; }); for (int i = 0; i < 2; ++i) { auto fu = pv.get_future(); std::unique_ptr<int> u(new int(3)); pv(std::move(u), 4); fu.get(); VF_CHECK(!u && hits == 7 * (i + 1), "api.argument", "a move-only argument did not reach the callable"); pv.reset(); }
            struct O { int v = 2; int get() { return v; } int add(int x) { return v += x; } } o; bf::packaged_task<int(O*, int)> pm(&O::add); auto fm = pm.get_future(); pm(&o, 5); VF_CHECK(fm.get() == 7 && o.v == 7, "api.value", "task of a member function"); break; }
        default: {      // get() gives the value once; a throwing move out of the state is the caller's exception
            bf::promise<Moody> p; auto fu = p.get_future(); p.set_value(Moody(6)); Moody::armed = 1; int e = thrown([&] { Moody m = fu.get(); (void)m; }); Moody::armed = 0; VF_CHECK(e == 1, "api.exception", "the exception of the value's move was lost"); break; }
        }
    });
    VF_CHECK(Moody::live.load() == 0, "api.leak", "%ld results never destroyed (or destroyed twice)", Moody::live.load());
}
// ---- elements that throw: the exception reaches the caller, the channel stays sound and nobody is stranded
template <class Ch, bool BUF> static void chan_case(Case& c, std::function<Ch*()> mk) {
    count("throwing_elements"); Moody::live = 0; Moody::armed = 0; Opts o; o.seed = c.rng.u(); o.algo = c.rng.chance(2, 3) ? RR : CHAOS; uint64_t seed = c.rng.u(); c.nontrivial = true; int n = c.rng.range(2, 9), threw_in = 0, threw_out = 0, sent = 0, got = 0; bool inside = c.rng.chance(1, 2), timed = c.rng.chance(1, 2); c.note("throwing elements %s n=%d ", BUF ? "buffered" : "unbuffered", n);
    std::vector<int> lost;
    c.run({ [&] { install(o, 0); Rng r(seed); std::unique_ptr<Ch> ch(mk()); bool over = false; long last = -1;
        bf::fiber p = spawn(r, [&, q = Rng(r.u())]() mutable { for (int i = 0; i < n; ++i) { Moody v(i); bool hurt = inside && q.chance(1, 3);
            for (;;) { if (hurt) Moody::armed = 1; int e = 0; bf::channel_op_status st = bf::channel_op_status::success; bool cp = q.chance(1, 2);
                try { if (BUF && q.chance(1, 4)) { if constexpr (BUF) { for (;;) { if (hurt) Moody::armed = 1; st = cp ? ch->try_push(v) : ch->try_push(std::move(v)); Moody::armed = 0; if (st != bf::channel_op_status::full) break; boost::this_fiber::yield(); } } } else if (timed) st = cp ? ch->push_wait_for(v, std::chrono::hours(1)) : ch->push_wait_for(std::move(v), std::chrono::hours(1)); else st = cp ? ch->push(v) : ch->push(std::move(v)); } catch (Ouch const&) { e = 1; }
                Moody::armed = 0; if (e) { ++threw_in; VF_CHECK(v.v == i, "api.element", "a failed push damaged the caller's element"); hurt = false; continue; } VF_CHECK(st == bf::channel_op_status::success, "api.channel", "push of %d reported %d", i, int(st)); ++sent; break; } }
            over = true; ch->close(); });
        auto one = [&](Rng& q) -> bool { bool hurt = !inside && q.chance(1, 3); Moody v; bf::channel_op_status st; uint32_t how = q.below(4);
            try { if (hurt && (!BUF || how != 3)) { if (BUF) { /* armed only when there is something to take */ } }
                if (hurt) Moody::armed = 1;
                switch (how) { case 0: st = ch->pop(v); break; case 1: st = ch->pop_wait_for(v, std::chrono::hours(1)); break; case 2: { Moody w = ch->value_pop(); Moody::armed = 0; v.v = w.v; st = bf::channel_op_status::success; break; } default: if constexpr (BUF) { st = ch->try_pop(v); Moody::armed = 0; if (st == bf::channel_op_status::empty) { boost::this_fiber::yield(); return true; } } else st = ch->pop(v); break; } }
            catch (Ouch const&) { Moody::armed = 0; ++threw_out; return true; } catch (bf::fiber_error const&) { Moody::armed = 0; return false; }
            Moody::armed = 0; if (st == bf::channel_op_status::closed) return false; VF_CHECK(st == bf::channel_op_status::success, "api.channel", "pop reported %d", int(st)); VF_CHECK(v.v > last && v.v >= 0 && v.v < n, "api.element", "element %ld after %ld", v.v, last); if (BUF) VF_CHECK(v.v == last + 1, "api.element", "element %ld after %ld: one was lost", v.v, last); last = v.v; ++got; return true; };
        Rng q(r.u()); while (one(q)) if (q.chance(1, 3)) boost::this_fiber::yield();
        VF_CHECK(over, "api.channel", "the channel was reported closed before it was"); p.join(); ch.reset(); } });
    VF_CHECK(sent == n, "api.channel", "%d of %d sent", sent, n); if (BUF) VF_CHECK(got == n, "api.element", "%d of %d elements delivered", got, n); else VF_CHECK(got + threw_out >= n && got <= n, "api.element", "%d of %d elements delivered, %d receptions failed", got, n, threw_out);
    VF_CHECK(Moody::live.load() == 0, "api.leak", "%ld elements left", Moody::live.load()); count("throws", uint64_t(threw_in + threw_out));
}
// ---- a timed operation that is woken in vain goes on waiting for the rest of its time, not for all of it again
static void vain_case(Case& c) {
    count("woken_in_vain"); uint32_t what = pick_what(c, 9); c.note("woken in vain %u ", what); const int64_t S = 1000000000; const int64_t D = 10 * S + int64_t(c.rng.below(3)) * S; int64_t step = S * c.rng.range(1, 4) + 1; bool until = c.rng.chance(1, 2); int vain = 0;
    solo(c, [&](Rng& r) {
        bool over = false; bf::mutex m; bf::timed_mutex tm; bf::recursive_timed_mutex rm; bf::condition_variable cv; bf::condition_variable_any cva; bf::buffered_channel<int> bc(2), full(2); bf::unbuffered_channel<int> uc; bf::promise<int> pr; auto fu = pr.get_future(); full.push(1); while (full.try_push(1) == bf::channel_op_status::success) { }
        if (what == 2) tm.lock(); if (what == 3) rm.lock();
        auto until_or_for = [&](auto&& u, auto&& f) { return until ? u(clk::now() + ns(D)) : f(ns(D)); };
        bf::fiber w = spawn(r, [&] { auto t0 = clk::now(); int asked = 0; bool ok = false;
            switch (what) {
            case 0: { std::unique_lock<bf::mutex> lk(m); auto no = [&] { ++asked; return false; }; ok = until_or_for([&](auto t) { return cv.wait_until(lk, t, no); }, [&](auto d) { return cv.wait_for(lk, d, no); }); VF_CHECK(asked > 1 && lk.owns_lock(), "api.vain", "predicate asked %d times", asked); break; }
            case 1: { std::unique_lock<bf::mutex> lk(m); auto no = [&] { ++asked; return false; }; ok = until_or_for([&](auto t) { return cva.wait_until(lk, t, no); }, [&](auto d) { return cva.wait_for(lk, d, no); }); VF_CHECK(asked > 1 && lk.owns_lock(), "api.vain", "predicate asked %d times", asked); break; }
            case 2: ok = until_or_for([&](auto t) { return tm.try_lock_until(t); }, [&](auto d) { return tm.try_lock_for(d); }); break;
            case 3: ok = until_or_for([&](auto t) { return rm.try_lock_until(t); }, [&](auto d) { return rm.try_lock_for(d); }); break;
            case 4: { int v; auto s = until_or_for([&](auto t) { return bc.pop_wait_until(v, t); }, [&](auto d) { return bc.pop_wait_for(v, d); }); VF_CHECK(s == bf::channel_op_status::timeout, "api.vain", "status %d", int(s)); break; }
            case 5: { int k = 5; auto s = until_or_for([&](auto t) { return full.push_wait_until(k, t); }, [&](auto d) { return full.push_wait_for(k, d); }); VF_CHECK(s == bf::channel_op_status::timeout, "api.vain", "status %d", int(s)); break; }
            case 6: { auto s = until_or_for([&](auto t) { return full.push_wait_until(5, t); }, [&](auto d) { return full.push_wait_for(5, d); }); VF_CHECK(s == bf::channel_op_status::timeout, "api.vain", "status %d", int(s)); break; }
            case 7: { auto s = until_or_for([&](auto t) { return fu.wait_until(t); }, [&](auto d) { return fu.wait_for(d); }); VF_CHECK(s == bf::future_status::timeout, "api.vain", "future ready"); break; }
            default: { int v; auto s = until_or_for([&](auto t) { return uc.pop_wait_until(v, t); }, [&](auto d) { return uc.pop_wait_for(v, d); }); VF_CHECK(s == bf::channel_op_status::timeout, "api.vain", "status %d", int(s)); break; }
            }
            int64_t e = since(t0); logev(E_WOKE, int(what), e); VF_CHECK(!ok, "api.vain", "succeeded"); VF_CHECK(e >= D, "api.early", "a timed wait woken in vain gave up %lld ns early", (long long)(D - e)); VF_CHECK(e < D + S, "api.late", "a timed wait woken in vain ended %lld ns after its deadline", (long long)(e - D)); over = true; });
        boost::this_fiber::yield();
        for (int i = 0; i < 30 && !over; ++i) { boost::this_fiber::sleep_for(ns(step)); if (over) break; ++vain;
            switch (what) {
            case 0: if (r.chance(1, 2)) cv.notify_one(); else cv.notify_all(); break; case 1: if (r.chance(1, 2)) cva.notify_one(); else cva.notify_all(); break;
            case 2: tm.unlock(); tm.lock(); break; case 3: rm.unlock(); rm.lock(); break;       // nobody runs in between
            case 4: { int v; VF_CHECK(bc.try_push(3) == bf::channel_op_status::success && bc.try_pop(v) == bf::channel_op_status::success, "api.vain", "try"); break; }
            case 5: case 6: { int v; VF_CHECK(full.try_pop(v) == bf::channel_op_status::success && full.try_push(3) == bf::channel_op_status::success, "api.vain", "try"); break; }
            default: break; } }
        w.join(); if (what == 2) tm.unlock(); if (what == 3) rm.unlock(); if (what == 7) pr.set_value(1);
    }, true);
    count("vain_wakeups", uint64_t(vain));
}
enum Kind { LAUNCH, RESULT, ELEMENT, VAIN, KINDS };
VF_FAMILY(api) {
    int k = opt_int("kind", -1); if (k < 0) k = int(c.rng.below(KINDS));
    switch (k) {
    case LAUNCH: launch_case(c); break;
    case RESULT: future_case(c); break;
    case ELEMENT: if (c.rng.chance(1, 2)) { std::size_t cap = std::size_t(2) << c.rng.below(2); chan_case<bf::buffered_channel<Moody>, true>(c, [cap] { return new bf::buffered_channel<Moody>(cap); }); } else chan_case<bf::unbuffered_channel<Moody>, false>(c, [] { return new bf::unbuffered_channel<Moody>(); }); break;
    default: vain_case(c); break;
    }
}

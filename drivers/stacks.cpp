// Stacks: allocation, layout, isolation, release.
#include "vf.hpp"
#include <alloca.h>
#include <signal.h>
#include <unistd.h>
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_ALLOC = 1, E_FREE, E_RUN, E_END, E_REFUSE, E_DEPTH };
static int init = (name_event(E_ALLOC, "alloc"), name_event(E_FREE, "free"), name_event(E_RUN, "run"), name_event(E_END, "end"), name_event(E_REFUSE, "refused"), name_event(E_DEPTH, "depth"), 0);
static const std::size_t ZONE = 256;
struct Entry { char* lo; char* hi; int kind; int state; std::thread::id owner; uint64_t serial; };   // state 0 handed out, 1 a function runs on it, 2 its function has ended
struct Ledger {
    std::mutex m; uint64_t serial = 0; std::map<char*, Entry> live; std::atomic<long> allocs{ 0 }, frees{ 0 }, refused{ 0 }, copies{ 0 };   // keyed by hi
    void add(char* lo, char* hi, int kind) {
        std::lock_guard<std::mutex> g(m);
        for (auto& e : live) VF_CHECK(hi <= e.second.lo || lo >= e.second.hi, "stack.overlap", "two live stacks overlap");
        live[hi] = Entry{ lo, hi, kind, 0, std::this_thread::get_id(), ++serial }; ++allocs;
    }
    void del(boost::context::stack_context const& s, int kind) {
        std::lock_guard<std::mutex> g(m); auto i = live.find(static_cast<char*>(s.sp));
        VF_CHECK(i != live.end(), "stack.free", "a stack was released that is not allocated (twice?)");
        VF_CHECK(std::size_t(i->second.hi - i->second.lo) == s.size, "stack.free", "a stack of size %zu was released with size %zu", std::size_t(i->second.hi - i->second.lo), s.size);
        VF_CHECK(i->second.kind == kind, "stack.free", "a stack was released to another allocator than it came from"); VF_CHECK(i->second.state != 1, "stack.free_running", "the stack of a running fiber was released"); live.erase(i); ++frees;
    }
    // fibers of the calling thread that have ended, are joined and whose thread has gone idle since: their stacks are gone
    std::set<uint64_t> ended_here() { std::lock_guard<std::mutex> g(m); std::set<uint64_t> r; for (auto& e : live) if (e.second.state == 2 && e.second.owner == std::this_thread::get_id()) r.insert(e.second.serial); return r; }
    void prompt(std::set<uint64_t> const& ended) { std::lock_guard<std::mutex> g(m); for (auto& e : live) VF_CHECK(!ended.count(e.second.serial), "stack.kept", "the stack of a fiber that ended is still held although its thread has been idle since"); count("prompt_releases", ended.size()); }
    Entry* at(void* p) { for (auto& e : live) if (p >= e.second.lo && p < e.second.hi) return &e.second; return nullptr; }
    std::pair<char*, std::size_t> enter(void* p, int kind) { std::lock_guard<std::mutex> g(m); Entry* e = at(p); VF_CHECK(e, "stack.where", "a fiber does not run on a stack of its allocator"); VF_CHECK(e->kind == kind, "stack.where", "a fiber runs on a stack of another allocator"); VF_CHECK(e->state == 0, "stack.shared", "two fibers share a stack"); e->state = 1; return { e->lo, std::size_t(e->hi - e->lo) }; }
    void leave(void* p) { std::lock_guard<std::mutex> g(m); Entry* e = at(p); VF_CHECK(e && e->state == 1, "stack.where", "the stack of a fiber changed"); e->state = 2; }
};
enum Kind { FIXED, PROT, POOL, CANARY, KINDS };
// a copy of an allocator must be able to release what the original handed out
template <class A> struct Led {
    typedef boost::context::stack_traits traits_type; Ledger* l; int kind; A impl; int* refuse;
    Led(Ledger* ll, int k, A a, int* rf = nullptr) : l(ll), kind(k), impl(a), refuse(rf) {}
    boost::context::stack_context allocate() { if (refuse && *refuse > 0 && --*refuse == 0) { ++l->refused; throw std::bad_alloc(); } auto s = impl.allocate(); char* hi = static_cast<char*>(s.sp); l->add(hi - s.size, hi, kind); return s; }
    void deallocate(boost::context::stack_context& s) { l->del(s, kind); impl.deallocate(s); }
};
struct Canary {   // stack between two guarded zones, top aligned to 16 only
    std::size_t size, shift; Canary(std::size_t s, std::size_t sh_) : size(s), shift(sh_) {}
    struct Hdr { char* base; std::size_t total; };
    boost::context::stack_context allocate() {
        std::size_t total = size + 2 * ZONE + 512; char* b = static_cast<char*>(std::malloc(total)); char* hi = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(b) + ZONE + size + 255) & ~uintptr_t(255)) ; hi = hi - shift; if (hi - size < b + ZONE) hi += 256;
        for (char* p = b; p < hi - size; ++p) *p = 0x5a; for (char* p = hi; p < b + total; ++p) *p = 0x5a; std::memset(hi - size, 0xcd, size);
        { std::lock_guard<std::mutex> g(mm()); hdr()[hi] = Hdr{ b, total }; } boost::context::stack_context s; s.sp = hi; s.size = size; return s;
    }
    void deallocate(boost::context::stack_context& s) {
        char* hi = static_cast<char*>(s.sp); Hdr h; { std::lock_guard<std::mutex> g(mm()); auto i = hdr().find(hi); VF_CHECK(i != hdr().end(), "stack.free", "unknown stack released"); h = i->second; hdr().erase(i); }
        for (char* p = h.base; p < hi - size; ++p) VF_CHECK(*p == 0x5a, "stack.canary", "memory below a stack was overwritten (%ld bytes below)", long(hi - size - p));
        for (char* p = hi; p < h.base + h.total; ++p) VF_CHECK(*p == 0x5a, "stack.canary", "memory above a stack was overwritten (%ld bytes above)", long(p - hi));
        std::memset(hi - size, 0xee, size); std::free(h.base);
    }
    static std::mutex& mm() { static std::mutex m; return m; } static std::map<char*, Hdr>& hdr() { static std::map<char*, Hdr> m; return m; }
};
static std::atomic<long> objs{ 0 };
template <std::size_t AL, std::size_t N> struct alignas(AL) Fat {   // callable or argument of a given size and alignment
    unsigned char b[N]; int tag; int* throw_in; 
    void pat() { for (std::size_t i = 0; i < N; ++i) b[i] = (unsigned char)(tag * 7 + int(i)); }
    bool al() const { return reinterpret_cast<uintptr_t>(this) % AL == 0; }
    Fat(int t, int* th) : tag(t), throw_in(th) { pat(); objs.fetch_add(1, rlx); }
    Fat(Fat const& o) : tag(o.tag), throw_in(o.throw_in) { if (throw_in && *throw_in > 0 && --*throw_in == 0) throw std::runtime_error("copy"); std::memcpy(b, o.b, N); VF_CHECK(al(), "stack.align", "an object of a fiber is not aligned to %zu", AL); objs.fetch_add(1, rlx); }
    Fat(Fat&& o) noexcept : tag(o.tag), throw_in(nullptr) { std::memcpy(b, o.b, N); VF_CHECK(al(), "stack.align", "an object of a fiber is not aligned to %zu", AL); objs.fetch_add(1, rlx); }
    ~Fat() { objs.fetch_sub(1, rlx); }
    void check() const { VF_CHECK(al(), "stack.align", "an object of a fiber is not aligned to %zu", AL); for (std::size_t i = 0; i < N; ++i) VF_CHECK(b[i] == (unsigned char)(tag * 7 + int(i)), "stack.object", "callable or argument of fiber %d was overwritten", tag); }
};
struct World {
    Case& c; Ledger led; uint64_t seed; std::atomic<int> ran{ 0 }, ended{ 0 }; std::atomic<bool> began[16]; int shift;
    explicit World(Case& cc) : c(cc), seed(cc.rng.u()) { for (auto& x : began) x = false; shift = 16 * cc.rng.range(0, 15); }
    __attribute__((noinline)) void dig(char* low, int id, Rng& r, int& yields) {   // use the stack down to `low`, with live data at each level
        volatile unsigned char buf[1500]; for (std::size_t i = 0; i < sizeof buf; i += 37) buf[i] = (unsigned char)(id + int(i));
        if (reinterpret_cast<char*>(const_cast<unsigned char*>(buf)) - low > 4000) dig(low, id, r, yields);
        if (yields > 0 && r.chance(1, 2)) { --yields; boost::this_fiber::yield(); }
        for (std::size_t i = 0; i < sizeof buf; i += 37) VF_CHECK(buf[i] == (unsigned char)(id + int(i)), "stack.data", "local data of fiber %d was overwritten", id);
    }
    void body(int id, int kind) {
        char here; auto e = led.enter(&here, kind); logev(E_RUN, id, kind, int64_t(e.second)); ran.fetch_add(1, rlx); VF_CHECK(!began[id].exchange(true), "stack.twice", "fiber %d ran twice", id); Rng r(mix(seed, uint64_t(id)));
        if (r.chance(1, 2)) { int y = r.range(0, 4); std::size_t room = std::size_t(&here - e.first); std::size_t margin = kind == PROT ? 8192 : 2048; if (room > margin + 16000) { char* low = e.first + margin + (r.chance(1, 2) ? 0 : r.below(uint32_t(room - margin - 9000))); dig(low, id, r, y); logev(E_DEPTH, id); count("deep_stacks"); } }
        for (int k = r.range(0, 3); k > 0; --k) { if (r.chance(1, 3)) boost::this_fiber::sleep_for(ns(r.below(3000))); else boost::this_fiber::yield(); }
        led.leave(&here); ended.fetch_add(1, rlx); logev(E_END, id);
    }
    template <class A> void one(Rng& r, Led<A> al, int id, int* throw_in, std::vector<bf::fiber>& fs, std::vector<bf::future<int>>& fu) {
        bf::launch l = r.chance(1, 2) ? bf::launch::post : bf::launch::dispatch; int kind = al.kind; World* w = this; uint32_t form = r.below(6);
        bool armed = (throw_in && *throw_in > 0) || (al.refuse && *al.refuse > 0);
        try {
            switch (form) {
            case 0: fs.emplace_back(l, std::allocator_arg, al, [w, id, kind] { w->body(id, kind); }); break;
            case 1: { Fat<64, 64> f(id, throw_in); auto fn = [w, id, kind, f] { f.check(); w->body(id, kind); f.check(); }; fs.emplace_back(l, std::allocator_arg, al, fn); break; }
            case 2: { Fat<32, 2000> f(id, throw_in); fs.emplace_back(l, std::allocator_arg, al, [w, id, kind](Fat<32, 2000> const& a, Fat<16, 40> const& b, int x) { a.check(); b.check(); VF_CHECK(x == id, "stack.object", "argument"); w->body(id, kind); a.check(); b.check(); }, f, Fat<16, 40>(id + 1, throw_in), id); break; }
            case 3: { Fat<16, 200> f(id, throw_in); auto fn = [w, id, kind, f](Fat<8, 24> a) { f.check(); a.check(); w->body(id, kind); f.check(); return id * 3; }; Fat<8, 24> g(id + 2, throw_in); fu.push_back(bf::async(l, std::allocator_arg, al, fn, g)); break; }
            case 4: { bf::packaged_task<int(int)> pt([w, id, kind](int x) { w->body(id, kind); return x * 3; }); fu.push_back(pt.get_future()); bf::fiber(l, std::allocator_arg, al, std::move(pt), id).detach(); break; }
            default: { bf::fiber(l, std::allocator_arg, al, [w, id, kind] { w->body(id, kind); }).detach(); fs.emplace_back(); break; }
            }
        } catch (std::exception const&) {
            VF_CHECK(armed, "stack.exception", "launching a fiber threw without cause"); VF_CHECK(!began[id], "stack.exception", "the launch of fiber %d failed, but it runs", id); logev(E_REFUSE, id); count("refused_launches"); c.nontrivial = true;
        }
    }
};
VF_FAMILY(stacks) {
    int threads = c.rng.chance(1, 3) ? 2 : 1, nf = c.rng.range(1, 8); World w(c); Opts o; o.threads = threads; o.seed = c.rng.u(); o.algo = c.rng.chance(1, 2) ? CHAOS : RR; objs = 0; bool faults = c.rng.chance(1, 3);
    c.note("stacks threads=%d algo=%s fibers=%d shift=%d faults=%d ", threads, algo_name(o.algo), nf, w.shift, int(faults));
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < threads; ++t) fns.push_back([&, t] {
        Rng r(mix(o.seed, uint64_t(t))); std::size_t sz = std::size_t(r.range(32, 96)) * 1024; bool dsp = r.chance(1, 2);
        if (dsp) { bf::algo::algorithm::ptr_t p = o.algo == CHAOS ? bf::algo::algorithm::ptr_t(new chaos_algo(r.u())) : bf::algo::algorithm::ptr_t(new bf::algo::round_robin); long a = w.led.allocs; bool ok = bf::initialize_thread(p, bf::make_stack_allocator_wrapper<Led<Canary>>(&w.led, int(CANARY), Canary(64 * 1024, std::size_t(w.shift)))); VF_CHECK(ok, "stack.init", "initialize_thread failed"); if (threads == 1) VF_CHECK(w.led.allocs == a + 1, "stack.init", "the dispatcher's stack does not come from the given allocator"); count("dispatcher_stacks"); }
        else install(o, t);
        int throw_in = 0, refuse = 0;
        {
            bf::pooled_fixedsize_stack pool(sz, std::size_t(r.range(1, 4))); std::vector<bf::fiber> fs; std::vector<bf::future<int>> fu; std::vector<int> fid;
            for (int i = t; i < nf; i += threads) {
                if (faults) { throw_in = r.chance(1, 3) ? r.range(1, 8) : 0; refuse = r.chance(1, 4) ? 1 : 0; }
                std::size_t before = fu.size();
                switch (r.below(KINDS)) {
                case FIXED: w.one(r, Led<bf::fixedsize_stack>(&w.led, FIXED, bf::fixedsize_stack(sz), &refuse), i, &throw_in, fs, fu); break;
                case PROT: w.one(r, Led<bf::protected_fixedsize_stack>(&w.led, PROT, bf::protected_fixedsize_stack(sz), &refuse), i, &throw_in, fs, fu); break;
                case POOL: w.one(r, Led<bf::pooled_fixedsize_stack>(&w.led, POOL, pool, &refuse), i, &throw_in, fs, fu); break;
                default: w.one(r, Led<Canary>(&w.led, CANARY, Canary(sz, std::size_t(w.shift)), &refuse), i, &throw_in, fs, fu); break;
                }
                throw_in = refuse = 0; if (fu.size() > before) fid.push_back(i);
                if (r.chance(1, 4)) boost::this_fiber::yield();
                if (r.chance(1, 5) && !fs.empty() && fs.back().joinable()) { fs.back().join(); fs.pop_back(); }
            }
            for (std::size_t k = 0; k < fu.size(); ++k) { int v = -1; try { v = fu[k].get(); } catch (...) { VF_CHECK(faults, "stack.future", "a future failed without cause"); continue; } VF_CHECK(v == fid[k] * 3, "stack.future", "async returned %d for %d", v, fid[k]); }
            for (auto& f : fs) if (f.joinable()) f.join();
            fs.clear(); fu.clear(); auto before = w.led.ended_here(); 
            if (o.algo == RR && r.chance(1, 2)) {      // somebody is always ready, but the dispatcher has its turn
                bool stop = false; std::vector<bf::fiber> spin; for (int q = r.range(1, 3); q > 0; --q) spin.push_back(spawn(r, [&stop] { while (!stop) boost::this_fiber::yield(); }));
                for (int q = 0; q < 4; ++q) boost::this_fiber::yield(); 
                w.led.prompt(before); stop = true; for (auto& f : spin) f.join();
            } else { boost::this_fiber::sleep_for(ns(1000 + int64_t(r.below(100000)))); w.led.prompt(before); }
        }
    });
    c.run(fns);
    VF_CHECK(w.led.live.empty() && w.led.allocs == w.led.frees, "stack.leak", "%zu of %ld stacks were never released (%ld refusals)", w.led.live.size(), w.led.allocs.load(), w.led.refused.load());
    VF_CHECK(w.ran == w.ended, "stack.lost", "a fiber did not finish"); VF_CHECK(objs == 0, "stack.objects", "%ld callables or arguments never destroyed", objs.load()); count("stacks", uint64_t(w.led.allocs.load())); c.nontrivial = true;
}
// overflow of a protected stack hits its guard page, and nothing else
static std::atomic<char*> glo{ nullptr }; static long pgsz = 4096;
__attribute__((noinline)) static int overflow(int d) { volatile char b[900]; b[0] = char(d); b[899] = char(d + 1); if (d == -5) return b[0]; return overflow(d + 1) + b[899]; }
static void on_segv(int, siginfo_t* si, void*) {
    char* a = static_cast<char*>(si->si_addr); char* lo = glo.load(); 
    if (a >= lo && a < lo + pgsz) { count("guard_hits"); ++sh->done; ++sh->nontrivial; sh->hash[sh->nhash++] = mix(sh->cur, 77); _exit(0); }
    static const char m[] = "CTLFAIL kind=oracle:stack.guard overflow of a protected stack did not hit its guard page\n"; (void)!write(2, m, sizeof m - 1); _exit(9);
}
VF_FAMILY_FORK(guard) {
    c.force_race = 0; int n = c.rng.range(1, 4), victim = int(c.rng.below(uint32_t(n))); std::size_t sz = std::size_t(c.rng.range(16, 64)) * 1024; c.note("guard n=%d ", n); bool dsp = c.rng.chance(1, 2); Rng rr(c.rng.u());
    stack_t ss; std::memset(&ss, 0, sizeof ss);
    c.run({ [&] {
        static char alt[65536]; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr);
        std::vector<bf::fiber> fs; struct Tap { typedef boost::context::stack_traits traits_type; bf::protected_fixedsize_stack s; char** lo; boost::context::stack_context allocate() { auto c2 = s.allocate(); *lo = static_cast<char*>(c2.sp) - c2.size; return c2; } void deallocate(boost::context::stack_context& c2) { s.deallocate(c2); } };
        std::vector<char*> los(std::size_t(n), nullptr);
        for (int i = 0; i < n; ++i) fs.emplace_back(dsp ? bf::launch::dispatch : bf::launch::post, std::allocator_arg, Tap{ bf::protected_fixedsize_stack(sz), &los[std::size_t(i)] }, [&, i] { volatile char data[3000]; for (auto& x : data) x = char(i); boost::this_fiber::yield(); if (i == victim) { glo = los[std::size_t(i)]; volatile int v = overflow(0); (void)v; fail("stack.guard", "overflow went unnoticed"); } boost::this_fiber::yield(); for (auto& x : data) VF_CHECK(x == char(i), "stack.data", "data of another fiber was overwritten"); });
        for (auto& f : fs) f.join();
    } });
    fail("stack.guard", "overflow went unnoticed");
}

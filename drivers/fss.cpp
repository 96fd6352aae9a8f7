// Fiber-specific storage.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_SET = 1, E_CLEAN, E_GET, E_RELEASE, E_EXIT };
static int init = (name_event(E_SET, "reset"), name_event(E_CLEAN, "cleanup"), name_event(E_GET, "get"), name_event(E_RELEASE, "release"), name_event(E_EXIT, "exit"), 0);
struct Val { long id; int owner; int slot; Val(int o, int s); ~Val(); };
struct Reg_ { std::mutex m; std::map<long, int> live; long next = 1; std::map<int, long> cleaned_by_fiber; };
static Reg_* reg; static bf::mutex* cleanup_mutex; static std::atomic<int> cleanups{ 0 }, mode{ 0 };
static std::atomic<int>* expect_clean;     // id of a value the running operation is allowed to clean (deterministic ops only)
Val::Val(int o, int s) : owner(o), slot(s) { std::lock_guard<std::mutex> g(reg->m); id = reg->next++; reg->live[id] = o; }
Val::~Val() { std::lock_guard<std::mutex> g(reg->m); auto i = reg->live.find(id); VF_CHECK(i != reg->live.end(), "fss.double_cleanup", "value %ld destroyed twice", id); reg->live.erase(i); id = -99; }
static bool alive(long id) { std::lock_guard<std::mutex> g(reg->m); return reg->live.count(id) != 0; }
static void blocking_part(Val* p) {
    cleanups.fetch_add(1, rlx); logev(E_CLEAN, p->owner, p->id);
    // the destructor of a fiber-local object may itself use fiber synchronization
    if (mode.load(rlx) & 1) { std::unique_lock<bf::mutex> lk(*cleanup_mutex); boost::this_fiber::yield(); }
}
static void custom(Val* p) { VF_CHECK(p, "fss.cleanup_null", "cleanup function called with nullptr"); VF_CHECK(alive(p->id), "fss.double_cleanup", "cleanup of a dead value"); blocking_part(p); delete p; }
static void keep(Val* p) { VF_CHECK(p, "fss.cleanup_null", "cleanup function called with nullptr"); cleanups.fetch_add(1, rlx); }
// cleanup code that itself stores into other fiber-specific pointers: what it stores is cleaned up as well
static bf::fiber_specific_ptr<Val>* relay[2]; static std::atomic<int> relayed{ 0 };
static void pass_on(Val* p) {
    VF_CHECK(p, "fss.cleanup_null", "cleanup function called with nullptr"); VF_CHECK(alive(p->id), "fss.double_cleanup", "cleanup of a dead value"); int f = p->owner, s = p->slot - 1; long pid = p->id; logev(E_CLEAN, f, pid); delete p;
    if (s > 10) { auto& q = *relay[(s + pid) & 1]; VF_CHECK(!q.get(), "fss.stale", "a cleaned up value of fiber %d is still stored", f); Val* v = new Val(f, s); q.reset(v); VF_CHECK(q.get() == v, "fss.reset", "value not stored during cleanup"); relayed.fetch_add(1, rlx); if (mode.load(rlx) & 1) boost::this_fiber::yield(); }
}
struct Dflt : Val { Dflt(int o, int s) : Val(o, s) {} ~Dflt() { blocking_part(this); } };

VF_FAMILY(fss) {
    Opts o = pick_world(c, 3); int nf = c.rng.range(1, 5); uint64_t seed = c.rng.u(); Reg_ R; reg = &R; cleanups = 0;
    mode = c.rng.chance(1, 3) ? 1 : 0; bool local = c.rng.chance(1, 3);
    if (o.algo >= SHARED) mode = 0;   // a fiber still cleaning up may be stranded in the shared queue when the threads leave (see DESIGN.md)
    c.note("fss fibers=%d blocking_cleanup=%d ", nf, mode.load());
    {
        bf::mutex cm; cleanup_mutex = &cm;
        bf::fiber_specific_ptr<Val> a(custom); bf::fiber_specific_ptr<Dflt> b; bf::fiber_specific_ptr<Val> k(keep); bf::fiber_specific_ptr<Val> nofn(nullptr);
        bf::fiber_specific_ptr<Val> relay0(pass_on), relay1(pass_on); relay[0] = &relay0; relay[1] = &relay1; relayed = 0;
        std::vector<std::unique_ptr<Val>> kept[16];
        bool mig = o.algo >= SHARED; struct Gate { bf::mutex m; bf::condition_variable cv; int left; } gate; gate.left = nf;
        // the body of a fiber; returns the ids alive in its slots when it ends
        auto ops = [&](int f, uint64_t s, std::vector<long>& at_exit, std::vector<std::unique_ptr<Val>>& mine) {
            Rng r(s); Val* ea = nullptr; Dflt* eb = nullptr; Val* ek = nullptr; Val* en = nullptr;
            VF_CHECK(!a.get() && !b.get() && !k.get() && !nofn.get(), "fss.initial", "a fresh fiber %d already has fiber-specific values", f);
            int n = r.range(1, 10), hop = r.chance(1, 3) ? 10 + r.range(1, 4) : 0; Val* hv = nullptr;
            for (int i = 0; i < n; ++i) {
                if (hop && !hv) { VF_CHECK(!relay0.get() && !relay1.get(), "fss.initial", "a fresh fiber already has a value"); hv = new Val(f, hop); relay[hop & 1]->reset(hv); }
                if (hv) VF_CHECK(relay[hop & 1]->get() == hv && !relay[1 - (hop & 1)]->get(), "fss.value", "fiber %d reads another value than it stored", f);
                VF_CHECK(a.get() == ea && b.get() == eb && k.get() == ek && nofn.get() == en, "fss.value", "fiber %d reads another value than it stored", f);
                if (ea) VF_CHECK(ea->owner == f && a->owner == f && &*a == ea, "fss.value", "fiber %d sees the value of fiber %d", f, ea->owner);
                if (eb) VF_CHECK(b->owner == f && (*b).owner == f, "fss.value", "fiber %d sees a foreign value", f);
                long old; int cl0;
                switch (r.below(10)) {
                case 0: case 1: { auto* v = new Val(f, 0); old = ea ? ea->id : 0; long vid = v->id; logev(E_SET, f, vid); a.reset(v); ea = v; if (old) VF_CHECK(!alive(old), "fss.reset_cleanup", "reset() did not clean up the previous value"); VF_CHECK(alive(vid) && a.get() == v, "fss.reset", "reset() did not store the value"); break; }
                case 2: { auto* v = new Dflt(f, 1); old = eb ? eb->id : 0; logev(E_SET, f, v->id); b.reset(v); eb = v; if (old) VF_CHECK(!alive(old), "fss.reset_cleanup", "reset() did not delete the previous value"); break; }
                case 3: if (ea) { old = ea->id; a.reset(ea); VF_CHECK(alive(old) && a.get() == ea, "fss.reset_same", "reset() with the stored value cleaned it up"); } break;
                case 4: { old = ea ? ea->id : 0; a.reset(nullptr); ea = nullptr; VF_CHECK(!a.get(), "fss.reset", "reset(nullptr) left a value"); if (old) VF_CHECK(!alive(old), "fss.reset_cleanup", "reset(nullptr) did not clean up"); break; }
                case 5: { Val* v = a.release(); logev(E_RELEASE, f); VF_CHECK(v == ea && !a.get(), "fss.release", "release() returned another value or kept it"); ea = nullptr; if (v) { VF_CHECK(alive(v->id), "fss.release_cleanup", "release() destroyed the value"); delete v; } break; }
                case 6: { Dflt* v = b.release(); VF_CHECK(v == eb && !b.get(), "fss.release", "release() returned another value or kept it"); eb = nullptr; if (v) { VF_CHECK(alive(v->id), "fss.release_cleanup", "release() destroyed the value"); delete v; } break; }
                case 7: { mine.emplace_back(new Val(f, 2)); k.reset(mine.back().get()); ek = mine.back().get(); break; }
                case 8: { mine.emplace_back(new Val(f, 3)); nofn.reset(mine.back().get()); en = mine.back().get(); cl0 = 0; (void)cl0; if (r.chance(1, 2)) { nofn.release(); en = nullptr; } break; }
                default: {   // a short-lived slot, often at the address of a previous one
                    long vid = 0; { bf::fiber_specific_ptr<Val> t(custom); VF_CHECK(!t.get(), "fss.stale", "a new fiber_specific_ptr inherited a value"); if (r.chance(2, 3)) { auto* v = new Val(f, 4); vid = v->id; t.reset(v); VF_CHECK(t.get() == v, "fss.reset", "value not stored"); if (r.chance(1, 4)) { delete t.release(); vid = 0; } } if (vid) VF_CHECK(alive(vid), "fss.value", "value died early"); }
                    if (vid) VF_CHECK(!alive(vid), "fss.dtor", "destroying the fiber_specific_ptr did not clean up the current fiber's value"); break; }
                }
                jitter(r); c.nontrivial = true;
                if (r.chance(1, 3)) boost::this_fiber::yield();
            }
            VF_CHECK(a.get() == ea && b.get() == eb, "fss.value", "fiber %d lost its value", f);
            if (ea) at_exit.push_back(ea->id); if (eb) at_exit.push_back(eb->id); logev(E_EXIT, f, long(at_exit.size()));
        };
        std::vector<std::function<void()>> fns; std::vector<std::vector<long>> ex(16);
        for (int t = 0; t < o.threads; ++t) fns.push_back([&, t] {
            install(o, t); Rng r(mix(seed, 200 + uint64_t(t))); std::vector<std::pair<int, bf::fiber>> fs;
            std::vector<long> mex; if (r.chance(2, 3)) { ops(12 + t, r.u(), mex, kept[12 + t]); count("main_fiber_values", mex.size()); }
            for (int f = t; f < nf; f += o.threads) {
                auto b_ = [&, f] { ops(f, mix(seed, uint64_t(f)), ex[std::size_t(f)], kept[f]); if (mig) { std::unique_lock<bf::mutex> lk(gate.m); if (--gate.left == 0) { lk.unlock(); gate.cv.notify_all(); } } };
                fs.emplace_back(f, spawn(r, b_));
            }
            for (auto& p : fs) {
                p.second.join();
                // a joined fiber has exited: what it left in its slots is gone
                for (long id : ex[std::size_t(p.first)]) { VF_CHECK(!alive(id), "fss.exit_cleanup", "fiber %d was joined but its value %ld is not cleaned up", p.first, id); count("exit_cleanups"); }
            }
            if (mig) { std::unique_lock<bf::mutex> lk(gate.m); while (gate.left) gate.cv.wait(lk); }
            for (long id : mex) VF_CHECK(alive(id), "fss.main_value", "value of a main fiber destroyed while it runs");
        });
        (void)local;
        c.run(fns);
        for (auto& v : kept) v.clear();
        if (relayed) count("stored_by_cleanup", uint64_t(relayed.load()));
    }
    std::lock_guard<std::mutex> g(R.m);
    VF_CHECK(R.live.empty(), "fss.leak", "%zu fiber-specific values were never cleaned up (first belongs to fiber %d; 12.. are main fibers)", R.live.size(), R.live.begin()->second);
}

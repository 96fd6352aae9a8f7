// Wakeups across threads, and threads that end while fibers of theirs are still alive.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_RECV = 1, E_SEND, E_EXIT, E_START, E_STEP, E_END, E_MAINEND, E_SIGNAL };
static int init = (name_event(E_RECV, "recv"), name_event(E_SEND, "send"), name_event(E_EXIT, "thread_exit"), name_event(E_START, "start"), name_event(E_STEP, "step"), name_event(E_END, "end"), name_event(E_MAINEND, "main_end"), name_event(E_SIGNAL, "signal"), 0);

// One-directional mailboxes: send never blocks for long, recv blocks until the message is there.
// The message guards plain data, so a missing happens-before shows as a data race.
struct Link {
    int kind; static const int KINDS = 9; bool timed; std::string* payload = nullptr; long seq = 0;
    bf::mutex m; bf::timed_mutex tm; bf::recursive_timed_mutex rtm; bf::condition_variable cv; bf::condition_variable_any cva; bool full = false;
    bf::buffered_channel<long> bc{ 2 }; bf::unbuffered_channel<long> uc; bf::barrier bar{ 2 };
    std::vector<bf::promise<long>> ps; std::vector<bf::future<long>> fs; std::vector<bf::shared_future<long>> sfs; std::vector<bf::packaged_task<long(long)>> pts;
    Link(int k, bool t, int rounds) : kind(k), timed(t) {
        if (k == 4 || k == 5) { ps.resize(std::size_t(rounds)); for (auto& p : ps) { if (k == 4) fs.push_back(p.get_future()); else sfs.push_back(p.get_future().share()); } }
        if (k == 6) for (int i = 0; i < rounds; ++i) { pts.emplace_back([](long v) { return v; }); fs.push_back(pts.back().get_future()); }
    }
    clk::time_point far() const { return clk::now() + std::chrono::seconds(100000); }
    void send(int round, long v) {
        payload = new std::string("payload " + std::to_string(v));
        switch (kind) {
        case 0: case 1: { { std::unique_lock<bf::mutex> lk(m); full = true; seq = v; } if (kind == 0) cv.notify_one(); else cva.notify_all(); break; }
        case 2: VF_CHECK((timed ? bc.push_wait_until(v, far()) : bc.push(v)) == bf::channel_op_status::success, "remote.push", "push failed"); break;
        case 3: { auto s = timed ? uc.push_wait_until(v, far()) : uc.push(v); VF_CHECK(s == bf::channel_op_status::success, "remote.push", "push returned %d", int(s)); break; }
        case 4: case 5: { auto p = std::move(ps[std::size_t(round)]); p.set_value(v); break; }
        case 6: { auto t = std::move(pts[std::size_t(round)]); t(v); break; }
        case 7: seq = v; bar.wait(); break;
        default: { std::unique_lock<bf::mutex> lk(m); seq = v; full = true; cva.notify_one(); break; }
        }
    }
    long recv(int round) {
        long v = -1;
        switch (kind) {
        case 0: { std::unique_lock<bf::mutex> lk(m); if (timed) { bool ok = cv.wait_until(lk, far(), [&] { return full; }); VF_CHECK(ok, "remote.timeout", "a wait with a far deadline timed out"); } else cv.wait(lk, [&] { return full; }); full = false; v = seq; break; }
        case 1: { std::unique_lock<bf::mutex> lk(m); while (!full) { if (timed) VF_CHECK(cva.wait_until(lk, far()) == bf::cv_status::no_timeout, "remote.timeout", "a wait with a far deadline timed out"); else cva.wait(lk); } full = false; v = seq; break; }
        case 2: { auto s = timed ? bc.pop_wait_until(v, far()) : bc.pop(v); VF_CHECK(s == bf::channel_op_status::success, "remote.pop", "pop failed"); break; }
        case 3: { auto s = timed ? uc.pop_wait_until(v, far()) : uc.pop(v); VF_CHECK(s == bf::channel_op_status::success, "remote.pop", "pop returned %d", int(s)); break; }
        case 4: case 6: { auto f = std::move(fs[std::size_t(round)]); if (timed) VF_CHECK(f.wait_until(far()) == bf::future_status::ready, "remote.timeout", "a wait with a far deadline timed out"); v = f.get(); break; }
        case 5: { auto f = std::move(sfs[std::size_t(round)]); if (timed) VF_CHECK(f.wait_until(far()) == bf::future_status::ready, "remote.timeout", "a wait with a far deadline timed out"); v = f.get(); break; }
        case 7: bar.wait(); v = seq; break;
        default: { std::unique_lock<bf::mutex> lk(m); while (!full) cva.wait(lk); full = false; v = seq; break; }
        }
        VF_CHECK(payload && *payload == "payload " + std::to_string(v), "remote.payload", "the data sent with message %ld is not visible to its receiver", v);
        delete payload; payload = nullptr; return v;
    }
};
static const char* kinds[] = { "cv", "cv_any", "bchan", "uchan", "future", "shared_future", "task", "barrier", "cv_locked" };
// tokens travel around rings of fibers spread over the threads
VF_FAMILY(pingpong) {
    int threads = c.rng.range(2, 4), rings = c.rng.range(1, 3), rounds = c.rng.range(1, 5); Opts o; o.threads = threads; o.algo = c.rng.chance(1, 2) ? CHAOS : RR; o.seed = c.rng.u();
    if (c.rng.chance(1, 6)) c.leap_ns = 0;
    c.note("pingpong threads=%d algo=%s rings=%d rounds=%d ", threads, algo_name(o.algo), rings, rounds);
    struct Ring { std::vector<int> thread; std::vector<std::unique_ptr<Link>> link; }; std::vector<Ring> R; std::vector<int> mainring(std::size_t(threads), -1), mainpos(std::size_t(threads), -1);
    for (int i = 0; i < rings; ++i) {
        Ring r; int n = c.rng.range(2, 4); for (int j = 0; j < n; ++j) { int t = int(c.rng.below(uint32_t(threads))); if (j && t == r.thread.back() && c.rng.chance(2, 3)) t = (t + 1) % threads; r.thread.push_back(t); if (mainring[std::size_t(t)] < 0 && c.rng.chance(1, 2)) { mainring[std::size_t(t)] = i; mainpos[std::size_t(t)] = j; } r.link.emplace_back(new Link(int(c.rng.below(Link::KINDS)), c.rng.chance(1, 3), rounds)); c.note("%s%s%s@%d ", j ? "" : "| ", kinds[r.link.back()->kind], r.link.back()->timed ? "/timed" : "", t); }
        R.push_back(std::move(r));
    }
    std::atomic<int> msgs{ 0 };
    auto station = [&](int i, int j, Rng r) {
        Ring& g = R[std::size_t(i)]; int n = int(g.thread.size()); auto id = boost::this_fiber::get_id(); auto tid = std::this_thread::get_id();
        for (int k = 0; k < rounds; ++k) {
            if (j) { long v = g.link[std::size_t(j - 1)]->recv(k); VF_CHECK(v == i * 1000 + k * 10 + j - 1, "remote.message", "station %d/%d got message %ld", i, j, v); logev(E_RECV, i * 10 + j, v); msgs.fetch_add(1, rlx); }
            if (r.chance(1, 4)) boost::this_fiber::yield(); else if (r.chance(1, 5)) boost::this_fiber::sleep_for(ns(r.below(5000)));
            logev(E_SEND, i * 10 + j, k); g.link[std::size_t(j)]->send(k, i * 1000 + k * 10 + j);
            if (!j) { long v = g.link[std::size_t(n - 1)]->recv(k); VF_CHECK(v == i * 1000 + k * 10 + n - 1, "remote.message", "station %d/0 got message %ld", i, v); logev(E_RECV, i * 10, v); msgs.fetch_add(1, rlx); }
        }
        VF_CHECK(boost::this_fiber::get_id() == id && std::this_thread::get_id() == tid, "remote.moved", "a fiber moved to another thread");
    };
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < threads; ++t) fns.push_back([&, t] {
        install(o, t); Rng r(mix(o.seed, 900 + uint64_t(t))); std::vector<bf::fiber> fs;
        for (int i = 0; i < rings; ++i) for (std::size_t j = 0; j < R[std::size_t(i)].thread.size(); ++j) if (R[std::size_t(i)].thread[j] == t && !(mainring[std::size_t(t)] == i && mainpos[std::size_t(t)] == int(j))) { uint64_t s = r.u(); fs.push_back(spawn(r, [&, i, j, s] { station(i, int(j), Rng(s)); })); }
        if (mainring[std::size_t(t)] >= 0) station(mainring[std::size_t(t)], mainpos[std::size_t(t)], Rng(r.u()));
        bool det = r.chance(1, 3); for (auto& f : fs) if (det) f.detach(); else f.join();
    });
    c.run(fns); c.nontrivial = true; count("messages", uint64_t(msgs.load()));
}
// many one-shot wakeups, each of which may be the last thing a thread does or waits for
VF_FAMILY(handoff) {
    int threads = c.rng.range(2, 4), n = c.rng.range(1, 7); Opts o; o.threads = threads; o.algo = c.rng.chance(1, 2) ? CHAOS : RR; o.seed = c.rng.u(); bool lag = c.rng.chance(1, 3), spin = c.rng.chance(1, 6);      // spin: no thread ever idles; messages must get through all the same
    c.note("handoff threads=%d algo=%s n=%d spin=%d ", threads, algo_name(o.algo), n, int(spin));
    struct One { int from, to; std::shared_ptr<Link> l; bool main_to, main_from; }; std::vector<One> all; std::atomic<int> got{ 0 };
    for (int i = 0; i < n; ++i) { One x; x.from = int(c.rng.below(uint32_t(threads))); x.to = (x.from + 1 + int(c.rng.below(uint32_t(threads - 1)))) % threads; int k = c.rng.chance(1, 2) ? 4 + int(c.rng.below(3)) : int(c.rng.below(Link::KINDS)); x.l = std::make_shared<Link>(k, c.rng.chance(1, 3), 1); x.main_to = c.rng.chance(1, 3); x.main_from = c.rng.chance(1, 2) && k != 3 && k != 7; all.push_back(x); c.note("%s %d>%d ", kinds[k], x.from, x.to); }
    std::vector<std::shared_ptr<Link>> keep; for (auto& x : all) if (x.l->kind < 4 || x.l->kind > 6) keep.push_back(x.l);   // only futures may be dropped by both ends
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < threads; ++t) {
        std::vector<std::pair<int, One>> mine; for (int i = 0; i < n; ++i) { if (all[std::size_t(i)].to == t || all[std::size_t(i)].from == t) mine.emplace_back(i, all[std::size_t(i)]); }
        fns.push_back([&, t, mine]() mutable {
            install(o, t); Rng r(mix(o.seed, uint64_t(t)));
            // a promise belongs to the sending side, a future to the receiving side
            auto rx = [&got, t](int i, std::shared_ptr<Link> l) { long v = l->recv(0); VF_CHECK(v == i, "remote.message", "wrong message"); logev(E_RECV, t, i); got.fetch_add(1, rlx); };
            auto tx = [t](int i, std::shared_ptr<Link> l) { logev(E_SEND, t, i); l->send(0, i); };
            std::vector<std::pair<int, std::shared_ptr<Link>>> late;
            if (spin) { auto fn = [&got, n] { while (got.load(rlx) < n) { ctl_advance(300); boost::this_fiber::yield(); count("spins"); } }; spawn(r, fn).detach(); }
            for (auto& x : mine) { int i = x.first; auto l = std::move(x.second.l); bool rcv = x.second.to == t;
                if (rcv) { if (x.second.main_to) late.emplace_back(i, l); else spawn(r, [rx, i, l] { rx(i, l); }).detach(); }
                else { if (x.second.main_from) tx(i, l); else spawn(r, [tx, i, l] { tx(i, l); }).detach(); } 
                if (r.chance(1, 5)) boost::this_fiber::yield(); if (lag && r.chance(1, 3)) boost::this_fiber::sleep_for(ns(r.below(3000))); }
            // a main fiber that waits could deadlock with another that waits for a message sent after it: all sends are done or on fibers by now
            for (auto& x : late) rx(x.first, x.second);
            logev(E_EXIT, t);
        });
    }
    for (auto& x : all) x.l.reset();
    c.run(fns); VF_CHECK(got == n, "remote.lost", "%d of %d messages arrived", got.load(), n); c.nontrivial = true; count("handoffs", uint64_t(n));
}
// fibers of one thread, woken one after another by another thread, resume in that order (round robin)
VF_FAMILY(wakeorder) {
    int n = c.rng.range(2, 7); uint64_t sd = c.rng.u(); bool expl = c.rng.chance(1, 2), third = c.rng.chance(1, 3); c.note("wakeorder n=%d ", n);
    struct Null { void lock() {} void unlock() {} };      // nothing to contend for after the wakeup
    std::vector<int> kind, order, resumed; for (int i = 0; i < n; ++i) { kind.push_back(int(c.rng.below(4))); order.push_back(i); } for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.rng.below(uint32_t(i))]);
    std::vector<bf::promise<int>> p(static_cast<std::size_t>(n)); std::vector<bf::future<int>> f; for (auto& x : p) f.push_back(x.get_future());
    bf::condition_variable_any cv; std::vector<int> cvq; std::atomic<bool> go{ false }; std::atomic<int> left{ n };      // cvq: in the order they began to wait
    std::vector<std::function<void()>> fns;
    fns.push_back([&] {
        if (expl) bf::use_scheduling_algorithm<bf::algo::round_robin>(); Rng r(sd); std::vector<bf::fiber> fs;
        for (int i = 0; i < n; ++i) fs.push_back(spawn(r, [&, i] {
            auto far = clk::now() + std::chrono::seconds(100000); Null nl;
            switch (kind[std::size_t(i)]) {
            case 0: f[std::size_t(i)].wait(); break; case 1: VF_CHECK(f[std::size_t(i)].wait_until(far) == bf::future_status::ready, "remote.timeout", "a wait with a far deadline timed out"); break;
            case 2: cvq.push_back(i); cv.wait(nl); break; default: cvq.push_back(i); VF_CHECK(cv.wait_until(nl, far) == bf::cv_status::no_timeout, "remote.timeout", "a wait with a far deadline timed out"); break;
            }
            resumed.push_back(i); logev(E_RECV, i); left.fetch_sub(1); }));
        for (int i = 0; i < 3; ++i) boost::this_fiber::yield();      // now all of them wait
        go.store(true); for (int i = r.range(0, 6); i > 0; --i) { if (r.chance(1, 3)) boost::this_fiber::sleep_for(ns(r.below(5000))); else boost::this_fiber::yield(); }
        for (auto& x : fs) x.join();
    });
    fns.push_back([&] { Rng r(mix(sd, 5)); while (!go.load()) boost::this_fiber::yield(); for (int i : order) { logev(E_SEND, i); if (kind[std::size_t(i)] < 2) p[std::size_t(i)].set_value(i); else cv.notify_one(); if (r.chance(1, 4)) jitter(r); } });
    if (third) fns.push_back([&] { boost::this_fiber::yield(); });
    c.run(fns); c.nontrivial = true;
    std::vector<int> want; std::size_t q = 0; for (int i : order) want.push_back(kind[std::size_t(i)] < 2 ? i : cvq[q++]);
    for (int i = 0; i < n; ++i) VF_CHECK(want[std::size_t(i)] == resumed[std::size_t(i)], "rr.remote_order", "fiber %d was woken as number %d, but fiber %d resumed then", want[std::size_t(i)], i, resumed[std::size_t(i)]);
    count("remote_wakes", uint64_t(n));
}
// ---- threads ending while their detached fibers are alive
struct StackLedger { std::mutex m; std::set<void*> out; long n = 0; };
struct LStack { typedef boost::context::stack_traits traits_type; StackLedger* s; bf::fixedsize_stack impl; explicit LStack(StackLedger* l) : s(l), impl(stack_size()) {}
    boost::context::stack_context allocate() { auto c = impl.allocate(); std::lock_guard<std::mutex> g(s->m); VF_CHECK(s->out.insert(c.sp).second, "exit.stack", "stack handed out twice"); ++s->n; return c; }
    void deallocate(boost::context::stack_context& c) { { std::lock_guard<std::mutex> g(s->m); VF_CHECK(s->out.erase(c.sp) == 1, "exit.stack", "stack released twice"); } impl.deallocate(c); } };
VF_FAMILY(shutdown) {
    int threads = c.rng.range(1, 3), nf = c.rng.range(1, 7); Opts o; o.threads = threads; o.algo = c.rng.chance(1, 2) ? CHAOS : RR; o.seed = c.rng.u(); c.note("shutdown threads=%d algo=%s fibers=%d ", threads, algo_name(o.algo), nf);
    static std::atomic<long> live; live = 0; struct Live { Live() { live.fetch_add(1, rlx); } ~Live() { live.fetch_sub(1, rlx); } Live(Live const&) { live.fetch_add(1, rlx); } };
    StackLedger st; struct N { std::atomic<int> st{ 0 }; int thread = -1; }; std::vector<std::unique_ptr<N>> ns_; int maxn = nf * 3 + 4; for (int i = 0; i < maxn; ++i) ns_.emplace_back(new N); std::atomic<int> next{ nf }, ended{ 0 }, started{ 0 }, after{ 0 };
    // a signal per thread pair: set by one thread (possibly at its very end), awaited by detached fibers of others
    int nsig = c.rng.range(1, 4); struct Sig { bf::promise<int> p; bf::shared_future<int> f; int owner; std::atomic<bool> set{ false }; }; std::vector<std::unique_ptr<Sig>> sig;
    for (int i = 0; i < nsig; ++i) { sig.emplace_back(new Sig); sig.back()->f = sig.back()->p.get_future().share(); sig.back()->owner = int(c.rng.below(uint32_t(threads))); }
    bf::mutex m; bf::condition_variable cv; int gate = 0; bf::buffered_channel<int> ch(8); long crit = 0; ctl_watch(&crit, sizeof crit);
    std::atomic<int> critn{ 0 }, mainended[3]; for (auto& x : mainended) x = 0; static std::atomic<int> fssgone, fssmade; fssgone = fssmade = 0;
    bf::fiber_specific_ptr<int> fss([](int* p) { fssgone.fetch_add(1, rlx); delete p; });
    std::function<void(int, int, uint64_t)> body = [&](int k, int t, uint64_t s) {
        Live lv; Rng r(s); N& n = *ns_[std::size_t(k)]; VF_CHECK(n.st.exchange(1, rlx) == 0, "exit.run_twice", "a fiber was entered twice"); started.fetch_add(1, rlx); logev(E_START, k, t); auto tid = std::this_thread::get_id(); auto id = boost::this_fiber::get_id();
        for (int i = 0, e = r.range(0, 6); i < e; ++i) {
            if (mainended[t].load(rlx)) { after.fetch_add(1, rlx); c.nontrivial = true; }
            switch (r.below(9)) {
            case 0: case 1: boost::this_fiber::yield(); break;
            case 2: { auto dl = clk::now() + ns(r.below(20000)); boost::this_fiber::sleep_until(dl); VF_CHECK(clk::now() >= dl, "sleep.early", "slept short"); break; }
            case 3: { Sig& g = *sig[r.below(uint32_t(nsig))]; int v = g.f.get(); VF_CHECK(v == 4711 && g.set.load(rlx), "exit.future", "future value"); break; }
            case 4: { std::unique_lock<bf::mutex> lk(m); long v = crit; if (r.chance(1, 2)) boost::this_fiber::yield(); VF_CHECK(v == crit, "exit.mutex", "exclusion"); crit = v + 1; critn.fetch_add(1, rlx); break; }
            case 5: { int j = next.fetch_add(1); if (j < maxn) { uint64_t cs = r.u(); auto fn = [&, j, t, cs] { body(j, t, cs); }; bf::fiber f(r.chance(1, 2) ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, LStack(&st), fn); if (r.chance(1, 2)) f.detach(); else { if (r.chance(1, 2)) boost::this_fiber::yield(); f.join(); VF_CHECK(ns_[std::size_t(j)]->st == 2, "exit.join", "join returned early"); } } else next.fetch_sub(1); break; }
            case 6: { { std::unique_lock<bf::mutex> lk(m); ++gate; } cv.notify_one(); std::unique_lock<bf::mutex> lk(m); while (gate == 0) cv.wait(lk); --gate; break; }
            case 7: if (!fss.get()) { fss.reset(new int(k)); fssmade.fetch_add(1, rlx); } break;
            default: { std::unique_lock<bf::mutex> lk(m); auto dl = clk::now() + ns(r.below(3000)); cv.wait_until(lk, dl, [] { return false; }); break; }
            }
            VF_CHECK(std::this_thread::get_id() == tid && boost::this_fiber::get_id() == id, "exit.moved", "a fiber changed its thread or id"); logev(E_STEP, k, i);
        }
        n.st.store(2, rlx); ended.fetch_add(1, rlx); logev(E_END, k);
    };
    std::vector<std::function<void()>> fns; bool sleepy = c.rng.chance(1, 3);
    for (int t = 0; t < threads; ++t) fns.push_back([&, t] {
        install(o, t); Rng r(mix(o.seed, uint64_t(t))); Live lv;
        if (r.chance(1, 4)) { fss.reset(new int(-1)); fssmade.fetch_add(1, rlx); }
        for (int i = t; i < nf; i += threads) { uint64_t s = r.u(); auto fn = [&, i, t, s] { body(i, t, s); }; bf::fiber(r.chance(1, 2) ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, LStack(&st), fn).detach(); if (r.chance(1, 4)) boost::this_fiber::yield(); }
        for (auto& g : sig) if (g->owner == t) { if (sleepy) boost::this_fiber::sleep_for(ns(r.below(6000))); g->set.store(true, rlx); logev(E_SIGNAL, t); 
            if (r.chance(1, 3)) { auto* gp = g.get(); auto fn = [gp] { boost::this_fiber::yield(); gp->p.set_value(4711); }; bf::fiber(bf::launch::post, std::allocator_arg, LStack(&st), fn).detach(); } else g->p.set_value(4711); }
        mainended[t].store(1, rlx); logev(E_MAINEND, t);
    });
    c.run(fns);
    VF_CHECK(ended == started && ended >= nf, "exit.lost", "%d of %d fibers ended before their threads were gone", ended.load(), std::max(nf, started.load()));
    for (int i = 0; i < std::min(next.load(), maxn); ++i) VF_CHECK(ns_[std::size_t(i)]->st == 2, "exit.lost", "fiber %d is in state %d after its thread ended", i, ns_[std::size_t(i)]->st.load());
    VF_CHECK(live == 0, "exit.unwound", "%ld objects of ended fibers were not destroyed", live.load()); VF_CHECK(st.out.empty(), "exit.stack_leak", "%zu of %ld stacks never released", st.out.size(), st.n);
    VF_CHECK(crit == critn.load(), "exit.mutex", "lost update"); VF_CHECK(fssgone == fssmade, "exit.fss", "%d fiber-specific values, %d cleaned up", fssmade.load(), fssgone.load());
    count("fibers", uint64_t(ended.load())); count("steps_during_shutdown", uint64_t(after.load()));
}

// Waiting for GPU streams: the library's rendezvous against a stand-in runtime whose callbacks come from its own threads,
// in any order and as early as they can (while the call is still registering).
#include "stub/cuda.h"
#include "stub/hip/hip_runtime.h"
#include "vf.hpp"
#include <boost/fiber/cuda/waitfor.hpp>
#include <boost/fiber/hip/waitfor.hpp>
using namespace vf;
enum { E_CALL = 1, E_REG, E_REFUSE, E_FIRE, E_FIRED, E_RET };
static int init = (name_event(E_CALL, "waitfor"), name_event(E_REG, "register"), name_event(E_REFUSE, "refuse"), name_event(E_FIRE, "callback"), name_event(E_FIRED, "callback_ret"), name_event(E_RET, "return"), 0);
struct Job { void (*call)(void*, gpu_stream*, int, void*); void* fn; gpu_stream* st; void* data; long need; };
struct Gpu { std::mutex m; std::condition_variable cv; std::vector<Job> jobs; bool over = false; std::atomic<long> steps[4]; std::atomic<int> fired[512], reged[512]; Gpu() { for (auto& s : steps) s = 0; for (auto& f : fired) f = 0; for (auto& f : reged) f = 0; } };
static Gpu* G; static thread_local int home = -1;
int gpu_add_callback(gpu_stream* st, void (*call)(void*, gpu_stream*, int, void*), void* fn, void* data) {
    int key = st->op * 8 + st->idx;
    VF_CHECK(G->reged[key].fetch_add(1) == 0, "gpu.registered_twice", "two callbacks for stream %d of call %d", st->idx, st->op);
    if (st->refuse) { logev(E_REFUSE, st->op, st->idx, st->refuse); return st->refuse; }
    logev(E_REG, st->op, st->idx);
    long need = st->slow ? G->steps[home].load() + 1 : -1;
    { std::lock_guard<std::mutex> g(G->m); G->jobs.push_back({ call, fn, st, data, need }); } G->cv.notify_all();
    if (!st->slow) ctl_point();
    return 0;
}
// what a returned call leaves on the stack is somebody else's soon
__attribute__((noinline)) static void scribble() { volatile unsigned char a[1200]; for (unsigned i = 0; i < sizeof a; ++i) a[i] = 0xa5; ctl_point(); }
struct Cuda { template <class... X> static auto all(X... x) { return bf::cuda::waitfor_all(x...); } };
struct Hip { template <class... X> static auto all(X... x) { return bf::hip::waitfor_all(x...); } };
template <class A> __attribute__((noinline)) static void one(Rng& r, int op, std::vector<gpu_stream>& ss) {
    int n = int(ss.size()); bool dup = n > 1 && r.chance(1, 6); std::map<int, int> got;
    std::vector<gpu_stream*> arg; for (auto& s : ss) arg.push_back(&s); for (int i = n - 1; i > 0; --i) std::swap(arg[size_t(i)], arg[r.below(uint32_t(i + 1))]);
    if (dup) { arg.push_back(arg[0]); ++n; }
    logev(E_CALL, op, n); auto put = [&](auto const& v) { for (auto const& t : v) { VF_CHECK(!got.count(std::get<0>(t)->idx), "gpu.reported_twice", "stream %d of call %d was reported twice", std::get<0>(t)->idx, op); VF_CHECK(std::get<0>(t)->op == op, "gpu.foreign_stream", "a stream of call %d was reported to call %d", std::get<0>(t)->op, op); got[std::get<0>(t)->idx] = int(std::get<1>(t)); } };
    switch (n) {
    case 1: { auto t = A::all(arg[0]); VF_CHECK(std::get<0>(t) == arg[0], "gpu.foreign_stream", "call %d reported another stream", op); got[arg[0]->idx] = int(std::get<1>(t)); break; }
    case 2: put(A::all(arg[0], arg[1])); break;
    case 3: put(A::all(arg[0], arg[1], arg[2])); break;
    case 4: put(A::all(arg[0], arg[1], arg[2], arg[3])); break;
    default: put(A::all(arg[0], arg[1], arg[2], arg[3], arg[4])); break;
    }
    logev(E_RET, op, n);
    for (auto& s : ss) { int key = op * 8 + s.idx;
        VF_CHECK(got.count(s.idx), "gpu.missing", "stream %d of call %d was not reported", s.idx, op);
        VF_CHECK(G->reged[key].load() == 1, "gpu.not_registered", "call %d returned without asking for stream %d", op, s.idx);
        if (s.refuse) VF_CHECK(got[s.idx] == s.refuse, "gpu.status", "refused stream %d of call %d reported with status %d instead of %d", s.idx, op, got[s.idx], s.refuse);
        else { VF_CHECK(G->fired[key].load() == 1, "gpu.early", "call %d returned before the callback of stream %d", op, s.idx); VF_CHECK(got[s.idx] == s.status, "gpu.status", "stream %d of call %d reported with status %d instead of %d", s.idx, op, got[s.idx], s.status); } }
    VF_CHECK(got.size() == ss.size(), "gpu.invented", "%zu streams reported for %zu", got.size(), ss.size());
}
VF_FAMILY(gpu) {
    int nt = c.rng.range(1, 2), ng = c.rng.range(1, 2), nf = c.rng.range(1, 4), ops = c.rng.range(1, 3); bool slowcase = c.rng.chance(1, 2); uint64_t seed = c.rng.u(); int algo = c.rng.chance(1, 2) ? RR : CHAOS;
    c.note("gpu threads=%d gpu=%d fibers=%d ops=%d slow=%d algo=%s ", nt, ng, nf, ops, int(slowcase), algo_name(algo));
    auto g = std::make_unique<Gpu>(); G = g.get(); std::atomic<int> left{ nt }, opn{ 0 };
    std::vector<std::function<void()>> th;
    for (int t = 0; t < nt; ++t) th.push_back([&, t] {
        home = t; Opts o; o.threads = nt; o.algo = algo; o.seed = mix(seed, uint64_t(t)); install(o, t); Rng tr(mix(seed, 77 + uint64_t(t))); std::atomic<bool> stop{ false };
        bf::fiber comp = spawn(tr, [&, t] { while (!stop.load()) { G->steps[t].fetch_add(1); boost::this_fiber::sleep_for(ns(700)); } }, 0);
        std::vector<bf::fiber> fs;
        for (int f = 0; f < nf; ++f) { uint64_t fsd = mix(seed, uint64_t(1000 + t * 50 + f)); fs.push_back(spawn(tr, [&, fsd, t, f] { Rng r(fsd);
            for (int k = 0; k < ops; ++k) { jitter(r);
                int op = opn.fetch_add(1), n = r.chance(1, 3) ? 1 : r.range(2, 4); std::vector<gpu_stream> ss; ss.resize(size_t(n));
                for (int i = 0; i < n; ++i) { auto& s = ss[size_t(i)]; s.op = op; s.idx = i; s.status = r.chance(1, 4) ? (r.chance(1, 2) ? 1 : 30) : 0; s.refuse = r.chance(1, 6) ? 77 : 0; s.slow = slowcase && r.chance(1, 2); if (s.refuse) count("refused"); if (s.slow) count("others_ran"); }
                if (r.chance(1, 2)) one<Cuda>(r, op, ss); else one<Hip>(r, op, ss);
                scribble(); count(n == 1 ? "single_streams" : "many_streams"); if (n > 1) c.nontrivial = true; } })); }
        for (auto& f : fs) f.join(); fs.clear(); stop.store(true); comp.join();
        if (left.fetch_sub(1) == 1) { { std::lock_guard<std::mutex> l(G->m); G->over = true; } G->cv.notify_all(); } });
    for (int t = 0; t < ng; ++t) th.push_back([&, t] {
        Rng r(mix(seed, 5000 + uint64_t(t)));
        for (;;) { Job j; { std::unique_lock<std::mutex> l(G->m);
                for (;;) { std::vector<size_t> can; for (size_t i = 0; i < G->jobs.size(); ++i) { auto& q = G->jobs[i]; bool ok = true; if (q.need >= 0) { ok = false; for (int h = 0; h < nt; ++h) ok = ok || G->steps[h].load() >= q.need; } if (ok) can.push_back(i); }
                    if (!can.empty()) { size_t i = can[r.below(uint32_t(can.size()))]; j = G->jobs[i]; G->jobs.erase(G->jobs.begin() + std::ptrdiff_t(i)); break; }
                    if (G->over) return; if (G->jobs.empty()) G->cv.wait(l); else { l.unlock(); std::this_thread::sleep_for(ns(500)); l.lock(); } } }
            if (r.chance(1, 3)) std::this_thread::sleep_for(ns(r.below(2000)));
            int op = j.st->op, idx = j.st->idx, status = j.st->status; logev(E_FIRE, op, idx, status); VF_CHECK(G->fired[op * 8 + idx].fetch_add(1) == 0, "harness", "fired twice");
            j.call(j.fn, j.st, status, j.data); logev(E_FIRED, op, idx); } });
    c.run(th); count("calls", uint64_t(opn.load()));
    VF_CHECK(G->jobs.empty(), "gpu.left", "%zu callbacks outstanding", G->jobs.size());
}

#include "vf.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

namespace vf {
Shared* sh;
bool real_mode = false;
std::map<std::string, std::string> opts;
static Case* cur_case;
static std::string cur_family;
struct FamEntry { const char* name; family_fn fn; bool fork; };
static std::vector<FamEntry>& fams() { static std::vector<FamEntry> v; return v; }
Reg::Reg(const char* n, family_fn f, bool fk) { fams().push_back({ n, f, fk }); }
static std::map<int, const char*>& evnames() { static std::map<int, const char*> m; return m; }
void name_event(int k, const char* n) { evnames()[k] = n; }

#ifdef __clang__
__attribute__((disable_sanitizer_instrumentation))
#endif
void count(const char* name, uint64_t n) {
    for (uint64_t i = 0; i < 128; ++i) {
        if (sh->ctr[i].name[0] == 0) { std::strncpy(sh->ctr[i].name, name, 47); sh->nctr = i + 1; }
        if (std::strncmp(sh->ctr[i].name, name, 47) == 0) { __atomic_fetch_add(&sh->ctr[i].v, n, __ATOMIC_RELAXED); return; }
    }
}
static void dump_log(FILE* f, uint64_t maxn) {
    uint64_t n = ctl_log_n(), from = n > maxn ? n - maxn : 0; ctl_event* e = ctl_log_data();
    std::fprintf(f, "event log (%llu events, last %llu):\n", (unsigned long long)n, (unsigned long long)(n - from));
    for (uint64_t i = from; i < n; ++i) {
        auto it = evnames().find(e[i].kind);
        std::fprintf(f, "  #%llu t=%llu actor=%d %s a=%lld b=%lld\n", (unsigned long long)i, (unsigned long long)e[i].t, e[i].actor,
                     it == evnames().end() ? std::to_string(e[i].kind).c_str() : it->second, (long long)e[i].a, (long long)e[i].b);
    }
}
static void fail_info(const char*, const char*) {
    if (cur_case) std::fprintf(stderr, "family=%s case=%llu seed=%llu\ncase: %s\n", cur_family.c_str(), (unsigned long long)cur_case->index, (unsigned long long)cur_case->seed, cur_case->desc.c_str());
    dump_log(stderr, 300);
}
[[noreturn]] void fail(const char* key, const char* fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    std::string k = std::string("oracle:") + key;
    ctl_fail(k.c_str(), "%s", buf);
}
void Case::note(const char* fmt, ...) {
    char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    desc += buf;
    for (char* p = buf; *p; ++p) sig = (sig ^ uint8_t(*p)) * 0x100000001b3ull;
}
const char* algo_name(int a) { static const char* n[] = { "round_robin", "chaos", "shared_work", "work_stealing" }; return n[a]; }
uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xd6e8feb86659fd93ull)); return r.u(); }

static void call_fn(void* p) { (*static_cast<std::function<void()>*>(p))(); }
void Case::run(std::vector<std::function<void()>> const& fns0) {
    std::vector<std::function<void()>> fns(fns0);
    if (real_mode) {
        std::vector<std::thread> ts; std::atomic<int> ready{ 0 };
        for (auto& f : fns) ts.emplace_back([&f, &ready, n = int(fns.size())] { ++ready; while (ready < n) std::this_thread::yield(); f(); });
        for (auto& t : ts) t.join();
        return;
    }
    ctl_config cfg; std::memset(&cfg, 0, sizeof cfg);
    cfg.seed = mix(seed, 77); cfg.strategy = opt_int("strategy", 0); cfg.max_points = max_points ? max_points : uint64_t(opt_int("maxpoints", 8000000));
    cfg.race = force_race >= 0 ? force_race : opt_int("race", 1); cfg.leap_ns = leap_ns; cfg.single = single; cfg.tso = opt_int("tso", 0) > int(mix(seed, 78) & 1);   // 1: half of the cases, 2: all
    std::vector<void*> args; for (auto& f : fns) args.push_back(&f);
    ctl_stats st;
    ctl_run(&cfg, int(fns.size()), call_fn, args.data(), &st);
    sh->points += st.points; sh->switches += st.switches; sh->preempt += st.preemptions; sh->blocks += st.blocks; sh->leaps += st.leaps; sh->spurious += st.spurious; sh->vtime += st.vtime; if (st.delayed) count("delayed_stores", st.delayed);
    sig ^= st.sched_hash * 0x9e3779b97f4a7c15ull;
    if (st.preemptions + st.blocks) sig += 1;
}
std::size_t stack_size() { static std::size_t s = std::size_t(opt_int("stack", 64)) * 1024; return s; }

void install(Opts const& o, int ti) {
    switch (o.algo) {
    case RR: if (o.seed & 1) { if (o.seed & 2) bf::use_scheduling_algorithm<idle_watch<bf::algo::round_robin>>(); else bf::use_scheduling_algorithm<bf::algo::round_robin>(); } break;   // even: the default, lazily created
    case CHAOS: bf::use_scheduling_algorithm<chaos_algo>(mix(o.seed, uint64_t(ti) + 5)); break;
    case SHARED: if (o.suspend && (o.seed & 2)) bf::use_scheduling_algorithm<idle_watch<bf::algo::shared_work>>(true); else bf::use_scheduling_algorithm<bf::algo::shared_work>(o.suspend); break;
    case WS: bf::use_scheduling_algorithm<bf::algo::work_stealing>(uint32_t(o.threads), o.suspend); break;
    }
}
Opts pick_world(Case& c, int maxt, bool mig) {
    Opts o; o.seed = c.rng.u();
    int fixed = opt_int("threads", 0);
    o.threads = fixed ? std::min(fixed, maxt) : c.rng.chance(1, 6) ? 1 : c.rng.range(std::min(2, maxt), maxt);
    uint32_t r = c.rng.below(10);
    o.algo = r < 4 ? RR : r < 8 ? CHAOS : mig ? SHARED : RR;
    int fa = opt_int("algo", -1); if (fa >= 0 && (mig || fa < SHARED)) o.algo = fa;
    if (o.algo == WS && o.threads < 2) o.threads = 2;
    o.suspend = c.rng.chance(2, 3);
    c.note("threads=%d algo=%s suspend=%d ", o.threads, algo_name(o.algo), int(o.suspend));
    return o;
}
void jitter(Rng& r) {
    switch (r.below(6)) {
    case 0: bf::context::active(); boost::this_fiber::yield(); break;
    case 1: ctl_point(); break;
    case 2: if (real_mode) { if (r.chance(1, 8)) std::this_thread::yield(); } else ctl_advance(r.below(3000)); break;
    default: break;
    }
}
void FiberSet::run() {
    bool mig = o.algo >= SHARED;
    struct Gate { bf::mutex m; bf::condition_variable cv; int left; } gate; gate.left = n;
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < o.threads; ++t)
        fns.push_back([this, t, mig, &gate] {
            install(o, t);
            if (thread_pre) thread_pre(t);
            {
                Rng r(mix(o.seed, 1000 + uint64_t(t)));
                std::vector<bf::fiber> fs;
                for (int i = t; i < n; i += o.threads) {
                    auto b = [this, i, mig, &gate] {
                        body(i);
                        if (mig) { std::unique_lock<bf::mutex> lk(gate.m); if (--gate.left == 0) { lk.unlock(); gate.cv.notify_all(); } }
                    };
                    fs.push_back(spawn(r, b, mix_launch));
                    if (r.chance(1, 4)) boost::this_fiber::yield();
                }
                for (auto& f : fs) f.join();
                if (mig) { std::unique_lock<bf::mutex> lk(gate.m); while (gate.left) gate.cv.wait(lk); }
            }
            if (thread_post) thread_post(t);
        });
    c.run(fns);
}

static int run_case1(FamEntry& fe, uint64_t seed, uint64_t i);
static bool leak_check = true;
// Runs one case; afterwards the heap must be as before.  Blocks that stay are either lazily made and kept
// (then a second run of the same case keeps none) or leaked.
static int run_case(FamEntry& fe, uint64_t seed, uint64_t i, bool forked = false) {
    sh->cur = i; uint64_t maps, blocks, maps2, blocks2; char buf[1024];
    ctl_heap_mark(&maps, &blocks); run_case1(fe, seed, i); ctl_heap_mark(&maps2, &blocks2);
    if (!leak_check || forked || real_mode || (blocks2 <= blocks && maps2 <= maps)) return 0;
    uint64_t m = ctl_heap_mark(&maps, &blocks); run_case1(fe, seed, i); ctl_heap_mark(&maps2, &blocks2);
    if (blocks2 > blocks) { ctl_heap_since(m, buf, sizeof buf); ctl_fail("leak", "LEAK %llu heap blocks stay behind after the case, each time it runs:%s", (unsigned long long)(blocks2 - blocks), buf); }
    if (maps2 > maps) ctl_fail("leak", "LEAK %lld mapped bytes stay behind after the case", (long long)(maps2 - maps));
    return 0;
}
static int run_case1(FamEntry& fe, uint64_t seed, uint64_t i) {
    Case c(i, mix(seed, i + 1)); cur_case = &c;
    ctl_log_reset(); ctl_unwatch_all();
    fe.fn(c);
    uint64_t h = c.sig, n = ctl_log_n(); ctl_event* e = ctl_log_data();
    for (uint64_t k = 0; k < n; ++k) { h = (h ^ uint64_t(e[k].kind * 131 + e[k].actor)) * 0x100000001b3ull; h = (h ^ uint64_t(e[k].a)) * 0x100000001b3ull; }
    sh->events += n; ++sh->done;
    if (c.nontrivial) {
        ++sh->nontrivial; if (sh->nhash < (1u << 20)) sh->hash[sh->nhash++] = h;
        if (sh->nsamples < 3) {
            std::string s = c.desc; s += "| ";
            for (uint64_t k = 0; k < n && k < 40; ++k) { auto it = evnames().find(e[k].kind); char b[128]; std::snprintf(b, sizeof b, "%s(f%d,%lld,%lld) ", it == evnames().end() ? "?" : it->second, e[k].actor, (long long)e[k].a, (long long)e[k].b); s += b; }
            std::strncpy(sh->samples[sh->nsamples++], s.c_str(), 4095);
        }
    }
    cur_case = nullptr;
    return 0;
}
} // namespace vf

int main(int argc, char** argv) {
    using namespace vf;
    std::string family, prog; uint64_t seed = 1, from = 0, to = 1; bool aslr_done = false, nofork = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--family") family = argv[++i]; else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--from") from = strtoull(argv[++i], 0, 10); else if (a == "--to") to = strtoull(argv[++i], 0, 10);
        else if (a == "--prog") prog = argv[++i]; else if (a == "--real") real_mode = true;
        else if (a == "--noaslr") aslr_done = true; else if (a == "--nofork") nofork = true;
        else if (a == "--opt") { std::string kv = argv[++i]; auto p = kv.find('='); opts[kv.substr(0, p)] = kv.substr(p + 1); }
        else if (a == "--list") { for (auto& f : fams()) std::printf("%s\n", f.name); return 0; }
    }
    if (!aslr_done && !real_mode) {      // fixed addresses: a replay takes the same path
        personality(ADDR_NO_RANDOMIZE); std::vector<char*> av(argv, argv + argc); av.push_back(const_cast<char*>("--noaslr")); av.push_back(nullptr);
        execv("/proc/self/exe", av.data());
    }
    int fd = -1;
    if (!prog.empty()) { fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("prog"); return 70; } }
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, fd >= 0 ? MAP_SHARED : MAP_SHARED | MAP_ANONYMOUS, fd, 0));
    if (sh == MAP_FAILED) { perror("mmap"); return 70; }
    sh->magic = 0x56465348;
    ctl_set_fail_hook(fail_info);
#ifndef VF_NO_CTL
    ctl_init();
#else
    ctl_log_reset();
#endif
    for (auto& f : fams()) if (family == f.name) {
        cur_family = family;
        for (uint64_t i = from; i < to; ++i) {
            if ((f.fork || opt_int("fork", 0)) && !nofork) {
                sh->cur = i;
                pid_t p = fork();
                if (p == 0) { run_case(f, seed, i, true); std::fflush(nullptr); _exit(0); }
                int st = 0; waitpid(p, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
            } else run_case(f, seed, i);
        }
        if (prog.empty()) {
            std::printf("done=%llu nontrivial=%llu events=%llu points=%llu switches=%llu preempt=%llu blocks=%llu leaps=%llu spurious=%llu\n", (unsigned long long)sh->done, (unsigned long long)sh->nontrivial,
                        (unsigned long long)sh->events, (unsigned long long)sh->points, (unsigned long long)sh->switches, (unsigned long long)sh->preempt, (unsigned long long)sh->blocks, (unsigned long long)sh->leaps, (unsigned long long)sh->spurious);
            for (uint64_t i = 0; i < sh->nctr; ++i) std::printf("  %s=%llu\n", sh->ctr[i].name, (unsigned long long)sh->ctr[i].v);
            std::printf("  sample: %s\n", sh->samples[0]);
        }
        return 0;
    }
    std::fprintf(stderr, "no family %s\n", family.c_str()); return 70;
}

// NUMA support: topology() over generated /sys trees, pin_thread(), numa::algo::work_stealing over generated topologies.
// File system calls on /sys/devices/system are redirected to a scratch tree; pthread_setaffinity_np only records.
#include "soup.hpp"
#include <boost/fiber/numa/all.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace vf;
namespace nm = boost::fibers::numa;
static const auto rlx = std::memory_order_relaxed;

// ------------------------------------------------------------------ stand-ins
static char g_root[256]; static bool g_redirect; static unsigned g_redirected;
static const char PFX[] = "/sys/devices/system";
static const char* mapp(const char* p, char* buf, size_t n) {
    if (!g_redirect || !p || std::strncmp(p, PFX, sizeof PFX - 1)) return p;
    ++g_redirected; std::snprintf(buf, n, "%s%s", g_root, p + sizeof PFX - 1); return buf;
}
#define MAP char mb[512]; path = mapp(path, mb, sizeof mb)
template <class F> static F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
extern "C" {
int open(const char* path, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); MAP; return int(syscall(SYS_openat, AT_FDCWD, path, fl, m)); }
int open64(const char* path, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); MAP; return int(syscall(SYS_openat, AT_FDCWD, path, fl, m)); }
int openat(int d, const char* path, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); MAP; return int(syscall(SYS_openat, d, path, fl, m)); }
int openat64(int d, const char* path, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); MAP; return int(syscall(SYS_openat, d, path, fl, m)); }
int __open_2(const char* path, int fl) { MAP; return int(syscall(SYS_openat, AT_FDCWD, path, fl, 0)); }
int __open64_2(const char* path, int fl) { MAP; return int(syscall(SYS_openat, AT_FDCWD, path, fl, 0)); }
int __openat_2(int d, const char* path, int fl) { MAP; return int(syscall(SYS_openat, d, path, fl, 0)); }
int __openat64_2(int d, const char* path, int fl) { MAP; return int(syscall(SYS_openat, d, path, fl, 0)); }
FILE* fopen(const char* path, const char* mode) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen"); MAP; return f(path, mode); }
FILE* fopen64(const char* path, const char* mode) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen64"); MAP; return f(path, mode); }
DIR* opendir(const char* path) { static auto f = next<DIR* (*)(const char*)>("opendir"); MAP; return f(path); }
int stat(const char* path, struct stat* s) noexcept { MAP; return int(syscall(SYS_newfstatat, AT_FDCWD, path, s, 0)); }
int lstat(const char* path, struct stat* s) noexcept { MAP; return int(syscall(SYS_newfstatat, AT_FDCWD, path, s, AT_SYMLINK_NOFOLLOW)); }
int stat64(const char* path, struct stat64* s) noexcept { MAP; return int(syscall(SYS_newfstatat, AT_FDCWD, path, s, 0)); }
int lstat64(const char* path, struct stat64* s) noexcept { MAP; return int(syscall(SYS_newfstatat, AT_FDCWD, path, s, AT_SYMLINK_NOFOLLOW)); }
int fstatat(int d, const char* path, struct stat* s, int fl) noexcept { MAP; return int(syscall(SYS_newfstatat, d, path, s, fl)); }
int statx(int d, const char* path, int fl, unsigned mask, struct statx* s) noexcept { MAP; return int(syscall(SYS_statx, d, path, fl, mask, s)); }
int access(const char* path, int m) noexcept { MAP; return int(syscall(SYS_faccessat, AT_FDCWD, path, m)); }
ssize_t readlink(const char* path, char* b, size_t n) noexcept { MAP; return ssize_t(syscall(SYS_readlinkat, AT_FDCWD, path, b, n)); }
}
static struct { pthread_t h; size_t n; cpu_set_t set; int calls, inject; } g_aff[8]; static std::atomic<int> g_affn; static std::mutex g_affm; static int g_inject;
extern "C" int pthread_setaffinity_np(pthread_t h, size_t n, const cpu_set_t* s) noexcept {
    std::lock_guard<std::mutex> g(g_affm);
    int i = g_affn.load(); if (i < 8) { g_aff[i].h = h; g_aff[i].n = n; CPU_ZERO(&g_aff[i].set); std::memcpy(&g_aff[i].set, s, std::min(n, sizeof(cpu_set_t))); g_affn.store(i + 1); }
    if (g_inject) return g_inject;
    if (n < sizeof(cpu_set_t) || CPU_COUNT(s) == 0) return EINVAL;
    return 0;
}
extern "C" int sched_setaffinity(pid_t, size_t n, const cpu_set_t* s) noexcept { int r = pthread_setaffinity_np(pthread_self(), n, s); if (r) { errno = r; return -1; } return 0; }

// ------------------------------------------------------------------ a scratch /sys/devices/system
struct Tree {
    std::vector<std::pair<std::string, int>> made;   // 0 directory, 1 file or link
    bool on; explicit Tree(bool o) : on(o) { if (!on) return; std::strcpy(g_root, "/tmp/vf.numa.XXXXXX"); if (!mkdtemp(g_root)) { std::perror("mkdtemp"); _exit(70); } }
    std::string at(std::string const& p) { return std::string(g_root) + p; }
    void dir(std::string const& p) { if (!on) return; if (::mkdir(at(p).c_str(), 0755) == 0) made.emplace_back(at(p), 0); }
    void file(std::string const& p, std::string const& s) { if (!on) return; int fd = int(syscall(SYS_openat, AT_FDCWD, at(p).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644)); if (fd < 0) _exit(70); if (::write(fd, s.data(), s.size()) < 0) _exit(70); ::close(fd); made.emplace_back(at(p), 1); }
    void link(std::string const& to, std::string const& p) { if (on && ::symlink(to.c_str(), at(p).c_str()) == 0) made.emplace_back(at(p), 1); }
    ~Tree() { for (auto i = made.rbegin(); i != made.rend(); ++i) if (i->second) ::unlink(i->first.c_str()); else ::rmdir(i->first.c_str()); if (on) ::rmdir(g_root); }
};
struct Spec { std::map<uint32_t, nm::node> nodes; std::vector<std::pair<uint32_t, uint32_t>> cpus; bool has_online = true, has_nodes = true; };   // cpus: (cpu, node)

static std::string list_of(std::set<uint32_t> const& s, Rng& r) {   // the kernel's %*pbl format
    std::string o; for (auto i = s.begin(); i != s.end();) { uint32_t a = *i, b = a; ++i; while (i != s.end() && *i == b + 1) { b = *i; ++i; } if (!o.empty()) o += ","; o += std::to_string(a); if (b > a) { if (b == a + 1 && r.chance(1, 8)) o += "," + std::to_string(b); else o += "-" + std::to_string(b); } }
    return o;
}
// cpus/nodes generated; fills the tree and what topology() has to say about it
static void build(Case& c, Tree& t, Spec& s, unsigned maxcpu, unsigned maxid, bool odd) {
    Rng& r = c.rng; std::set<uint32_t> ids; unsigned n = 1 + r.below(maxcpu);
    if (r.chance(1, 3)) for (unsigned i = 0; i < n; ++i) ids.insert(i); else while (ids.size() < n) ids.insert(r.chance(1, 2) && !ids.empty() ? std::min(maxid, *ids.rbegin() + 1) : r.below(maxid + 1));
    std::vector<uint32_t> nids; unsigned nn = 1 + r.below(std::min(4u, n)); { std::set<uint32_t> x; while (x.size() < nn) x.insert(r.chance(2, 3) ? unsigned(x.size()) : r.below(40)); nids.assign(x.begin(), x.end()); }
    s.has_online = !(odd && r.chance(1, 12)); s.has_nodes = !(odd && r.chance(1, 5)); bool blank = odd && s.has_online && r.chance(1, 20);
    int layout = int(r.below(3));
    t.dir("/cpu"); t.dir("/node");
    unsigned k = 0;
    for (uint32_t id : ids) {
        std::string d = "/cpu/cpu" + std::to_string(id); t.dir(d); t.dir(d + "/topology"); if (r.chance(1, 2)) t.dir(d + "/cache"); if (r.chance(1, 4)) t.dir(d + "/xnode3"); if (r.chance(1, 4)) t.dir(d + "/node"); if (r.chance(1, 4)) t.dir(d + "/nodes7"); if (r.chance(1, 6)) t.dir(d + "/node2x");
        uint32_t nd = layout == 0 ? nids[k * nn / n] : layout == 1 ? nids[k % nn] : nids[r.below(nn)]; ++k;
        if (s.has_nodes) { t.dir("/node/node" + std::to_string(nd)); if (r.chance(3, 4)) t.link("../../node/node" + std::to_string(nd), d + "/node" + std::to_string(nd)); else t.dir(d + "/node" + std::to_string(nd)); }
        else nd = 0;
        s.cpus.emplace_back(id, nd); s.nodes[nd].id = nd; s.nodes[nd].logical_cpus.insert(id);
    }
    if (odd && r.chance(1, 2)) for (int q = 0; q < 2; ++q) { uint32_t off = r.below(maxid + 40); if (!ids.count(off)) { std::string d = "/cpu/cpu" + std::to_string(off); t.dir(d); t.dir(d + "/node" + std::to_string(nids[0])); } }   // offline cpus
    t.file("/cpu/present", "0-255\n"); t.file("/cpu/possible", "0-255\n");
    if (s.has_online) t.file("/cpu/online", blank ? "\n" : list_of(ids, r) + (r.chance(7, 8) ? "\n" : ""));
    if (!s.has_online || blank) { s.nodes.clear(); s.cpus.clear(); return; }
    for (auto& e : s.nodes) {
        if (odd && r.chance(1, 5)) { e.second.distance = { 10 }; continue; }
        t.dir("/node/node" + std::to_string(e.first));
        std::string l; unsigned m = std::max<unsigned>(unsigned(s.nodes.size()), 1 + r.below(6));
        for (unsigned i = 0; i < m; ++i) { uint32_t dd = r.chance(1, 3) ? 10 : 10 + r.below(240); e.second.distance.push_back(dd); l += (i ? " " : "") + std::to_string(dd); }
        t.file("/node/node" + std::to_string(e.first) + "/distance", l + (r.chance(7, 8) ? "\n" : "")); count("distances");
    }
}
static std::string show(nm::node const& n) { std::string o = "node " + std::to_string(n.id) + " cpus"; for (auto x : n.logical_cpus) o += " " + std::to_string(x); o += " distance"; for (auto x : n.distance) o += " " + std::to_string(x); return o; }
static std::vector<nm::node> check_topology(Spec const& s) {
    std::vector<nm::node> got; g_redirected = 0; g_redirect = true;
    try { got = nm::topology(); } catch (std::exception const& e) { g_redirect = false; vf::fail("numa.topology_threw", "topology() threw %s", e.what()); }
    g_redirect = false; 
    VF_CHECK(g_redirected > 0, "numa.not_read", "topology() did not look at /sys/devices/system");
    VF_CHECK(got.size() == s.nodes.size(), "numa.nodes", "topology() returned %zu nodes, the system has %zu", got.size(), s.nodes.size());
    std::sort(got.begin(), got.end()); std::size_t i = 0;
    for (auto& e : s.nodes) { nm::node const& g = got[i++]; VF_CHECK(g.id == e.second.id && g.logical_cpus == e.second.logical_cpus && g.distance == e.second.distance, "numa.node", "topology() says '%s', the system has '%s'", show(g).c_str(), show(e.second).c_str()); VF_CHECK(!(g < g), "numa.order", "a node is less than itself"); }
    for (std::size_t a = 1; a < got.size(); ++a) VF_CHECK(got[a - 1] < got[a] && !(got[a] < got[a - 1]), "numa.order", "nodes are not ordered by id");
    logev(1, 0, int64_t(got.size()), int64_t(s.cpus.size())); count("nodes", got.size()); count("cpus", s.cpus.size());
    return got;
}
VF_FAMILY(topo) {
    Tree t(true); Spec s; build(c, t, s, 24, c.rng.chance(1, 2) ? 31 : 255, true);
    c.note("topo cpus=%zu nodes=%zu online=%d links=%d ", s.cpus.size(), s.nodes.size(), int(s.has_online), int(s.has_nodes)); for (auto& e : s.nodes) c.note("%s; ", show(e.second).c_str());
    check_topology(s); if (s.nodes.size() > 1) { c.nontrivial = true; count("several_nodes"); } if (s.nodes.empty()) { c.nontrivial = true; count("empty_systems"); } if (!s.has_nodes) count("uma_systems");
    if (s.cpus.size() == 1) c.nontrivial = true;
}
VF_FAMILY(pin) {
    int n = c.rng.range(1, 3); std::vector<uint32_t> cpu; for (int i = 0; i < n; ++i) cpu.push_back(c.rng.chance(1, 8) ? CPU_SETSIZE + c.rng.below(3000) : c.rng.chance(1, 4) ? CPU_SETSIZE - 1 - c.rng.below(3) : c.rng.below(CPU_SETSIZE));
    g_inject = c.rng.chance(1, 4) ? (c.rng.chance(1, 2) ? EPERM : ESRCH) : 0; bool other = c.rng.chance(1, 2); c.note("pin threads=%d inject=%d other=%d cpu=%u ", n, g_inject, int(other), cpu[0]);
    c.nontrivial = true; std::vector<pthread_t> hs(std::size_t(n), 0); std::mutex m; g_affn = 0;
    std::vector<std::function<void()>> fns; std::atomic<int> in{ 0 };
    for (int i = 0; i < n; ++i) fns.push_back([&, i] {
        { std::lock_guard<std::mutex> g(m); hs[std::size_t(i)] = pthread_self(); } in.fetch_add(1); while (in.load() < n) std::this_thread::yield();
        pthread_t tgt; { std::lock_guard<std::mutex> g(m); tgt = hs[std::size_t(other ? (i + 1) % n : i)]; }
        uint32_t id = cpu[std::size_t(i)]; int err = g_inject ? g_inject : id >= CPU_SETSIZE ? EINVAL : 0, gc = 0; bool in_fiber = id & 1;
        auto go = [&] { try { if (other) nm::pin_thread(id, tgt); else nm::pin_thread(id); } catch (std::system_error const& e) { gc = e.code().value(); if (e.code().category() != std::system_category() && e.code().category() != std::generic_category()) gc = -1; } };
        if (in_fiber) bf::fiber(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), go).join(); else go();
        VF_CHECK(gc == err, "numa.pin_error", "pin_thread(%u) reported error %d, the system said %d", id, gc, err);
        std::lock_guard<std::mutex> g(g_affm); int calls = 0;
        for (int k = 0; k < g_affn; ++k) if (g_aff[k].h == tgt) { ++calls; if (id < CPU_SETSIZE) VF_CHECK(CPU_COUNT(&g_aff[k].set) == 1 && CPU_ISSET(id, &g_aff[k].set), "numa.pin_set", "pin_thread(%u) asked for %d cpus, this one %s", id, CPU_COUNT(&g_aff[k].set), CPU_ISSET(id, &g_aff[k].set) ? "included" : "missing"); }
        if (err == 0 || id < CPU_SETSIZE) VF_CHECK(calls == 1, "numa.pin_thread", "pin_thread(%u) set the affinity of its thread %d times", id, calls);
        count(err ? "pin_errors" : "pinned"); logev(2, i, id, err);
    });
    c.run(fns); g_inject = 0;
}

// ------------------------------------------------------------------ work stealing
static thread_local std::vector<uint32_t>* t_tried;  // cpus this pick_next() stole from
static thread_local std::vector<bf::context*>* t_got;
class probe : public nm::algo::work_stealing {
    uint32_t cpu_; std::set<uint32_t> local_; std::thread::id owner_ = std::this_thread::get_id(); Case& c_;
public:
    // the base class publishes the scheduler before this class is there: nobody schedules until every probe is complete
    struct Ready { std::mutex m; std::condition_variable cv; int left; };
    probe(uint32_t cpu, uint32_t nd, std::vector<nm::node> const& topo, bool susp, Case& c, Ready& rd) : work_stealing(cpu, nd, topo, susp), cpu_(cpu), c_(c) {
        for (auto& n : topo) if (n.id == nd) local_ = n.logical_cpus;
        std::unique_lock<std::mutex> lk(rd.m); if (--rd.left == 0) rd.cv.notify_all(); else rd.cv.wait(lk, [&] { return rd.left == 0; });
    }
    bf::context* steal() noexcept override { bf::context* x = work_stealing::steal(); if (t_tried) { t_tried->push_back(cpu_); t_got->push_back(x); } else vf::fail("numa.steal_outside", "steal() called outside of pick_next()"); return x; }
    bf::context* pick_next() noexcept override {
        VF_CHECK(std::this_thread::get_id() == owner_, "sched.pick_foreign_thread", "pick_next() called by a foreign thread");
        std::vector<uint32_t> tried; std::vector<bf::context*> got; t_tried = &tried; t_got = &got;
        bf::context* x = work_stealing::pick_next();
        t_tried = nullptr; t_got = nullptr;
        bool remote = false; std::size_t nl = 0;
        for (std::size_t i = 0; i < tried.size(); ++i) {
            bool loc = local_.count(tried[i]) != 0;
            VF_CHECK(tried[i] != cpu_, "numa.steal_self", "a scheduler tried to steal from itself");
            VF_CHECK(!(loc && remote), "numa.steal_order", "cpu %u stole from a cpu of its own node after trying another node", cpu_);
            VF_CHECK(loc || local_.size() < 2 || nl, "numa.steal_order", "cpu %u tried another node before its own", cpu_);
            if (loc) ++nl; else remote = true;
            if (i + 1 < tried.size()) VF_CHECK(!got[i], "numa.steal_lost", "a stolen fiber was dropped for another one");
            if (got[i]) { VF_CHECK(got[i] == x, "numa.steal_lost", "the stolen fiber is not the one picked"); VF_CHECK(!x->is_context(bf::type::pinned_context), "sched.pinned_moved", "a pinned context was stolen");
                VF_CHECK(x->get_scheduler() == bf::context::active()->get_scheduler(), "migr.attach", "a stolen fiber was not attached to the scheduler of the thief"); count(loc ? "stolen_local" : "stolen_remote"); c_.nontrivial = true; }
        }
        if (remote) count("looked_remote"); if (nl) count("looked_local");
        return x;
    }
};
VF_FAMILY_FORK(numaws) {
    bool tree = c.rng.chance(1, 6); Tree t(tree); Spec s; build(c, t, s, 4, c.rng.chance(1, 2) ? 7 : 200, false);
    std::vector<nm::node> topo; if (tree) topo = check_topology(s); else for (auto& e : s.nodes) topo.push_back(e.second);
    Opts o; o.seed = c.rng.u(); o.threads = int(s.cpus.size()); o.suspend = c.rng.chance(1, 2); o.algo = WS; int nf = c.rng.range(2, 10);
    std::vector<std::pair<uint32_t, uint32_t>> who = s.cpus; for (std::size_t i = who.size(); i > 1; --i) std::swap(who[i - 1], who[c.rng.below(uint32_t(i))]);
    c.note("numa_ws suspend=%d fibers=%d ", int(o.suspend), nf); for (auto& n : topo) c.note("%s; ", show(n).c_str());
    bool single = false; for (auto& n : topo) if (n.logical_cpus.size() == 1) single = true; if (single) count("single_cpu_nodes"); if (topo.size() > 1) count("several_nodes");
    unsigned mask = c.rng.chance(1, 3) ? soup::Soup::OP_CRIT | soup::Soup::OP_CHILD : c.rng.chance(1, 2) ? soup::Soup::OP_ALL : unsigned(c.rng.below(64));
    soup::Soup sp(c, o, nf, c.rng.range(2, 10), mask); g_affn = 0;
    struct Gate { bf::mutex m; bf::condition_variable cv; int left, mains; } g; g.left = nf; g.mains = o.threads;
    probe::Ready rdy; rdy.left = o.threads;
    bool joinall = c.rng.chance(1, 2), one = c.rng.chance(1, 2), longidle = o.suspend && c.rng.chance(1, 3);
    std::vector<std::function<void()>> fns;
    for (int ti = 0; ti < o.threads; ++ti) fns.push_back([&, ti] {
        auto w = who[std::size_t(ti)]; auto tid = std::this_thread::get_id();
        bf::use_scheduling_algorithm<probe>(w.first, w.second, topo, o.suspend, c, rdy);
        { std::lock_guard<std::mutex> gg(g_affm); int n = 0; for (int k = 0; k < g_affn; ++k) if (g_aff[k].h == pthread_self()) { ++n; VF_CHECK(CPU_COUNT(&g_aff[k].set) == 1 && CPU_ISSET(w.first, &g_aff[k].set), "numa.pin_set", "the thread of cpu %u was pinned elsewhere", w.first); } VF_CHECK(n == 1, "numa.not_pinned", "the thread of cpu %u was pinned %d times", w.first, n); }
        Rng r(mix(o.seed, 100 + uint64_t(ti))); std::vector<bf::fiber> fs;
        for (int i = 0; i < nf; ++i) if (one ? ti == 0 : i % o.threads == ti) {
            auto b = [&, i] { int a = ctl_tid(); sp.body(i); if (a != ctl_tid()) { c.nontrivial = true; count("migrated"); }
                std::unique_lock<bf::mutex> lk(g.m); if (--g.left == 0) { lk.unlock(); g.cv.notify_all(); } };
            fs.push_back(spawn(r, b)); if (!joinall) fs.back().detach();
            if (r.chance(1, 5)) boost::this_fiber::yield();
        }
        sp.main_body(ti);
        for (auto& f : fs) if (f.joinable()) f.join();
        { std::unique_lock<bf::mutex> lk(g.m); if (--g.mains == 0) { lk.unlock(); g.cv.notify_all(); lk.lock(); } while (g.left || g.mains) g.cv.wait(lk);
          // all work done: while one thread sleeps for long, the others wait and keep no processor
          if (longidle) { if (ti == 0) { lk.unlock(); boost::this_fiber::sleep_for(std::chrono::seconds(30)); lk.lock(); longidle = false; g.cv.notify_all(); count("idle_sleeps"); } else while (longidle) g.cv.wait(lk); } }
        VF_CHECK(std::this_thread::get_id() == tid, "sched.pinned_moved", "main fiber moved");
    });
    c.run(fns); sp.finish();
}

// ready fibers of a cpu that is kept busy are taken over by idle cpus, be they of the same node or another
VF_FAMILY_FORK(numahog) {
    Tree t(false); Spec s; build(c, t, s, 4, c.rng.chance(1, 2) ? 7 : 200, false); std::vector<nm::node> topo; for (auto& e : s.nodes) topo.push_back(e.second);
    Opts o; o.seed = c.rng.u(); o.threads = int(s.cpus.size()); if (o.threads < 2) { count("alone"); return; } o.suspend = false; int nf = c.rng.range(1, 5), hog = int(c.rng.below(uint32_t(o.threads))); c.nontrivial = true;
    c.note("numa_hog %d fibers=%d ", hog, nf); for (auto& n : topo) c.note("%s; ", show(n).c_str()); if (topo.size() == s.cpus.size()) count("only_remote");
    struct Gate { bf::mutex m; bf::condition_variable cv; int mains; } g; g.mains = o.threads; std::atomic<int> done{ 0 }; probe::Ready rdy; rdy.left = o.threads; g_affn = 0;
    std::vector<std::function<void()>> fns;
    for (int ti = 0; ti < o.threads; ++ti) fns.push_back([&, ti] {
        auto w = s.cpus[std::size_t(ti)]; bf::use_scheduling_algorithm<probe>(w.first, w.second, topo, false, c, rdy); Rng r(mix(o.seed, uint64_t(ti))); std::vector<bf::fiber> fs;
        if (ti == hog) {
            for (int i = 0; i <= nf; ++i) { uint64_t sd = r.u(); fs.emplace_back(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(stack_size()), [&, sd, i] {
                if (i == 0) { while (done.load(std::memory_order_relaxed) < nf) std::this_thread::yield(); return; }
                Rng q(sd); logev(1, i, ctl_tid()); for (int k = q.range(0, 4); k > 0; --k) boost::this_fiber::yield(); done.fetch_add(1, std::memory_order_relaxed); }); }
            count("taken_over", uint64_t(nf));
        }
        for (auto& f : fs) f.join();
        std::unique_lock<bf::mutex> lk(g.m); if (--g.mains == 0) { lk.unlock(); g.cv.notify_all(); lk.lock(); } while (g.mains) g.cv.wait(lk);
    });
    c.run(fns);
}

// Barrier family.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_ARR = 1, E_LEAVE };
static int init = (name_event(E_ARR, "arrive"), name_event(E_LEAVE, "leave"), 0);
VF_FAMILY(barrier) {
    Opts o = pick_world(c, opt_int("maxthreads", 4));
    int n = c.rng.range(1, 5), mult = c.rng.chance(1, 3) ? c.rng.range(2, 3) : 1, rounds = c.rng.range(1, 6);
    bool exact = mult == 1;
    c.note("barrier n=%d fibers=%d rounds=%d ", n, n * mult, rounds);
    if (c.rng.chance(1, 20)) {
        bool thrown = false; c.run({ [&] { install(o, 0); try { bf::barrier z(0); } catch (bf::fiber_error const& e) { thrown = e.code() == std::make_error_code(std::errc::invalid_argument); } } });
        VF_CHECK(thrown, "barrier.zero", "barrier(0) was accepted");
        return;
    }
    struct St { bf::barrier b; std::atomic<long> arrived{ 0 }, left{ 0 }, trues{ 0 }; std::atomic<long> tickets{ 0 }; long slot[16][8]; St(int n) : b(std::size_t(n)) { std::memset(slot, 0, sizeof slot); } };
    auto st = std::make_unique<St>(n); St* s = st.get(); uint64_t seed = c.rng.u();
    ctl_watch(s->slot, sizeof s->slot);
    // more fibers than n: waits are handed out by ticket so that their total is a multiple of n and every batch completes
    FiberSet fs{ c, o, n * mult, [&](int f) {
        Rng r(mix(seed, uint64_t(f)));
        for (int k = 0; exact ? k < rounds : s->tickets.fetch_add(1, rlx) < long(n) * mult * rounds; ++k) {
            jitter(r);
            if (exact) s->slot[f][k] = 100 * f + k + 1;
            long a = s->arrived.fetch_add(1, rlx) + 1; logev(E_ARR, f, k); (void)a;
            bool t = s->b.wait();
            if (t) { long nt = s->trues.fetch_add(1, rlx) + 1; VF_CHECK(nt <= s->arrived.load(rlx) / n, "barrier.extra_true", "%ld elected, %ld arrivals, n=%d", nt, s->arrived.load(rlx), n); }
            long l = s->left.fetch_add(1, rlx) + 1; logev(E_LEAVE, f, k, t);
            long ar = s->arrived.load(rlx);
            VF_CHECK(l <= ar / n * n, "barrier.early_release", "%ld fibers left but only %ld arrived (n=%d)", l, ar, n);
            if (exact) {
                VF_CHECK(ar >= long(k + 1) * n, "barrier.early_release", "fiber %d left round %d after %ld arrivals", f, k, ar);
                for (int j = 0; j < n; ++j) VF_CHECK(s->slot[j][k] == 100 * j + k + 1, "barrier.visibility", "fiber %d left round %d before fiber %d arrived", f, k, j);
            }
            if (n > 1) c.nontrivial = true;
        }
    } };
    fs.run();
    VF_CHECK(s->trues.load() == long(mult) * rounds, "barrier.one_true_per_batch", "%ld waits returned true for %d batches", s->trues.load(), mult * rounds);
    count("batches", uint64_t(mult) * rounds);
}

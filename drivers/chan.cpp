// Channel families: exactly-once delivery, order, capacity, closing, truthful statuses, no stuck fiber.
// Every operation is recorded with its real-time interval; the history is judged afterwards.
#include "vf.hpp"
using namespace vf;
enum { E_PUSH = 1, E_PUSHED, E_POP, E_POPPED, E_CLOSE, E_CLOSED, E_STATUS };
static int init = (name_event(E_PUSH, "push"), name_event(E_PUSHED, "push_ret"), name_event(E_POP, "pop"), name_event(E_POPPED, "pop_ret"), name_event(E_CLOSE, "close"), name_event(E_CLOSED, "close_ret"), name_event(E_STATUS, "is_closed"), 0);
typedef bf::channel_op_status ST;
static const char* stn(int s) { static const char* n[] = { "success", "empty", "full", "closed", "timeout", "?" }; return n[s < 0 || s > 4 ? 5 : s]; }
static int sti(ST s) { switch (s) { case ST::success: return 0; case ST::empty: return 1; case ST::full: return 2; case ST::closed: return 3; default: return 4; } }
struct Val { long id = -1, chk = 0; Val() = default; explicit Val(long i) : id(i), chk(~i) {}
    Val(Val const&) = default; Val& operator=(Val const&) = default; Val(Val&& o) noexcept : id(o.id), chk(o.chk) { o.gone(); } Val& operator=(Val&& o) noexcept { if (this != &o) { id = o.id; chk = o.chk; o.gone(); } return *this; } void gone() { id = -2; chk = 0; } };
static const int64_t FAR = 100000000000ll, LONG = 1000000000ll;
enum Kind { K_BLOCK, K_TRY, K_FOR, K_UNTIL, K_SYS, K_VALUE, K_N };
struct Op { bool push; int fiber, kind, res = -1; long v = -1; uint64_t s, e = ~0ull; uint64_t ts, te = 0; int64_t d = 0; bool early = false, infl = true; };
struct Hist {
    static const int MAX = 1024; Op ops[MAX]; std::atomic<int> n{ 0 }; std::atomic<uint64_t> seq{ 1 };
    std::atomic<uint64_t> close_s{ ~0ull }, close_e{ ~0ull }, close_t{ ~0ull };
    uint64_t stamp() { return seq.fetch_add(1, std::memory_order_seq_cst); }
    Op* begin(bool push, int f, int kind, long v) { int i = n.fetch_add(1, std::memory_order_relaxed); VF_CHECK(i < MAX, "harness", "history overflow"); Op* o = &ops[i]; o->push = push; o->fiber = f; o->kind = kind; o->v = v; o->ts = ctl_now(); o->s = stamp(); logev(push ? E_PUSH : E_POP, f, v, kind); return o; }
    void end(Op* o, int res, long v) { o->te = ctl_now(); o->res = res; o->v = v; o->e = stamp(); logev(o->push ? E_PUSHED : E_POPPED, o->fiber, v, res); }
};
static const bool far_ok() { return !real_mode; }

template <class Ch, bool BUF> struct Run {
    Case& c; Ch& ch; Hist& h; uint64_t seed; bool timed; int tmax, favpush = -1, favpop = -1; std::atomic<int> prod_left{ 0 };
    ST do_push(int f, long id, Rng& r, Op*& o, bool block = false) {
        uint32_t x = r.below(10); int kind = x < 4 ? K_BLOCK : x < 6 && BUF ? K_TRY : timed ? (x < 7 ? K_FOR : x < 9 ? K_UNTIL : K_SYS) : K_BLOCK;
        if (favpush >= 0 && r.chance(4, 5)) kind = favpush;
        if (block) kind = K_BLOCK;
        Val v(id); bool mv = r.chance(1, 2); ST s; int64_t d = r.chance(1, 4) && far_ok() ? FAR : r.chance(1, 6) ? -int64_t(r.below(500)) : int64_t(r.below(uint32_t(tmax)));
        o = h.begin(true, f, kind, id); auto t0 = clk::now(); o->d = d;
        switch (kind) {
        case K_BLOCK: s = mv ? ch.push(std::move(v)) : ch.push(static_cast<Val const&>(v)); break;
        case K_TRY: if constexpr (BUF) s = mv ? ch.try_push(std::move(v)) : ch.try_push(static_cast<Val const&>(v)); break;
        case K_FOR: s = mv ? ch.push_wait_for(std::move(v), ns(d)) : ch.push_wait_for(static_cast<Val const&>(v), ns(d)); break;
        case K_UNTIL: s = mv ? ch.push_wait_until(std::move(v), t0 + ns(d)) : ch.push_wait_until(static_cast<Val const&>(v), t0 + ns(d)); break;
        default: s = other_clock(r, d, [&](auto t) { return mv ? ch.push_wait_until(std::move(v), t) : ch.push_wait_until(static_cast<Val const&>(v), t); }); break;
        }
        if (s == ST::timeout && (kind == K_FOR || kind == K_UNTIL)) o->early = clk::now() < t0 + ns(d);
        if (s == ST::timeout && kind == K_SYS) o->early = clk::now() + ns(LONG) < t0 + ns(d);
        // what was not taken stays with its owner (an unbuffered channel holds the value while it is offered)
        if (!mv || (BUF && s != ST::success)) VF_CHECK(v.id == id && v.chk == ~id, "chan.value_taken", "push of %ld returned %s but took the caller's value", id, stn(sti(s)));
        h.end(o, sti(s), id); return s;
    }
    ST do_pop(int f, Rng& r, Val& v, Op*& o, bool block = false) {
        uint32_t x = r.below(12); int kind = x < 4 ? K_BLOCK : x < 6 && BUF ? K_TRY : timed && x < 10 ? (x < 7 ? K_FOR : x < 9 ? K_UNTIL : K_SYS) : x < 11 ? K_VALUE : K_BLOCK;
        if (favpop >= 0 && r.chance(4, 5)) kind = favpop;
        if (block) kind = K_BLOCK;
        ST s; int64_t d = r.chance(1, 4) && far_ok() ? FAR : r.chance(1, 6) ? -int64_t(r.below(500)) : int64_t(r.below(uint32_t(tmax)));
        v = Val(); o = h.begin(false, f, kind, -1); auto t0 = clk::now(); o->d = d;
        switch (kind) {
        case K_BLOCK: s = ch.pop(v); break;
        case K_TRY: if constexpr (BUF) s = ch.try_pop(v); break;
        case K_FOR: s = ch.pop_wait_for(v, ns(d)); break;
        case K_UNTIL: s = ch.pop_wait_until(v, t0 + ns(d)); break;
        case K_SYS: s = other_clock(r, d, [&](auto t) { return ch.pop_wait_until(v, t); }); break;
        default:
            try { v = ch.value_pop(); s = ST::success; }
            catch (bf::fiber_error const& e) { VF_CHECK(e.code() == std::make_error_code(std::errc::operation_not_permitted), "chan.wrong_error", "value_pop threw the wrong error"); s = ST::closed; }
        }
        if (s == ST::timeout && (kind == K_FOR || kind == K_UNTIL)) o->early = clk::now() < t0 + ns(d);
        if (s == ST::timeout && kind == K_SYS) o->early = clk::now() + ns(LONG) < t0 + ns(d);
        if (s == ST::success) { VF_CHECK(v.chk == ~v.id && v.id >= 0, "chan.torn_value", "popped a value that was never pushed: %ld/%ld", v.id, v.chk); }
        else VF_CHECK(v.id == -1, "chan.value_on_failure", "pop returned %s but delivered value %ld", stn(sti(s)), v.id);
        h.end(o, sti(s), v.id); return s;
    }
    void close() { uint64_t s = h.stamp(); if (h.close_s.load() == ~0ull) h.close_s.store(s); logev(E_CLOSE, -1); ch.close(); uint64_t e = h.stamp(); if (h.close_e.load() == ~0ull) { h.close_e.store(e); h.close_t.store(ctl_now()); } logev(E_CLOSED, -1);
        VF_CHECK(ch.is_closed(), "chan.not_closed", "is_closed() is false after close()"); }
    void status(int f) { uint64_t s = h.stamp(); bool b = ch.is_closed(); uint64_t e = h.stamp(); logev(E_STATUS, f, b);
        if (b) VF_CHECK(h.close_s.load() < e, "chan.closed_early", "is_closed() before anybody closed"); else VF_CHECK(!(h.close_e.load() < s), "chan.not_closed", "is_closed() is false after close() returned"); }
    void judge(int cap) {
        int n = h.n.load(); uint64_t cs = h.close_s.load(), ce = h.close_e.load();
        std::vector<Op*> pu, po; for (int i = 0; i < n; ++i) { Op* o = &h.ops[i]; VF_CHECK(o->res >= 0, "harness", "operation did not return"); (o->push ? pu : po).push_back(o); }
        std::map<long, Op*> pm, om;
        for (Op* p : pu) pm[p->v] = p;
        for (Op* o : po) if (o->res == 0) {
            VF_CHECK(!om.count(o->v), "chan.duplicate", "value %ld was delivered twice (fibers %d and %d)", o->v, om[o->v]->fiber, o->fiber);
            VF_CHECK(pm.count(o->v), "chan.invented", "value %ld was delivered but never pushed", o->v);
            om[o->v] = o; Op* p = pm[o->v];
            VF_CHECK(p->s < o->e, "chan.invented", "value %ld delivered before it was pushed", o->v);
            VF_CHECK(p->res == 0, "chan.delivered_but_refused", "value %ld was delivered to fiber %d although its push returned %s", o->v, o->fiber, stn(p->res));
        }
        for (Op* p : pu) if (p->res == 0) {
            VF_CHECK(om.count(p->v), "chan.lost", "value %ld was pushed successfully but never delivered", p->v);
            if (!BUF) VF_CHECK(om[p->v]->s < p->e, "chan.no_rendezvous", "push of %ld returned success before any consumer came for it", p->v);
        }
        std::vector<std::pair<Op*, Op*>> del; for (auto& k : om) del.push_back({ pm[k.first], k.second });
        for (auto& a : del) for (auto& b : del) if (a.first->e < b.first->s && b.second->e < a.second->s)
            fail("chan.order", "value %ld was pushed before %ld but delivered after it", a.first->v, b.first->v);
        for (int i = 0; i < n; ++i) { Op& o = h.ops[i];
            VF_CHECK(!o.early, "chan.early_timeout", "%s (d=%lld) by fiber %d timed out before its deadline", o.push ? "push" : "pop", (long long)o.d, o.fiber);
            if (o.res == 3) VF_CHECK(cs < o.e, "chan.closed_early", "%s by fiber %d reported closed before anybody closed the channel", o.push ? "push" : "pop", o.fiber);
            if (o.push) VF_CHECK(!(ce < o.s) || o.res == 3, "chan.push_after_close", "push of %ld started after close() and returned %s", o.v, stn(o.res));
            if (o.res == 4 && h.close_t.load() != ~0ull) VF_CHECK(o.te < h.close_t.load() + LONG, "chan.lost_wakeup", "%s by fiber %d waited for a virtual second on a closed channel and timed out", o.push ? "push" : "pop", o.fiber);
            if (o.res == 4) VF_CHECK(o.kind >= K_FOR && o.kind <= K_SYS, "chan.status", "untimed operation kind %d returned timeout", o.kind);
            if (o.res == 1 || o.res == 2) VF_CHECK(o.kind == K_TRY && o.push == (o.res == 2), "chan.status", "%s kind %d returned %s", o.push ? "push" : "pop", o.kind, stn(o.res));
            if (o.kind == K_TRY) VF_CHECK(o.res != 4, "chan.status", "try operation timed out");
            if (!o.push && ce < o.s) VF_CHECK(o.res != 1, "chan.status", "try_pop by fiber %d on a closed channel returned empty", o.fiber);
            if (BUF && !o.push && ce < o.s) VF_CHECK(o.res != 4, "chan.status", "pop by fiber %d on a closed channel timed out", o.fiber);
            if (!o.push && ce < o.s && o.res == 4) VF_CHECK(o.d <= 0 || BUF, "chan.status", "pop on a closed channel timed out");
            count(o.push ? (o.res == 0 ? "push_ok" : o.res == 2 ? "push_full" : o.res == 3 ? "push_closed" : "push_timeout") : (o.res == 0 ? "pop_ok" : o.res == 1 ? "pop_empty" : o.res == 3 ? "pop_closed" : "pop_timeout"));
        }
        if (BUF) {
            for (int i = 0; i < n; ++i) { Op& o = h.ops[i]; if (o.res == 0) continue;
                long lo = 0, hi = 0, lo1 = 0, hi1 = 0;    // definite / possible number of elements during o; .1: for the last second of o
                for (Op* p : pu) if (p->res == 0) { if (p->e < o.s) ++lo; if (p->s < o.e) { ++hi; ++hi1; } if (p->te + LONG <= o.te) ++lo1; }
                for (Op* q : po) if (q->res == 0) { if (q->s < o.e) { --lo; --lo1; } if (q->e < o.s) --hi; if (q->te + LONG <= o.te) --hi1; }
                if (!o.push) {
                    VF_CHECK(lo <= 0, "chan.missed_element", "pop by fiber %d returned %s although %ld elements were in the channel all the time", o.fiber, stn(o.res), lo);
                    if (o.res == 4 && o.ts + LONG <= o.te) VF_CHECK(lo1 <= 0, "chan.lost_wakeup", "pop by fiber %d timed out although an element was available for a virtual second", o.fiber);
                } else if (o.res == 2 || o.res == 4) {
                    VF_CHECK(hi >= cap - 1, "chan.false_full", "push of %ld returned %s although at most %ld of %d elements could be in the channel", o.v, stn(o.res), hi, cap);
                    if (o.res == 4 && o.ts + LONG <= o.te) VF_CHECK(hi1 >= cap - 1, "chan.lost_wakeup", "push by fiber %d timed out although there was room for a virtual second", o.fiber);
                }
            }
            // capacity: at the end of each successful push
            for (Op* x : pu) if (x->res == 0) { long lo = 0; for (Op* p : pu) if (p->res == 0 && p->e <= x->e) ++lo; for (Op* q : po) if (q->res == 0 && q->s < x->e) --lo;
                VF_CHECK(lo <= cap, "chan.capacity", "%ld elements in a channel of capacity %d", lo, cap); }
        } else {
            for (Op* o : po) if (o->res == 4 && o->ts + LONG <= o->te) for (Op* p : pu) if (p->ts + LONG <= o->te && p->e > o->e && p->s < o->e)
                fail("chan.lost_wakeup", "push of %ld and pop by fiber %d both waited for a virtual second without meeting", p->v, o->fiber);
            for (Op* p : pu) if (p->res == 4 && p->ts + LONG <= p->te) for (Op* o : po) if (o->ts + LONG <= p->te && o->e > p->e && o->s < p->e)
                fail("chan.lost_wakeup", "pop by fiber %d and push of %ld both waited for a virtual second without meeting", o->fiber, p->v);
        }
    }
};
template <class Ch, bool BUF> static void scenario(Case& c, std::function<Ch*()> mk, int cap) {
    Opts o = pick_world(c, opt_int("maxthreads", 3));
    int np = c.rng.range(1, 4), nc = c.rng.range(1, 4), per = c.rng.range(1, 7), closer = c.rng.chance(1, 3) ? 1 : 0, quitters = nc > 1 && c.rng.chance(1, 4) ? 1 : 0;
    bool timed = c.rng.chance(2, 3); int tmax = c.rng.chance(1, 2) ? 4000 : 40000; if (timed) c.leap_ns = 20000;
    c.note("%s cap=%d prod=%d cons=%d per=%d closer=%d quit=%d timed=%d ", BUF ? "buffered" : "unbuffered", cap, np, nc, per, closer, quitters, int(timed));
    // exact: as many pops as pushes, each consumer takes its share and leaves, nobody closes before the end, so that only the right notifications keep it going
    bool exact = c.rng.chance(1, 3); if (exact) { closer = 0; quitters = 0; c.note("exact "); }
    auto hist = std::make_unique<Hist>(); std::unique_ptr<Ch> ch(mk());
    Run<Ch, BUF> R{ c, *ch, *hist, c.rng.u(), timed, tmax }; R.prod_left = np;
    auto fav = [&](bool push) { if (!c.rng.chance(1, 2)) return -1; int k; do k = c.rng.below(K_N); while ((!BUF && k == K_TRY) || (!timed && k >= K_FOR && k <= K_SYS) || (push && k == K_VALUE)); return k; };
    R.favpush = fav(true); R.favpop = fav(false);
    struct Gate { std::atomic<int> cons_left; } g; g.cons_left = nc;
    FiberSet fs{ c, o, np + nc + closer, [&](int f) {
        Rng r(mix(R.seed, uint64_t(f))); Op* op; 
        if (f < np) {
            for (int i = 0; i < per; ++i) {
                long id = long(f) * 1000000 + i * 20000; int att = 0; ST s;
                for (;;) { s = R.do_push(f, id, r, op, exact && att >= 4); c.nontrivial = true; if (s == ST::success || s == ST::closed || (att >= 3 && !exact)) break; ++id; ++att; if (r.chance(1, 2)) boost::this_fiber::sleep_for(ns(r.below(3000))); else boost::this_fiber::yield(); }
                if (s == ST::closed && r.chance(3, 4)) break;
                if (r.chance(1, 12)) R.status(f);
                jitter(r);
            }
            if (R.prod_left.fetch_sub(1) == 1 && !exact) R.close();
        } else if (f < np + nc) {
            int quota = exact ? np * per / nc + (f - np < np * per % nc ? 1 : 0) : quitters && f == np ? r.range(0, 2) : 1 << 20; Val v;
            for (int got = 0, miss = 0; got < quota;) {
                ST s = R.do_pop(f, r, v, op, exact && miss >= 4);
                if (s == ST::closed) break;
                if (s == ST::success) { ++got; miss = 0; } else if (++miss, r.chance(1, 2)) boost::this_fiber::sleep_for(ns(r.below(3000))); else boost::this_fiber::yield();
                if (r.chance(1, 12)) R.status(f);
                jitter(r);
            }
            if (g.cons_left.fetch_sub(1) == 1 && exact) { count("exact"); R.close(); }
        } else { int k = r.below(30); for (int i = 0; i < k; ++i) { if (r.chance(1, 3)) boost::this_fiber::sleep_for(ns(r.below(2000))); else boost::this_fiber::yield(); } R.close(); }
    } };
    fs.run();
    R.judge(cap);
}
VF_FAMILY(bchan) {
    if (c.rng.chance(1, 60)) {
        std::size_t bad = c.rng.chance(1, 2) ? c.rng.below(2) : 3 + c.rng.below(60); bool pow2 = bad >= 2 && !(bad & (bad - 1)), ok = true; Opts o;
        c.run({ [&] { install(o, 0); try { bf::buffered_channel<Val> z(bad); } catch (bf::fiber_error const& e) { ok = false; VF_CHECK(e.code() == std::make_error_code(std::errc::invalid_argument), "chan.wrong_error", "bad capacity: wrong error"); } } });
        VF_CHECK(ok == pow2, "chan.capacity_arg", "buffered_channel(%zu) %s", bad, ok ? "accepted" : "refused"); count("capacity_args");
        return;
    }
    int cap = 1 << c.rng.range(1, 4); if (c.rng.chance(1, 2)) cap = 2;
    scenario<bf::buffered_channel<Val>, true>(c, [cap] { return new bf::buffered_channel<Val>(std::size_t(cap)); }, cap);
}
VF_FAMILY(uchan) { scenario<bf::unbuffered_channel<Val>, false>(c, [] { return new bf::unbuffered_channel<Val>(); }, 0); }

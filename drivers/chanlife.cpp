// Lifetime of channel elements: every element object is constructed once, destroyed once, moved not copied
// where the caller moves, delivered intact through iteration; nothing survives the channel.
#include "vf.hpp"
using namespace vf;
static const auto rlx = std::memory_order_relaxed;
enum { E_PUT = 1, E_GOT, E_BREAK };
static int init = (name_event(E_PUT, "put"), name_event(E_GOT, "got"), name_event(E_BREAK, "break"), 0);
static const uint64_t LIVE = 0x11feba5e11feba5eull, DEAD = 0xdeadbeefdeadbeefull;
struct Book { std::atomic<long> live{ 0 }, ctor{ 0 }, copies{ 0 }; };
static Book* bk;
static std::mutex* regm; static std::set<const void*>* reg;
static void born(const void* p) { bk->live.fetch_add(1, rlx); bk->ctor.fetch_add(1, rlx); std::lock_guard<std::mutex> g(*regm); VF_CHECK(reg->insert(p).second, "life.double_construct", "element constructed on top of a live one"); }
static void gone(const void* p) { bk->live.fetch_sub(1, rlx); std::lock_guard<std::mutex> g(*regm); VF_CHECK(reg->erase(p) == 1, "life.double_destroy", "element destroyed that is not alive"); }
static void alive(const void* p, const char* what) { std::lock_guard<std::mutex> g(*regm); VF_CHECK(reg->count(p), "life.use_of_dead", "%s an element that is not alive", what); }
struct Tok {            // copyable
    long id; long* heap;
    Tok() : id(-1), heap(nullptr) { born(this); }
    explicit Tok(long i) : id(i), heap(new long(i)) { born(this); }
    Tok(Tok const& o) : id(o.id), heap(o.heap ? new long(*o.heap) : nullptr) { alive(&o, "copied from"); bk->copies.fetch_add(1, rlx); born(this); }
    Tok(Tok&& o) : id(o.id), heap(o.heap) { alive(&o, "moved from"); o.heap = nullptr; o.id = -2; born(this); }
    Tok& operator=(Tok const& o) { alive(this, "assigned to"); alive(&o, "assigned from"); bk->copies.fetch_add(1, rlx); if (this != &o) { delete heap; id = o.id; heap = o.heap ? new long(*o.heap) : nullptr; } return *this; }
    Tok& operator=(Tok&& o) { alive(this, "assigned to"); alive(&o, "assigned from"); if (this != &o) { delete heap; id = o.id; heap = o.heap; o.heap = nullptr; o.id = -2; } return *this; }
    ~Tok() { gone(this); delete heap; heap = reinterpret_cast<long*>(0x10); id = -3; }
    void check(const char* w) const { alive(this, w); VF_CHECK(id >= 0 && heap && *heap == id, "life.damaged", "%s: element damaged (id=%ld)", w, id); }
};
struct MTok : Tok {     // move only
    MTok() = default; explicit MTok(long i) : Tok(i) {} MTok(MTok const&) = delete; MTok(MTok&&) = default; MTok& operator=(MTok const&) = delete; MTok& operator=(MTok&&) = default;
};
template <class V, class Ch, bool BUF> static void scenario(Case& c, std::function<Ch*()> mk) {
    const bool copyable = std::is_same<V, Tok>::value;
    Opts o = pick_world(c, 3);
    int np = c.rng.range(1, 3), nc = c.rng.range(1, 3), per = c.rng.range(1, 6); bool brk = c.rng.chance(1, 3), early_close = c.rng.chance(1, 4); c.leap_ns = 10000;
    c.note("%s %s prod=%d cons=%d per=%d brk=%d early=%d ", BUF ? "buffered" : "unbuffered", copyable ? "copyable" : "move-only", np, nc, per, int(brk), int(early_close));
    Book book; bk = &book; std::mutex m; std::set<const void*> rs; regm = &m; reg = &rs;
    struct S { std::unique_ptr<Ch> ch; std::atomic<int> prod{ 0 }, cons{ 0 }; std::atomic<long> ok{ 0 }, got{ 0 }, nocopy_before{ 0 }; std::atomic<uint8_t> seen[8192]; } *s = new S;
    for (auto& a : s->seen) a.store(0, rlx);
    s->ch.reset(mk()); s->prod = np; s->cons = nc; uint64_t seed = c.rng.u();
    auto got = [s](int f, V const& v) { v.check("delivered"); s->got.fetch_add(1, rlx); logev(E_GOT, f, v.id); VF_CHECK(v.id < 8192 && s->seen[v.id].fetch_add(1, rlx) == 0, "life.duplicate", "element %ld delivered twice", v.id); };
    FiberSet fs{ c, o, np + nc, [&](int f) {
        Rng r(mix(seed, uint64_t(f)));
        if (f < np) {
            for (int i = 0; i < per; ++i) {
                long id = f * 1000 + i; V v(id); bf::channel_op_status st; int how = r.below(BUF ? 4 : 3);
                bool mv = !copyable || r.chance(1, 2);
                auto go = [&](auto&& x) { typedef decltype(x) X;
                    switch (how) { case 0: return s->ch->push(std::forward<X>(x)); case 1: return s->ch->push_wait_for(std::forward<X>(x), ns(r.below(8000))); case 2: return s->ch->push_wait_until(std::forward<X>(x), clk::now() + ns(r.below(8000)));
                    default: if constexpr (BUF) return s->ch->try_push(std::forward<X>(x)); return bf::channel_op_status::full; } };
                if constexpr (std::is_same<V, Tok>::value) st = mv ? go(std::move(v)) : go(static_cast<V const&>(v)); else st = go(std::move(v));
                if (!mv) v.check("pushed by copy");       // the caller's object is untouched
                if (mv && BUF && st != bf::channel_op_status::success) v.check("refused");  // a refused element stays with the caller
                if (st == bf::channel_op_status::success) { s->ok.fetch_add(1, rlx); logev(E_PUT, f, id); }
                jitter(r); c.nontrivial = true;
            }
            if (s->prod.fetch_sub(1) == 1 || (early_close && r.chance(1, 2))) s->ch->close();
        } else {
            int mode = r.below(5);
            if (mode == 0) { int k = 0; for (auto& v : *s->ch) { got(f, v); jitter(r); v.check("held by iterator"); if (brk && ++k == 2) { logev(E_BREAK, f); break; } if (r.chance(1, 3)) { V w(std::move(v)); w.check("taken from iterator"); } } }
            else if (mode == 1) {
                auto i = begin(*s->ch), e = end(*s->ch); int k = 0;
                for (; i != e; ++i) { got(f, *i); VF_CHECK((*i).id == i->id, "life.iter", "operator* and -> disagree"); jitter(r); if (brk && ++k == 2) break;
                    if constexpr (std::is_same<V, Tok>::value) { if (r.chance(1, 3)) { auto j = i; j->check("copied iterator"); VF_CHECK(j->id == i->id && j == i, "life.iter", "copied iterator differs"); if (r.chance(1, 2)) { auto k2 = end(*s->ch); k2 = j; k2->check("assigned iterator"); i = k2; } } }
                    if (r.chance(1, 4)) { auto j = std::move(i); j->check("moved iterator"); auto k2 = end(*s->ch); if (r.chance(1, 2)) { k2 = std::move(j); k2->check("move-assigned iterator"); i = std::move(k2); } else i = std::move(j); i->check("iterator after moves"); } }
            } else if (mode == 2) { try { for (;;) { V v = s->ch->value_pop(); got(f, v); jitter(r); } } catch (bf::fiber_error const&) {} }
            else { V v; for (;;) { auto st = mode == 3 ? s->ch->pop(v) : s->ch->pop_wait_for(v, ns(r.below(5000))); if (st == bf::channel_op_status::closed) break; if (st == bf::channel_op_status::success) got(f, v); else boost::this_fiber::yield(); } }
            // a consumer that stopped early must not strand producers: somebody drains
            V v; while (s->ch->pop(v) != bf::channel_op_status::closed) got(f, v);
        }
    } };
    fs.run();
    VF_CHECK(s->got.load() == s->ok.load(), "life.conservation", "%ld elements pushed, %ld delivered", s->ok.load(), s->got.load());
    delete s;
    VF_CHECK(book.live.load() == 0, "life.leak", "%ld element objects alive after the channel and its users are gone", book.live.load());
    count("elements", uint64_t(book.ctor.load()));
    // undelivered elements are destroyed with the channel
    {
        Opts one; long live = 0;
        c.run({ [&] { install(one, 0); std::unique_ptr<Ch> ch(mk()); if constexpr (BUF) { for (int i = 0; i < 3; ++i) { V v(i); ch->try_push(std::move(v)); } if (c.rng.chance(1, 2)) { V v; ch->try_pop(v); v.check("delivered"); } } else { bf::fiber p([&] { V v(7); ch->push(std::move(v)); }); boost::this_fiber::yield(); ch->close(); p.join(); } ch.reset(); live = book.live.load(); } });
        VF_CHECK(live == 0, "life.leak", "%ld elements survive their channel", live);
    }
}
VF_FAMILY(chanlife) {
    int cap = 1 << c.rng.range(1, 3);
    switch (c.rng.below(4)) {
    case 0: scenario<Tok, bf::buffered_channel<Tok>, true>(c, [cap] { return new bf::buffered_channel<Tok>(std::size_t(cap)); }); break;
    case 1: scenario<MTok, bf::buffered_channel<MTok>, true>(c, [cap] { return new bf::buffered_channel<MTok>(std::size_t(cap)); }); break;
    case 2: scenario<Tok, bf::unbuffered_channel<Tok>, false>(c, [] { return new bf::unbuffered_channel<Tok>(); }); break;
    default: scenario<MTok, bf::unbuffered_channel<MTok>, false>(c, [] { return new bf::unbuffered_channel<MTok>(); }); break;
    }
}

"""Small mutations used to measure the checks (never applied to /repo): name, file, old, new, checks, occurrence."""
M = []
def m(name, file, old, new, props, nth=0):
    M.append((name, file, old, new, props.split(), nth))
S = "src/"; I = "include/boost/fiber/"
# ---- scheduler
f = S + "scheduler.cpp"
m("sch-release-one", f, "while ( ! terminated_queue_.empty() ) {", "if ( ! terminated_queue_.empty() ) {", "C15 C28 C24")
m("sch-remote-lifo", f, "context * ctx = & tmp.front();\n        tmp.pop_front();\n        // store", "context * ctx = & tmp.front();\n        tmp.pop_front();\n        if ( ! tmp.empty() ) { context * c2 = & tmp.front(); tmp.pop_front(); schedule( c2); }\n        // store", "C17 C18 C16")
m("sch-remote-one", f, "while ( ! tmp.empty() ) {\n        context", "if ( ! tmp.empty() ) {\n        context", "C18")
m("sch-sleep-strict", f, "ctx->tp_ <= now", "ctx->tp_ < now", "C19")
m("sch-sleep-one", f, "ctx->sleep_waker_.wake();\n        } else", "ctx->sleep_waker_.wake();\n            break;\n        } else", "C19 C16")
m("sch-sleep-early", f, "ctx->tp_ <= now", "ctx->tp_ <= now + std::chrono::microseconds( 50)", "C19 C05 C03")
m("sch-shutdown-nonotify", f, "algo_->notify();\n            if", "if", "C17 C28")
m("sch-shutdown-noempty", f, "if ( worker_queue_.empty() ) {\n                break;\n            }", "break;", "C28")
m("sch-release-after", f, "release_terminated_();\n#if", "#if", "C15 C24 C28 C25")
m("sch-release-final", f, "// release termianted context'\n    release_terminated_();", "", "C15 C24 C25 C28")
m("sch-suspend-max", f, "suspend_time = i->tp_;", "if ( sleep_queue_.size() < 2) suspend_time = i->tp_;", "C19")
m("sch-suspend-last", f, "sleep_queue_type::iterator i = sleep_queue_.begin();\n            if ( sleep_queue_.end() != i) {\n                suspend_time = i->tp_;", "if ( ! sleep_queue_.empty() ) {\n                suspend_time = sleep_queue_.rbegin()->tp_;", "C19")
m("sch-sched-nounlink", f, "ctx->sleep_unlink();\n    }\n    // push", "}\n    // push", "C03 C05 C24")
m("sch-remote-nonotify", f, "algo->notify();", "if ( ! algo->has_ready_fibers() ) algo->notify();", "C18 C23")
m("sch-remote-notify-drop", f, "algo->notify();", "(void) algo;", "C18")
m("sch-remote-nolock", f, "detail::spinlock_lock lk{ remote_ready_splk_ };\n    remote_ready_queue_.swap", "detail::spinlock_lock lk{ remote_ready_splk_, std::defer_lock };\n    remote_ready_queue_.swap", "C18 C23")
m("sch-remote-wrongorder", f, "sleep2ready_();\n        // get next", "// get next", "C19")
m("sch-sleep-only-idle", f, "sleep2ready_();\n        // get next", "if ( ! algo_->has_ready_fibers() ) sleep2ready_();\n        // get next", "C19 C16")
m("sch-remote-only-idle", f, "remote_ready2ready_();\n#endif\n        // get sleeping", "if ( ! algo_->has_ready_fibers() ) remote_ready2ready_();\n#endif\n        // get sleeping", "C18")
m("sch-release-only-idle", f, "release_terminated_();\n#if ! defined", "if ( ! algo_->has_ready_fibers() ) release_terminated_();\n#if ! defined", "C25")
m("sch-term-worker", f, "ctx->worker_unlink();\n    // release lock", "// release lock", "C28 C15 C24")
m("sch-term-unlock-early", f, "ctx->terminated_link( terminated_queue_);\n    // remove from the worker-queue\n    ctx->worker_unlink();\n    // release lock\n    lk.unlock();", "ctx->worker_unlink();\n    lk.unlock();\n    ctx->terminated_link( terminated_queue_);", "C15 C24 C23")
m("sch-wait-true", f, "return std::chrono::steady_clock::now() < sleep_tp;", "return std::chrono::steady_clock::now() <= sleep_tp;", "C19 C05 C03", 1)
m("sch-wait-always-true", f, "return std::chrono::steady_clock::now() < sleep_tp;", "return true;", "C05 C03 C13", 1)
m("sch-setalgo-one", f, "while ( algo_->has_ready_fibers() ) {", "if ( algo_->has_ready_fibers() ) {", "C17 C22")
m("sch-setalgo-skip", f, "while ( algo_->has_ready_fibers() ) {\n        algo->awakened( algo_->pick_next() );\n    }", "", "C17")
m("sch-yield-nosched", f, "algo_->pick_next()->resume( ctx);", "if ( ! algo_->has_ready_fibers() ) return;\n    algo_->pick_next()->resume( ctx);", "C16 C17 C28")
m("sch-dispatch-nopush", f, "ctx->resume( dispatcher_ctx_.get() );", "ctx->resume( dispatcher_ctx_.get() );\n            if ( algo_->has_ready_fibers() ) { context * n = algo_->pick_next(); n->resume( dispatcher_ctx_.get() ); }", "C16 C17 C18 C19")
m("sch-shutdown-fss", f, "shutdown_ = true;", "shutdown_ = ! algo_->has_ready_fibers() || true;", "")
m("sch-detach-nonull", f, "ctx->scheduler_ = nullptr;", "", "")
# ---- context
f = S + "context.cpp"
m("ctx-props-leak", f, "delete properties_;\n}", "}", "C22 C24")
m("ctx-setprops-leak", f, "delete properties_;\n    properties_ = props;", "properties_ = props;", "")
m("ctx-unlock-early", f, "prev->c_ = std::move( c);\n                lk.unlock();", "lk.unlock();\n                prev->c_ = std::move( c);", "C18 C23 C20 C01")
m("ctx-sched-early", f, "prev->c_ = std::move( c);\n                context::active()->schedule( ready_ctx);", "context::active()->schedule( ready_ctx);\n                prev->c_ = std::move( c);", "C20 C23 C17")
m("ctx-join-nolock", f, "std::unique_lock< detail::spinlock > lk{ splk_ };\n    // wait for context", "std::unique_lock< detail::spinlock > lk{ splk_ };\n    lk.unlock(); lk.lock();\n    // wait for context", "")
m("ctx-join-check-early", f, "std::unique_lock< detail::spinlock > lk{ splk_ };\n    // wait for context which is not terminated\n    if ( ! terminated_) {", "const bool t = terminated_;\n    std::unique_lock< detail::spinlock > lk{ splk_ };\n    if ( ! t) {", "C15 C23")
m("ctx-term-fss-late", f, "release_fss_data_();\n    // protect", "// protect", "C21 C24")
m("ctx-term-notify-one", f, "wait_queue_.notify_all();\n    BOOST_ASSERT( wait_queue_.empty() );\n    // switch", "wait_queue_.notify_one();\n    // switch", "")
m("ctx-term-order", f, "    // mark as terminated\n    terminated_ = true;\n    // notify all waiting fibers\n    wait_queue_.notify_all();", "    // notify all waiting fibers\n    wait_queue_.notify_all();\n    lk.unlock(); lk.lock();\n    // mark as terminated\n    terminated_ = true;", "C15")
m("ctx-wake-plus2", f, "epoch + 1, std::memory_order_acq_rel", "epoch, std::memory_order_acq_rel", "C04 C05 C18 C03")
m("ctx-wake-relaxed", f, "epoch + 1, std::memory_order_acq_rel", "epoch + 1, std::memory_order_relaxed", "C23")
m("ctx-wake-nochk", f, "if ( ! is_last_waker) {", "if ( ! is_last_waker && expected < epoch) {", "C05 C03 C24")
m("ctx-wake-remote", f, "if ( context::active()->get_scheduler() == get_scheduler()) {\n        get_scheduler()->schedule( this);", "if ( context::active()->get_scheduler() == get_scheduler() || ! sleep_is_linked()) {\n        get_scheduler()->schedule( this);", "C18 C23")
m("ctx-fss-noclean", f, "if( cleanup_existing) {", "if( cleanup_existing && nullptr != data) {", "C21")
m("ctx-fss-clean-always", f, "if( cleanup_existing) {", "{", "C21")
m("ctx-fss-noerase", f, "fss_data_.erase( i);\n        }\n    } else", "i->second.vp = nullptr;\n        }\n    } else", "C21")
m("ctx-fss-keepfn", f, "i->second = fss_data{ data, cleanup_fn };", "i->second.vp = data;", "C21")
m("ctx-fss-release-last", f, "fss_data_t::iterator i = fss_data_.begin();\n        fss_data data = i->second;\n        fss_data_.erase( i);\n        data.do_cleanup();", "fss_data_t::iterator i = fss_data_.begin();\n        i->second.do_cleanup();\n        fss_data_.erase( i);", "C21")
m("ctx-init-swap", f, "active()->get_scheduler()->set_algo(algo);", "if ( ! active()->get_scheduler()->has_ready_fibers() ) active()->get_scheduler()->set_algo(algo);", "C17 C22")
m("ctx-init-stack", f, "sched->attach_dispatcher_context( make_dispatcher_context(std::move(salloc)) );", "sched->attach_dispatcher_context( make_dispatcher_context(make_stack_allocator_wrapper<default_stack>()) );", "C25")
m("ctx-main-leak", f, "delete main_ctx;", "", "C24")
m("ctx-sched-leak", f, "delete sched;\n        delete main_ctx;", "sched->~scheduler();\n        delete main_ctx;", "C24")
m("ctx-disp-size", f, "reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );", "reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) - 4096 );", "C25 C24")
# ---- context.hpp
f = I + "context.hpp"
m("ctxh-epoch-load", f, "return { this, ++waker_epoch_ };", "return { this, waker_epoch_.load() + 1 };", "C04 C01")
m("ctxh-epoch-noinc", f, "return { this, ++waker_epoch_ };", "return { this, waker_epoch_ ? waker_epoch_.load() : ++waker_epoch_ };", "C05 C03 C08")
m("ctxh-addref", f, "if ( 1 == ctx->use_count_.fetch_sub( 1, std::memory_order_release) ) {\n            std::atomic_thread_fence( std::memory_order_acquire);\n            boost", "if ( 1 == ctx->use_count_.fetch_sub( 1, std::memory_order_relaxed) ) {\n            boost", "C23")
m("ctxh-nofence", f, "std::atomic_thread_fence( std::memory_order_acquire);\n            boost", "boost", "C23")
m("ctxh-id-lt", f, "return impl_ < other.impl_;", "return impl_ <= other.impl_;", "C15")
m("ctxh-id-gt", f, "return ! ( * this > other);", "return ! ( other < * this);", "")
m("ctxh-fn-copy-late", f, "auto fn = std::move( fn_);\n            auto arg = std::move( arg_);", "auto & fn = fn_;\n            auto & arg = arg_;", "C15 C24")
m("ctxh-props-ctx", f, "properties->set_context(this);", "", "C22")
m("ctxh-stack-size", f, "reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );\n    const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);\n    try", "reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );\n    const std::size_t size = static_cast< std::size_t >( sctx.size);\n    try", "C25")
m("ctxh-align", f, "& ~ static_cast< uintptr_t >( 0xff) );\n    void * stack_bottom", "& ~ static_cast< uintptr_t >( 0x07) );\n    void * stack_bottom", "C24 C25")
m("ctxh-addref-plain", f, "ctx->use_count_.fetch_add( 1, std::memory_order_relaxed);", "ctx->use_count_.store( ctx->use_count_.load( std::memory_order_relaxed) + 1, std::memory_order_relaxed);", "")
# ---- waker
f = S + "waker.cpp"
m("wk-push-front", f, "slist_.push_back(w);", "slist_.push_front(w);", "C16 C02 C04 C07 C09", 0)
m("wk-push-front-timed", f, "slist_.push_back(w);", "slist_.push_front(w);", "C16 C05 C03 C07", 1)
m("wk-timed-norelock", f, "if ( w.is_linked()) {\n            slist_.remove( w);\n        }", "if ( w.is_linked()) {\n            slist_.remove( w);\n        } else { lk.unlock(); return false; }", "C05 C03")
m("wk-timed-noremove", f, "if ( w.is_linked()) {\n            slist_.remove( w);\n        }", "", "C05 C03 C24")
m("wk-timed-keep-lock", f, "return true;\n}\n\nvoid\nwait_queue::notify_one", "if ( ! w.notified_) return false;\n    return true;\n}\n\nvoid\nwait_queue::notify_one", "")
m("wk-one-stop", f, "if ( w.wake()) {\n            break;\n        }\n        w.notified_ = false;", "if ( ! w.wake()) w.notified_ = false;\n        break;", "C05 C03 C08")
m("wk-one-all", f, "if ( w.wake()) {\n            break;\n        }\n        w.notified_ = false;", "w.wake();", "C04")
m("wk-all-stop", f, "while ( ! slist_.empty() ) {", "for ( int n = 0; n < 4 && ! slist_.empty(); ++n) {", "C04 C06 C08", 1)
# ---- fiber
f = S + "fiber.cpp"
m("fb-join-self", f, "if ( BOOST_UNLIKELY( context::active()->get_id() == get_id() ) ) {", "if ( false) {", "C15")
m("fb-join-notjoinable", f, "if ( BOOST_UNLIKELY( ! joinable() ) ) {\n        throw fiber_error{ std::make_error_code( std::errc::invalid_argument),\n                           \"boost fiber: fiber not joinable\" };\n    }\n    impl_->join();", "if ( ! joinable() ) return;\n    impl_->join();", "C15")
m("fb-detach-silent", f, "if ( BOOST_UNLIKELY( ! joinable() ) ) {\n        throw fiber_error{ std::make_error_code( std::errc::invalid_argument),\n                           \"boost fiber: fiber not joinable\" };\n    }\n    impl_.reset();", "impl_.reset();", "C15")
m("fb-join-noreset", f, "impl_->join();\n    impl_.reset();", "impl_->join();", "C15")
m("fb-dispatch-post", f, "impl_->resume( ctx);", "ctx->get_scheduler()->schedule( impl_.get() );", "C16")
m("fb-post-dispatch", f, "ctx->get_scheduler()->schedule( impl_.get() );", "impl_->resume( ctx);", "C16")
f = I + "fiber.hpp"
m("fbh-dtor", f, "if ( joinable() ) {\n            std::terminate();\n        }\n    }\n\n    fiber( fiber const", "if ( joinable() ) {\n            detach();\n        }\n    }\n\n    fiber( fiber const", "C15")
m("fbh-assign-term", f, "if ( joinable() ) {\n            std::terminate();\n        }\n        if", "if", "C15")
# ---- properties
f = S + "properties.cpp"
m("pr-notify-always", f, "if ( ctx_->ready_is_linked() ) {", "if ( nullptr != algo_) {", "C22")
m("pr-notify-never", f, "if ( ctx_->ready_is_linked() ) {", "if ( ctx_->ready_is_linked() && ! ctx_->is_context( type::main_context) ) {", "C22")
f = I + "algo/algorithm.hpp"
m("al-setalgo-once", f, "        props->set_algorithm( this);", "", "C22")
m("al-alg-release", f, "if ( 1 == algo->use_count_.fetch_sub( 1, std::memory_order_release) ) {\n            std::atomic_thread_fence( std::memory_order_acquire);", "if ( 1 == algo->use_count_.fetch_sub( 1, std::memory_order_relaxed) ) {", "C23")
m("al-newprops-each", f, "if ( BOOST_LIKELY( nullptr == props) ) {", "if ( nullptr == props || ctx == nullptr ) {", "C22")
# ---- round robin
f = S + "algo/round_robin.cpp"
m("rr-front", f, "ctx->ready_link( rqueue_);", "if ( ctx->is_context( type::main_context) ) rqueue_.push_front( * ctx); else ctx->ready_link( rqueue_);", "C16")
m("rr-flag-noreset", f, "flag_ = false;", "", "C16 C17 C18 C19", 0)
m("rr-flag-noreset2", f, "flag_ = false;", "", "C16 C17 C18 C19", 1)
m("rr-flag-early", f, "cnd_.wait( lk, [&](){ return flag_; });", "flag_ = false;\n        cnd_.wait( lk, [&](){ return flag_; });", "C18 C17")
m("rr-nopred", f, "cnd_.wait_until( lk, time_point, [&](){ return flag_; });", "cnd_.wait_until( lk, time_point);", "C18 C17")
m("rr-notify-nolock", f, "std::unique_lock< std::mutex > lk{ mtx_ };\n    flag_ = true;\n    lk.unlock();", "flag_ = true;", "C18 C23")
# ---- shared_work
f = S + "algo/shared_work.cpp"
m("sw-pinned", f, "if ( ctx->is_context( type::pinned_context) ) {", "if ( ctx->is_context( type::dispatcher_context) ) {", "C20")
m("sw-lifo", f, "rqueue_.push_back( ctx);", "rqueue_.push_front( ctx);", "C20")
m("sw-lfirst", f, "if ( ! rqueue_.empty() ) {", "if ( ! rqueue_.empty() && lqueue_.empty() ) {", "C20")
m("sw-noattach", f, "context::active()->attach( ctx);", "if ( ! ctx->get_scheduler() ) context::active()->attach( ctx);", "")
m("sw-detach-late", f, "ctx->detach();\n        std::unique_lock< std::mutex > lk{ rqueue_mtx_ }; /*<\n                worker fiber, enqueue on shared queue\n            >*/\n        rqueue_.push_back( ctx);", "std::unique_lock< std::mutex > lk{ rqueue_mtx_ };\n        rqueue_.push_back( ctx);\n        lk.unlock();\n        ctx->detach();", "C20 C23")
m("sw-flag", f, "cnd_.wait( lk, [this](){ return flag_; });", "cnd_.wait( lk);", "C20 C18")
m("sw-notify", f, "lk.unlock();\n        cnd_.notify_all();", "lk.unlock();\n        if ( rqueue_.empty() ) cnd_.notify_all();", "C20 C23")
# ---- work stealing
f = S + "algo/work_stealing.cpp"
m("ws-pinned-steal", I + "detail/context_spmc_queue.hpp", "if ( 0 != ( slot & 1) ) {", "if ( false) {", "C20 C26")
m("ws-pinned-steal2", I + "detail/context_spinlock_queue.hpp", "if ( c->is_context( type::pinned_context) ) {", "if ( false) {", "C20 C26")
m("ws-noattach", f, "BOOST_ASSERT( ! victim->is_context( type::pinned_context) );\n            context::active()->attach( victim);", "", "C20")
m("ws-detach-late", f, "if ( ! ctx->is_context( type::pinned_context) ) {\n        ctx->detach();\n    }\n    rqueue_.push( ctx);", "rqueue_.push( ctx);\n    if ( ! ctx->is_context( type::pinned_context) ) {\n        ctx->detach();\n    }", "C20 C23")
m("ws-suspend-flag", f, "cnd_.wait( lk, [this](){ return flag_; });", "flag_ = false;\n            cnd_.wait( lk, [this](){ return flag_; });", "C20")
m("ws-nobarrier", f, "b.wait();", "", "C20 C24")
m("ws-self", f, "} while ( id == id_);", "} while ( false);", "")
# ---- numa
f = S + "numa/algo/work_stealing.cpp"
m("nu-local", f, "if ( node_id == node.id) {", "if ( node_id >= node.id) {", "C27")
m("nu-remote", f, "if ( node_id != node.id) {", "if ( node_id < node.id) {", "C27")
m("nu-max", f, "max_cpu_id + 1, nullptr", "max_cpu_id, nullptr", "C27 C24")
m("nu-nopin", f, "boost::fibers::numa::pin_thread( cpu_id_);", "", "C27")
m("nu-remote-first", f, "while ( 1 < size && nullptr == victim && count < size) {", "while ( 1 < size && nullptr == victim && count < size - 1) {", "")
m("nu-noattach", f, "// move memory from remote NUMA-node to\n                // memory of local NUMA-node\n                context::active()->attach( victim);", "", "C27")
# ---- mutexes
for k, fn in (("mtx", "mutex"), ("tmx", "timed_mutex")):
    f = S + fn + ".cpp"; P = "C01 C02 C03" if k == "tmx" else "C01 C02"
    m(k + "-lock-self", f, "if ( BOOST_UNLIKELY( active_ctx == owner_) ) {", "if ( false) {", P, 0)
    m(k + "-try-self", f, "if ( BOOST_UNLIKELY( active_ctx == owner_) ) {", "if ( false) {", P, 1)
    m(k + "-unlock-nonown", f, "if ( BOOST_UNLIKELY( active_ctx != owner_) ) {", "if ( nullptr == owner_) {", P)
    m(k + "-unlock-nonotify", f, "owner_ = nullptr;\n\n    wait_queue_.notify_one();", "owner_ = nullptr;\n\n    lk.unlock();\n    if ( ! wait_queue_.empty() ) wait_queue_.notify_one();", "C23 " + P)
    m(k + "-if", f, "while ( true) {", "for ( int i = 0; i < 2; ++i) {", P)
    m(k + "-try-nolock", f, "const bool owned = nullptr == owner_;\n    if ( owned) {\n        owner_ = active_ctx;\n    }", "const bool owned = nullptr == owner_ && wait_queue_.empty();\n    if ( owned) {\n        owner_ = active_ctx;\n    }", P)
for k, fn in (("rmx", "recursive_mutex"), ("rtm", "recursive_timed_mutex")):
    f = S + fn + ".cpp"; P = "C01 C02 C03" if k == "rtm" else "C01 C02"
    m(k + "-count2", f, "} else if ( active_ctx == owner_) {\n        ++count_;\n    }", "}", P)
    m(k + "-try-count", f, "owner_ = active_ctx;\n        count_ = 1;\n    } else", "owner_ = active_ctx;\n        count_ += 1;\n    } else", "")
    m(k + "-unlock-keep", f, "if ( 0 == --count_) {", "if ( 1 >= count_--) {", "")
    m(k + "-unlock-always", f, "if ( 0 == --count_) {", "if ( 2 > --count_) {", P)
    m(k + "-unlock-nonown", f, "if ( BOOST_UNLIKELY( active_ctx != owner_) ) {", "if ( nullptr == owner_) {", P)
    m(k + "-notify-last", f, "owner_ = nullptr;\n        wait_queue_.notify_one();", "owner_ = nullptr;\n        if ( ! wait_queue_.empty() ) { lk.unlock(); wait_queue_.notify_one(); }", "C23 " + P)
for k, fn in (("tmx", "timed_mutex"), ("rtm", "recursive_timed_mutex")):
    f = S + fn + ".cpp"
    m(k + "-until-expired-first", f, "if ( nullptr == owner_) {\n            owner_ = active_ctx;", "if ( std::chrono::steady_clock::now() > timeout_time) {\n            return false;\n        }\n        if ( nullptr == owner_) {\n            owner_ = active_ctx;", "C03")
    m(k + "-until-timeout-true", f, "if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n            return false;\n        }", "wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time);", "")
    m(k + "-until-once", f, "if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n            return false;\n        }", "wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time);\n        lk.lock();\n        if ( nullptr != owner_) return false;\n        owner_ = active_ctx;" + ("\n        count_ = 1;" if k == "rtm" else "") + "\n        return true;", "C03")
# ---- barrier
f = S + "barrier.cpp"
m("ba-zero", f, "if ( BOOST_UNLIKELY( 0 == initial) ) {", "if ( false) {", "C06")
m("ba-nopred", f, "cond_.wait( lk, [&]{ return cycle != cycle_; });", "cond_.wait( lk);", "")
m("ba-notify-one", f, "cond_.notify_all();", "for ( std::size_t i = 1; i + 1 < initial_; ++i) cond_.notify_one();", "C06")
m("ba-true-all", f, "cond_.wait( lk, [&]{ return cycle != cycle_; });\n    return false;", "cond_.wait( lk, [&]{ return cycle != cycle_; });\n    return current_ == 1;", "C06")
m("ba-cyclecmp", f, "const std::size_t cycle = cycle_;\n    if", "const std::size_t cycle = cycle_;\n    lk.unlock(); lk.lock();\n    if", "C06")
# ---- cv
f = I + "condition_variable.hpp"
m("cv-wait-if", f, "while ( ! pred() ) {\n            wait( lt);\n        }", "if ( ! pred() ) {\n            wait( lt);\n        }", "C04")
m("cv-until-relock", f, "if ( cv_status::timeout == wait_until( lt, timeout_time) ) {\n                return pred();\n            }", "wait_until( lt, timeout_time);\n            return pred();", "C05")
m("cv-until-nostatus", f, "status = cv_status::timeout;", "status = std::chrono::steady_clock::now() < timeout_time ? cv_status::no_timeout : cv_status::timeout;", "")
m("cv-for-nopred", f, "return wait_until( lt,\n                           std::chrono::steady_clock::now() + timeout_duration,\n                           pred);", "wait_until( lt,\n                           std::chrono::steady_clock::now() + timeout_duration);\n        return pred();", "C05")
m("cv-until-unlock-early", f, "detail::spinlock_lock lk{ wait_queue_splk_ };\n        // unlock external lt\n        lt.unlock();", "lt.unlock();\n        detail::spinlock_lock lk{ wait_queue_splk_ };", "C05")
m("cv-one-nolock", S + "condition_variable.cpp", "detail::spinlock_lock lk{ wait_queue_splk_ };\n    wait_queue_.notify_one();", "detail::spinlock_lock lk{ wait_queue_splk_, std::try_to_lock };\n    if ( lk) wait_queue_.notify_one();", "C04")
m("cv-all-one", S + "condition_variable.cpp", "wait_queue_.notify_all();", "wait_queue_.notify_one();\n    if ( ! wait_queue_.empty() ) { lk.unlock(); lk.lock(); wait_queue_.notify_all(); }", "")
# ---- convert
f = I + "detail/convert.hpp"
m("cvt-twice", f, "return std::chrono::steady_clock::now() + ( timeout_time - Clock::now() );", "return std::chrono::steady_clock::now() + ( Clock::now() - timeout_time );", "C19 C05")
m("cvt-trunc", f, "return std::chrono::steady_clock::now() + ( timeout_time - Clock::now() );", "return std::chrono::steady_clock::now() + std::chrono::duration_cast< std::chrono::seconds >( timeout_time - Clock::now() );", "C19 C05")
# ---- buffered channel
f = I + "buffered_channel.hpp"
m("bc-full", f, "return cidx_ == ((pidx_ + 1) % capacity_);", "return cidx_ == ((pidx_ + 2) % capacity_);", "C07")
m("bc-capa", f, "2 > capacity_ || 0 !=", "1 > capacity_ || 0 !=", "C07")
m("bc-capa-pow", f, "2 > capacity_ || 0 != ( capacity_ & (capacity_ - 1) )", "2 > capacity_", "C07")
m("bc-close-prod", f, "waiting_producers_.notify_all();\n            waiting", "waiting", "C08")
m("bc-close-one", f, "waiting_producers_.notify_all();\n            waiting", "waiting_producers_.notify_one();\n            waiting", "C08")
m("bc-trypush-nonotify", f, "waiting_consumers_.notify_one();", "", "C08", 0)
m("bc-trypushm-nonotify", f, "waiting_consumers_.notify_one();", "", "C08", 1)
m("bc-push-nonotify", f, "waiting_consumers_.notify_one();", "", "C08", 2)
m("bc-pushm-nonotify", f, "waiting_consumers_.notify_one();", "", "C08", 3)
m("bc-pushw-nonotify", f, "waiting_consumers_.notify_one();", "", "C08", 4)
m("bc-pushwm-nonotify", f, "waiting_consumers_.notify_one();", "", "C08", 5)
for i, n in enumerate(("trypop", "pop", "vpop", "popw")):
    m("bc-%s-nonotify" % n, f, "waiting_producers_.notify_one();", "", "C08", i)
    m("bc-%s-notify-full" % n, f, "cidx_ = (cidx_ + 1) % capacity_;\n", "const bool was_full = is_full_();\n cidx_ = (cidx_ + 1) % capacity_;\n if ( was_full)\n", "C08", i)
m("bc-push-notify-empty", f, "pidx_ = (pidx_ + 1) % capacity_;\n                waiting_consumers_.notify_one();", "const bool was_empty = is_empty_();\n                pidx_ = (pidx_ + 1) % capacity_;\n                if ( was_empty) waiting_consumers_.notify_one();", "C08", 0)
m("bc-pop-closed", f, "if ( is_empty_() ) {\n                if ( BOOST_UNLIKELY( is_closed_() ) ) {\n                    return channel_op_status::closed;\n                }\n                waiting_consumers_.suspend", "if ( is_closed_() ) {\n                    return channel_op_status::closed;\n                }\n            if ( is_empty_() ) {\n                waiting_consumers_.suspend", "C07 C08")
m("bc-trypop-closed", f, "return is_closed_()\n                ? channel_op_status::closed\n                : channel_op_status::empty;", "return channel_op_status::empty;", "C07 C08")
m("bc-trypush-closed", f, "if ( BOOST_UNLIKELY( is_closed_() ) ) {\n            return channel_op_status::closed;\n        }\n        if ( is_full_() ) {\n            return channel_op_status::full;\n        }\n        slots_[pidx_] = std::move", "if ( is_full_() ) {\n            return channel_op_status::full;\n        }\n        if ( BOOST_UNLIKELY( is_closed_() ) ) {\n            return channel_op_status::closed;\n        }\n        slots_[pidx_] = std::move", "C07 C08")
m("bc-pushw-closed", f, "if ( BOOST_UNLIKELY( is_closed_() ) ) {\n                return channel_op_status::closed;\n            }\n            if ( is_full_() ) {\n                if ( ! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return channel_op_status::timeout;\n                }\n            } else {\n                slots_[pidx_] = value;", "if ( is_full_() ) {\n                if ( ! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return channel_op_status::timeout;\n                }\n            if ( BOOST_UNLIKELY( is_closed_() ) ) {\n                return channel_op_status::closed;\n            }\n            } else {\n                slots_[pidx_] = value;", "C07 C08")
m("bc-dtor-noclose", f, "close();\n        delete [] slots_;", "delete [] slots_;", "")
m("bc-nodelete", f, "delete [] slots_;", "", "C24 C11")
m("bc-pop-copy", f, "value = std::move( slots_[cidx_]);", "value = slots_[cidx_];", "", 1)
m("bc-popw-order", f, "value = std::move( slots_[cidx_]);\n                cidx_ = (cidx_ + 1) % capacity_;", "value = std::move( slots_[cidx_]);\n                lk.unlock();\n                lk.lock();\n                cidx_ = (cidx_ + 1) % capacity_;", "C07", 1)
m("bc-it-eq", f, "return other.chan_ == chan_;", "return other.chan_ != chan_;", "")
# ---- unbuffered channel
f = I + "unbuffered_channel.hpp"
m("uc-close-prod", f, "detail::spinlock_lock lk{ splk_producers_ };\n                waiting_producers_.notify_all();", "", "C10")
m("uc-close-cons", f, "detail::spinlock_lock lk{ splk_consumers_ };\n                waiting_consumers_.notify_all();", "", "C10")
m("uc-close-prod-one", f, "waiting_producers_.notify_all();", "waiting_producers_.notify_one();", "C10")
m("uc-close-slot", f, "slot * s = try_pop_();\n            if ( nullptr != s) {\n                release_( s, slot_state::rejected);\n            }", "", "C10")
for i, n in enumerate(("push", "pushm", "pushw", "pushwm")):
    m("uc-%s-nonotify" % n, f, "if ( try_push_( & s) ) {\n                waiting_consumers_.notify_one();", "if ( try_push_( & s) ) {", "C10", i)
    m("uc-%s-norecheck" % n, f, "if ( is_empty_() ) {\n                continue;\n            }", "", "C10", i)
    m("uc-%s-noclosed" % n, f, "detail::spinlock_lock lk{ splk_producers_ };\n            if ( BOOST_UNLIKELY( is_closed() ) ) {\n                return channel_op_status::closed;\n            }", "detail::spinlock_lock lk{ splk_producers_ };", "C10", i)
for i, n in enumerate(("pop", "vpop", "popw")):
    m("uc-%s-nonotify" % n, f, "{\n                    detail::spinlock_lock lk{ splk_producers_ };\n                    waiting_producers_.notify_one();\n                }", "", "C10", i)
    m("uc-%s-norecheck" % n, f, "if ( ! is_empty_() ) {\n                continue;\n            }", "", "C10", i)
m("uc-closed-relaxed", f, "closed_.exchange( true, std::memory_order_acquire)", "closed_.exchange( true, std::memory_order_relaxed)", "")
m("uc-pop-relaxed", f, "slot_.compare_exchange_strong( s, nil_slot, std::memory_order_acq_rel)", "slot_.compare_exchange_strong( s, nil_slot, std::memory_order_relaxed)", "C23")
m("uc-push-relaxed", f, "slot_.compare_exchange_strong( s, own_slot, std::memory_order_acq_rel)", "slot_.compare_exchange_strong( s, own_slot, std::memory_order_relaxed)", "C09 C23")
m("uc-load-relaxed", f, "slot * s = slot_.load( std::memory_order_acquire);", "slot * s = slot_.load( std::memory_order_relaxed);", "")
# ---- shared state etc.
f = I + "future/detail/shared_state.hpp"
m("ss-notify-first", f, "ready_ = true;\n        lk.unlock();\n        waiters_.notify_all();", "lk.unlock();\n        waiters_.notify_all();\n        ready_ = true;", "C12 C13 C23")
m("ss-owner-ready", f, "if ( ! ready_) {\n            set_exception_(", "if ( ! ready_ && 1 < use_count_) {\n            set_exception_(", "")
m("ss-already-exc", f, "if ( BOOST_UNLIKELY( ready_) ) {\n            throw promise_already_satisfied();\n        }\n        except_ = except;", "if ( BOOST_UNLIKELY( ready_ && ! except_) ) {\n            throw promise_already_satisfied();\n        }\n        except_ = except;", "C12")
m("ss-already-val", f, "if ( BOOST_UNLIKELY( ready_) ) {\n            throw promise_already_satisfied{};\n        }", "if ( BOOST_UNLIKELY( ready_ && ! except_) ) {\n            throw promise_already_satisfied{};\n        }", "C12", 1)
m("ss-already-ref", f, "if ( BOOST_UNLIKELY( ready_) ) {\n            throw promise_already_satisfied();\n        }\n        value_", "value_", "C12")
m("ss-already-void", f, "if ( BOOST_UNLIKELY( ready_) ) {\n            throw promise_already_satisfied();\n        }\n        mark", "mark", "C12")
m("ss-dtor-noexc", f, "if ( ready_ && ! except_) {", "if ( ready_) {", "C12 C24")
m("ss-dtor-never", f, "if ( ready_ && ! except_) {", "if ( false) {", "C12 C24")
m("ss-get-noexc-void", f, "if ( except_) {\n            std::rethrow_exception( except_);\n        }\n    }", "}", "C12")
m("ss-geterr-nowait", f, "wait_( lk);\n        return except_;", "return except_;", "C12 C13")
m("ss-wait-for-nopred", f, "return waiters_.wait_for( lk, timeout_duration, [this](){ return ready_; })\n                    ? future_status::ready\n                    : future_status::timeout;", "if ( ready_) return future_status::ready;\n return cv_status::no_timeout == waiters_.wait_for( lk, timeout_duration)\n                    ? future_status::ready\n                    : future_status::timeout;", "C13")
m("ss-refcnt", f, "if ( 1 == p->use_count_.fetch_sub( 1, std::memory_order_release) ) {\n            std::atomic_thread_fence( std::memory_order_acquire);", "if ( 1 == p->use_count_.fetch_sub( 1, std::memory_order_relaxed) ) {", "C23")
f = I + "future/promise.hpp"
m("pm-dtor", f, "if ( future_ && obtained_) {", "if ( future_ && ! obtained_) {", "C12")
m("pm-move-obt", f, "other.obtained_ = false;\n    }", "}", "C12")
m("pm-swap", f, "std::swap( obtained_, other.obtained_);", "", "C12")
m("pm-already", f, "if ( BOOST_UNLIKELY( obtained_) ) {\n            throw future_already_retrieved{};\n        }", "", "C12")
m("pm-uninit", f, "if ( BOOST_UNLIKELY( obtained_) ) {\n            throw future_already_retrieved{};\n        }\n        if ( BOOST_UNLIKELY( ! future_) ) {\n            throw promise_uninitialized{};\n        }", "if ( BOOST_UNLIKELY( ! future_) ) {\n            throw future_already_retrieved{};\n        }\n        if ( BOOST_UNLIKELY( obtained_) ) {\n            throw future_already_retrieved{};\n        }", "C12")
m("pm-assign", f, "promise_base tmp{ std::move( other) };\n            swap( tmp);", "swap( other);", "C12")
f = I + "future/packaged_task.hpp"
m("pt-dtor", f, "if ( task_ && obtained_) {\n            task_->owner_destroyed();\n        }", "", "C14")
m("pt-move", f, "other.obtained_ = false;\n    }", "}", "C14")
m("pt-reset-obt", f, "obtained_ = false;\n    }\n};", "}\n};", "C14")
m("pt-valid", f, "return nullptr != task_.get();", "return nullptr != task_.get() || obtained_;", "")
m("pt-get2", f, "if ( obtained_) {\n            throw future_already_retrieved{};\n        }", "", "C14")
m("pt-run-exc", I + "future/detail/task_object.hpp", "} catch (...) {\n            this->set_exception( std::current_exception() );\n        }", "} catch ( std::exception const&) {\n            this->set_exception( std::current_exception() );\n        }", "C14", 0)
m("pt-run-exc-void", I + "future/detail/task_object.hpp", "} catch (...) {\n            this->set_exception( std::current_exception() );\n        }", "} catch ( std::exception const&) {\n            this->set_exception( std::current_exception() );\n        }", "C14", 1)
m("pt-run-set-before", I + "future/detail/task_object.hpp", "            this->set_value();\n", "", "C14")
f = I + "future/future.hpp"
m("fu-get-keep", f, "typename base_type::ptr_type tmp{};\n        tmp.swap( base_type::state_);\n        return std::move( tmp->get() );", "typename base_type::ptr_type tmp{ base_type::state_ };\n        return std::move( tmp->get() );", "C12")
m("fu-get-keep-void", f, "base_type::ptr_type tmp{};\n        tmp.swap( base_type::state_);\n        tmp->get();", "base_type::ptr_type tmp{ base_type::state_ };\n        tmp->get();\n        base_type::state_.reset();", "C12")
m("fu-get-uninit", f, "if ( BOOST_UNLIKELY( ! base_type::valid() ) ) {\n            throw future_uninitialized{};\n        }\n        typename base_type::ptr_type tmp{};\n        tmp.swap( base_type::state_);\n        return tmp->get();", "typename base_type::ptr_type tmp{};\n        tmp.swap( base_type::state_);\n        return tmp->get();", "C12 C24")
m("fu-wait-uninit", f, "if ( BOOST_UNLIKELY( ! valid() ) ) {\n            throw future_uninitialized{};\n        }\n        state_->wait();", "if ( valid() ) state_->wait();", "C12")
m("fu-waitfor-uninit", f, "if ( BOOST_UNLIKELY( ! valid() ) ) {\n            throw future_uninitialized{};\n        }\n        return state_->wait_for", "if ( ! valid() ) return future_status::timeout;\n        return state_->wait_for", "C12 C13")
m("fu-copy", f, "state_ = other.state_;\n            other.state_.reset();", "state_ = other.state_;", "C12")
# ---- fss
f = I + "fss.hpp"
m("fs-release-clean", f, "cleanup_fn_, nullptr, false);", "cleanup_fn_, nullptr, true);", "C21")
m("fs-reset-same", f, "if ( BOOST_LIKELY( c != t) ) {", "if ( true) {", "C21")
m("fs-dtor", f, "cleanup_fn_, nullptr, true);", "cleanup_fn_, nullptr, false);", "C21")
# ---- queues / locks / stacks
f = I + "detail/context_spinlock_queue.hpp"
m("sq-nolock-empty", f, "bool empty() const noexcept {\n        spinlock_lock lk{ splk_ };", "bool empty() const noexcept {", "C26 C23")
f = I + "detail/thread_barrier.hpp"
m("tb-cycle", f, "cycle_ = ! cycle_;", "cycle_ = true;", "C26")
m("tb-noreset", f, "current_ = initial_;", "", "C26")
for fn in ("spinlock_ttas", "spinlock_ttas_adaptive", "spinlock_ttas_futex", "spinlock_ttas_adaptive_futex"):
    f = I + "detail/" + fn + ".hpp"
    m(fn + "-unlock-relaxed", f, "std::memory_order_release)", "std::memory_order_relaxed)", "C26")
    m(fn + "-lock-relaxed", f, "std::memory_order_acquire)", "std::memory_order_relaxed)", "C26")
f = I + "detail/context_spmc_queue.hpp"
m("sp-nograow", f, "if ( (a->capacity() - 1) < (bottom - top) ) {", "if ( a->capacity() < (bottom - top) ) {", "C26")
m("sp-steal-nofence", f, "std::atomic_thread_fence( std::memory_order_seq_cst);\n        std::size_t bottom = bottom_.load( std::memory_order_acquire);", "std::size_t bottom = bottom_.load( std::memory_order_acquire);", "")
m("sp-push-nofence", f, "std::atomic_thread_fence( std::memory_order_release);\n        bottom_", "bottom_", "C26 C23")
m("sp-resize-drop", f, "for ( std::size_t i = top; i != bottom; ++i) {", "for ( std::size_t i = top + 1; i != bottom; ++i) {", "C26")
m("sp-resize-mod", f, "std::addressof( storage_[top % capacity_]) )\n                    ->load", "std::addressof( storage_[top % ( capacity_ - 1)]) )\n                    ->load", "C26")
m("sp-delete-old", f, "old_arrays_.push_back( a);\n            std::swap( a, tmp);\n            array_.store( a, std::memory_order_release);", "std::swap( a, tmp);\n            array_.store( a, std::memory_order_release);\n            delete tmp;", "C26")
m("sp-leak-old", f, "for ( array * a : old_arrays_) {\n            delete a;\n        }", "", "C26 C24")
m("sp-pop-norestore", f, "} else {\n            // queue is empty\n            bottom_.store( bottom + 1, std::memory_order_relaxed);", "} else {\n            // queue is empty", "C26")
m("sp-pop-lose", f, "// lose the race\n                    ctx = nullptr;", "", "C26")
m("sp-steal-lose", f, "// lose the race\n                return nullptr;", "", "C26")
m("sp-pop-last", f, "if ( top == bottom) {", "if ( false) {", "C26 C20")
f = I + "detail/context_spinlock_queue.hpp"
m("sq-resize-off", f, "pidx_ = capacity_ - 1;", "pidx_ = capacity_;", "C26")
m("sq-resize-wrap", f, "old_slots, pidx_ * sizeof", "old_slots, ( pidx_ - ( pidx_ ? 1 : 0) ) * sizeof", "C26")
m("sq-resize-cidx", f, "if ( 0 < cidx_) {", "if ( 1 < cidx_) {", "C26")
m("sq-resize-leak", f, "delete [] old_slots;", "", "C26 C24")
m("sq-full", f, "return cidx_ == ((pidx_ + 1) % capacity_);", "return false;", "C26")
m("sq-steal-nolock", f, "context * steal() {\n        spinlock_lock lk{ splk_ };", "context * steal() {", "C26 C20 C23")
m("sq-pop-lifo", f, "c = slots_[cidx_];\n\t\t\tcidx_ = (cidx_ + 1) % capacity_;\n\t\t}\n\t\treturn c;\n\t}\n\n\tcontext * steal", "pidx_ = (pidx_ + capacity_ - 1) % capacity_;\n\t\t\tc = slots_[pidx_];\n\t\t}\n\t\treturn c;\n\t}\n\n\tcontext * steal", "C26 C20")

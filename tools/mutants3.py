# Third wave: plausible "optimisations" and two-site changes, several lines each.
I = "include/boost/fiber/"
M = []
def m(id, props, *edits): M.append((id, edits, props if isinstance(props, list) else props.split()))
# --- mutexes
m("tm-waitcount", "C02 C03", (I + "timed_mutex.hpp", "    context                 *   owner_{ nullptr };", "    context                 *   owner_{ nullptr };\n    std::size_t waiting_{ 0 };"),
  ("src/timed_mutex.cpp", "        if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n            return false;\n        }", "        ++waiting_;\n        const bool notified = wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time);\n        if ( ! notified) {\n            detail::spinlock_lock lk2{ wait_queue_splk_ };\n            if ( waiting_) --waiting_;\n            return false;\n        }"),
  ("src/timed_mutex.cpp", "        wait_queue_.suspend_and_wait( lk, active_ctx);", "        ++waiting_;\n        wait_queue_.suspend_and_wait( lk, active_ctx);"),
  ("src/timed_mutex.cpp", "    wait_queue_.notify_one();", "    if ( 0 < waiting_) {\n        --waiting_;\n        wait_queue_.notify_one();\n    }"))
m("mx-unlock-clears-first", "C01", ("src/mutex.cpp", "    if ( BOOST_UNLIKELY( active_ctx != owner_) ) {", "    context * o = owner_;\n    owner_ = nullptr;\n    if ( BOOST_UNLIKELY( active_ctx != o) ) {"), ("src/mutex.cpp", "    owner_ = nullptr;\n\n", "\n"))
m("rm-try-counts-anyway", "C01", ("src/recursive_mutex.cpp", "    } else if ( active_ctx == owner_) {\n        ++count_;", "    } else {\n        ++count_;"))
m("mx-handoff", "C01 C02", ("src/mutex.cpp", "    owner_ = nullptr;\n\n    wait_queue_.notify_one();", "    wait_queue_.notify_one();\n    lk.unlock();\n    owner_ = nullptr;"))
m("mx-fast-path", "C01 C23", ("src/mutex.cpp", "    while ( true) {\n        context * active_ctx = context::active();", "    while ( true) {\n        context * active_ctx = context::active();\n        if ( active_ctx != owner_ && nullptr != owner_) { active_ctx->yield(); }"))
m("mx-notify-unlocked", "C02", ("src/mutex.cpp", "    wait_queue_.notify_one();", "    const bool waiters = ! wait_queue_.empty();\n    lk.unlock();\n    if ( waiters) {\n        lk.lock();\n        wait_queue_.notify_one();\n    }"))
m("rt-relock-timeout", "C03", ("src/recursive_timed_mutex.cpp", "            ++count_;\n            return true;", "            if ( std::chrono::steady_clock::now() > timeout_time) return false;\n            ++count_;\n            return true;"))
# --- condition variables
m("cv-waiters-hint", "C04", (I + "condition_variable.hpp", "    wait_queue          wait_queue_{};", "    wait_queue          wait_queue_{};\npublic:\n    std::atomic<int> hint_{ 0 };"),
  (I + "condition_variable.hpp", "        lt.unlock();\n        wait_queue_.suspend_and_wait( lk, active_ctx);\n", "        lt.unlock();\n        ++hint_;\n        wait_queue_.suspend_and_wait( lk, active_ctx);\n        --hint_;\n"),
  ("src/condition_variable.cpp", "    detail::spinlock_lock lk{ wait_queue_splk_ };\n    wait_queue_.notify_one();", "    if ( 0 == hint_.load() ) return;\n    detail::spinlock_lock lk{ wait_queue_splk_ };\n    wait_queue_.notify_one();"),
  (I + "condition_variable.hpp", "#include <functional>", "#include <functional>\n#include <atomic>"))
m("cv-until-check-first", "C05", (I + "condition_variable.hpp", "        // atomically call lt.unlock() and block on *this\n        // store this fiber in waiting-queue\n        detail::spinlock_lock lk{ wait_queue_splk_ };\n        // unlock external lt", "        if ( std::chrono::steady_clock::now() + std::chrono::nanoseconds( 50) >= timeout_time) return cv_status::timeout;\n        detail::spinlock_lock lk{ wait_queue_splk_ };\n        // unlock external lt"))
m("cv-relock-poll", "C04 C05", (I + "condition_variable.hpp", "        if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n            status = cv_status::timeout;\n        }", "        if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)\n             || std::chrono::steady_clock::now() >= timeout_time) {\n            status = cv_status::timeout;\n        }"))
m("cv-pred-before-lock", "C05", (I + "condition_variable.hpp", "            if ( cv_status::timeout == wait_until( lt, timeout_time) ) {\n                return pred();\n            }", "            const bool timeout = cv_status::timeout == wait_until( lt, timeout_time);\n            if ( timeout) {\n                lt.unlock(); const bool r = pred(); lt.lock();\n                return r;\n            }"))
# --- barrier
m("ba-count-early", "C06", ("src/barrier.cpp", "        ++cycle_;\n        current_ = initial_;\n        lk.unlock(); // no pessimization", "        ++cycle_;\n        lk.unlock(); // no pessimization\n        current_ = initial_;"))
m("ba-wait-spurious", "C06", ("src/barrier.cpp", "    cond_.wait( lk, [&]{ return cycle != cycle_; });", "    if ( 64 < initial_) { cond_.wait_for( lk, std::chrono::milliseconds( 50)); } else\n    cond_.wait( lk, [&]{ return cycle != cycle_; });"), ("src/barrier.cpp", "#include <mutex>", "#include <mutex>\n#include <chrono>"))
# --- buffered channel
m("bc-trypop-peek", "C08 C23", (I + "buffered_channel.hpp", "    channel_op_status try_pop( value_type & value) {", "    channel_op_status try_pop( value_type & value) {\n        if ( is_empty_() && ! closed_) return channel_op_status::empty;"))
m("bc-isclosed-nolock", "C23", (I + "buffered_channel.hpp", "    bool is_closed() const noexcept {\n", "    bool is_closed() const noexcept {\n        if ( closed_) return true;\n"))
m("bc-pop-closed-after-wait", "C08", (I + "buffered_channel.hpp", "                waiting_consumers_.suspend_and_wait( lk, active_ctx);\n            } else {\n                value = std::move", "                waiting_consumers_.suspend_and_wait( lk, active_ctx);\n                if ( is_closed() ) return channel_op_status::closed;\n            } else {\n                value = std::move"))
m("bc-hysteresis", "C08", (I + "buffered_channel.hpp", "                cidx_ = (cidx_ + 1) % capacity_;\n                waiting_producers_.notify_one();\n                return channel_op_status::success;", "                cidx_ = (cidx_ + 1) % capacity_;\n                if ( ( ( pidx_ - cidx_) & ( capacity_ - 1) ) <= capacity_ / 2) waiting_producers_.notify_all();\n                return channel_op_status::success;"))
m("bc-push-wakes-own", "C08", (I + "buffered_channel.hpp", "                slots_[pidx_] = value;\n                pidx_ = (pidx_ + 1) % capacity_;\n                waiting_consumers_.notify_one();", "                slots_[pidx_] = value;\n                pidx_ = (pidx_ + 1) % capacity_;\n                lk.unlock();\n                waiting_consumers_.notify_one();"))
m("bc-close-drop", "C07 C08", (I + "buffered_channel.hpp", "            closed_ = true;\n", "            closed_ = true;\n            if ( is_full_() ) pidx_ = ( pidx_ + capacity_ - 1) % capacity_;\n"))
m("bc-timeout-pop-steal", "C08", (I + "buffered_channel.hpp", "                if ( ! waiting_consumers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return channel_op_status::timeout;", "                if ( ! waiting_consumers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return is_closed() ? channel_op_status::closed : channel_op_status::timeout;"))
# --- unbuffered channel
m("uc-pushtimeout-leave", "C09 C11", (I + "unbuffered_channel.hpp", "        if ( slot_.compare_exchange_strong( s, nullptr, std::memory_order_acq_rel) ) {\n            // value has not been consumed, slot is free again\n            detail::spinlock_lock lk{ splk_producers_ };\n            waiting_producers_.notify_one();", "        if ( slot_.compare_exchange_strong( s, nullptr, std::memory_order_acq_rel) ) {\n            // value has not been consumed, slot is free again"))
m("uc-release-first", "C09 C23", (I + "unbuffered_channel.hpp", "                release_guard guard{ this, s };\n                value = std::move( s->value);", "                value_type & v = s->value;\n                release_( s, slot_state::consumed);\n                value = std::move( v);"))
m("uc-closed-pop-drains", "C10", (I + "unbuffered_channel.hpp", "            if ( nullptr != ( s = try_pop_() ) ) {", "            if ( is_closed() ) return channel_op_status::closed;\n            if ( nullptr != ( s = try_pop_() ) ) {"))
m("uc-pop-two-wakes", "C10", (I + "unbuffered_channel.hpp", "            if ( try_push_( & s) ) {\n                waiting_consumers_.notify_one();\n                // suspend till value", "            if ( try_push_( & s) ) {\n                lk_consumers.unlock();\n                { detail::spinlock_lock l{ splk_consumers_ }; waiting_consumers_.notify_one(); }\n                lk_consumers.lock();\n                // suspend till value"))
# --- futures
m("ss-wait-fast", "C12 C13 C23", (I + "future/detail/shared_state.hpp", "    void wait() const {\n", "    void wait() const {\n        if ( ready_) return;\n"))
m("ss-ready-status-fast", "C13 C23", (I + "future/detail/shared_state.hpp", "    future_status wait_for( std::chrono::duration< Rep, Period > const& timeout_duration) const {\n", "    future_status wait_for( std::chrono::duration< Rep, Period > const& timeout_duration) const {\n        if ( ready_) return future_status::ready;\n"))
m("ss-wait-until-loop", "C13", (I + "future/detail/shared_state.hpp", "        return waiters_.wait_until( lk, timeout_time, [this](){ return ready_; })\n", "        return ready_ || cv_status::no_timeout == waiters_.wait_until( lk, timeout_time)\n"))
m("ss-relaxed-refs", "C23 C12", (I + "future/detail/shared_state.hpp", "            std::atomic_thread_fence( std::memory_order_acquire);\n", ""))
m("pm-set-twice-race", "C12", (I + "future/detail/shared_state.hpp", "    void set_value( R && value) {\n        std::unique_lock< mutex > lk{ mtx_ };\n", "    void set_value( R && value) {\n        if ( ready_) throw promise_already_satisfied{};\n        R tmp( std::move( value) );\n        std::unique_lock< mutex > lk{ mtx_ };\n        if ( ready_) return;\n        set_value_( std::move( tmp), lk); return;\n"))
m("fu-shared-get-consumes", "C13", (I + "future/detail/shared_state.hpp", "    std::exception_ptr get_exception_ptr_( std::unique_lock< mutex > & lk) {\n        BOOST_ASSERT( lk.owns_lock() );\n        wait_( lk);\n        return except_;", "    std::exception_ptr get_exception_ptr_( std::unique_lock< mutex > & lk) {\n        BOOST_ASSERT( lk.owns_lock() );\n        wait_( lk);\n        return std::move( except_);"))
# --- scheduler
m("sc-remote-peek", "C23 C18", ("src/scheduler.cpp", "    remote_ready_queue_type tmp;\n", "    remote_ready_queue_type tmp;\n    if ( remote_ready_queue_.empty() ) return;\n"))
m("sc-yield-fast", "C16 C18 C19", ("src/scheduler.cpp", "    // resume another fiber\n    algo_->pick_next()->resume( ctx);", "    // resume another fiber\n    context * n = algo_->pick_next();\n    if ( n->is_context( type::dispatcher_context) && ! algo_->has_ready_fibers() ) { algo_->awakened( n); return; }\n    n->resume( ctx);"))
m("sc-sleep-cached-now", "C19", ("src/scheduler.cpp", "    std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();\n    sleep_queue", "    static thread_local unsigned n = 0;\n    static thread_local std::chrono::steady_clock::time_point now;\n    if ( 0 == n++ % 8) now = std::chrono::steady_clock::now();\n    sleep_queue"))
m("sc-setalgo-dispatcher-stop", "C17", ("src/scheduler.cpp", "        algo->awakened( algo_->pick_next() );\n", "        context * c = algo_->pick_next();\n        algo->awakened( c);\n        if ( c->is_context( type::dispatcher_context) ) break;\n"))
m("sc-setalgo-sleep", "C17 C19", ("src/scheduler.cpp", "    // move remaining context in current scheduler to new one\n", "    // move remaining context in current scheduler to new one\n    sleep_queue_.clear();\n"))
m("sc-term-dispatch", "C16", ("src/scheduler.cpp", "    return algo_->pick_next()->suspend_with_cc();\n}\n\nvoid\nscheduler::yield", "    context * n = algo_->pick_next();\n    if ( n->is_context( type::dispatcher_context) && algo_->has_ready_fibers() ) { context * o = algo_->pick_next(); algo_->awakened( n); n = o; }\n    return n->suspend_with_cc();\n}\n\nvoid\nscheduler::yield"))
m("sc-shutdown-sleepers", "C28", ("src/scheduler.cpp", "            if ( worker_queue_.empty() ) {", "            if ( worker_queue_.empty() || ( sleep_queue_.size() == worker_queue_.size() && ! algo_->has_ready_fibers() && sleep_queue_.size() > 3) ) {"))
m("sc-until-stale-tp", "C19", ("src/scheduler.cpp", "    // push active context to sleep-queue\n    ctx->sleep_waker_ = std::move( w);\n    ctx->tp_ = sleep_tp;\n    ctx->sleep_link( sleep_queue_);", "    // push active context to sleep-queue\n    ctx->sleep_waker_ = std::move( w);\n    ctx->sleep_link( sleep_queue_);\n    ctx->tp_ = sleep_tp;"))
m("sc-main-fss-after", "C28 C21", ("src/scheduler.cpp", "    main_ctx_->release_fss_data_();\n", ""), ("src/scheduler.cpp", "    // set active context to nullptr\n", "    main_ctx_->release_fss_data_();\n    // set active context to nullptr\n"))
m("sc-remote-skip-notify-if-queued", "C18", ("src/scheduler.cpp", "    // push new context to remote ready-queue\n", "    const bool first = remote_ready_queue_.empty() || main_ctx_->ready_is_linked();\n"), ("src/scheduler.cpp", "    algo->notify();\n}\n#endif", "    if ( first) algo->notify();\n}\n#endif"))
# --- context
m("cx-wake-active-thread", "C18 C20", ("src/context.cpp", "    if ( context::active()->get_scheduler() == get_scheduler()) {", "    static thread_local scheduler * mine = context::active()->get_scheduler();\n    if ( mine == get_scheduler()) {"))
m("cx-fss-release-once", "C21", ("src/context.cpp", "    while ( ! fss_data_.empty() ) {\n        fss_data_t::iterator i = fss_data_.begin();\n        fss_data data = i->second;\n        fss_data_.erase( i);\n        data.do_cleanup();\n    }", "    fss_data_t all;\n    all.swap( fss_data_);\n    for ( auto & e : all) {\n        e.second.do_cleanup();\n    }"))
m("cx-fss-release-inplace", "C21", ("src/context.cpp", "        fss_data data = i->second;\n        fss_data_.erase( i);\n        data.do_cleanup();", "        i->second.do_cleanup();\n        fss_data_.erase( i);"))
m("cx-term-fss-nonempty", "C21", ("src/context.cpp", "        i->second = fss_data{ data, cleanup_fn };\n        } else {", "        i->second.vp = data;\n        } else {"))
m("cx-join-spin", "C15", ("src/context.cpp", "    // get active context\n    context * active_ctx = context::active();\n    // protect for concurrent access\n    std::unique_lock< detail::spinlock > lk{ splk_ };\n", "    context * active_ctx = context::active();\n    if ( ! c_) { active_ctx->yield(); }\n    std::unique_lock< detail::spinlock > lk{ splk_ };\n"))
m("cx-main-priority", "C16", ("src/algo/round_robin.cpp", "    ctx->ready_link( rqueue_);", "    if ( ctx->is_context( type::main_context) && ! rqueue_.empty() ) { rqueue_.push_front( * ctx); return; }\n    ctx->ready_link( rqueue_);"))
m("cx-stack-wrapper-static", "C25", ("src/context.cpp", "    void initialize(algo::algorithm::ptr_t algo, stack_allocator_wrapper&& salloc)\n    {", "    void initialize(algo::algorithm::ptr_t algo, stack_allocator_wrapper&& salloc_)\n    {\n        stack_allocator_wrapper salloc = make_stack_allocator_wrapper<default_stack>(); (void)salloc_;"))
m("rr-flag-stale", "C18", ("src/algo/round_robin.cpp", "    context * victim = nullptr;\n    if ( ! rqueue_.empty() ) {", "    context * victim = nullptr;\n    if ( ! rqueue_.empty() ) {\n        { std::unique_lock< std::mutex > lk{ mtx_ }; flag_ = false; }"))
m("rr-short-sleep-spin", "C18 C19", ("src/algo/round_robin.cpp", "        cnd_.wait_until( lk, time_point, [&](){ return flag_; });", "        if ( time_point - std::chrono::steady_clock::now() > std::chrono::microseconds( 50) )\n            cnd_.wait_until( lk, time_point - std::chrono::microseconds( 50), [&](){ return flag_; });"))
m("sw-notify-one-flag", "C20", ("src/algo/shared_work.cpp", "        cnd_.wait_until( lk, time_point, [this](){ return flag_; });", "        cnd_.wait_until( lk, time_point);"))
m("sw-local-first-16", "C20", ("src/algo/shared_work.cpp", "    std::unique_lock< std::mutex > lk{ rqueue_mtx_ };\n    if ( ! rqueue_.empty() ) {", "    static thread_local unsigned n = 0;\n    std::unique_lock< std::mutex > lk{ rqueue_mtx_ };\n    if ( ! rqueue_.empty() && ( lqueue_.empty() || 0 != ++n % 2) ) {"))
m("sw-peek", "C23 C20", ("src/algo/shared_work.cpp", "    context * ctx = nullptr;\n    std::unique_lock< std::mutex > lk{ rqueue_mtx_ };", "    context * ctx = nullptr;\n    if ( rqueue_.empty() && ! lqueue_.empty() ) { ctx = & lqueue_.front(); lqueue_.pop_front(); return ctx; }\n    std::unique_lock< std::mutex > lk{ rqueue_mtx_ };"))
m("ws-attach-late", "C20", ("src/algo/work_stealing.cpp", "            BOOST_ASSERT( ! victim->is_context( type::pinned_context) );\n            context::active()->attach( victim);", "            BOOST_ASSERT( ! victim->is_context( type::pinned_context) );\n            schedulers_[id]->rqueue_.empty();\n            context::active()->attach( victim);\n            if ( schedulers_[id]->rqueue_.empty() ) notify();"))
m("sq-steal-half", "C26 C20", (I + "detail/context_spinlock_queue.hpp", "            if ( c->is_context( type::pinned_context) ) {\n                return nullptr;\n            }", "            if ( c->is_context( type::pinned_context) ) {\n                // skip the pinned one\n                std::size_t n = (cidx_ + 1) % capacity_;\n                if ( n == pidx_ || slots_[n]->is_context( type::pinned_context) ) return nullptr;\n                std::swap( slots_[cidx_], slots_[n]);\n                c = slots_[cidx_];\n            }"))
m("sq-grow-late", "C26 C24", (I + "detail/context_spinlock_queue.hpp", "		if ( is_full_() ) {\n			resize_();\n		}\n		slots_[pidx_] = c;\n		pidx_ = (pidx_ + 1) % capacity_;", "		slots_[pidx_] = c;\n		pidx_ = (pidx_ + 1) % capacity_;\n		if ( is_full_() ) {\n			resize_();\n		}"))
# --- properties
m("pr-notify-running", "C22", ("src/properties.cpp", "    if ( ctx_->ready_is_linked() ) {", "    if ( ctx_->ready_is_linked() || ctx_ == context::active() ) {"))
m("pr-algo-kept", "C22", (I + "algo/algorithm.hpp", "        props->set_algorithm( this);\n", "        if ( ! ctx->is_context( type::main_context) ) props->set_algorithm( this);\n"))
m("pr-set-context", "C22", (I + "context.hpp", "            properties->set_context(this);\n", ""))
# --- tasks
m("pt-run-moved-args", "C14", (I + "future/detail/task_object.hpp", "fn_, std::make_tuple( std::forward< Args >( args) ... ) )\n#endif\n                    );", "std::move( fn_), std::make_tuple( std::forward< Args >( args) ... ) )\n#endif\n                    );"))
m("pt-reset-keeps-old", "C14", (I + "future/packaged_task.hpp", "        tmp.obtained_ = obtained_;\n        obtained_ = false;", "        std::swap( tmp.obtained_, obtained_);\n        if ( tmp.obtained_) get_future();"))
m("as-dispatch-post", "C14 C16", (I + "future/async.hpp", "fiber{ policy, std::move", "fiber{ launch::post, std::move"))
# --- GPU
for k in ("cuda", "hip"):
    F = I + k + "/waitfor.hpp"
    m("gpu-refused-lost-" + k, "C29", (F, "                stx_.erase( st);\n                results_.push_back( std::make_tuple( st, status) );\n            }\n        }\n    }\n\n    void notify", "                stx_.erase( st);\n            }\n        }\n    }\n\n    void notify"))
    m("gpu-status-first-" + k, "C29", (F, "        status_ = status;\n        done_ = true;\n        // the", "        if ( ! done_) { done_ = true; cv_.notify_one(); lk.unlock(); lk.lock(); }\n        status_ = status;\n        // the"))
    m("gpu-multiset-" + k, "C29", (F, "    std::set< %sStream_t >  " % k, "    std::multiset< %sStream_t >  " % k), (F, "std::set< %sStream_t >{ l }" % k, "std::multiset< %sStream_t >{ l }" % k))
    m("gpu-notify-nolock-" + k, "C29", (F, "        stx_.erase( st);\n        results_.push_back( std::make_tuple( st, status) );\n        if", "        results_.push_back( std::make_tuple( st, status) );\n        lk.unlock();\n        stx_.erase( st);\n        lk.lock();\n        if"))
    m("gpu-refuse-single-" + k, "C29", (F, "            status_ = status;\n            done_ = true;\n        }\n    }\n\n    void notify", "            status_ = status;\n        }\n    }\n\n    void notify"))

"""Second wave: subtler mutations (multi-site, truncations, special conditions). Used to measure the checks only."""
M = []
def m(name, props, *edits): M.append((name, edits, props.split()))
S = "src/"; I = "include/boost/fiber/"
SC = S + "scheduler.cpp"; CX = S + "context.cpp"; CH = I + "context.hpp"; WK = S + "waker.cpp"; BC = I + "buffered_channel.hpp"; UC = I + "unbuffered_channel.hpp"; SS = I + "future/detail/shared_state.hpp"
CV = I + "condition_variable.hpp"; TO = I + "future/detail/task_object.hpp"; PT = I + "future/packaged_task.hpp"; PM = I + "future/promise.hpp"; FU = I + "future/future.hpp"; FB = I + "fiber.hpp"; TP = S + "numa/linux/topology.cpp"; NW = S + "numa/algo/work_stealing.cpp"
SH = I + "scheduler.hpp"; RM = S + "recursive_mutex.cpp"; RT = S + "recursive_timed_mutex.cpp"; TM = S + "timed_mutex.cpp"; MX = S + "mutex.cpp"; BA = S + "barrier.cpp"; AS = I + "future/async.hpp"; AL = I + "algo/algorithm.hpp"; SW = S + "algo/shared_work.cpp"; WS = S + "algo/work_stealing.cpp"; RR = S + "algo/round_robin.cpp"; OP = I + "operations.hpp"; SO = I + "future/detail/shared_state_object.hpp"; PC = S + "properties.cpp"; SQ = I + "detail/context_spinlock_queue.hpp"; SP = I + "detail/context_spmc_queue.hpp"
# counters
m("rm-count8", "C01", (I + "recursive_mutex.hpp", "std::size_t                 count_{ 0 };", "unsigned char               count_{ 0 };"))
m("rm-count16", "C01", (I + "recursive_mutex.hpp", "std::size_t                 count_{ 0 };", "unsigned short              count_{ 0 };"))
m("rtm-count16", "C01", (I + "recursive_timed_mutex.hpp", "std::size_t                 count_{ 0 };", "unsigned short              count_{ 0 };"))
m("ss-use16", "C12", (SS, "std::atomic< std::size_t >  use_count_{ 0 };", "std::atomic< unsigned short >  use_count_{ 0 };"))
m("ctx-use16", "C15", (CH, "std::atomic< std::size_t >                          use_count_;", "std::atomic< unsigned char >                          use_count_;"))
m("ctx-epoch16", "C04 C05 C18", (CH, "std::atomic<size_t>                                 waker_epoch_{ 0 };", "std::atomic<unsigned short>                                 waker_epoch_{ 0 };"), (CX, "size_t expected = epoch;", "unsigned short expected = epoch;"))
m("ctx-epoch8", "C04 C05 C18", (CH, "std::atomic<size_t>                                 waker_epoch_{ 0 };", "std::atomic<unsigned char>                                 waker_epoch_{ 0 };"), (CX, "size_t expected = epoch;", "unsigned char expected = epoch;"))
m("ba-cycle8", "C06", (BA, "const std::size_t cycle = cycle_;", "const unsigned char cycle = static_cast< unsigned char >( cycle_);"), (BA, "return cycle != cycle_;", "return cycle != static_cast< unsigned char >( cycle_);"))
m("ba-cycle1", "C06", (BA, "const std::size_t cycle = cycle_;", "const std::size_t cycle = cycle_ & 1;"), (BA, "return cycle != cycle_;", "return cycle != ( cycle_ & 1);"))
m("bc-idx16", "C07", (BC, "std::size_t                                         pidx_{ 0 };", "unsigned short                                         pidx_{ 0 };"))
# sleep queue
m("sl-less-ms", "C19", (SH, "return l.tp_ < r.tp_;", "return std::chrono::duration_cast< std::chrono::milliseconds >( l.tp_.time_since_epoch() ) < std::chrono::duration_cast< std::chrono::milliseconds >( r.tp_.time_since_epoch() );"))
m("sl-less-us", "C19", (SH, "return l.tp_ < r.tp_;", "return std::chrono::duration_cast< std::chrono::microseconds >( l.tp_.time_since_epoch() ) < std::chrono::duration_cast< std::chrono::microseconds >( r.tp_.time_since_epoch() );"))
m("sl-greater-equal", "C19", (SH, "return l.tp_ < r.tp_;", "return l.tp_ <= r.tp_;"))
m("sl-tp-noreset-far", "C19 C16", (SC, "ctx->tp_ <= now", "ctx->tp_ <= now || ctx->tp_ - now < std::chrono::microseconds( 2)"))
m("sl-suspend-cap", "C17 C19 C18", (SC, "suspend_time = i->tp_;", "suspend_time = i->tp_ + std::chrono::milliseconds( 1);"))
m("sl-suspend-two", "C19 C17", (SC, "suspend_time = i->tp_;", "sleep_queue_type::iterator j = i; ++j;\n                suspend_time = ( j != sleep_queue_.end() && j->tp_ - i->tp_ < std::chrono::microseconds( 20) ) ? j->tp_ : i->tp_;"))
m("sl-only-32", "C19", (SC, "for ( sleep_queue_type::iterator i = sleep_queue_.begin(); i != e;) {", "int n = 0;\n    for ( sleep_queue_type::iterator i = sleep_queue_.begin(); i != e && n < 32; ++n) {"))
m("sl-schedule-nounlink-remote", "C19 C05 C24", (SC, "if ( ctx->sleep_is_linked() ) {", "if ( ctx->sleep_is_linked() && ctx->tp_ != (std::chrono::steady_clock::time_point::max)() ) {"))
m("sl-for-trunc", "C19", (OP, "active_ctx->wait_until( std::chrono::steady_clock::now() + timeout_duration);", "active_ctx->wait_until( std::chrono::steady_clock::now() + std::chrono::duration_cast< std::chrono::microseconds >( timeout_duration) );"))
m("sl-past-return", "C16 C19", (OP, "active_ctx->wait_until( sleep_time);", "if ( sleep_time > std::chrono::steady_clock::now() ) active_ctx->wait_until( sleep_time);"))
m("sl-wait-strict2", "C05 C19", (SC, "return std::chrono::steady_clock::now() < sleep_tp;", "return ctx->tp_ == sleep_tp || std::chrono::steady_clock::now() < sleep_tp;", 1))
# futures
m("ss-ready-before", "C12 C13", (SS, "::new ( static_cast< void * >( std::addressof( storage_) ) ) R( value );", "ready_ = true;\n        ::new ( static_cast< void * >( std::addressof( storage_) ) ) R( value );"))
m("ss-ready-before-mv", "C12 C13", (SS, "::new ( static_cast< void * >( std::addressof( storage_) ) ) R( std::move( value) );", "ready_ = true;\n        ::new ( static_cast< void * >( std::addressof( storage_) ) ) R( std::move( value) );"))
m("ss-value-copy", "C12", (SS, "R( std::move( value) );", "R( static_cast< R const& >( value) );"))
m("ss-except-first", "C12 C13", (SS, "        if ( BOOST_UNLIKELY( ready_) ) {\n            throw promise_already_satisfied();\n        }\n        except_ = except;", "        except_ = except;\n        if ( BOOST_UNLIKELY( ready_) ) {\n            throw promise_already_satisfied();\n        }"))
m("ss-align", "C24 C12", (SS, "alignas(alignof( R)) unsigned char storage_[sizeof( R)]{};", "unsigned char storage_[sizeof( R)]{};"))
m("ss-owner-noexc", "C12", (SS, "std::make_exception_ptr( broken_promise() )", "std::make_exception_ptr( future_uninitialized() )"))
m("ss-wait-until-status", "C13", (SS, "return waiters_.wait_until( lk, timeout_time, [this](){ return ready_; })\n                    ? future_status::ready\n                    : future_status::timeout;", "return waiters_.wait_until( lk, timeout_time) == cv_status::no_timeout || ready_\n                    ? future_status::ready\n                    : future_status::timeout;"))
m("ss-wait-until-past", "C13", (SS, "return waiters_.wait_until( lk, timeout_time, [this](){ return ready_; })\n", "if ( Clock::now() >= timeout_time) return future_status::timeout;\n        return waiters_.wait_until( lk, timeout_time, [this](){ return ready_; })\n"))
m("ss-wait-for-zero", "C13", (SS, "return waiters_.wait_for( lk, timeout_duration, [this](){ return ready_; })\n", "if ( timeout_duration <= timeout_duration.zero() ) return future_status::timeout;\n        return waiters_.wait_for( lk, timeout_duration, [this](){ return ready_; })\n"))
m("fu-get-exc-keep", "C13 C12", (FU, "typename base_type::ptr_type tmp{};\n        tmp.swap( base_type::state_);\n        return std::move( tmp->get() );", "typename base_type::ptr_type tmp{ base_type::state_ };\n        R r = std::move( tmp->get() );\n        base_type::state_.reset();\n        return r;"))
m("fu-get-copy", "C12", (FU, "return std::move( tmp->get() );", "return static_cast< R >( tmp->get() );"))
m("fu-share-copy", "C12", (FU, "return shared_future< R >{ std::move( * this) };", "return shared_future< R >{ base_type::state_ };"))
m("fu-share-copy-void", "C12", (FU, "return shared_future< void >{ std::move( * this) };", "return shared_future< void >{ base_type::state_ };"))
m("fu-share-uninit", "C12", (FU, "if ( BOOST_UNLIKELY( ! base_type::valid() ) ) {\n        throw future_uninitialized{};\n    }\n    return shared_future< R & >", "return shared_future< R & >"))
m("fu-shared-get-move", "C12 C13", (FU, "R const& get() const {", "R get() const {"), (FU, "return base_type::state_->get();\n    }\n\n    using base_type::valid;\n    using base_type::get_exception_ptr;\n    using base_type::wait;\n    using base_type::wait_for;\n    using base_type::wait_until;\n};\n\ntemplate< typename R >\nclass shared_future< R & >", "return std::move( base_type::state_->get() );\n    }\n\n    using base_type::valid;\n    using base_type::get_exception_ptr;\n    using base_type::wait;\n    using base_type::wait_for;\n    using base_type::wait_until;\n};\n\ntemplate< typename R >\nclass shared_future< R & >"))
m("fu-selfassign", "C12", (FU, "if ( BOOST_LIKELY( this != & other) ) {\n            state_ = other.state_;\n            other.state_.reset();\n        }", "state_ = other.state_;\n            other.state_.reset();"), (FU, "if ( BOOST_LIKELY( this != & other) ) {\n            base_type::operator=( std::move( other) );\n        }", "base_type::operator=( std::move( other) );"))
m("pm-dtor-always", "C12", (PM, "if ( future_ && obtained_) {", "if ( future_ && obtained_ && 1) {"))
m("pm-exc-null", "C12", (PM, "throw promise_uninitialized{};\n        }\n        future_->set_exception( p);", "return;\n        }\n        future_->set_exception( p);"))
m("pm-alloc-std", "C12", (PM, "typename object_type::allocator_type a{ alloc };", "typename object_type::allocator_type a{ Allocator{} };"))
m("so-dealloc-order", "C12 C24", (SO, "traity_type::destroy( a, p);", ""))
m("pt-run-twice-ok", "C14", (TO, "        } catch (...) {\n            this->set_exception( std::current_exception() );", "        } catch ( promise_already_satisfied const&) {\n        } catch (...) {\n            this->set_exception( std::current_exception() );"))
m("pt-reset-copyfn", "C14", (TO, "traity_type::construct( alloc_, p, alloc_, std::move( fn_) );", "traity_type::construct( alloc_, p, alloc_, fn_);"))
m("pt-args-noforward", "C14", (TO, "std::make_tuple( std::forward< Args >( args) ... )", "std::make_tuple( args ...)", 1))
m("pt-args-noforward3", "C14", (TO, "std::make_tuple( std::forward< Args >( args) ... )", "std::make_tuple( args ...)", 3))
m("pt-catch-std", "C14", (TO, "} catch (...) {\n            this->set_exception( std::current_exception() );", "} catch ( std::exception const& e) {\n            this->set_exception( std::make_exception_ptr( e) );\n        } catch (...) {\n            this->set_exception( std::current_exception() );"))
m("pt-reset-noabandon", "C14", (PT, "tmp.obtained_ = obtained_;", "tmp.obtained_ = false;"))
m("pt-swap-obt", "C14", (PT, "std::swap( obtained_, other.obtained_);", ""))
m("as-policy", "C14", (AS, "fiber{ policy, std::move( pt), std::forward< Args >( args) ... }.detach();", "fiber{ std::move( pt), std::forward< Args >( args) ... }.detach();"))
m("as-policy-salloc", "C14", (AS, "fiber{ policy, std::allocator_arg, salloc,\n        std::move( pt), std::forward< Args >( args) ... }.detach();", "fiber{ launch::post, std::allocator_arg, salloc,\n        std::move( pt), std::forward< Args >( args) ... }.detach();"))
m("as-policy-salloc2", "C14", (AS, "fiber{ policy, std::allocator_arg, salloc,\n        std::move( pt), std::forward< Args >( args) ... }.detach();", "fiber{ launch::post, std::allocator_arg, salloc,\n        std::move( pt), std::forward< Args >( args) ... }.detach();", 1))
m("as-nostack", "C14 C25", (AS, "fiber{ policy, std::allocator_arg, salloc,\n        std::move( pt), std::forward< Args >( args) ... }.detach();", "fiber{ policy, std::move( pt), std::forward< Args >( args) ... }.detach();"))
m("as-noalloc", "C14", (AS, "std::allocator_arg, alloc, std::forward< Fn >( fn) };", "std::forward< Fn >( fn) };"))
# fiber
m("fb-assign-order", "C15", (FB, "if ( joinable() ) {\n            std::terminate();\n        }\n        if ( BOOST_UNLIKELY( this == & other) ) {", "if ( BOOST_UNLIKELY( this == & other) ) {"))
m("fb-lost-policy", "C16 C15", (FB, "fiber{ policy,\n               properties,\n               std::allocator_arg, default_stack(),", "fiber{ launch::post,\n               properties,\n               std::allocator_arg, default_stack(),"))
m("fb-lost-policy2", "C16 C15", (FB, "fiber{ policy,\n               std::allocator_arg, default_stack(),", "fiber{ launch::post,\n               std::allocator_arg, default_stack(),"))
m("fb-lost-policy3", "C16 C15 C25", (FB, "fiber{ policy,\n               static_cast<fiber_properties*>(nullptr),", "fiber{ launch::post,\n               static_cast<fiber_properties*>(nullptr),"))
m("fb-lost-alloc", "C25", (FB, "fiber{ launch::post,\n               std::allocator_arg, std::forward< StackAllocator >( salloc),\n               std::forward< Fn >", "fiber{ launch::post,\n               std::forward< Fn >"))
m("fb-lost-alloc-props", "C25 C22", (FB, "fiber{ launch::post,\n               properties,\n               std::allocator_arg, std::forward< StackAllocator >( salloc),", "fiber{ launch::post,\n               properties,\n               std::allocator_arg, default_stack(),"))
m("fb-lost-props", "C22", (FB, "fiber{ launch::post,\n               properties,\n               std::allocator_arg, std::forward< StackAllocator >( salloc),", "fiber{ launch::post,\n               static_cast<fiber_properties*>(nullptr),\n               std::allocator_arg, std::forward< StackAllocator >( salloc),"))
m("fb-id-moved", "C15", (FB, "impl_.swap( other.impl_);\n        return * this;", "impl_ = other.impl_;\n        return * this;"))
m("ch-hash", "C15", (CX, "return reinterpret_cast<std::size_t>(id.impl_);", "return reinterpret_cast<std::size_t>(& id);"))
m("ch-id-ge", "C15", (CH, "return ! ( * this < other);", "return * this > other;"))
m("ch-id-ne", "C15", (CH, "return impl_ != other.impl_;", "return impl_ < other.impl_;"))
m("cx-fn-outlive", "C15 C14", (CH, "auto fn = std::move( fn_);\n            auto arg = std::move( arg_);", "auto & fn = fn_;\n            auto arg = std::move( arg_);"))
m("cx-arg-outlive", "C15", (CH, "auto fn = std::move( fn_);\n            auto arg = std::move( arg_);", "auto fn = std::move( fn_);\n            auto & arg = arg_;"))
m("cx-launch-leak-props", "C22 C25 C24", (CH, "salloc.deallocate( sctx);\n        throw;", "throw;"))
m("cx-join-nowait-remote", "C15", (CX, "if ( ! terminated_) {", "if ( ! terminated_ && ! terminated_is_linked() && nullptr != scheduler_) {"))
m("cx-term-early", "C15 C21", (CX, "    release_fss_data_();\n    // protect", "    std::unique_lock< detail::spinlock > lk{ splk_ };\n    terminated_ = true;\n    wait_queue_.notify_all();\n    lk.unlock();\n    release_fss_data_();\n    // protect"), (CX, "    // protect for concurrent access\n    std::unique_lock< detail::spinlock > lk{ splk_ };\n    // mark", "    lk.lock();\n    // mark"))
# channels
m("bc-close-order", "C08", (BC, "closed_ = true;\n            waiting_producers_.notify_all();\n            waiting_consumers_.notify_all();", "waiting_producers_.notify_all();\n            waiting_consumers_.notify_all();\n            lk.unlock();\n            while ( ! lk.try_lock() ) context::active()->yield();\n            closed_ = true;"))
m("bc-close-empty-only", "C08", (BC, "waiting_consumers_.notify_all();", "if ( is_empty_() ) waiting_consumers_.notify_all(); else waiting_consumers_.notify_one();"))
m("bc-vpop-move2", "C11 C07", (BC, "value_type value = std::move( slots_[cidx_]);", "value_type value = slots_[cidx_];"))
m("bc-pushw-timeout-room", "C08", (BC, "if ( ! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return channel_op_status::timeout;", "if ( ! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return is_closed() ? channel_op_status::closed : channel_op_status::timeout;"))
m("bc-popw-early", "C08", (BC, "if ( ! waiting_consumers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return channel_op_status::timeout;", "if ( std::chrono::steady_clock::now() >= timeout_time) return channel_op_status::timeout;\n                if ( ! waiting_consumers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n                    return channel_op_status::timeout;"))
m("bc-popw-expired", "C08", (BC, "if ( is_empty_() ) {\n                if ( BOOST_UNLIKELY( is_closed_() ) ) {\n                    return channel_op_status::closed;\n                }\n                if ( ! waiting_consumers_", "if ( is_empty_() || std::chrono::steady_clock::now() > timeout_time) {\n                if ( BOOST_UNLIKELY( is_closed_() ) ) {\n                    return channel_op_status::closed;\n                }\n                if ( ! waiting_consumers_"))
m("bc-move-before-full", "C11 C07", (BC, "if ( is_full_() ) {\n                waiting_producers_.suspend_and_wait( lk, active_ctx);\n            } else {\n                slots_[pidx_] = std::move( value);", "if ( is_full_() ) {\n                value_type tmp = std::move( value);\n                waiting_producers_.suspend_and_wait( lk, active_ctx);\n                value = std::move( tmp);\n            } else {\n                slots_[pidx_] = std::move( value);"))
m("bc-trypush-mv-consumed", "C11 C07", (BC, "channel_op_status try_push( value_type && value) {        \n               \n", "channel_op_status try_push( value_type && value_) {        \n        value_type value = std::move( value_);\n"))
m("bc-pidx-before", "C11 C07", (BC, "slots_[pidx_] = value;\n        pidx_ = (pidx_ + 1) % capacity_;", "const std::size_t p_ = pidx_;\n        pidx_ = (pidx_ + 1) % capacity_;\n        slots_[p_] = value;"))
m("bc-cidx-before", "C11 C07", (BC, "value = std::move( slots_[cidx_]);\n                cidx_ = (cidx_ + 1) % capacity_;", "const std::size_t c_ = cidx_;\n                cidx_ = (cidx_ + 1) % capacity_;\n                value = std::move( slots_[c_]);"))
m("bc-it-copy-shallow", "C11", (BC, "reset_();\n                copy_( other);", "copy_( other);"))
m("bc-it-move-nodrop", "C11", (BC, "reset_();\n                move_( other);", "reset_();\n                move_( other);\n                other.chan_ = nullptr;"))
m("uc-close-twice-slot", "C10 C09", (UC, "release_( s, slot_state::rejected);", "release_( s, slot_state::consumed);"))
m("uc-release-order", "C09 C23", (UC, "        {\n            // the producer holds the lock till it is suspended\n            detail::spinlock_lock lk{ splk_consumers_ };\n            s->w.wake();\n        }\n        s->state.store( state, std::memory_order_release);", "        s->state.store( state, std::memory_order_release);\n        {\n            detail::spinlock_lock lk{ splk_consumers_ };\n            s->w.wake();\n        }"))
m("uc-finish-closed-timeout", "C10", (UC, "return is_closed()\n                ? channel_op_status::closed\n                : channel_op_status::timeout;", "return channel_op_status::timeout;"))
m("uc-finish-nonotify", "C10", (UC, "detail::spinlock_lock lk{ splk_producers_ };\n            waiting_producers_.notify_one();\n            return is_closed()", "return is_closed()"))
m("uc-push-oldwaker", "C10 C09", (UC, "for (;;) {\n            s.w = active_ctx->create_waker();", "s.w = active_ctx->create_waker();\n        for (;;) {"))
m("uc-pushw-oldwaker", "C10 C09", (UC, "for (;;) {\n            s.w = active_ctx->create_waker();", "s.w = active_ctx->create_waker();\n        for (;;) {", 2))
m("uc-pop-move-late", "C09 C23", (UC, "value = std::move( s->value);\n                // notify context\n                release_( s, slot_state::consumed);\n                return channel_op_status::success;\n            }\n            detail::spinlock_lock lk{ splk_consumers_ };\n            if ( BOOST_UNLIKELY( is_closed() ) ) {\n                return channel_op_status::closed;\n            }\n            if ( ! is_empty_() ) {\n                continue;\n            }\n            waiting_consumers_.suspend_and_wait( lk, active_ctx);", "release_( s, slot_state::consumed);\n                value = std::move( s->value);\n                return channel_op_status::success;\n            }\n            detail::spinlock_lock lk{ splk_consumers_ };\n            if ( BOOST_UNLIKELY( is_closed() ) ) {\n                return channel_op_status::closed;\n            }\n            if ( ! is_empty_() ) {\n                continue;\n            }\n            waiting_consumers_.suspend_and_wait( lk, active_ctx);"))
m("uc-pop-closed-first", "C10", (UC, "if ( nullptr != ( s = try_pop_() ) ) {", "if ( ! is_closed() && nullptr != ( s = try_pop_() ) ) {"))
m("uc-vpop-closed-first", "C10", (UC, "if ( nullptr != ( s = try_pop_() ) ) {", "if ( ! is_closed() && nullptr != ( s = try_pop_() ) ) {", 1))
# sync
m("mx-unlock-handoff", "C01 C02", (MX, "owner_ = nullptr;\n\n    wait_queue_.notify_one();", "owner_ = nullptr;\n\n    if ( ! wait_queue_.empty() ) { lk.unlock(); active_ctx->yield(); lk.lock(); }\n    wait_queue_.notify_one();"))
m("mx-try-noyield-fail", "C16", (MX, "lk.unlock();\n    // let other fiber release the lock\n    active_ctx->yield();", "lk.unlock();"))
m("mx-code", "C01", (MX, "std::errc::operation_not_permitted", "std::errc::resource_deadlock_would_occur"))
m("rm-unlock-notify-count", "C02 C01", (RM, "if ( 0 == --count_) {", "if ( 0 == --count_ || wait_queue_.empty() ) {"))
m("rt-timed-count", "C01 C03", (RT, "if ( active_ctx == owner_) {\n            ++count_;\n            return true;", "if ( active_ctx == owner_) {\n            return true;"))
m("rt-expired-count", "C03", (RT, "owner_ = active_ctx;\n            count_ = 1;\n            return true;", "owner_ = active_ctx;\n            ++count_;\n            return true;"))
m("tm-timeout-last-try", "C03", (TM, "if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n            return false;", "if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {\n            return owner_ == nullptr && ( owner_ = active_ctx, true);"))
m("tm-ge", "C03", (TM, "std::chrono::steady_clock::now() > timeout_time", "std::chrono::steady_clock::now() >= timeout_time"))
m("wk-timed-notified-lost", "C03 C05 C08", (WK, "const bool notified = w.notified_;", "const bool notified = w.notified_ && false;"))
m("wk-notified-unset", "C03 C05", (WK, "w.notified_ = false;\n    }\n}\n\nvoid\nwait_queue::notify_all", "}\n}\n\nvoid\nwait_queue::notify_all"))
m("wk-notified-after", "C05 C23 C24", (WK, "        w.notified_ = true;\n        if ( w.wake()) {\n            break;\n        }\n        w.notified_ = false;", "        if ( w.wake()) {\n            w.notified_ = true;\n            break;\n        }"))
m("wk-stale-skip", "C05 C04 C03", (WK, "slist_.pop_front();\n        // after wake() succeeded `w` must not be accessed anymore\n        w.notified_ = true;\n        if ( w.wake()) {\n            break;\n        }\n        w.notified_ = false;", "w.notified_ = true;\n        slist_.pop_front();\n        if ( w.wake()) {\n            break;\n        }\n        w.notified_ = false;\n        if ( slist_.empty() ) break;"))
m("cv-until-status-pred", "C05", (CV, "if ( cv_status::timeout == wait_until( lt, timeout_time) ) {\n                return pred();", "if ( cv_status::timeout == wait_until( lt, timeout_time) && std::chrono::steady_clock::now() > detail::convert( timeout_time) ) {\n                return pred();"))
m("cv-for-each", "C05", (CV, "return wait_until( lt,\n                           std::chrono::steady_clock::now() + timeout_duration,\n                           pred);", "while ( ! pred() ) {\n            if ( cv_status::timeout == wait_for( lt, timeout_duration) ) {\n                return pred();\n            }\n        }\n        return true;"))
m("cv-relock-timeout", "C05 C04", (CV, "        // relock external again before returning\n        try {\n            lt.lock();", "        // relock external again before returning\n        try {\n            if ( cv_status::timeout != status) lt.lock();", 1))
# scheduler / algos
m("sc-remote-batch", "C18", (SC, "while ( ! tmp.empty() ) {\n        context * ctx = & tmp.front();", "int n = 0;\n    while ( ! tmp.empty() ) {\n        if ( ++n > 64) { lk.lock(); while ( ! tmp.empty() ) { context & c = tmp.front(); tmp.pop_front(); remote_ready_queue_.push_back( c); } return; }\n        context * ctx = & tmp.front();"))
m("sc-setalgo-reverse", "C17 C16", (SC, "while ( algo_->has_ready_fibers() ) {\n        algo->awakened( algo_->pick_next() );\n    }", "std::vector< context * > v;\n    while ( algo_->has_ready_fibers() ) v.push_back( algo_->pick_next() );\n    while ( ! v.empty() ) { algo->awakened( v.back() ); v.pop_back(); }"))
m("sc-notify-once", "C18 C23", (SC, "ctx->remote_ready_link( remote_ready_queue_);\n    lk.unlock();\n    // notify scheduler\n    algo->notify();", "const bool first = remote_ready_queue_.empty();\n    ctx->remote_ready_link( remote_ready_queue_);\n    lk.unlock();\n    // notify scheduler\n    if ( first) algo->notify();"))
m("sc-shutdown-remote", "C28", (SC, "if ( worker_queue_.empty() ) {", "if ( worker_queue_.empty() || ( ! algo_->has_ready_fibers() && sleep_queue_.empty() && false) ) {"))
m("sw-flag-shared", "C18 C20", (SW, "cnd_.wait( lk, [this](){ return flag_; });\n            flag_ = false;", "flag_ = flag_ && ! rqueue_.empty();\n            cnd_.wait( lk, [this](){ return flag_; });\n            flag_ = false;"))
m("ws-count-own", "C20", (WS, "} while ( nullptr == victim && count < size);", "} while ( nullptr == victim && count < 1);"))
m("ws-dist", "C20", (WS, "0, static_cast< std::uint32_t >( thread_count_ - 1) };", "0, static_cast< std::uint32_t >( thread_count_ > 2 ? thread_count_ - 2 : 1) };"))
m("ws-neighbour", "C20", (WS, "id = distribution( generator);", "id = ( id_ + 1) % thread_count_;"))
m("pc-linked", "C22", (PC, "if ( ctx_->ready_is_linked() ) {", "if ( ctx_->ready_is_linked() && ! ctx_->remote_ready_is_linked() && ctx_->worker_is_linked() ) {"))
m("pc-algo-static", "C22", (AL, "props->set_algorithm( this);", "static thread_local algorithm_with_properties * first = this;\n        props->set_algorithm( first);"))
# numa
m("tp-range-end", "C27", (TP, "for ( std::uint32_t i = first; i <= last; ++i) {", "for ( std::uint32_t i = first; i < last; ++i) {"))
m("tp-first-only", "C27", (TP, "al::split( v1, content, al::is_any_of(\",\") );\n    for", "al::split( v1, content, al::is_any_of(\",\") );\n    if ( v1.size() > 3) v1.resize( 3);\n    for"))
m("tp-node-digit", "C27", (TP, "\"^node([0-9]+)$\"", "\"^node([0-9])\""))
m("tp-node-noanchor", "C27", (TP, "\"^node([0-9]+)$\"", "\"node([0-9]+)\""))
m("tp-distance-cpu", "C27", (TP, "boost::format(\"/sys/devices/system/node/node%d/distance\") % entry.second.id)", "boost::format(\"/sys/devices/system/node/node%d/distance\") % topo.size() )"))
m("tp-fake-distance", "C27", (TP, "entry.second.distance.push_back( 10);\n            topo.push_back( entry.second);", "topo.push_back( entry.second);"))
m("tp-nodeless", "C27", (TP, "if ( map.empty() ) {", "if ( map.empty() || map.begin()->second.logical_cpus.size() == cpus.size() ) {"))
m("nu-max-last", "C27 C24", (NW, "max_cpu_id = (std::max)( max_cpu_id, * node.logical_cpus.rbegin() );", "max_cpu_id = * node.logical_cpus.rbegin();"))
m("nu-max-size", "C27 C24", (NW, "max_cpu_id = (std::max)( max_cpu_id, * node.logical_cpus.rbegin() );", "max_cpu_id += static_cast< std::uint32_t >( node.logical_cpus.size() );"), (NW, "max_cpu_id + 1, nullptr", "max_cpu_id, nullptr"))
m("nu-count", "C27", (NW, "thread_count += node.logical_cpus.size();", "thread_count = (std::max)( thread_count, node.logical_cpus.size() );"))
m("nu-remote-stop", "C27", (NW, "remote_cpus.insert( remote_cpus.end(), node.logical_cpus.begin(), node.logical_cpus.end() );", "remote_cpus.assign( node.logical_cpus.begin(), node.logical_cpus.end() );"))
m("nu-localsize", "C27", (NW, "0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };", "0, static_cast< std::uint32_t >( (std::min)( local_cpus_.size(), remote_cpus_.size() ) - 1) };"))
m("nu-onetry", "C27", (NW, "} while ( nullptr == victim && count < size);", "} while ( false);"))
m("pin-self", "C27", (S + "numa/linux/pin_thread.cpp", "::pthread_setaffinity_np( h,", "::pthread_setaffinity_np( ::pthread_self(),"))
m("pin-add", "C27", (S + "numa/linux/pin_thread.cpp", "CPU_ZERO( & set);", "::pthread_getaffinity_np( h, sizeof( set), & set);\n    CPU_ZERO( & set); if ( cpuid > 63) CPU_SET( cpuid - 64, & set);"))
m("pin-err", "C27", (S + "numa/linux/pin_thread.cpp", "std::error_code( err, std::system_category() )", "std::error_code( errno, std::system_category() )"))
# queues
m("sq-memcpy", "C26", (SQ, "if ( 0 < cidx_) {", "if ( 0 < cidx_ && cidx_ < capacity_ - 1) {"))
m("sp-old-nostore", "C26", (SP, "old_arrays_.reserve( 32);", "old_arrays_.reserve( 1);"))
m("sp-empty", "C26", (SP, "return bottom <= top;", "return bottom < top;"))
m("sp-top-relaxed", "C26", (SP, "std::size_t top = top_.load( std::memory_order_acquire);\n        std::atomic_thread_fence", "std::size_t top = top_.load( std::memory_order_relaxed);\n        std::atomic_thread_fence"))
m("sp-pop-nofence", "C26 C20", (SP, "std::atomic_thread_fence( std::memory_order_seq_cst);\n        std::size_t top = top_.load( std::memory_order_relaxed);", "std::size_t top = top_.load( std::memory_order_relaxed);"))

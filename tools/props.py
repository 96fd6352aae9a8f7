NOT_APPLICABLE = []
prop("C01", "Fiber mutexes give exclusive ownership, on any mix of fibers and threads",
 "Between the moment a fiber acquires a mutex, timed_mutex, recursive_mutex or recursive_timed_mutex and its matching last unlock, no other fiber on any thread acquires it, and everything written inside one critical section is visible in the next. Recursive mutexes stay owned until the owner has unlocked as often as it locked, and the owner's further attempts always succeed. An uncontended try_lock succeeds, and misuse (relocking a plain mutex by its owner, unlocking a mutex one does not own) raises lock_error with the documented code and leaves the mutex as it was.",
 ["schedules", "programs"], "every program of fibers and threads that lock, try, time out, nest and misuse a mutex, under every interleaving and every scheduling algorithm",
 "The tests run a handful of fibers on one thread under round_robin, so two threads never race for the mutex word and the owner field; exclusion is quantified over interleavings.",
 MF, [("lock/try_lock/unlock with the owner field under a spinlock", "src/mutex.cpp, src/timed_mutex.cpp, src/recursive_mutex.cpp, src/recursive_timed_mutex.cpp"), ("wait queue hand-off", "src/waker.cpp")],
 CTL + "model of ownership in lock step, watched data and happens-before race monitor", "randomised controlled schedules; the monitor is exact per execution, the set of executions is sampled",
 state=[("owner_", "the owning context or none"), ("count_", "recursion depth")], observe=["lock", "try_lock", "unlock", "data guarded by the mutex"])
prop("C02", "No fiber waits forever for a mutex that has been released",
 "Whenever a mutex of any of the four kinds is free and fibers wait for it, one of them eventually acquires it: no unlock is lost, whether the waiter is just about to block, blocked on another thread, or resumed by a timeout. A program whose critical sections all end runs to completion.",
 ["schedules", "programs"], "every interleaving of lock, timed attempts and unlock on any number of threads",
 "A lost wakeup needs an unlock between a waiter's check and its suspension, on another thread or against an expiring deadline; the tests run one thread and cannot even enter that window.",
 MF + ["include/boost/fiber/waker.hpp", "src/scheduler.cpp"], [("wait_queue suspend/notify", "src/waker.cpp: suspend_and_wait, suspend_and_wait_until, notify_one"), ("waker epoch", "src/context.cpp: wake")],
 CTL + "exact stall and livelock verdicts under virtual time", "a stall is decided exactly (nobody can run, no deadline pending); livelock by a bound of 8M scheduling points",
 state=[("wait_queue_", "fibers suspended on the mutex")])
prop("C03", "Timed lock attempts are truthful and never lose the mutex",
 "try_lock_for and try_lock_until return false only once their deadline has passed, and only when another fiber held or wanted the mutex meanwhile; they return true exactly when the caller owns the mutex. A timed-out attempt leaves no trace: the mutex is not owned on the loser's behalf, no later unlock is spent on it, and the remaining waiters still get the mutex.",
 ["schedules", "programs"], "every race of an expiring deadline with an unlock, for both timed mutexes, on any number of threads, for deadlines past, present and future on either clock",
 "The deadline/unlock race has a window of a few instructions; the tests use widely separated times on one thread.",
 ["include/boost/fiber/timed_mutex.hpp", "include/boost/fiber/recursive_timed_mutex.hpp", "src/timed_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/waker.cpp"], [("try_lock_until_", "src/timed_mutex.cpp, src/recursive_timed_mutex.cpp"), ("suspend_and_wait_until", "src/waker.cpp")],
 CTL + "virtual clock with random leaps, ownership model, exact stall verdict", "deadline races are forced by virtual time; sampled schedules", state=[("wait_queue_", "fibers suspended with or without a deadline")])
prop("C04", "Condition variables neither lose nor invent notifications",
 "A fiber that waits on a condition_variable or condition_variable_any releases the lock and blocks in one step: a notification issued under the lock after that point reaches it or another fiber waiting at that time. notify_one wakes at most one waiter and at least one if any waits, notify_all wakes all that wait, a notification nobody waits for has no effect, and no waiter wakes without a notification or timeout. Every wait returns with the lock held again, on any thread and with any lockable.",
 ["schedules", "programs"], "every interleaving of waiters and notifiers, inside and outside the lock, on several threads",
 "Lost notifications live between unlock and suspension against a notifier on another thread; the tests notify from fibers of the same thread after the waiters have settled.",
 ["include/boost/fiber/condition_variable.hpp", "src/condition_variable.cpp", "src/waker.cpp", "include/boost/fiber/waker.hpp"], [("wait/notify", "src/condition_variable.cpp, condition_variable.hpp: condition_variable_any::wait"), ("wait_queue", "src/waker.cpp")],
 CTL + "credit model of outstanding notifications, lock-ownership model, exact stall verdict, race monitor", "exact per execution; sampled schedules", state=[("wait_queue_", "waiting fibers in order")])
prop("C05", "Timed and predicate waits report what happened",
 "A timed wait returns timeout only at or after its deadline, and a notification consumed by a waiter is never also reported as a timeout, so no notification disappears between a deadline and a notify. Predicate overloads return only with the predicate true, or, when timed, return the predicate's value as of their return with the lock held. A waiter whose deadline has passed resumes even if nobody ever notifies.",
 ["schedules", "programs"], "every race of deadline and notification for wait_for, wait_until and their predicate forms, steady and system clock",
 "The outcome depends on which of deadline and notification wins by a few instructions; the tests separate them by many milliseconds.",
 ["include/boost/fiber/condition_variable.hpp", "src/condition_variable.cpp", "src/waker.cpp", "src/scheduler.cpp"], [("wait_until / wait_for", "condition_variable.hpp"), ("suspend_and_wait_until", "src/waker.cpp"), ("sleep queue", "src/scheduler.cpp: sleep2ready_")],
 CTL + "virtual time with leaps, credit model counting consumed notifications", "exact per execution; sampled schedules and deadlines", state=[("wait_queue_", "waiting fibers"), ("sleep_queue_", "fibers with a deadline")])
prop("C06", "A barrier releases exactly full groups and elects one fiber in each",
 "No fiber returns from barrier::wait before as many fibers as the barrier's count have arrived in its group, and all of them then return, again and again for a reused barrier. Exactly one fiber of each group gets true, and everything any of the group did before waiting is visible to all after. A barrier for zero fibers is refused with invalid_argument.",
 ["schedules", "programs"], "every interleaving of arrivals over many rounds and threads, with late leavers of one round meeting early arrivals of the next",
 "Cycle confusion needs a fiber that leaves one round after others entered the next; the tests do two rounds on one thread.",
 ["include/boost/fiber/barrier.hpp", "src/barrier.cpp"], [("cycle counter", "src/barrier.cpp: wait")],
 CTL + "arrival-count monitor per group, visibility of plain data, exact stall verdict", "exact per execution; sampled schedules", state=[("cycle_", "generation of the barrier"), ("current_", "arrivals still missing")])
prop("C07", "buffered_channel delivers each value exactly once, in order, within capacity",
 "Every value whose push reported success is delivered by exactly one pop, unaltered, provided consumers drain the channel, and a value whose push was refused or timed out is never delivered and stays with the caller. Values are delivered in the order their pushes took effect, seen by all consumers together. The channel never holds more than its capacity, and refuses with invalid_argument any capacity that is not a power of two of at least two.",
 ["schedules", "histories", "programs"], "every history of any number of producers and consumers over blocking, try and timed operations from any threads",
 "The tests use one producer and one consumer on one thread; ring-index and wait-queue errors need concurrent histories.",
 ["include/boost/fiber/buffered_channel.hpp", "include/boost/fiber/channel_op_status.hpp"], [("ring buffer with indices under a spinlock", "buffered_channel.hpp: push_, pop, try_push"), ("waiting producers/consumers", "buffered_channel.hpp")],
 CTL + "recorded operation intervals judged offline: conservation, FIFO order, occupancy bounds", "real-time interval checks over complete histories; sampled schedules", state=[("pidx_/cidx_", "write and read position")])
prop("C08", "buffered_channel statuses are truthful and no operation waits in vain",
 "After close() every push reports closed, pops drain what is left and only then report closed, and every fiber blocked in the channel wakes. closed, full, empty and timeout are returned only when true: not before a close, not while elements or room were there throughout, not before the deadline. A blocked push or pop proceeds as soon as room or an element appears, on any thread.",
 ["schedules", "histories", "programs"], "every history that mixes close, timeouts and blocking operations on several threads",
 "A close or push between a waiter's test and its suspension, or a notification that meets an expiring deadline, cannot be timed by a unit test.",
 ["include/boost/fiber/buffered_channel.hpp", "src/waker.cpp"], [("close", "buffered_channel.hpp: close"), ("push_wait_until / pop_wait_until", "buffered_channel.hpp")],
 CTL + "interval analysis of statuses against possible occupancy, far deadlines for lost wakeups, exact stall verdict", "exact stall verdict; far-deadline rule of one virtual second", state=[("closed_", "channel closed"), ("waiting_producers_/waiting_consumers_", "blocked fibers")])
prop("C09", "unbuffered_channel hands over each value exactly once by rendezvous",
 "A push returns success only when a consumer has taken, or is committed to take, exactly that value, and every such value is delivered unaltered to exactly one consumer. A push that reports closed or timeout has not delivered its value: nobody ever receives it. Two pushes that follow one another are never delivered in reverse.",
 ["schedules", "histories", "programs"], "every history of any number of producers and consumers, with timeouts and close, on any threads",
 "Which side wins the slot, the deadline or the close is decided in windows of a few instructions; the tests have one producer, one consumer and one thread.",
 ["include/boost/fiber/unbuffered_channel.hpp"], [("slot exchange", "unbuffered_channel.hpp: try_push_, try_pop_"), ("withdrawal of a slot on timeout or close", "unbuffered_channel.hpp: push_wait_until, close")],
 CTL + "recorded operation intervals judged offline: exactly-once, rendezvous overlap, order", "real-time interval checks over complete histories; sampled schedules", state=[("slot_", "the value offered by the producer at the head")])
prop("C10", "unbuffered_channel statuses are truthful and no partner is left waiting",
 "After close() every push and every pop that finds no value offered reports closed, and every blocked fiber wakes. closed and timeout are returned only when true: not before a close, not before the deadline, nor while a partner was waiting all the while. A waiting producer and a waiting consumer always find each other, on any threads.",
 ["schedules", "histories", "programs"], "every history that mixes close, timeouts and blocking operations on several threads",
 "Needs close or the partner's arrival inside the window between test and suspension.",
 ["include/boost/fiber/unbuffered_channel.hpp", "src/waker.cpp"], [("close", "unbuffered_channel.hpp: close"), ("push_wait_until / pop_wait_until", "unbuffered_channel.hpp")],
 CTL + "interval analysis of statuses, far deadlines for missed meetings, exact stall verdict", "exact stall verdict; far-deadline rule of one virtual second", state=[("closed_", "channel closed")])
prop("C11", "Channel elements live and die exactly once; iteration yields each element once",
 "Every element object a channel creates is destroyed exactly once, whether it was delivered, refused, left behind at destruction, or met an exception of its own copy or move, which reaches the caller and strands nobody; no element is used after its destruction, and a moved-from or damaged one is never delivered. Iterating a channel with begin/end or range-for yields each value once and ends when the channel is closed and empty, for copied and advanced iterators alike.",
 ["schedules", "programs"], "element types with counted lifetimes and throwing operations, all operations, destruction of non-empty channels, several threads",
 "The tests use ints and look at values, not at object lifetimes.",
 ["include/boost/fiber/buffered_channel.hpp", "include/boost/fiber/unbuffered_channel.hpp"], [("slot construction/destruction", "buffered_channel.hpp, unbuffered_channel.hpp"), ("iterator", "buffered_channel.hpp, unbuffered_channel.hpp: iterator")],
 CTL + "registry of live element objects with fingerprints, conservation count, use-after-free quarantine", "exact per execution; sampled programs", state=[("slots_", "storage of buffered elements")])
prop("C12", "A promise's outcome reaches its futures exactly once, or is reported broken",
 "The value, reference or exception a promise is given is what every get() on its future or shared_futures returns, together with everything written before it was set; nothing is ready earlier. Of several attempts to set exactly one succeeds and the others raise promise_already_satisfied; a promise destroyed or overwritten unsatisfied delivers broken_promise, and retrieving twice, or using an empty promise or future, raises future_error with the documented code. The shared state and its value are released exactly once, through the allocator they came from.",
 ["schedules", "programs"], "every result type, every setter/waiter/destroyer interleaving, on any threads",
 "The tests set before or after get on one thread, so no setter races a waiter, another setter or the destruction of the last handle.",
 [I + "future/promise.hpp", I + "future/future.hpp", I + "future/detail/shared_state.hpp", I + "future/detail/shared_state_object.hpp", "src/future.cpp"], [("ready flag, mutex and condition of the shared state", "future/detail/shared_state.hpp"), ("reference count", "future/detail/shared_state.hpp: intrusive_ptr_release"), ("promise base", "future/promise.hpp")],
 CTL + "outcome model, lifetime counters of values and allocator blocks, race monitor", "exact per execution; sampled schedules", state=[("ready_", "outcome available"), ("use_count_", "handles on the state")])
prop("C13", "Waiting on futures ends when the outcome is there, or at the deadline",
 "wait(), get() and the timed waits of future and shared_future return ready only once an outcome was stored, and every fiber that waits, on any thread and in any number, resumes when it is. wait_for and wait_until return timeout only at or after their deadline and never if the outcome was stored before the call. Waiting does not consume the future; get() consumes a future once and may be repeated on a shared_future, with the same result from every copy.",
 ["schedules", "programs"], "every interleaving of waiters, timed waiters and setter",
 "The window between testing the ready flag and suspending, and the race of deadline and setter, are not reachable by one-threaded tests.",
 [I + "future/future.hpp", I + "future/detail/shared_state.hpp"], [("wait/wait_for/wait_until", "future/detail/shared_state.hpp"), ("shared_future copies", "future/future.hpp")],
 CTL + "outcome model, virtual time, exact stall verdict", "exact per execution; sampled schedules", state=[("ready_", "outcome available"), ("waiters_", "condition the waiters block on")])
prop("C14", "packaged_task and async run their function once and deliver its outcome",
 "Invoking a packaged_task runs its function exactly once with the given arguments and its result or exception becomes the future's outcome; a second invocation raises promise_already_satisfied, reset() starts a new outcome and breaks the old one, and a task destroyed uninvoked delivers broken_promise without running. async runs its function exactly once in a fiber of the requested launch policy and its future delivers the outcome, also when the fiber outlives the call or the future is dropped first. Callable, arguments and results are released exactly once.",
 ["schedules", "programs"], "all callable, argument and result shapes, outcomes and orders of invoke, reset, move, destroy and get, across fibers and threads",
 "The tests check single orders on one thread.",
 [I + "future/packaged_task.hpp", I + "future/async.hpp", I + "future/detail/task_object.hpp", I + "future/detail/task_base.hpp"], [("task object and its shared state", "future/detail/task_object.hpp"), ("async", "future/async.hpp")],
 CTL + "outcome model, invocation and lifetime counters", "exact per execution; sampled programs", state=[("task_", "the callable with its shared state")])
prop("C15", "A fiber runs once, join waits for its end, and handles and ids tell the truth",
 "A fiber's function is entered exactly once with its own copies of the arguments, and join() from any fiber on any thread returns only after it returned, with all its effects visible and its function object and arguments destroyed; a detached fiber runs to its end as well. A handle is joinable until joined, detached or moved from, joins on itself or on no fiber raise fiber_error, and ids are unique among live fibers, stable, ordered and hashable. Destroying or overwriting a joinable handle, or an exception escaping the function, ends in std::terminate; every stack is released exactly once, to the allocator it came from.",
 ["schedules", "programs"], "all launch policies, callables and handle operations, joins from foreign threads, completion before, during and after join",
 "join against the end of the fiber on another thread, and the release of the stack by whoever is last, are races; the tests join on one thread.",
 [I + "fiber.hpp", I + "context.hpp", "src/fiber.cpp", "src/context.cpp", "src/scheduler.cpp"], [("join and termination", "src/context.cpp: join, terminate"), ("release of terminated contexts", "src/scheduler.cpp: release_terminated_"), ("handle", "src/fiber.cpp")],
 CTL + "life-cycle model per fiber, stack and argument accounting, race and use-after-free monitors", "exact per execution; fatal paths in forked processes", state=[("terminated_", "function finished"), ("use_count_", "references on the context")])
prop("C16", "Launch policies and round_robin run fibers in the promised order",
 "Under round_robin, fibers that are ready run in first-in-first-out order: yield puts the caller behind all ready fibers, a posted fiber goes to the back while its creator keeps running, and a dispatched fiber runs at once with its creator put at the back. Fibers that wait for the same mutex, condition, channel, barrier, future or ending fiber are woken in the order they began to wait, and whoever is woken, by its own thread or another, joins the end of the queue in the order of the wakeups. No ready fiber is skipped or run twice, and has_ready_fibers() tells whether any is waiting to run.",
 ["programs", "histories"], "every program of launches, yields, joins, detaches, blocking operations and wakeups on one thread, and wakeups from another",
 "The tests fix one or two small orders; the order promise is about every program.",
 ["src/algo/round_robin.cpp", I + "algo/round_robin.hpp", "src/scheduler.cpp", "src/fiber.cpp", I + "operations.hpp", "src/context.cpp"], [("ready queue", "src/algo/round_robin.cpp"), ("yield, join wakeup", "src/scheduler.cpp: yield; src/context.cpp: terminate"), ("launch", "src/fiber.cpp: start_")],
 CTL + "exact FIFO model of the scheduler stepped with the program", "deterministic programs; the model predicts every switch", state=[("rqueue_", "ready fibers")])
prop("C17", "The library keeps its contract with any scheduling algorithm",
 "awakened() gets each fiber exactly once per time it becomes ready, never one that is running or already ready; the fiber pick_next() returns runs next; and these are called only on the algorithm's own thread. suspend_until() is called only when no fiber is ready, with a time no later than the earliest deadline of a waiting fiber, and notify() ends such a wait when another thread makes a fiber ready. Replacing a thread's algorithm loses none of its fibers, and installing one reports whether the thread had none before.",
 ["schedules", "programs"], "any user-defined algorithm, any program, wakeups from other threads at any moment, algorithm replacement at any safe point",
 "The tests use the built-in algorithms; the contract is what custom ones rely on and shows only in the calls they receive.",
 [I + "algo/algorithm.hpp", "src/scheduler.cpp", "src/context.cpp", I + "operations.hpp"], [("dispatch loop", "src/scheduler.cpp: dispatch, schedule, schedule_from_remote"), ("algorithm replacement", "src/scheduler.cpp: set_algo")],
 CTL + "online monitor implemented as a scheduling algorithm", "exact per execution; sampled programs and schedules", state=[("worker_queue_, remote_ready_queue_, sleep_queue_", "fibers by state")], observe=["awakened", "pick_next", "suspend_until", "notify"])
prop("C18", "A wakeup from another thread always arrives, whichever thread ends right after",
 "When an operation on one thread makes a fiber of another thread ready, that fiber resumes, even if its thread is idle, just about to go idle, sleeping towards a deadline or kept busy by other fibers, and whether the waker is a worker fiber, a main fiber or a plain thread; until then an idle thread sleeps and does not spin. It sees everything the waker did before. Either thread may end immediately after the hand-over, and the waker touches nothing of the woken thread's scheduler that may be gone by then.",
 ["schedules", "programs"], "every interleaving of wakers, idling schedulers and ending threads, through every synchronisation primitive",
 "The window lies between a scheduler's last look at its queues and its going to sleep, or between a wakeup and the end of the woken thread; a test cannot aim at it.",
 ["src/scheduler.cpp", "src/context.cpp", I + "waker.hpp", "src/waker.cpp", "src/algo/round_robin.cpp"], [("remote ready queue", "src/scheduler.cpp: schedule_from_remote, remote_ready2ready_"), ("idle wait", "src/algo/round_robin.cpp: suspend_until, notify"), ("routing of wakeups", "src/context.cpp: schedule")],
 CTL + "tokens passed around rings of fibers on several threads over nine media, one-shot hand-overs followed by thread exit, payload visibility, use-after-free and race monitors", "exact stall verdict; sampled schedules", state=[("remote_ready_queue_", "fibers made ready by other threads")])
prop("C19", "Sleeps and timed waits end at the deadline: not before, not long after, in order",
 "sleep_for, sleep_until and every timed wait resume no earlier than their deadline, and as soon as the thread is idle after it even if nothing else happens, or, on a thread that is never idle, within a few turns of its other fibers. Fibers of a thread resume in the order of their deadlines, for equal, past and far deadlines alike. A wait ended early by a notification leaves no timer behind: it neither wakes the fiber again nor disturbs the deadlines of others.",
 ["schedules", "programs"], "every set of deadlines, early notifications and re-sleeping fibers, on any number of threads",
 "The tests sleep once or twice; mixing of many timers with early wakeups is a matter of histories.",
 ["src/scheduler.cpp", "src/context.cpp", I + "operations.hpp", "src/waker.cpp", I + "detail/convert.hpp"], [("sleep queue", "src/scheduler.cpp: wait_until, sleep2ready_"), ("early wake removes the timer", "src/scheduler.cpp: schedule; src/context.cpp: wake")],
 CTL + "virtual time: exact earliness, order and lateness oracle", "lateness bound of one virtual second; clock leaps injected", state=[("sleep_queue_", "fibers ordered by deadline")])
prop("C20", "Migrating schedulers lose no fiber, run none twice, and keep pinned fibers home",
 "Under work_stealing and shared_work, with any number of threads, each ready fiber is run by exactly one thread at a time and eventually runs; a fiber continues after migration with its data and identity intact, including when it blocks on one thread and is woken from another. Main fibers never leave their thread, threads that poll for work take over the ready fibers of one that is kept busy, and a fiber that yields lets the others have their turn. A fiber may likewise be moved by a custom algorithm that detaches a ready fiber on one thread and attaches it on another.",
 ["schedules", "programs", "configurations"], "every interleaving of steal, push, pop, suspend, wake and exit over 1 to 4 threads; both stealing queues",
 "Stealing races are a matter of a few instructions; the tests merely migrate some fibers and sum their results.",
 ["src/algo/work_stealing.cpp", "src/algo/shared_work.cpp", I + "algo/work_stealing.hpp", I + "algo/shared_work.hpp", I + "detail/context_spinlock_queue.hpp", I + "detail/context_spmc_queue.hpp", "src/scheduler.cpp", "src/context.cpp"], [("steal", "src/algo/work_stealing.cpp: pick_next, steal"), ("shared queue", "src/algo/shared_work.cpp"), ("attach/detach", "src/scheduler.cpp, src/context.cpp")],
 CTL + "mixed workload with per-fiber state monitor, exact stall verdict, race and use-after-free monitors", "exact per execution; sampled schedules", state=[("rqueue_", "ready fibers per thread or shared")])
prop("C21", "Fiber-specific pointers are private to a fiber and cleaned up exactly once",
 "A fiber sees in a fiber_specific_ptr null until it stores something, then exactly what it stored last, never another fiber's value, and keeps it across suspension and migration. A stored value is cleaned up exactly once, by the given function or by delete: when replaced by another value, when the pointer is destroyed, or when its fiber ends, before a join of that fiber returns; storing the same value again or releasing it does not clean it up. Main fibers' values are cleaned up when their thread ends, and cleanup code may itself use fiber synchronisation and other fiber-specific pointers.",
 ["schedules", "programs"], "any program of stores, resets, releases, fiber ends and pointer destructions, on any threads and algorithms",
 "The tests run a few fibers on one thread and do not see cleanup timing, main fibers or blocking cleanup.",
 [I + "fss.hpp", I + "detail/fss.hpp", "src/context.cpp", "src/scheduler.cpp"], [("per-context map of values", "src/context.cpp: get_fss_data, set_fss_data"), ("release at end", "src/context.cpp; src/scheduler.cpp")],
 CTL + "registry of live values with owners, exact expectation per operation", "exact per execution; sampled programs", state=[("fss_data_", "values of a fiber")])
prop("C22", "A fiber keeps one properties object, and changes to it reach its algorithm",
 "A fiber has at most one properties object: the one given at its launch, or one its algorithm makes when the fiber first becomes ready. this_fiber, the handle and the algorithm all see that object, refused with bad_cast for another type, from launch until the fiber and its last handle are gone, when it is destroyed exactly once. A change announced by notify() is reported to the fiber's current algorithm exactly once if the fiber is ready, also after the algorithm was replaced, and never for a fiber that runs, waits or has not been ready yet.",
 ["programs", "schedules"], "any program of launches with and without properties, changes by any fiber of the thread at any moment, and algorithm replacement",
 "The library has no test of properties for which the answer depends on the fiber's state; only a priority example shows them.",
 [I + "properties.hpp", "src/properties.cpp", I + "algo/algorithm.hpp", "src/algo/algorithm.cpp", I + "fiber.hpp", I + "operations.hpp", "src/context.cpp"], [("notify", "src/properties.cpp"), ("properties of a ready fiber", "include/boost/fiber/algo/algorithm.hpp: algorithm_with_properties"), ("ownership", "src/context.cpp: set_properties, ~context")],
 CTL + "a priority scheduler with a registry of property objects and an exact expectation for every change", "exact per execution; sampled programs", state=[("properties_", "properties of a fiber"), ("algo_", "the algorithm to be told of changes")], observe=["properties", "notify", "property_change", "awakened"])
ALLF = sorted([I + "mutex.hpp", I + "condition_variable.hpp", I + "barrier.hpp", I + "buffered_channel.hpp", I + "unbuffered_channel.hpp", I + "future/future.hpp", I + "future/promise.hpp", I + "future/packaged_task.hpp", I + "future/detail/shared_state.hpp", I + "fiber.hpp", I + "context.hpp", I + "scheduler.hpp", "src/context.cpp", "src/scheduler.cpp", "src/waker.cpp", "src/fiber.cpp", I + "fss.hpp", I + "properties.hpp", "src/algo/round_robin.cpp", "src/algo/shared_work.cpp", "src/algo/work_stealing.cpp", "src/numa/algo/work_stealing.cpp", I + "detail/spinlock.hpp", I + "detail/context_spinlock_queue.hpp", I + "detail/context_spmc_queue.hpp"])
prop("C23", "The library is free of data races however its objects are shared",
 "When fibers on several threads use the library's objects as documented, no two accesses to the same memory conflict without being ordered: neither inside the library nor, through it, in the user's data handed over by unlocking, notifying, sending, setting a result, ending and joining a fiber, or moving a fiber to another thread. This holds with stores that other processors see late and with every supplied scheduling algorithm and queue.",
 ["schedules", "programs"], "every program of the other properties' scenario families and every interleaving of its atomic operations",
 "The test programs are run on whatever schedule the machine gives, without a detector that understands fibers.",
 ALLF, [("ordering by spinlocks", I + "detail/spinlock*.hpp"), ("handing a woken fiber to its thread", "src/scheduler.cpp: schedule_from_remote, remote_ready2ready_"), ("reference counts", "context, shared_state, algorithm: intrusive_ptr_release")],
 CTL + "happens-before race detection over all memory of library, drivers and handed-over data, with injected store buffering; every scenario family", "exact per execution (a race is reported when both accesses occur unordered in it, in either order); sampled schedules", observe=["every instrumented memory access and atomic operation"])
prop("C24", "Memory is used within its bounds and lifetime, defined behaviour only, no leaks",
 "No use of the library as documented makes it touch freed memory or memory outside its objects, free something twice, or do what the language leaves undefined; its internal assertions hold. That includes mutexes, conditions and buffered channels destroyed by whichever fiber knows itself their last user, and promises and tasks destroyed by the one that got the result. When all objects and threads of a program are gone, everything it allocated for them has been given back.",
 ["programs", "schedules", "fault_sequences"], "every program of the other properties' scenario families, including failing launches, throwing callables, abandoned promises, full and closed channels and threads that end early",
 "The tests are run without sanitizers, which do not understand fiber switches, and do not look at what stays allocated.",
 ALLF, [("intrusive reference counts", I + "context.hpp, algo/algorithm.hpp, future/detail/shared_state.hpp"), ("raw storage", I + "buffered_channel.hpp, future/detail/shared_state.hpp: storage")],
 CTL + "heap monitor (freed blocks and zones around blocks off limits, double free, balance per program) + UndefinedBehaviorSanitizer + assertions; every scenario family", "exact per execution at 8-byte granularity; sampled programs", observe=["every instrumented access", "malloc, free, mmap, munmap"])
prop("C25", "Every fiber has a stack of its own, sound in layout and given back exactly once",
 "A fiber runs on a stack obtained from the allocator it was launched with, or the thread's default, and the dispatcher on one from the allocator the thread was initialised with. No two live fibers share memory, nothing outside the stack is touched while the fiber stays within its size, and the callable and arguments kept on it are correctly aligned. The stack goes back exactly once, with the size it was handed out, to that kind of allocator, after the fiber has ended and without waiting for another fiber to end or for the thread to be left; if a launch fails because the allocator or a copy of the callable throws, the exception reaches the caller, nothing runs and nothing leaks; running off a protected_fixedsize_stack hits its guard page.",
 ["programs", "configurations", "fault_sequences"], "any allocator, stack size and alignment, any callable, fibers using their stack to the limit, failures of allocation and copying",
 "The tests launch small lambdas on default stacks and never look at the memory around them or let a launch fail.",
 [I + "context.hpp", "src/context.cpp", I + "stack_allocator_wrapper.hpp", I + "fixedsize_stack.hpp", I + "protected_fixedsize_stack.hpp", I + "pooled_fixedsize_stack.hpp", I + "fiber.hpp"], [("placement of the control structure", "include/boost/fiber/context.hpp: make_worker_context_with_properties"), ("dispatcher's stack", "src/context.cpp: make_dispatcher_context"), ("release", "include/boost/fiber/context.hpp: intrusive_ptr_release")],
 CTL + "allocators with a ledger, canary zones and poisoning; fibers that fill their stack with checked patterns; fault injection in allocation and copying; fork per overflow", "exact per execution; sampled programs", state=[("sctx, storage, size", "layout of a fiber's stack")], observe=["allocate", "deallocate", "address of locals, callable and arguments"])
prop("C26", "Every selectable spinlock excludes and publishes; stealing queues lose nothing",
 "Whichever spinlock the library is configured with (test-and-set, adaptive, their futex variants, std::mutex), at most one thread holds it, what one holder wrote the next one sees, a failed try_lock changes nothing, and a thread that waits for a released lock gets it. The queues that work_stealing is built on, both the locked and the lock-free one, give each element pushed by their owner to exactly one thread, with what the owner wrote before, also while they grow, never give a pinned fiber to a thief, and lose or invent nothing. The barrier at which the schedulers meet releases all threads together.",
 ["schedules", "configurations"], "every interleaving of owners, thieves and lockers on up to four threads, in every configuration of the library",
 "The tests are built with one configuration and do not contend for these objects at all; the queues never grow in them.",
 [I + "detail/spinlock.hpp", I + "detail/spinlock_ttas.hpp", I + "detail/spinlock_ttas_adaptive.hpp", I + "detail/spinlock_ttas_futex.hpp", I + "detail/spinlock_ttas_adaptive_futex.hpp", I + "detail/futex.hpp", I + "detail/context_spinlock_queue.hpp", I + "detail/context_spmc_queue.hpp", I + "detail/thread_barrier.hpp"], [("lock word", "spinlock_ttas*.hpp: lock, unlock"), ("indices and growth", "context_spmc_queue.hpp, context_spinlock_queue.hpp: push, pop, steal, resize")],
 CTL + "ownership and conservation monitors, happens-before race monitor over everything guarded or handed over, five build configurations", "exact per execution; sampled schedules", state=[("state_/value_", "lock word"), ("top_, bottom_, array_ / pidx_, cidx_", "queue")], observe=["lock", "try_lock", "unlock", "push", "pop", "steal", "empty"])
prop("C27", "The NUMA layer reports the machine as it is and keeps work near its node",
 "topology() returns one node per NUMA node that has online cpus, in order of id, with exactly its online logical cpus and its distances as the system lists them; all cpus belong to node 0 if the system knows no nodes, and the result is empty if it lists no cpus. pin_thread() binds exactly the given thread to exactly the given cpu, or throws system_error with the system's reason. numa::algo::work_stealing pins its thread to its cpu, runs every fiber to its end exactly once whatever the topology, steals for an idle thread only from others, from its own node before another, takes over the ready fibers of a cpu kept busy on whichever node, and never steals a pinned fiber.",
 ["inputs", "configurations", "schedules"], "every machine layout (sparse ids, one cpu per node, missing node links or distances, offline cpus), every workload and schedule on it",
 "The library has no test of its NUMA part; results depend on the machine the code runs on.",
 ["src/numa/linux/topology.cpp", "src/numa/linux/pin_thread.cpp", "src/numa/algo/work_stealing.cpp", I + "numa/topology.hpp", I + "numa/pin_thread.hpp", I + "numa/algo/work_stealing.hpp"], [("parsing of /sys/devices/system", "src/numa/linux/topology.cpp: topology"), ("affinity", "src/numa/linux/pin_thread.cpp"), ("choice of a victim", "src/numa/algo/work_stealing.cpp: pick_next")],
 "fault and input generation behind a redirected /sys and a recording pthread_setaffinity_np + " + CTL + "monitor of every steal and of the fibers' work", "exact per execution; sampled machines, programs and schedules", state=[("local_cpus_, remote_cpus_", "where to steal from")], observe=["topology", "pthread_setaffinity_np", "steal", "pick_next"])
prop("C28", "A thread ends only after its fibers have, and leaves nothing behind",
 "When a thread that ran fibers ends, every fiber it launched and detached first runs to its end, on that thread, as if the main fiber were waiting: it may sleep, synchronise with fibers of other threads, be woken by them, launch and join more fibers. Then all stacks are returned to their allocators, objects of the fibers destroyed and fiber-specific values cleaned up, once each.",
 ["schedules", "programs"], "every mix of detached fibers that are ready, blocked, sleeping or waiting for another thread when their thread's function returns",
 "The tests detach fibers that need one more slice on the same thread; wakeups from other threads during shutdown are a matter of interleaving.",
 ["src/scheduler.cpp", "src/context.cpp", "src/fiber.cpp", I + "context.hpp"], [("shutdown", "src/scheduler.cpp: ~scheduler, dispatch"), ("thread-local initializer", "src/context.cpp: context_initializer"), ("release of contexts", "src/scheduler.cpp: release_terminated_; src/context.cpp: intrusive_ptr_release")],
 CTL + "ledger of fibers, stacks, stack objects and fiber-specific values compared after the threads are gone; use-after-free and race monitors", "exact per execution; sampled programs and schedules", state=[("shutdown_", "scheduler is shutting down"), ("worker_queue_", "fibers alive on the thread"), ("terminated_queue_", "fibers to be released")])
prop("C29", "Waiting for GPU streams returns once, after all, with each stream's status",
 "cuda::waitfor_all() and hip::waitfor_all() return once the GPU runtime has called back for, or refused, every stream they were given, and not before. The result names each distinct stream exactly once with the status the runtime gave for it, refusals included. Only the calling fiber waits, the callbacks may come from any threads in any order, even while streams are still being registered, and nothing touches the call's storage after it returned.",
 ["schedules", "programs"], "every number of streams, every mix of refused and accepted ones, every order and timing of the callbacks relative to registration, waiting and returning",
 "The tests do not exercise these headers (no GPU); with one, callback timing relative to registration is up to the driver's threads.",
 [I + "cuda/waitfor.hpp", I + "hip/waitfor.hpp"], [("one stream", "include/boost/fiber/cuda/waitfor.hpp: single_stream_rendezvous"), ("several streams", "include/boost/fiber/cuda/waitfor.hpp: many_streams_rendezvous"), ("the same for HIP", "include/boost/fiber/hip/waitfor.hpp")],
 CTL + "stand-in runtime firing callbacks from its own threads; per-call ledger of registrations, callbacks and reports; use-after-free and race monitors over the call's stack", "exact per execution; sampled programs and schedules; the GPU runtime itself is a stand-in", state=[("stx_", "streams not reported yet"), ("results_", "reports so far")])

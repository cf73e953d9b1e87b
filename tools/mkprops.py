#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements, quantifiers and anchors stay reviewable)."""
import json, os
P = "src/rpp/rpp/"
X = "src/extensions/"
out = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S, H, F, C, PR = "schedules", "histories", "fault_sequences", "configurations", "programs"
SAMPLE = "The unit tests run each operator with one or two hand-picked sequences, mostly on one thread; "

# ---- core contract ---------------------------------------------------------------------------------------------
prop("C01", "Observer grammar: values, then at most one terminal, then silence",
 "For every pipeline of built-in operators over sources that obey the observable contract, the subscribed observer sees on_next* optionally followed by exactly one on_error or on_completed, and nothing after that. This holds when several sources emit, fail and complete from different threads, when sources keep emitting after they were terminated, and when callbacks throw. Once every source has ended and all timers have fired, the terminal event has been delivered.",
 [S, PR, F], "every operator chain, every interleaving of the emitting threads, every placement of errors, completions and exceptions",
 SAMPLE + "none lets two sources terminate at the same moment or lets a source misbehave after its end.",
 [P+"observers/observer.hpp", P+"observers/details/disposable_strategy.hpp", P+"operators/merge.hpp", P+"operators/take_until.hpp"],
 [("disposed-state check before every callback and dispose after a terminal one", P+"observers/observer.hpp observer_impl"), ("per-operator locked state", P+"operators/details/combining_strategy.hpp")],
 ["callbacks of the final observer"])
prop("C02", "Operators that join several sources never deliver two events at once",
 "merge, merge_with, flat_map, concat, switch_on_next, zip, combine_latest, with_latest_from, take_until, timeout, debounce, delay, observe_on, window_toggle and serialized subjects deliver to their observer strictly one call at a time, even when their sources emit concurrently from different threads. A call begins only after the previous call has returned and its effects are visible to the next one.",
 [S, PR], "every interleaving of the source threads with each other and with the observer's own callback",
 SAMPLE + "overlap needs two threads inside the same operator at the same moment, which a test cannot arrange.",
 [P+"operators/merge.hpp", P+"operators/switch_on_next.hpp", P+"operators/take_until.hpp", P+"operators/details/combining_strategy.hpp", P+"operators/with_latest_from.hpp", P+"operators/delay.hpp", P+"operators/timeout.hpp", P+"operators/debounce.hpp"],
 [("observer pointer under a mutex", P+"utils/utils.hpp value_with_mutex / pointer_under_lock"), ("serialized emission mutex", P+"subjects/details/subject_state.hpp")],
 ["entry and exit of every observer callback"])
prop("C03", "After dispose returns nothing more is delivered, from any thread",
 "A subscription may be disposed from any thread at any moment, including from inside one of its own callbacks. Nothing that a source or timer begins to emit after dispose has returned reaches the observer; at most the one delivery per emitting thread that was already on its way may still be seen, and a dispose from inside a callback ends the deliveries of that thread at once. Neither dispose nor the emitting threads dead-lock, crash or spin forever; every source involved is disposed in the end and sees it through is_disposed.",
 [S, PR], "every operator chain, every moment and thread of disposal",
 SAMPLE + "disposal is tested at quiescent points only, never inside an emission of another thread.",
 [P+"observers/observer.hpp", P+"observers/details/disposable_strategy.hpp", P+"disposables/composite_disposable.hpp", P+"operators/subscribe.hpp"],
 [("external disposable attached to the final observer", P+"operators/subscribe.hpp"), ("is_disposed checked before each delivery", P+"observers/observer.hpp")],
 ["observer callbacks after subscription dispose"])
prop("C04", "End of a subscription releases every upstream exactly once and leaks nothing",
 "When a subscription ends, by terminal event or by dispose, the one of the user as well as the ones made by operators, every upstream subscription that the operator chain opened has its disposable disposed exactly once. Once all user-held handles are dropped and scheduled work has drained, every observer, value, callable and internal state object has been destroyed, and none of them is touched after its destruction.",
 [S, PR, F], "every operator chain, every way of ending, every schedule of concurrent emission and disposal",
 SAMPLE + "leaks through reference cycles and touching freed state under races do not fail any assertion of theirs.",
 [P+"disposables/composite_disposable.hpp", P+"disposables/disposable_wrapper.hpp", P+"disposables/refcount_disposable.hpp", P+"operators/merge.hpp", P+"operators/concat.hpp", P+"operators/switch_on_next.hpp"],
 [("disposable tree with weak back references", P+"disposables/disposable_wrapper.hpp"), ("dispose on terminal", P+"observers/observer.hpp")],
 ["disposal count of each source subscription", "live heap blocks after the run"])
prop("C05", "An exception thrown by user code becomes exactly one on_error downstream",
 "When a value callback, predicate, mapper, accumulator, selector, factory or scheduled function supplied by the user to an operator throws, the exception does not escape into the emitting thread: the observer receives that same exception as its single on_error and the upstream is disposed. Values emitted before the throwing call are delivered unchanged and none is delivered after it.",
 [F, PR, S], "every user callable of every operator, every call index at which it throws, every thread it runs on",
 SAMPLE + "a few operators have one test with a callable that always throws on its first call.",
 [P+"observers/observer.hpp", P+"operators/map.hpp", P+"operators/filter.hpp", P+"operators/scan.hpp", P+"sources/create.hpp", P+"schedulers/details/queue.hpp"],
 [("catch in on_next", P+"observers/observer.hpp"), ("catch in subscribe", P+"observables/observable.hpp"), ("catch around schedulable", P+"schedulers/details/queue.hpp")],
 ["observer on_error", "upstream disposal"])
prop("C06", "Single-source operators match their list model under dispose and errors",
 "take, skip, take_while, take_last, first, last, element_at, filter, map, scan, reduce, distinct, distinct_until_changed, buffer, window, start_with, tap and finally produce exactly the events their documented list semantics gives for the input they were fed, in input order. This holds for any input sequence and ending, including an upstream error at any position, a downstream dispose at any position, and subscribing the same observable several times.",
 [H, F, PR], "every input sequence, error position, dispose position and chain of these operators",
 SAMPLE + "they use the same short literal sequences with no dispose in the middle and do not combine operators.",
 [P+"operators/take.hpp", P+"operators/skip.hpp", P+"operators/take_last.hpp", P+"operators/buffer.hpp", P+"operators/window.hpp", P+"operators/distinct_until_changed.hpp", P+"operators/scan.hpp", P+"operators/reduce.hpp", P+"operators/element_at.hpp", P+"operators/first.hpp", P+"operators/last.hpp", P+"operators/start_with.hpp", P+"operators/finally.hpp", P+"operators/tap.hpp"],
 [("per-subscription operator state", P+"operators/details/strategy.hpp")],
 ["event sequence at the observer"])

prop("R01", "Long-lived pipelines keep nothing of what has already ended",
 "A subscription, subject, connectable or disposable that lives long keeps nothing of the inner subscriptions, windows, groups, observers, connections, retries and scheduled work that have already ended or been disposed. After any number of such lifecycles, on any number of threads, the memory in use is bounded by what is active at that moment and by the configured buffers.",
 [H, PR], "every number of inner lifecycles, every interleaving of their ends with new ones",
 SAMPLE + "no test looks at what a pipeline still owns while it is running; the leak checkers only look at process exit.",
 [P+"operators/merge.hpp", P+"operators/concat.hpp", P+"operators/switch_on_next.hpp", P+"operators/group_by.hpp", P+"operators/window_toggle.hpp", P+"subjects/details/subject_state.hpp", P+"observables/connectable_observable.hpp", P+"disposables/refcount_disposable.hpp", P+"disposables/composite_disposable.hpp"],
 [("refcount and composite bookkeeping of inner subscriptions", P+"disposables/refcount_disposable.hpp")],
 ["number of live heap blocks at quiescence"])

# ---- disposables ----------------------------------------------------------------------------------------------
prop("D01", "A composite disposable disposes each child exactly once under any race",
 "Every callback or child added to a composite disposable is disposed exactly once if the composite is disposed, no matter whether the add happens before, after or concurrently with dispose, remove, clear or other adds from other threads; a child that was removed first is not disposed by the composite. is_disposed is true from the moment dispose has returned and never reverts.",
 [S, H], "every interleaving and order of add, remove, clear and dispose from several threads",
 SAMPLE + "there is no test in which add races with dispose.",
 [P+"disposables/composite_disposable.hpp", P+"disposables/callback_disposable.hpp", P+"disposables/details/base_disposable.hpp", P+"disposables/details/container.hpp", P+"disposables/disposable_wrapper.hpp"],
 [("three-state compare-exchange", P+"disposables/composite_disposable.hpp"), ("atomic exchange once flag", P+"disposables/details/base_disposable.hpp")],
 ["execution count of each child's callback", "is_disposed"], [("None/Edit/Disposed", "exclusive right to edit the container", P+"disposables/composite_disposable.hpp")])
prop("D02", "A refcount disposable disposes its source exactly at the last release",
 "A reference counted disposable stays undisposed while at least one of the references handed out is alive and undisposed, is disposed exactly once when the last one is disposed or when it is disposed directly, and disposing it directly disposes every reference handed out. After that point new references are refused, whatever the interleaving of add_ref, release and dispose.",
 [S, H], "every interleaving of add_ref, dispose of references and direct dispose",
 SAMPLE + "the reference count is only exercised from one thread.",
 [P+"disposables/refcount_disposable.hpp", P+"disposables/composite_disposable.hpp"],
 [("atomic count with disposed sentinel", P+"disposables/refcount_disposable.hpp")],
 ["source disposal callback", "is_disposed of references"])

# ---- schedulers -----------------------------------------------------------------------------------------------
prop("S01", "Scheduled work runs in due-time order, never early, first-in first-out on ties",
 "On one worker of new_thread, thread_pool, computational, run_loop and current_thread, work never starts before its due time, and among work that is pending the earlier due time runs first and equal due times run in the order they were scheduled. An idle worker starts work as soon as it becomes due, even when that work was scheduled while the worker was already waiting for later work.",
 [S, H, F], "every set of delays, every scheduling thread and moment, every wake-up order, spurious wake-ups and clock slips included",
 SAMPLE + "they use real sleeps, so they can neither bound lateness nor place a schedule call inside a wait.",
 [P+"schedulers/details/queue.hpp", P+"schedulers/new_thread.hpp", P+"schedulers/run_loop.hpp", P+"schedulers/current_thread.hpp", P+"schedulers/details/utils.hpp"],
 [("time-ordered list", P+"schedulers/details/queue.hpp"), ("timed wait on the queue", P+"schedulers/new_thread.hpp data_thread")],
 ["start time and order of every schedulable"])
prop("S02", "Work of one worker never overlaps and one worker's effects are ordered",
 "Two schedulables of the same worker (new_thread, thread_pool, computational, run_loop, strand) never execute at the same time, whichever threads scheduled them, and everything one of them wrote is visible to the next one. Everything the scheduling thread did before scheduling is visible to the scheduled work.",
 [S], "every number of scheduling threads and every interleaving",
 SAMPLE + "overlap or missing visibility would only show by luck under the real scheduler.",
 [P+"schedulers/new_thread.hpp", P+"schedulers/thread_pool.hpp", P+"schedulers/run_loop.hpp", P+"schedulers/computational.hpp"],
 [("one thread per queue, mutex guarded hand-over", P+"schedulers/new_thread.hpp")],
 ["begin and end of every schedulable"])
prop("S03", "No scheduled work is lost, duplicated or left waiting forever",
 "Every schedulable accepted from any thread by a live worker whose handler is not disposed runs exactly once per scheduling (and once more for each delay it returns), within bounded time after it is due. No wake-up is lost between scheduling threads and the worker thread, also when the worker handle is dropped right after scheduling.",
 [S, F], "every interleaving of schedule calls with the worker's sleep and shutdown decisions, with spurious wake-ups",
 SAMPLE + "a lost wake-up needs a specific interleaving of the notifier with the waiter.",
 [P+"schedulers/new_thread.hpp", P+"schedulers/thread_pool.hpp", P+"schedulers/run_loop.hpp", P+"schedulers/details/queue.hpp"],
 [("condition variable with predicate", P+"schedulers/new_thread.hpp"), ("drain before exit", P+"schedulers/new_thread.hpp")],
 ["execution count of every schedulable", "threads still blocked at the end"])
prop("S04", "Disposed handlers run no more work and schedulers tear down cleanly",
 "Work whose handler was disposed before it started is never started, and a repeating schedulable stops after the iteration during which its handler is disposed. Dropping workers, pools and loops from any thread, including from inside their own work, neither dead-locks nor crashes; their threads end and everything captured by unexecuted or finished work is destroyed.",
 [S, F], "every moment and thread of disposing the handler or dropping the scheduler",
 SAMPLE + "tear-down is tested only after all work is done.",
 [P+"schedulers/new_thread.hpp", P+"schedulers/thread_pool.hpp", P+"schedulers/run_loop.hpp", P+"schedulers/current_thread.hpp"],
 [("handler.is_disposed checks", P+"schedulers/new_thread.hpp"), ("stop flag, notify and detach", P+"schedulers/new_thread.hpp ~state_t"), ("queue reset on dispose", P+"schedulers/run_loop.hpp")],
 ["work started after dispose", "thread exit", "live heap blocks"])
prop("S05", "Returned delays reschedule relative to the documented instant",
 "A schedulable that returns delay_from_now runs again that long after the moment it returned, delay_from_this_timepoint that long after its own previous due time, and delay_to at that absolute time, with no drift; returning nothing ends it, and throwing reports the exception once to the handler and ends it. This is the same on immediate, current_thread, new_thread, thread_pool and run_loop.",
 [H, F, S], "every sequence of returned delays, execution durations and clock slips",
 SAMPLE + "they check one or two repetitions on the test clock, never with execution time between due time and return.",
 [P+"schedulers/details/queue.hpp", P+"schedulers/details/utils.hpp", P+"schedulers/current_thread.hpp", P+"schedulers/new_thread.hpp", P+"schedulers/immediate.hpp"],
 [("advanced call handling", P+"schedulers/details/queue.hpp handle_advanced_call"), ("immediate loop", P+"schedulers/details/utils.hpp immediate_scheduling_while_condition")],
 ["start time of each repetition", "handler on_error"])
prop("S06", "current_thread runs nested work after the current one, on the same thread",
 "Work scheduled on current_thread from inside other current_thread work never starts before that work returns, runs on the same thread before the outermost schedule call returns, and follows due-time order with first-in first-out ties. Different threads never see each other's queue, and the queue is left empty and reusable even when work throws or handlers are disposed midway.",
 [H, S, F], "every nesting and order of delays, every number of threads using it at the same time",
 SAMPLE + "they check a handful of fixed nestings on one thread.",
 [P+"schedulers/current_thread.hpp", P+"schedulers/details/queue.hpp", P+"schedulers/details/utils.hpp"],
 [("thread-local queue and drain", P+"schedulers/current_thread.hpp")],
 ["order, thread and nesting of execution"])

# ---- subjects -------------------------------------------------------------------------------------------------
prop("J01", "A subject multicasts every event to every current observer exactly once",
 "An observer subscribed to a subject receives every value emitted from the moment its subscription is established until it is disposed or the subject terminates, in emission order, exactly once, and the terminal event once; observers subscribed after the terminal event receive only that terminal event. Subscribing, disposing and emitting may happen at the same time on different threads, and observers may subscribe or dispose others from inside their callbacks.",
 [S, H], "every interleaving of emissions with subscribe and dispose, including re-entrant ones",
 SAMPLE + "no test subscribes or disposes while another thread is emitting.",
 [P+"subjects/details/subject_state.hpp", P+"subjects/publish_subject.hpp", P+"subjects/details/subject_on_subscribe.hpp"],
 [("observer list shared under mutex", P+"subjects/details/subject_state.hpp"), ("completed / error / disposed states", P+"subjects/details/subject_state.hpp")],
 ["events received by each observer"])
prop("J02", "Serialized subjects give all observers one common, non-overlapping order",
 "When several threads emit into a serialized subject, every observer receives the events one at a time and all observers that were subscribed throughout see the same total order, which respects each thread's own emission order. The first terminal event wins, and nothing is delivered after it.",
 [S], "every interleaving of the emitting threads",
 SAMPLE + "the tests emit from two threads a few times and rely on chance for overlap.",
 [P+"subjects/details/subject_state.hpp", P+"subjects/publish_subject.hpp", P+"subjects/behavior_subject.hpp", P+"subjects/replay_subject.hpp"],
 [("serialization mutex", P+"subjects/details/subject_state.hpp")],
 ["per-observer event order"])
prop("J03", "behavior_subject gives the latest value, then every later one, no gap",
 "A subscriber of behavior_subject first receives the most recent value and then every value emitted after that one, in order, without a gap or a repetition. For serialized_behavior_subject this also holds when the subscription races with emissions from another thread. get_value returns a value that was current at some moment during the call, and after termination subscribers receive only the terminal event.",
 [S, H], "every interleaving of subscribe and get_value with emissions",
 SAMPLE + "they subscribe only while nothing is being emitted.",
 [P+"subjects/behavior_subject.hpp", P+"subjects/details/subject_state.hpp"],
 [("value under mutex", P+"subjects/behavior_subject.hpp"), ("emit current value on subscribe", P+"subjects/behavior_subject.hpp")],
 ["events received by each observer", "get_value"])
prop("J04", "replay_subject replays exactly its bounded history, then goes live, no gap",
 "A subscriber of replay_subject receives the retained values (all, the last N, or those not older than the window) in emission order, then every later value exactly once, then the terminal event; late subscribers after the terminal event still get the retained values first. For serialized_replay_subject this also holds when the subscription races with emissions from another thread.",
 [S, H, F], "every bound and window, every interleaving of subscribe with emissions, every clock progress between emissions",
 SAMPLE + "they replay fixed sequences with no emission during subscribe.",
 [P+"subjects/replay_subject.hpp", P+"subjects/details/subject_state.hpp"],
 [("bounded history under mutex", P+"subjects/replay_subject.hpp")],
 ["events received by each observer"])

# ---- combining operators --------------------------------------------------------------------------------------
prop("M01", "merge and flat_map deliver every inner value once and end exactly on time",
 "merge, merge_with and flat_map deliver every value of every source exactly once, keeping each source's own order, complete exactly when the outer source and all inner sources have completed, and forward the first error at once, disposing all other sources. This holds when the sources emit, complete and fail concurrently from different threads.",
 [S, H, F], "every number of sources, every interleaving of their events",
 SAMPLE + "the completion counter and the error path are never raced.",
 [P+"operators/merge.hpp", P+"operators/flat_map.hpp"],
 [("completion counter", P+"operators/merge.hpp"), ("observer under lock", P+"operators/merge.hpp")],
 ["events at the observer", "disposal of each source"])
prop("M02", "concat subscribes inner observables one at a time, in order, losing none",
 "concat, as an operator and as a source, subscribes each inner observable only after the previous one has completed, in the order they arrived, forwards all their values unchanged and completes after the outer source and the last inner have completed. No inner observable is lost, skipped or run twice when inner completions race with new arrivals from another thread or happen synchronously inside subscribe.",
 [S, H, F], "every interleaving of outer arrivals with inner completions",
 SAMPLE + "a lost inner needs the outer arrival to hit the window between the drained queue and the stage change.",
 [P+"operators/concat.hpp", P+"sources/concat.hpp", P+"operators/start_with.hpp"],
 [("stage machine and queue", P+"operators/concat.hpp"), ("drain loop", P+"sources/concat.hpp")],
 ["subscription intervals of inners", "events at the observer"], [("ConcatStage", "who is allowed to subscribe the next inner", P+"operators/concat.hpp")])
prop("M03", "switch_on_next follows only the newest inner and completes after the last",
 "switch_on_next emits values of an inner observable only while it is the most recent one, disposes the previous inner when a new one arrives, completes exactly when the outer source and the current inner have both completed, and forwards any error once. This holds when outer and inner emit, switch and complete concurrently.",
 [S, H, F], "every interleaving of outer and inner events",
 SAMPLE + "switching while the old inner is emitting or completing is not tested.",
 [P+"operators/switch_on_next.hpp", P+"disposables/refcount_disposable.hpp"],
 [("refcounted inner subscriptions", P+"operators/switch_on_next.hpp")],
 ["events at the observer", "disposal of each inner"])
prop("M04", "zip pairs the n-th values of all sources and ends at the right moment",
 "zip emits exactly one result per index for which all sources have produced a value, combining the values with that index in source order, with no value lost, reused or mispaired under concurrent emission. It completes once no further full tuple is possible because all sources have completed, and forwards the first error.",
 [S, H], "every interleaving of the source threads",
 SAMPLE + "mispairing needs concurrent pushes into the per-source queues.",
 [P+"operators/zip.hpp", P+"operators/details/combining_strategy.hpp"],
 [("pending queues under lock", P+"operators/zip.hpp")],
 ["results at the observer"])
prop("M05", "combine_latest and with_latest_from combine a consistent latest snapshot",
 "combine_latest emits once for each source value after all sources have a value, with_latest_from once for each main value after all others have one, each result combining the values that were latest at one single instant consistent with each source's order. combine_latest completes when all sources have completed, with_latest_from when the main one has, errors are forwarded once, under any concurrent emission.",
 [S, H], "every interleaving of the source threads",
 SAMPLE + "torn snapshots need an update between the reads of two latest values.",
 [P+"operators/combine_latest.hpp", P+"operators/with_latest_from.hpp", P+"operators/details/combining_strategy.hpp"],
 [("latest values under lock", P+"operators/combine_latest.hpp"), ("per-value mutex", P+"operators/with_latest_from.hpp")],
 ["results at the observer"])
prop("M06", "take_until stops for good at the notifier's first event",
 "take_until forwards the main source's values in order until the notifier emits a value, completes or fails, or the main source ends; then it delivers exactly one terminal event, disposes both sources and delivers nothing more. Values delivered after the notifier's emission call has returned never occur, whatever the interleaving.",
 [S, H], "every interleaving of main source and notifier",
 SAMPLE + "the notifier fires only between two emissions in the tests.",
 [P+"operators/take_until.hpp"],
 [("observer under lock and stop flag", P+"operators/take_until.hpp")],
 ["events at the observer"])
prop("M07", "retry, repeat and on_error_resume_next resubscribe exactly as specified",
 "retry resubscribes after each error up to its limit, repeat after each completion up to its count, retry_when and repeat-style notifiers after each notification, on_error_resume_next switches to the fallback on the first error; values of all attempts are concatenated in order and at most one attempt is active at any time. Disposing at any moment stops further attempts, and sources that end synchronously inside subscribe, or on another thread, neither recurse without bound, lose an attempt nor start an extra one.",
 [S, H, F], "every number of attempts, every mix of synchronous and asynchronous endings, every dispose moment",
 SAMPLE + "they use synchronous sources only, so the resubscribe never races with the previous subscribe returning.",
 [P+"operators/retry.hpp", P+"operators/repeat.hpp", P+"operators/retry_when.hpp", P+"operators/on_error_resume_next.hpp", P+"sources/concat.hpp"],
 [("drain flag", P+"operators/retry.hpp"), ("resubscription state", P+"operators/retry_when.hpp")],
 ["subscription intervals", "events at the observer"])

# ---- time based -----------------------------------------------------------------------------------------------
prop("T01", "delay shifts every event by the delay, keeping order and losing nothing",
 "delay re-emits every value and the completion on the given scheduler, in the original order, each exactly once and never earlier than its arrival plus the delay; errors are delayed in the same way. Emissions from another thread racing with the draining worker are never lost, duplicated, reordered or overlapped, and disposal drops what is pending.",
 [S, H, F], "every arrival pattern, delay and interleaving of the source with the worker",
 SAMPLE + "arrivals while the drain is finishing are not exercised.",
 [P+"operators/delay.hpp"],
 [("queue under mutex and is_active flag", P+"operators/delay.hpp")],
 ["events and their times at the observer"])
prop("T02", "observe_on and subscribe_on move work to their scheduler and keep order",
 "observe_on delivers all values and the completion on the given scheduler's thread in emission order, exactly once and one at a time, and an error may overtake pending values but is never delivered while another event is being delivered and ends the stream. subscribe_on performs the subscription on its scheduler exactly once, and disposing before it starts prevents it.",
 [S, H, F], "every interleaving of the source with the worker thread",
 SAMPLE + "an error arriving while the worker delivers a value is not exercised.",
 [P+"operators/observe_on.hpp", P+"operators/delay.hpp", P+"operators/subscribe_on.hpp"],
 [("queue under mutex", P+"operators/delay.hpp"), ("scheduled subscribe", P+"operators/subscribe_on.hpp")],
 ["thread, order and overlap of delivered events"])
prop("T03", "debounce emits exactly the values followed by a quiet period",
 "debounce emits a value exactly when no newer value arrived within the period after it, not before that period has passed, keeps order, and on completion first flushes the pending value and then completes; an error drops the pending value. No value is emitted twice or after the terminal event when the timer, new values and completion race.",
 [S, H, F], "every arrival pattern, clock slip and interleaving of source and timer",
 SAMPLE + "timer expiry racing with a new value or completion is not exercised.",
 [P+"operators/debounce.hpp"],
 [("pending value and timer under mutex", P+"operators/debounce.hpp")],
 ["events and their times at the observer"])
prop("T04", "interval, timer and scheduled sources emit on time, in order, until disposed",
 "interval emits 0,1,2,... with the n-th value no earlier than initial delay plus n periods and without drift, timer emits once and completes, and just / from_iterable emit all their items in order and complete, whatever scheduler they run on. After the subscription is disposed they stop and release their resources.",
 [S, H, F], "every period and delay, every scheduler, clock slips and slow observers, every dispose moment",
 SAMPLE + "they use the test clock with no execution time between ticks.",
 [P+"sources/interval.hpp", P+"sources/timer.hpp", P+"sources/from.hpp", P+"schedulers/details/queue.hpp"],
 [("delay_from_this_timepoint", P+"sources/interval.hpp"), ("rescheduled iteration", P+"sources/from.hpp")],
 ["values and times at the observer"])
prop("T05", "timeout switches or fails exactly when a gap exceeds the period",
 "timeout forwards values unchanged while each gap since subscription or the last value stays within the period; when a gap exceeds it, it either emits a timeout error or switches to the fallback exactly once and disposes the original source. A value or completion racing with the expiry is either delivered before the switch or dropped, never delivered after it and never together with it.",
 [S, H, F], "every arrival pattern, clock slip and interleaving of source and timer",
 SAMPLE + "expiry racing with an arrival is not exercised.",
 [P+"operators/timeout.hpp"],
 [("last-emission state and observer under lock", P+"operators/timeout.hpp")],
 ["events at the observer", "subscription of the fallback"])
prop("T06", "throttle emits a value and then nothing until its period has passed",
 "throttle emits the first value, and afterwards emits a value exactly when at least the period has passed since the last emitted one, dropping the others, and passes the terminal event through at once. The decision uses only the scheduler's clock, so clock slips between arrivals can only lengthen, never shorten, the distance between two emitted values.",
 [H, F], "every arrival pattern and clock progress",
 SAMPLE + "they check one fixed pattern on the test clock.",
 [P+"operators/throttle.hpp"],
 [("last emission time", P+"operators/throttle.hpp")],
 ["events and their times at the observer"])

# ---- partitioning / sharing -----------------------------------------------------------------------------------
prop("W01", "window_toggle routes every value to exactly the windows open at that time",
 "Every value emitted by the source of window_toggle goes, exactly once and in order, to every window that is open at that moment: opened by the opening source and not yet closed by its own closing source; windows complete when their closing fires or the source completes, and all receive an error of any of the sources. This holds when openings, closings and values come from different threads, and resources are released once the outer and all windows are disposed.",
 [S, H], "every interleaving of openings, closings and values",
 SAMPLE + "openings and closings never race with values in the tests.",
 [P+"operators/window_toggle.hpp", P+"operators/window.hpp", P+"subjects/details/subject_state.hpp"],
 [("list of open windows under lock", P+"operators/window_toggle.hpp"), ("refcounted inner windows", P+"operators/window.hpp")],
 ["events of every window"])
prop("W02", "group_by routes each value to the single group of its key and ends all groups",
 "group_by emits one grouped observable per distinct key, at the first value of that key, and each value is delivered in order to the group of its key and only there. Completion or error of the source ends the outer and all groups exactly once, a disposed group does not affect the others, and the source stays subscribed exactly as long as the outer observer or some group is still subscribed.",
 [H, S, F], "every key sequence and every moment of disposing groups or the outer observer",
 SAMPLE + "they use a few keys with no dispose in the middle.",
 [P+"operators/group_by.hpp", P+"observables/grouped_observable.hpp", P+"disposables/refcount_disposable.hpp"],
 [("key to subject map", P+"operators/group_by.hpp"), ("refcounted source subscription", P+"operators/group_by.hpp")],
 ["events of every group", "disposal of the source"])
prop("K01", "connect and ref_count keep exactly one source subscription, ended by the last",
 "A connectable observable subscribes its source only while connected and at most once at a time; ref_count connects at the first subscriber and disposes the source exactly when the last subscriber goes, also when subscribers arrive and leave concurrently on different threads. All subscribers present share the same events, and a subscriber after that point causes a fresh connection, unless the source has already ended.",
 [S, H], "every interleaving of subscribe, dispose, connect and source events",
 SAMPLE + "first and last subscriber never race in the tests.",
 [P+"observables/connectable_observable.hpp", P+"operators/ref_count.hpp", P+"operators/publish.hpp", P+"operators/multicast.hpp", P+"disposables/refcount_disposable.hpp"],
 [("connect under mutex", P+"observables/connectable_observable.hpp"), ("refcount disposable", P+"observables/connectable_observable.hpp")],
 ["number of active source subscriptions", "events of each subscriber"])
prop("B01", "as_blocking returns exactly when the stream has ended, never earlier or never",
 "Subscribing through as_blocking returns only after the terminal event was delivered or the subscription was disposed, with all effects of the callbacks visible to the caller, and always returns then: a terminal event or dispose coming from another thread before, during or after the wait is never missed. A source that ends or is disposed synchronously does not block, and an exception that leaves its subscribe function reaches the caller instead of blocking it.",
 [S, F], "every interleaving of the ending thread with the waiting thread, spurious wake-ups included",
 SAMPLE + "a missed notification needs the end to hit between the check and the wait.",
 [P+"observables/blocking_observable.hpp", P+"operators/as_blocking.hpp"],
 [("flag, mutex and condition variable", P+"observables/blocking_observable.hpp")],
 ["return of subscribe"])

# ---- extensions -----------------------------------------------------------------------------------------------
prop("X01", "The asio strand scheduler keeps order, exclusion and due times on any threads",
 "Work scheduled on one asio strand worker runs at its due time or later, never two at a time, with immediate work of one thread in scheduling order, also when the io_context is run by several threads and work is scheduled from several threads. Disposed handlers run no work, returned delays reschedule, a throwing schedulable reports to its handler once, and everything is released when the context is drained.",
 [S, H, F], "every number of io_context threads and every interleaving",
 SAMPLE + "the tests run the context from one thread or with real timing.",
 [X+"rppasio/rppasio/schedulers/strand.hpp"],
 [("asio strand and steady timer", X+"rppasio/rppasio/schedulers/strand.hpp")],
 ["start, end and thread of every schedulable"])
prop("X02", "gRPC reactors write every value in order, one at a time, then finish",
 "Every value an observable emits into a gRPC write reactor is handed to the transport exactly once and in order, with at most one write outstanding, and the stream is closed only after all queued values were written, with OK on completion and an error status on error. This holds when values are emitted from one thread while write completions and the end of the call arrive on another.",
 [S, H, F], "every interleaving of emissions, write acknowledgements, failures and cancellation",
 SAMPLE + "the tests run a real server whose thread timing they do not control.",
 [X+"rppgrpc/rppgrpc/details/base.hpp", X+"rppgrpc/rppgrpc/server_reactor.hpp", X+"rppgrpc/rppgrpc/client_reactor.hpp"],
 [("write queue under mutex", X+"rppgrpc/rppgrpc/details/base.hpp")],
 ["transport calls (write, finish, writes-done)"])
prop("X03", "gRPC reactors forward reads once each and end observers and themselves once",
 "Every message read from the transport reaches the observer exactly once and in order, and the end of the call is reported to it exactly once: completion for a clean end, an error for a failed status or cancellation. The reactor destroys itself exactly once, after the transport's final done notification, and is not touched afterwards, whatever the order of reads, writes, cancel and done.",
 [S, H, F], "every order of transport events allowed by the gRPC callback API",
 SAMPLE + "the orders seen depend on the real gRPC threads.",
 [X+"rppgrpc/rppgrpc/details/base.hpp", X+"rppgrpc/rppgrpc/server_reactor.hpp", X+"rppgrpc/rppgrpc/client_reactor.hpp"],
 [("reader subject and OnDone", X+"rppgrpc/rppgrpc/details/base.hpp")],
 ["observer events", "reactor destruction"])
prop("X04", "The Qt main-thread scheduler runs work on the GUI thread, on time, in order",
 "Work scheduled from any thread on the Qt main-thread scheduler runs on the thread of the application object, never before its due time, with immediate (zero delay) work of one thread in scheduling order, and is skipped when its handler was disposed before it starts. Returned delays reschedule it, a throwing schedulable reports to the handler once, and nothing is lost or run twice.",
 [S, H, F], "every interleaving of scheduling threads with the event loop",
 SAMPLE + "they check that one call ran on the main thread.",
 [X+"rppqt/rppqt/schedulers/main_thread.hpp"],
 [("QTimer single shot on the application object", X+"rppqt/rppqt/schedulers/main_thread.hpp")],
 ["thread, time and order of every schedulable"])

prop("X05", "from_signal delivers every emission of a Qt signal, and ends with its object",
 "An observable made from a Qt signal hands every emission of the signal, with all its arguments, exactly once and in order to every observer subscribed throughout the emission, whichever threads subscribe and dispose meanwhile. Destroying the object completes every remaining observer, and a later subscriber gets only that completion.",
 [S, H, F], "every interleaving of emissions, subscriptions, disposals and destruction of the object",
 SAMPLE + "they emit from one thread to one subscriber.",
 [X+"rppqt/rppqt/sources/from_signal.hpp"],
 [("signal connection to a publish subject", X+"rppqt/rppqt/sources/from_signal.hpp")],
 ["every notification of every observer, emissions and destruction of the object"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
for o in out:
    for fn in o["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print("missing", o["id"], fn)
    if o["statement"].count(". ") > 2: print("sentences?", o["id"], o["statement"].count(". ") + 1)
print(len(out))

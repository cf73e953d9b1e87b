From 22e45692b403ecbe373acc7316042ebb24561500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 01/38] fix: current_thread advances the timepoint of a
 schedulable repeated on an empty queue

drain_queue computed delay_from_this_timepoint from the first timepoint again and
again, so from the second repetition on the schedulable ran without any delay.
---
 src/rpp/rpp/schedulers/current_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index bf2c9ef..f4d5ca2 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -126,7 +126,8 @@ namespace rpp::schedulers
                                 }
                                 else
                                 {
-                                    details::sleep_until(top->handle_advanced_call(res.value()));
+                                    top->set_timepoint(top->handle_advanced_call(res.value()));
+                                    details::sleep_until(top->get_timepoint());
                                 }
                                 continue;
                             }
-- 
2.43.0


From 285de7cd1894c6374adb8e354a1e6d2429208293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 02/38] fix: new_thread wakes up for work that is due before
 the one it waits for

The wait predicate did not hold when a new, earlier but not yet due schedulable was
queued, so it was executed only at the time point of the later one.
---
 src/rpp/rpp/schedulers/new_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index 5cefa7e..2a49bf5 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -87,7 +87,8 @@ namespace rpp::schedulers
                     {
                         if (const auto now = worker_strategy::now(); now < state->queue.top()->get_timepoint())
                         {
-                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now, [&] { return state->queue.top()->is_disposed() || worker_strategy::now() >= state->queue.top()->get_timepoint(); });
+                            const auto tp = state->queue.top()->get_timepoint();
+                            state->cv.wait_for(lock, tp - now, [&] { return state->queue.top()->is_disposed() || state->queue.top()->get_timepoint() < tp || worker_strategy::now() >= tp; });
                             continue;
                         }
                     }
-- 
2.43.0


From 86b71297372c79193500fc94de61d2447d344398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 03/38] fix: new_thread notices work queued via current_thread
 from its own thread

Such work bypassed has_fresh_data, so a schedulable that repeats without delay kept
running ahead of work queued earlier.
---
 src/rpp/rpp/schedulers/details/queue.hpp | 5 +++++
 src/rpp/rpp/schedulers/new_thread.hpp    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/details/queue.hpp b/src/rpp/rpp/schedulers/details/queue.hpp
index d2578e4..596e039 100644
--- a/src/rpp/rpp/schedulers/details/queue.hpp
+++ b/src/rpp/rpp/schedulers/details/queue.hpp
@@ -19,6 +19,7 @@
 
 #include "rpp/utils/functors.hpp"
 
+#include <atomic>
 #include <condition_variable>
 #include <exception>
 #include <memory>
@@ -199,6 +200,7 @@ namespace rpp::schedulers::details
     {
         std::condition_variable_any cv{};
         std::recursive_mutex        mutex{};
+        std::atomic_bool            has_fresh_data{false};
     };
 
     template<typename NowStrategy>
@@ -259,6 +261,9 @@ namespace rpp::schedulers::details
             optional_mutex<std::recursive_mutex> mutex{s ? &s->mutex : nullptr};
             std::lock_guard                      lock{mutex};
 
+            if (s)
+                s->has_fresh_data.store(true);
+
             if (!m_head || schedulable->get_timepoint() < m_head->get_timepoint())
             {
                 schedulable->set_next(std::move(m_head));
diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index 2a49bf5..9765ecc 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -51,7 +51,6 @@ namespace rpp::schedulers
             void defer_to(time_point time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 m_state->queue.emplace(time_point, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-                m_state->has_fresh_data.store(true);
             }
 
         private:
@@ -59,7 +58,6 @@ namespace rpp::schedulers
             {
                 details::schedulables_queue<current_thread::worker_strategy> queue{};
                 bool                                                         is_stoping{};
-                std::atomic_bool                                             has_fresh_data{false};
             };
 
             static void data_thread(std::shared_ptr<queue_data> state)
-- 
2.43.0


From 8fbd4c3a7c7e39a99daee31ae0cad33bc5f63b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 04/38] fix: thread_pool and computational can create workers
 from several threads

create_worker incremented a plain index without synchronization.
---
 src/rpp/rpp/schedulers/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/thread_pool.hpp b/src/rpp/rpp/schedulers/thread_pool.hpp
index 906733d..916baf2 100644
--- a/src/rpp/rpp/schedulers/thread_pool.hpp
+++ b/src/rpp/rpp/schedulers/thread_pool.hpp
@@ -14,6 +14,7 @@
 
 #include <rpp/schedulers/new_thread.hpp>
 
+#include <atomic>
 #include <vector>
 
 namespace rpp::schedulers
@@ -80,11 +81,11 @@ namespace rpp::schedulers
                     m_workers.emplace_back(new_thread::create_worker());
             }
 
-            const original_worker& get() { return m_workers[m_index++ % m_workers.size()]; }
+            const original_worker& get() { return m_workers[m_index.fetch_add(1, std::memory_order::relaxed) % m_workers.size()]; }
 
         private:
             std::vector<original_worker> m_workers{};
-            size_t                       m_index{};
+            std::atomic<size_t>          m_index{};
         };
 
         std::shared_ptr<state> m_state{};
-- 
2.43.0


From dbcb88dc5107952512c5ec0ddd0d58bc0a40c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 05/38] fix: current_thread does not run work disposed while
 the thread sleeps until it is due

immediate and new_thread look at the handler again after waiting, drain_queue did not.
---
 src/rpp/rpp/schedulers/current_thread.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index f4d5ca2..73d2e2f 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -110,7 +110,8 @@ namespace rpp::schedulers
                 if (top->is_disposed())
                     continue;
 
-                details::sleep_until(top->get_timepoint());
+                if (details::sleep_until(top->get_timepoint()) && top->is_disposed())
+                    continue;
 
                 while (true)
                 {
@@ -129,6 +130,9 @@ namespace rpp::schedulers
                                     top->set_timepoint(top->handle_advanced_call(res.value()));
                                     details::sleep_until(top->get_timepoint());
                                 }
+
+                                if (top->is_disposed())
+                                    break;
                                 continue;
                             }
                             const auto tp = top->handle_advanced_call(res.value());
-- 
2.43.0


From d031802f98c8b27dca831a700d1cefaeaa375990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 06/38] fix: composite_disposable::clear disposes outside of
 its edit state

A child that used the same composite_disposable while being disposed by clear (for
example a reference removing itself from its refcount_disposable) spun forever.
---
 src/rpp/rpp/disposables/composite_disposable.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index 25b05d9..13abc70 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -130,18 +130,13 @@ namespace rpp
                 // need to acquire possible disposables state changing from other `add` or `remove`
                 if (m_current_state.compare_exchange_strong(expected, State::Edit, std::memory_order::seq_cst))
                 {
-                    try
-                    {
-                        m_disposables.dispose();
-                        m_disposables.clear();
-                    }
-                    catch (...)
-                    {
-                        m_current_state.store(State::None, std::memory_order::seq_cst);
-                        throw;
-                    }
+                    Container disposables{std::move(m_disposables)};
+                    m_disposables.clear();
                     // need to propogate disposables state changing to others
                     m_current_state.store(State::None, std::memory_order::seq_cst);
+
+                    // disposed outside of `Edit` state: disposable can use this composite_disposable while it is disposed
+                    disposables.dispose();
                     return;
                 }
 
-- 
2.43.0


From 50071207624bb893cfed12bed602b1fc4961f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 07/38] fix: disposing several observers of a subject at the
 same time does not dead-lock

The previous list of observers was destroyed under the subject's mutex. When it was the
last owner of another observer which is being disposed, its destructor locked it again.
---
 src/rpp/rpp/subjects/details/subject_state.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 12969ff..d34166b 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -55,9 +55,13 @@ namespace rpp::subjects::details
             {
                 if (const auto shared = m_state.lock())
                 {
+                    // destroyed only after unlocking: it can be the last owner of another observer being disposed right now
+                    shared_observers old_observers{};
+
                     std::unique_lock lock{shared->m_mutex};
                     process_state_unsafe(shared->m_state,
                                          [&](const shared_observers& observers) {
+                                             old_observers   = observers;
                                              shared->m_state = cleanup_observers(observers, this);
                                          });
                 }
-- 
2.43.0


From de84fa90e98e241f44d2aca90eedab120a03288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 08/38] fix: subscribing to a subject while it emits does not
 invalidate the iteration

on_next iterates over the observers without the mutex, but push_back invalidates the
iterators of a deque: with many observers it read freed memory.
---
 src/rpp/rpp/subjects/details/subject_state.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index d34166b..a032488 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -20,7 +20,8 @@
 #include <rpp/utils/utils.hpp>
 
 #include <algorithm>
-#include <deque>
+#include <iterator>
+#include <list>
 #include <memory>
 #include <mutex>
 #include <variant>
@@ -71,7 +72,7 @@ namespace rpp::subjects::details
         };
 
         using observer         = std::shared_ptr<rpp::details::observers::observer_vtable<Type>>;
-        using observers        = std::deque<observer>;
+        using observers        = std::list<observer>;
         using shared_observers = std::shared_ptr<observers>;
         using state_t          = std::variant<shared_observers, std::exception_ptr, completed, disposed>;
 
@@ -120,18 +121,20 @@ namespace rpp::subjects::details
             if (!std::holds_alternative<shared_observers>(m_state))
                 return;
 
-            // we are getting copy of curent deque and obtaining CURRENT begin/end of in case of some new observer would be added during on_next call
+            // we are getting copy of curent list and obtaining its CURRENT range (iterators of list stay valid) in case of some new observer would be added during on_next call
             const auto observers = std::get<shared_observers>(m_state);
-            if (!observers)
+            if (!observers || observers->empty())
                 return;
 
-            const auto begin = observers->cbegin();
-            const auto end   = observers->cend();
+            auto       itr  = observers->cbegin();
+            const auto last = std::prev(observers->cend());
 
             observers_lock.unlock();
 
             std::lock_guard lock{m_serialized_mutex};
-            std::for_each(begin, end, [&](const observer& obs) { obs->on_next(v); });
+            for (; itr != last; ++itr)
+                (*itr)->on_next(v);
+            (*last)->on_next(v);
         }
 
         void on_error(const std::exception_ptr& err)
-- 
2.43.0


From 68a1441a86214842377c20c395cb7f0821afe05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:09 +0000
Subject: [PATCH 09/38] fix: subscribing to serialized behavior/replay subject
 does not race with emissions

---
 src/rpp/rpp/subjects/behavior_subject.hpp      |  5 ++++-
 src/rpp/rpp/subjects/details/subject_state.hpp | 13 ++++++++++---
 src/rpp/rpp/subjects/replay_subject.hpp        |  5 ++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/subjects/behavior_subject.hpp b/src/rpp/rpp/subjects/behavior_subject.hpp
index 3ab5dc9..a9fbe4d 100644
--- a/src/rpp/rpp/subjects/behavior_subject.hpp
+++ b/src/rpp/rpp/subjects/behavior_subject.hpp
@@ -17,6 +17,7 @@
 #include <rpp/subjects/details/subject_on_subscribe.hpp>
 #include <rpp/subjects/details/subject_state.hpp>
 
+#include <mutex>
 #include <utility>
 
 namespace rpp::subjects::details
@@ -54,6 +55,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
+                std::lock_guard lock{state->get_serialized_mutex()};
                 *state->get_value() = v;
                 state->on_next(v);
             }
@@ -84,7 +86,8 @@ namespace rpp::subjects::details
         auto get_observable() const
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
-                const auto locked = state.lock();
+                const auto      locked = state.lock();
+                std::lock_guard lock{locked->get_serialized_mutex()};
                 if (!locked->is_disposed())
                 {
                     auto v = *locked->get_value();
diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index a032488..5d077b9 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -75,6 +75,8 @@ namespace rpp::subjects::details
         using observers        = std::list<observer>;
         using shared_observers = std::shared_ptr<observers>;
         using state_t          = std::variant<shared_observers, std::exception_ptr, completed, disposed>;
+        // recursive: observer can emit to or subscribe on subject from its callbacks
+        using serialized_mutex = std::conditional_t<Serialized, std::recursive_mutex, rpp::utils::none_mutex>;
 
     public:
         using expected_disposable_strategy = rpp::details::observables::atomic_fixed_disposable_strategy_selector<1>;
@@ -157,6 +159,11 @@ namespace rpp::subjects::details
             dispose();
         }
 
+        /**
+         * @brief Mutex held during any emission. Has to be held to emit stored values and subscribe new observer without missing or repeating emissions happening at the same time
+         */
+        serialized_mutex& get_serialized_mutex() { return m_serialized_mutex; }
+
     private:
         void composite_dispose_impl(interface_disposable::Mode) noexcept override
         {
@@ -194,8 +201,8 @@ namespace rpp::subjects::details
         }
 
     private:
-        state_t                                                                                  m_state;
-        std::mutex                                                                               m_mutex{};
-        RPP_NO_UNIQUE_ADDRESS std::conditional_t<Serialized, std::mutex, rpp::utils::none_mutex> m_serialized_mutex{};
+        state_t                                m_state;
+        std::mutex                             m_mutex{};
+        RPP_NO_UNIQUE_ADDRESS serialized_mutex m_serialized_mutex{};
     };
 } // namespace rpp::subjects::details
diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index a4a549d..efbe5c9 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -18,6 +18,7 @@
 #include <rpp/subjects/details/subject_state.hpp>
 
 #include <deque>
+#include <mutex>
 #include <utility>
 
 namespace rpp::subjects::details
@@ -94,6 +95,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
+                std::lock_guard lock{state->get_serialized_mutex()};
                 state->add_value(v);
                 state->on_next(v);
             }
@@ -129,7 +131,8 @@ namespace rpp::subjects::details
         auto get_observable() const
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
-                const auto locked = state.lock();
+                const auto      locked = state.lock();
+                std::lock_guard lock{locked->get_serialized_mutex()};
                 for (auto&& value : locked->get_actual_values())
                     observer.on_next(std::move(value.value));
                 locked->on_subscribe(std::forward<TObs>(observer));
-- 
2.43.0


From 47c2edeed1f362adf5c7be6f5f7348797fd1ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:17 +0000
Subject: [PATCH 10/38] fix: concat does not lose or reorder observable
 arriving while the previous one completes

---
 src/rpp/rpp/operators/concat.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 0537253..38ebc6d 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -46,19 +46,29 @@ namespace rpp::operators::details
         }
 
         rpp::utils::pointer_under_lock<TObserver>               get_observer() { return m_observer; }
-        rpp::utils::pointer_under_lock<std::queue<TObservable>> get_queue() { return m_queue; }
         const std::shared_ptr<refcount_disposable>&             get_disposable() const { return m_disposable; }
 
         std::atomic<ConcatStage>& stage() { return m_stage; }
 
+        template<typename T>
+        bool start_draining_or_enqueue(T&& observable)
+        {
+            auto        queue   = get_queue();
+            ConcatStage current = ConcatStage::None;
+            if (stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+                return true;
+
+            queue->push(std::forward<T>(observable));
+            return false;
+        }
+
         void drain(rpp::composite_disposable_wrapper refcounted)
         {
             while (!m_disposable->is_disposed())
             {
-                const auto observable = get_observable();
+                const auto observable = get_observable_or_stop_draining();
                 if (!observable)
                 {
-                    stage().store(ConcatStage::None, std::memory_order::relaxed);
                     refcounted.dispose();
                     if (m_disposable->is_disposed())
                         get_observer()->on_completed();
@@ -90,12 +100,17 @@ namespace rpp::operators::details
             return stage().compare_exchange_strong(current, ConcatStage::Processing, std::memory_order::seq_cst);
         }
 
-    private:
-        std::optional<TObservable> get_observable()
+        rpp::utils::pointer_under_lock<std::queue<TObservable>> get_queue() { return m_queue; }
+
+        // stage is changed under lock of queue to not miss observable pushed to queue at the same time
+        std::optional<TObservable> get_observable_or_stop_draining()
         {
             auto queue = get_queue();
             if (queue->empty())
+            {
+                stage().store(ConcatStage::None, std::memory_order::seq_cst);
                 return std::nullopt;
+            }
             auto observable = queue->front();
             queue->pop();
             return observable;
@@ -174,11 +189,8 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            ConcatStage current = ConcatStage::None;
-            if (base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+            if (base::state->start_draining_or_enqueue(std::forward<T>(v)))
                 base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
-            else
-                base::state->get_queue()->push(std::forward<T>(v));
         }
 
         void on_completed() const
-- 
2.43.0


From 42b68a24101a47357ac8efc4a72973fe50eb5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 11/38] fix: switch_on_next skips events of replaced observable
 which wait for the lock

---
 src/rpp/rpp/operators/switch_on_next.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/switch_on_next.hpp b/src/rpp/rpp/operators/switch_on_next.hpp
index 5a578b0..1ee90f5 100644
--- a/src/rpp/rpp/operators/switch_on_next.hpp
+++ b/src/rpp/rpp/operators/switch_on_next.hpp
@@ -57,12 +57,17 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            m_state->get_observer()->on_next(std::forward<T>(v));
+            // checked under lock: value has to be skipped if this inner observable was replaced while waiting for the lock
+            const auto observer = m_state->get_observer();
+            if (!m_refcounted.is_disposed())
+                observer->on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            m_state->get_observer()->on_error(err);
+            const auto observer = m_state->get_observer();
+            if (!m_refcounted.is_disposed())
+                observer->on_error(err);
         }
 
         void on_completed() const
-- 
2.43.0


From 602a6d61cc7bd3b75ea7255f83e8afcab57a0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 12/38] fix: retry_when and on_error_resume_next ignore events
 of failed source

---
 src/rpp/rpp/operators/on_error_resume_next.hpp | 4 +++-
 src/rpp/rpp/operators/retry_when.hpp           | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index 4426cc2..d009a5f 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -59,6 +59,7 @@ namespace rpp::operators::details
 
         std::shared_ptr<TObserver>     state;
         RPP_NO_UNIQUE_ADDRESS Selector selector;
+        mutable bool                   locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -68,6 +69,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
+            locally_disposed = true;
             try
             {
                 selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
@@ -88,7 +90,7 @@ namespace rpp::operators::details
             state->set_upstream(d);
         }
 
-        bool is_disposed() const { return state->is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index ef9f28a..e46bc3a 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -92,6 +92,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
+        mutable bool                                                         locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -101,6 +102,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
+            locally_disposed = true;
             try
             {
                 state->notifier(err).subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
@@ -113,12 +115,13 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
+            locally_disposed = true;
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable, typename TNotifier>
-- 
2.43.0


From 71e5c233b79ed13c0bc4518e7559be47c5933028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 13/38] fix: observe_on does not deliver error while its worker
 is inside of the observer

---
 src/rpp/rpp/operators/delay.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/delay.hpp b/src/rpp/rpp/operators/delay.hpp
index 612df5c..340e0f1 100644
--- a/src/rpp/rpp/operators/delay.hpp
+++ b/src/rpp/rpp/operators/delay.hpp
@@ -53,6 +53,7 @@ namespace rpp::operators::details
         std::mutex              mutex{};
         std::queue<emission<T>> queue;
         bool                    is_active{};
+        bool                    is_emitting{};
     };
 
     template<rpp::constraint::observer Observer, typename Worker>
@@ -116,7 +117,11 @@ namespace rpp::operators::details
             if constexpr (ClearOnError && rpp::constraint::decayed_same_as<std::exception_ptr, TT>)
             {
                 state->queue = std::queue<emission<rpp::utils::extract_observer_type_t<Observer>>>{};
-                state->observer.on_error(std::forward<TT>(item));
+                // worker is inside of observer: let it deliver error right after that
+                if (state->is_emitting)
+                    state->queue.emplace(std::forward<TT>(item), state->worker.now());
+                else
+                    state->observer.on_error(std::forward<TT>(item));
                 return std::nullopt;
             }
             else
@@ -137,6 +142,7 @@ namespace rpp::operators::details
             while (true)
             {
                 std::unique_lock lock{state->mutex};
+                state->is_emitting = false;
                 if (state->queue.empty())
                 {
                     state->is_active = false;
@@ -149,6 +155,7 @@ namespace rpp::operators::details
 
                 auto item = std::move(top.value);
                 state->queue.pop();
+                state->is_emitting = true;
                 lock.unlock();
 
                 std::visit(rpp::utils::overloaded{[&](rpp::utils::extract_observer_type_t<Observer>&& v) { state->observer.on_next(std::move(v)); },
-- 
2.43.0


From e16c7292161f552d886ad00632cc036f31b3a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 14/38] fix: debounce does not lose the value which became due
 at the moment of completion

---
 src/rpp/rpp/operators/debounce.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 0bb9c12..d2f8278 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -71,12 +71,14 @@ namespace rpp::operators::details
             m_worker.schedule(
                 m_time_when_value_should_be_emitted.value(),
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
-                    auto value_or_duration = handler.state->extract_value_or_time();
+                    // locked before extracting: completion can't come between extraction of the value and its emission
+                    const auto observer          = handler.state->get_observer_under_lock();
+                    auto       value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
                         return schedulers::optional_delay_to{*timepoint};
 
                     if (auto* value = std::get_if<T>(&value_or_duration))
-                        handler.state->get_observer_under_lock()->on_next(std::move(*value));
+                        observer->on_next(std::move(*value));
 
                     return std::nullopt;
                 },
-- 
2.43.0


From 50ddfec6d72ff2a546c17fbf89c7826f1b2ae75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 15/38] fix: debounce schedules outside of its lock so
 scheduler can execute in place

---
 src/rpp/rpp/operators/debounce.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index d2f8278..b74e80a 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -47,13 +47,16 @@ namespace rpp::operators::details
         template<typename TT>
         void emplace_safe(TT&& v)
         {
-            std::lock_guard lock{m_mutex};
+            std::unique_lock lock{m_mutex};
             m_value_to_be_emitted.emplace(std::forward<TT>(v));
             const bool need_to_scheduled        = !m_time_when_value_should_be_emitted.has_value();
-            m_time_when_value_should_be_emitted = m_worker.now() + m_period;
+            const auto timepoint                = m_worker.now() + m_period;
+            m_time_when_value_should_be_emitted = timepoint;
+            // scheduler could execute schedulable in place
+            lock.unlock();
             if (need_to_scheduled)
             {
-                schedule();
+                schedule(timepoint);
             }
         }
 
@@ -66,10 +69,10 @@ namespace rpp::operators::details
         rpp::utils::pointer_under_lock<Observer> get_observer_under_lock() { return m_observer; }
 
     private:
-        void schedule()
+        void schedule(schedulers::time_point timepoint)
         {
             m_worker.schedule(
-                m_time_when_value_should_be_emitted.value(),
+                timepoint,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
                     // locked before extracting: completion can't come between extraction of the value and its emission
                     const auto observer          = handler.state->get_observer_under_lock();
-- 
2.43.0


From fc019bd832a2598dc7dd62f7adca3213d21ab13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 16/38] fix: timeout drops value which waits for the lock while
 timeout is reached

---
 src/rpp/rpp/operators/timeout.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpp/rpp/operators/timeout.hpp b/src/rpp/rpp/operators/timeout.hpp
index 4d2ce27..4b6302e 100644
--- a/src/rpp/rpp/operators/timeout.hpp
+++ b/src/rpp/rpp/operators/timeout.hpp
@@ -82,6 +82,10 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             auto obs_with_timeout = disposable->get_observer_with_timeout_under_lock();
+            // timeout could be reached while this thread was waiting for the lock: observer belongs to fallback now
+            if (disposable->is_disposed())
+                return;
+
             obs_with_timeout->observer.on_next(std::forward<T>(v));
             obs_with_timeout->timeout = rpp::schedulers::utils::get_worker_t<TScheduler>::now() + disposable->get_period();
         }
-- 
2.43.0


From 30722cb7f74e93247932ac3ab2131baa2cf13da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 17/38] fix: window_toggle does not complete window while
 source emits to it

---
 src/rpp/rpp/operators/window_toggle.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/operators/window_toggle.hpp b/src/rpp/rpp/operators/window_toggle.hpp
index c51d918..a2b700b 100644
--- a/src/rpp/rpp/operators/window_toggle.hpp
+++ b/src/rpp/rpp/operators/window_toggle.hpp
@@ -66,6 +66,15 @@ namespace rpp::operators::details
             return itr;
         }
 
+        template<typename Itr>
+        auto extract_observer(const Itr& itr)
+        {
+            auto locked_state = get_state_under_lock();
+            auto observer     = std::move(*itr);
+            locked_state->observers.erase(itr);
+            return observer;
+        }
+
     private:
         rpp::utils::value_with_mutex<state_t>     m_state{};
         RPP_NO_UNIQUE_ADDRESS TClosingsSelectorFn m_closings;
@@ -98,11 +107,9 @@ namespace rpp::operators::details
         {
             disposable->remove(this_disposable);
 
-            itr->on_completed();
+            // extracted under lock: no one is emitting to this observer at the same time
+            state->extract_observer(itr).on_completed();
             this_disposable.dispose();
-
-            auto locked_state = state->get_state_under_lock();
-            locked_state->observers.erase(itr);
         }
 
         void set_upstream(const disposable_wrapper& d) const { this_disposable.add(d); }
-- 
2.43.0


From 2d2f73bcad11cfd80f40f170c16d34bac5655227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 18/38] fix: subject sets upstream of observer before observer
 becomes visible for emitting threads

---
 .../rpp/subjects/details/subject_state.hpp    | 55 ++++++++++++++-----
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 5d077b9..277fe84 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -89,22 +89,9 @@ namespace rpp::subjects::details
             std::unique_lock lock{m_mutex};
             process_state_unsafe(
                 m_state,
-                [&](const shared_observers& observers) {
-                    auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
-                    auto ptr = d.lock();
-                    if (!observers)
-                    {
-                        auto new_observers = std::make_shared<subject_state::observers>();
-                        new_observers->emplace_back(ptr);
-                        m_state = std::move(new_observers);
-                    }
-                    else
-                    {
-                        observers->emplace_back(ptr);
-                    }
-
+                [&](const shared_observers&) {
                     lock.unlock();
-                    ptr->set_upstream(d.as_weak());
+                    add_observer(std::forward<TObs>(observer));
                 },
                 [&](const std::exception_ptr& err) {
                     lock.unlock();
@@ -165,6 +152,44 @@ namespace rpp::subjects::details
         serialized_mutex& get_serialized_mutex() { return m_serialized_mutex; }
 
     private:
+        template<rpp::constraint::observer_of_type<Type> TObs>
+        void add_observer(TObs&& observer)
+        {
+            const auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
+            const auto ptr = d.lock();
+
+            // before observer becomes visible for emitting threads: observer doesn't expect upstream at the same time with terminal event
+            ptr->set_upstream(d.as_weak());
+
+            std::unique_lock lock{m_mutex};
+            process_state_unsafe(
+                m_state,
+                [&](const shared_observers& observers) {
+                    // disposed in between, so nobody would remove it later
+                    if (d.is_disposed())
+                        return;
+
+                    if (!observers)
+                    {
+                        auto new_observers = std::make_shared<subject_state::observers>();
+                        new_observers->emplace_back(ptr);
+                        m_state = std::move(new_observers);
+                    }
+                    else
+                    {
+                        observers->emplace_back(ptr);
+                    }
+                },
+                [&](const std::exception_ptr& err) {
+                    lock.unlock();
+                    ptr->on_error(err);
+                },
+                [&](completed) {
+                    lock.unlock();
+                    ptr->on_completed();
+                });
+        }
+
         void composite_dispose_impl(interface_disposable::Mode) noexcept override
         {
             exchange_observers_under_lock_if_there(disposed{});
-- 
2.43.0


From 14c30f6e719c1948bf2263f95db41b979553ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:17 +0000
Subject: [PATCH 19/38] fix: ref_count makes new connection when previous one
 is being released instead of staying without any connection

---
 .../observables/connectable_observable.hpp    | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index 557699e..e16dad3 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -51,12 +51,23 @@ namespace rpp::details
     private:
         std::pair<rpp::disposable_wrapper, rpp::composite_disposable_wrapper> on_subscribe() const
         {
-            std::unique_lock lock(m_state->mutex);
-            if (!m_state->disposable.is_disposed())
-                return {m_state->disposable.lock()->add_ref(), composite_disposable_wrapper::empty()};
-
-            m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
-            return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+            while (true)
+            {
+                std::unique_lock lock(m_state->mutex);
+                if (m_state->disposable.is_disposed())
+                {
+                    m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
+                    return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+                }
+
+                const auto refcount = m_state->disposable;
+                if (auto ref = refcount.lock()->add_ref(); !ref.is_disposed())
+                    return {std::move(ref), composite_disposable_wrapper::empty()};
+
+                // last reference was released right now by another thread: need to be sure it is disposed before making of new connection
+                lock.unlock();
+                refcount.dispose();
+            }
         }
     };
 } // namespace rpp::details
-- 
2.43.0


From 80f9b3169491830e9b7e96f5c25fd346fe1f9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 20/38] fix: local flag of retry, retry_when,
 on_error_resume_next and concat is atomic: is_disposed can be asked by
 another thread

---
 src/rpp/rpp/operators/on_error_resume_next.hpp | 10 +++++-----
 src/rpp/rpp/operators/retry.hpp                |  8 ++++----
 src/rpp/rpp/operators/retry_when.hpp           | 18 +++++++++---------
 src/rpp/rpp/sources/concat.hpp                 |  8 ++++----
 4 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index d009a5f..935a769 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -57,9 +57,9 @@ namespace rpp::operators::details
         {
         }
 
-        std::shared_ptr<TObserver>     state;
-        RPP_NO_UNIQUE_ADDRESS Selector selector;
-        mutable bool                   locally_disposed{};
+        std::shared_ptr<TObserver>                   state;
+        RPP_NO_UNIQUE_ADDRESS Selector               selector;
+        mutable rpp::details::observers::atomic_bool locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -69,7 +69,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             try
             {
                 selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
@@ -90,7 +90,7 @@ namespace rpp::operators::details
             state->set_upstream(d);
         }
 
-        bool is_disposed() const { return locally_disposed || state->is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
diff --git a/src/rpp/rpp/operators/retry.hpp b/src/rpp/rpp/operators/retry.hpp
index dbeb667..baabb60 100644
--- a/src/rpp/rpp/operators/retry.hpp
+++ b/src/rpp/rpp/operators/retry.hpp
@@ -47,7 +47,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_state_t<TObserver, TObservable>> state;
-        mutable bool                                           locally_disposed{};
+        mutable rpp::details::observers::atomic_bool           locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -57,7 +57,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             if (state->count == 0)
             {
                 state->observer.on_error(err);
@@ -74,7 +74,7 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_completed();
         }
 
@@ -83,7 +83,7 @@ namespace rpp::operators::details
             state->disposable.add(d);
         }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable>
diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index e46bc3a..4bf5c97 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -53,12 +53,12 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
-        mutable bool                                                         locally_disposed{};
+        mutable rpp::details::observers::atomic_bool                         locally_disposed{};
 
         template<typename T>
         void on_next(T&&) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->disposable.clear();
 
             if (state->is_inside_drain.exchange(false, std::memory_order::seq_cst))
@@ -69,19 +69,19 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_error(err);
         }
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) const { state->disposable.add(d); }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver,
@@ -92,7 +92,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
-        mutable bool                                                         locally_disposed{};
+        mutable rpp::details::observers::atomic_bool                         locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -102,7 +102,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             try
             {
                 state->notifier(err).subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
@@ -115,13 +115,13 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable, typename TNotifier>
diff --git a/src/rpp/rpp/sources/concat.hpp b/src/rpp/rpp/sources/concat.hpp
index a3a661f..a1ef67d 100644
--- a/src/rpp/rpp/sources/concat.hpp
+++ b/src/rpp/rpp/sources/concat.hpp
@@ -55,7 +55,7 @@ namespace rpp::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<concat_state_t<TObserver, PackedContainer>> state{};
-        mutable bool                                                locally_disposed{};
+        mutable rpp::details::observers::atomic_bool                locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -65,17 +65,17 @@ namespace rpp::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_error(err);
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->disposable.clear();
 
             if (state->is_inside_drain.exchange(false, std::memory_order::seq_cst))
-- 
2.43.0


From f8ad445cc3530bbad1b2efa0cfa07ba1d88e91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 21/38] fix: concat forwards exception thrown by subscription
 to next observable instead of terminating

---
 src/rpp/rpp/operators/concat.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 38ebc6d..0945ed0 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -171,7 +171,14 @@ namespace rpp::operators::details
 
             assert(current == ConcatStage::Processing);
 
-            base::state->drain(base::refcounted);
+            try
+            {
+                base::state->drain(base::refcounted);
+            }
+            catch (...)
+            {
+                base::state->get_observer()->on_error(std::current_exception());
+            }
         }
     };
 
-- 
2.43.0


From 515b0e981312b1c22bd45badd268e9c51ef6c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:48 +0000
Subject: [PATCH 22/38] fix: on_error_resume_next disposes upstreams of failed
 observable instead of keeping them till the end of whole subscription

---
 src/rpp/rpp/operators/on_error_resume_next.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index 935a769..380f1de 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -55,11 +55,12 @@ namespace rpp::operators::details
             : state{std::make_shared<TObserver>(std::move(observer))}
             , selector{selector}
         {
+            state->set_upstream(disposable);
         }
 
-        std::shared_ptr<TObserver>                   state;
-        RPP_NO_UNIQUE_ADDRESS Selector               selector;
-        mutable rpp::details::observers::atomic_bool locally_disposed{};
+        std::shared_ptr<TObserver>        state;
+        RPP_NO_UNIQUE_ADDRESS Selector    selector;
+        rpp::composite_disposable_wrapper disposable = composite_disposable_wrapper::make();
 
         template<typename T>
         void on_next(T&& v) const
@@ -69,7 +70,8 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed.set();
+            // failed observable is over: nothing of it should stay subscribed while new observable emits
+            disposable.dispose();
             try
             {
                 selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
@@ -87,10 +89,10 @@ namespace rpp::operators::details
 
         void set_upstream(const disposable_wrapper& d) const
         {
-            state->set_upstream(d);
+            disposable.add(d);
         }
 
-        bool is_disposed() const { return locally_disposed.test() || state->is_disposed(); }
+        bool is_disposed() const { return disposable.is_disposed() || state->is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
-- 
2.43.0


From ef6042080cafb6c72bbf7ab2d83b95212cd4a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:48 +0000
Subject: [PATCH 23/38] fix: retry_when disposes upstreams of failed observable
 before waiting for notifier

---
 src/rpp/rpp/operators/retry_when.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index 4bf5c97..da5d938 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -103,6 +103,8 @@ namespace rpp::operators::details
         void on_error(const std::exception_ptr& err) const
         {
             locally_disposed.set();
+            // failed observable is over: nothing of it should stay subscribed while waiting for notifier
+            state->disposable.clear();
             try
             {
                 state->notifier(err).subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
-- 
2.43.0


From b381aee7d2241df1f34fb47af2437343d7826795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:52 +0000
Subject: [PATCH 24/38] fix: connectable_observable doesn't keep disposables of
 connections which are already gone

---
 .../observables/connectable_observable.hpp    | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index e16dad3..e7e0426 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -18,6 +18,29 @@
 
 namespace rpp::details
 {
+    template<rpp::constraint::observer TObserver>
+    struct connection_observer_strategy
+    {
+        using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
+
+        RPP_NO_UNIQUE_ADDRESS TObserver observer;
+
+        template<typename T>
+        void on_next(T&& v) const
+        {
+            observer.on_next(std::forward<T>(v));
+        }
+
+        void on_error(const std::exception_ptr& err) const { observer.on_error(err); }
+
+        void on_completed() const { observer.on_completed(); }
+
+        // upstreams belong to connection and not to subject: subject can be connected many times
+        static void set_upstream(const disposable_wrapper&) {}
+
+        bool is_disposed() const { return observer.is_disposed(); }
+    };
+
     template<typename T>
     struct ref_count_on_subscribe_t;
 
@@ -92,6 +115,7 @@ namespace rpp
             , m_original_observable{original_observable}
             , m_subject{subject}
         {
+            m_subject.get_observer().set_upstream(m_state->connections);
         }
 
         connectable_observable(OriginalObservable && original_observable, const Subject& subject = Subject{})
@@ -99,6 +123,7 @@ namespace rpp
             , m_original_observable{std::move(original_observable)}
             , m_subject{subject}
         {
+            m_subject.get_observer().set_upstream(m_state->connections);
         }
 
         /**
@@ -121,7 +146,11 @@ namespace rpp
             m_state->disposable = wrapper;
             lock.unlock();
 
-            m_original_observable.subscribe(wrapper, m_subject.get_observer());
+            // subject keeps connection only while it is active
+            m_state->connections.add(wrapper);
+            wrapper.add(rpp::make_callback_disposable([connections = m_state->connections.as_weak(), connection = wrapper.as_weak()]() noexcept { connections.remove(connection); }));
+
+            m_original_observable.subscribe(wrapper, details::connection_observer_strategy<decltype(m_subject.get_observer())>{m_subject.get_observer()});
             return wrapper;
         }
 
@@ -185,6 +214,7 @@ namespace rpp
         {
             std::mutex                        mutex{};
             rpp::composite_disposable_wrapper disposable = composite_disposable_wrapper::empty();
+            rpp::composite_disposable_wrapper connections = composite_disposable_wrapper::make();
         };
 
         std::shared_ptr<state_t> m_state = std::make_shared<state_t>();
-- 
2.43.0


From 48388c452617e86e05ebdcc92306ca215a6060a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:52 +0000
Subject: [PATCH 25/38] fix: disposable_wrapper::make initializes
 enable_wrapper_from_this of derived disposable: refcounts of concat are
 removed from source when disposed

---
 src/rpp/rpp/disposables/disposable_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/disposables/disposable_wrapper.hpp b/src/rpp/rpp/disposables/disposable_wrapper.hpp
index 26477d7..4f35243 100644
--- a/src/rpp/rpp/disposables/disposable_wrapper.hpp
+++ b/src/rpp/rpp/disposables/disposable_wrapper.hpp
@@ -134,9 +134,9 @@ namespace rpp
         {
             const auto ptr      = std::make_shared<details::auto_dispose_wrapper<TTarget>>(std::forward<TArgs>(args)...);
             auto       base_ptr = std::shared_ptr<TDisposable>{ptr, static_cast<TDisposable*>(ptr->get())};
-            if constexpr (rpp::utils::is_base_of_v<TDisposable, rpp::details::enable_wrapper_from_this>)
+            if constexpr (rpp::utils::is_base_of_v<TTarget, rpp::details::enable_wrapper_from_this>)
             {
-                base_ptr->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
+                ptr->get()->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
             }
             return disposable_wrapper_impl{std::static_pointer_cast<interface_disposable>(std::move(base_ptr))};
         }
-- 
2.43.0


From 9bc26e6b0cb6e15b2a1a0e22537036f150c1e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 26/38] fix: client grpc reactors start first read before
 StartCall: reactor can be destroyed right after StartCall

---
 src/extensions/rppgrpc/rppgrpc/client_reactor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index 3f62d68..e59b5d7 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -44,8 +44,9 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
+            // before start of call: reactor can be destroyed right after StartCall if there are no pending operations
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_writer<Request>::get_observer;
@@ -182,8 +183,9 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
+            // before start of call: reactor can be destroyed right after StartCall if there are no pending operations
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_reader<Response>::get_observable;
-- 
2.43.0


From 5573c0f15e1535d4c0fb6af276d85c76ea2b8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 27/38] fix: grpc reactors serialize OnCancel/OnReadDone
 notifications for observers

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index c5e73fa..d901f9e 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -136,8 +136,9 @@ namespace rppgrpc::details
         }
 
     private:
-        rpp::subjects::publish_subject<TData> m_observer;
-        RPP_NO_UNIQUE_ADDRESS TData           m_data{};
+        // serialized: OnCancel and OnReadDone can be called at the same time
+        rpp::subjects::serialized_publish_subject<TData> m_observer;
+        RPP_NO_UNIQUE_ADDRESS TData                      m_data{};
     };
 
 } // namespace rppgrpc::details
-- 
2.43.0


From f1f3367cf804ecc5044b931076dd02190002920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 28/38] fix: grpc writers finish stream once, keep status of
 pending finish and don't touch finished/destroyed reactor

---
 .../rppgrpc/rppgrpc/client_reactor.hpp        |  4 +
 .../rppgrpc/rppgrpc/details/base.hpp          | 98 ++++++++++++++-----
 .../rppgrpc/rppgrpc/server_reactor.hpp        |  8 +-
 3 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index e59b5d7..f1b3578 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -74,7 +74,11 @@ namespace rppgrpc
         void OnReadDone(bool ok) override
         {
             if (!ok)
+            {
+                // call is over: without pending read nothing keeps it alive for new operations
+                details::base_writer<Request>::stop_writes();
                 return;
+            }
 
             details::base_reader<Response>::handle_read_done();
         }
diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index d901f9e..10d2f1c 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -19,7 +19,10 @@
 #include "rpp/subjects/publish_subject.hpp"
 
 #include <deque>
+#include <memory>
 #include <mutex>
+#include <optional>
+#include <utility>
 
 namespace rppgrpc::details
 {
@@ -29,7 +32,7 @@ namespace rppgrpc::details
     public:
         base_writer()
         {
-            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{*this});
+            m_subject.get_observable().subscribe(observer_strategy{m_state});
         }
 
         virtual ~base_writer() noexcept = default;
@@ -45,52 +48,96 @@ namespace rppgrpc::details
 
         void handle_on_done()
         {
+            stop_writes();
             m_subject.get_disposable().dispose();
         }
 
         void handle_write_done()
         {
-            std::lock_guard lock{m_write_mutex};
-            m_write.pop_front();
+            std::lock_guard lock{m_state->mutex};
+            m_state->write.pop_front();
 
-            if (!m_write.empty())
+            if (!m_state->writer)
+                return;
+
+            if (!m_state->write.empty())
+                start_write(m_state->write.front());
+            else if (m_state->status)
+                m_state->finish_unsafe(*m_state->status);
+        }
+
+        /**
+         * @brief Finish without waiting for pending writes if it is not finished yet
+         */
+        void force_finish_writes(const grpc::Status& status)
+        {
+            std::lock_guard lock{m_state->mutex};
+            m_state->finish_unsafe(status);
+        }
+
+        /**
+         * @brief No any new operation would be started
+         */
+        void stop_writes()
+        {
+            std::lock_guard lock{m_state->mutex};
+            m_state->writer = nullptr;
+        }
+
+    private:
+        // observer can be used from another thread while reactor is destroyed, so it can't refer to reactor itself
+        struct state_t
+        {
+            explicit state_t(base_writer& owner)
+                : writer{&owner}
             {
-                start_write(m_write.front());
             }
-            else if (m_finished)
+
+            void finish_unsafe(const grpc::Status& s)
             {
-                finish_writes(grpc::Status::OK);
+                if (const auto w = std::exchange(writer, nullptr))
+                    w->finish_writes(s);
             }
-        }
+
+            void finish_after_writes(const grpc::Status& s)
+            {
+                std::lock_guard lock{mutex};
+                if (write.empty())
+                    finish_unsafe(s);
+                else if (!status)
+                    status = s;
+            }
+
+            std::mutex                  mutex{};
+            std::deque<TData>           write{};
+            std::optional<grpc::Status> status{}; // to be passed when all pending writes are done
+            base_writer*                writer;   // nullptr if it is not possible to start new operations: everything is finished or reactor is gone
+        };
 
         struct observer_strategy
         {
-            std::reference_wrapper<base_writer> owner{};
+            std::shared_ptr<state_t> state;
 
             template<rpp::constraint::decayed_same_as<TData> T>
             void on_next(T&& message) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_write.push_back(std::forward<T>(message));
-                if (owner.get().m_write.size() == 1)
-                    owner.get().start_write(owner.get().m_write.front());
+                std::lock_guard lock{state->mutex};
+                if (!state->writer)
+                    return;
+
+                state->write.push_back(std::forward<T>(message));
+                if (state->write.size() == 1)
+                    state->writer->start_write(state->write.front());
             }
 
             void on_error(const std::exception_ptr&) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
-
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
+                state->finish_after_writes(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
             }
+
             void on_completed() const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
-
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status::OK);
+                state->finish_after_writes(grpc::Status::OK);
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -99,10 +146,7 @@ namespace rppgrpc::details
 
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
-
-        std::mutex        m_write_mutex{};
-        std::deque<TData> m_write{};
-        bool              m_finished{};
+        std::shared_ptr<state_t>                         m_state = std::make_shared<state_t>(*this);
     };
 
     template<rpp::constraint::decayed_type TData>
diff --git a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
index 956ab6d..d7110d0 100644
--- a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
@@ -92,10 +92,9 @@ namespace rppgrpc
 
         void OnCancel() override
         {
+            details::base_writer<Response>::force_finish_writes(grpc::Status::CANCELLED);
             details::base_writer<Response>::handle_on_done();
             details::base_reader<Request>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
-
-            Base::Finish(grpc::Status::CANCELLED);
         }
     };
 
@@ -144,7 +143,7 @@ namespace rppgrpc
         {
             if (!ok)
             {
-                Base::Finish(grpc::Status::OK);
+                details::base_writer<Response>::force_finish_writes(grpc::Status::OK);
                 return;
             }
 
@@ -161,10 +160,9 @@ namespace rppgrpc
 
         void OnCancel() override
         {
+            details::base_writer<Response>::force_finish_writes(grpc::Status::CANCELLED);
             details::base_writer<Response>::handle_on_done();
             details::base_reader<rpp::utils::none>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
-
-            Base::Finish(grpc::Status::CANCELLED);
         }
     };
 
-- 
2.43.0


From 5489c7f4f5e098397d7554a96936b124d00215ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:30 +0000
Subject: [PATCH 29/38] fix: asio strand scheduler reschedules relative to the
 documented instant

delay_from_this_timepoint was handled as delay from now: repeated work (interval) drifted.
---
 .../rppasio/rppasio/schedulers/strand.hpp     | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index feb6ad8..a1d758b 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -47,34 +47,49 @@ namespace rppasio::schedulers
                 if (handler.is_disposed())
                     return;
 
-                asio::post(asio::bind_executor(m_strand, [self = this->shared_from_this(), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                asio::post(asio::bind_executor(m_strand, [self = this->shared_from_this(), time = rpp::schedulers::clock_type::now(), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (handler.is_disposed())
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
-                        self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
+                    if (const auto new_delay = fn(handler, args...))
+                        self->defer_with_time(get_next_timepoint(time, *new_delay), std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
-            template<typename Time, typename Handler, typename... Args, typename Fn>
-            void defer_with_time(Time time, Fn&& fn, Handler&& handler, Args&&... args) const
+            template<typename Handler, typename... Args, typename Fn>
+            void defer_with_time(rpp::schedulers::time_point time, Fn&& fn, Handler&& handler, Args&&... args) const
             {
                 if (handler.is_disposed())
                     return;
 
                 auto timer = std::make_shared<asio::basic_waitable_timer<rpp::schedulers::clock_type>>(m_strand.context(), time);
-                timer->async_wait(asio::bind_executor(m_strand, [self = this->shared_from_this(), timer, fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)](const asio::error_code& ec) mutable {
+                timer->async_wait(asio::bind_executor(m_strand, [self = this->shared_from_this(), timer, time, fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)](const asio::error_code& ec) mutable {
                     if (ec || handler.is_disposed())
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
-                        self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
+                    if (const auto new_delay = fn(handler, args...))
+                        self->defer_with_time(get_next_timepoint(time, *new_delay), std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
         private:
+            static rpp::schedulers::time_point get_next_timepoint(const rpp::schedulers::time_point&, const rpp::schedulers::delay_from_now& delay)
+            {
+                return rpp::schedulers::clock_type::now() + delay.value;
+            }
+
+            static rpp::schedulers::time_point get_next_timepoint(const rpp::schedulers::time_point& current, const rpp::schedulers::delay_from_this_timepoint& delay)
+            {
+                return current + delay.value;
+            }
+
+            static rpp::schedulers::time_point get_next_timepoint(const rpp::schedulers::time_point&, const rpp::schedulers::delay_to& delay)
+            {
+                return delay.value;
+            }
+
             // Guard draining schedulables queued to thread local queue to schedule them back to strand queue
             class current_thread_queue_guard
             {
@@ -159,7 +174,7 @@ namespace rppasio::schedulers
                 if (duration == rpp::schedulers::duration::zero())
                     m_state->defer(std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
                 else
-                    m_state->defer_with_time(duration, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                    m_state->defer_with_time(now() + duration, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_fn<Handler, Args...> Fn>
-- 
2.43.0


From 64f08b80e8311eb5a1bcf35b1caa560546ece24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:30 +0000
Subject: [PATCH 30/38] fix: asio strand scheduler reports exceptions of
 schedulables to handler

exception escaped from io_context::run() instead of handler's on_error like in other schedulers.
---
 .../rppasio/rppasio/schedulers/strand.hpp     | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index a1d758b..5ddf016 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -17,6 +17,9 @@
 #include <asio/bind_executor.hpp>
 #include <asio/strand.hpp>
 
+#include <exception>
+#include <optional>
+
 namespace rppasio::schedulers
 {
     /**
@@ -52,8 +55,8 @@ namespace rppasio::schedulers
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_delay = fn(handler, args...))
-                        self->defer_with_time(get_next_timepoint(time, *new_delay), std::move(fn), std::move(handler), std::move(args)...);
+                    if (const auto next = execute(time, fn, handler, args...))
+                        self->defer_with_time(*next, std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
@@ -69,8 +72,8 @@ namespace rppasio::schedulers
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_delay = fn(handler, args...))
-                        self->defer_with_time(get_next_timepoint(time, *new_delay), std::move(fn), std::move(handler), std::move(args)...);
+                    if (const auto next = execute(time, fn, handler, args...))
+                        self->defer_with_time(*next, std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
@@ -90,6 +93,21 @@ namespace rppasio::schedulers
                 return delay.value;
             }
 
+            template<typename Fn, typename Handler, typename... Args>
+            static std::optional<rpp::schedulers::time_point> execute(const rpp::schedulers::time_point& time, Fn& fn, Handler& handler, Args&... args)
+            {
+                try
+                {
+                    if (const auto delay = fn(handler, args...))
+                        return get_next_timepoint(time, *delay);
+                }
+                catch (...)
+                {
+                    handler.on_error(std::current_exception());
+                }
+                return std::nullopt;
+            }
+
             // Guard draining schedulables queued to thread local queue to schedule them back to strand queue
             class current_thread_queue_guard
             {
-- 
2.43.0


From 1f64aa4d6f53fd8bedd9dda91d37134d027f8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:30 +0000
Subject: [PATCH 31/38] fix: Qt main_thread_scheduler never runs work early and
 doesn't lose delayed work of other threads

Timers can be started only by threads with Qt event dispatcher: delayed work scheduled from other threads was lost.
Delay was truncated to milliseconds and used coarse timer (up to 5% earlier), delay_from_this_timepoint was relative to
actual time of execution instead of timepoint.
---
 .../rppqt/rppqt/schedulers/main_thread.hpp    | 64 ++++++++++++++-----
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 9a379e1..9b28b93 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -18,7 +18,10 @@
 #include "rpp/schedulers/fwd.hpp"
 
 #include <QCoreApplication>
+#include <QMetaObject>
+#include <QThread>
 #include <QTimer>
+#include <algorithm>
 #include <chrono>
 #include <concepts>
 
@@ -36,6 +39,12 @@ namespace rppqt::schedulers
         public:
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_fn<Handler, Args...> Fn>
             static void defer_for(rpp::schedulers::duration duration, Fn&& fn, Handler&& handler, Args&&... args)
+            {
+                defer_to(now() + duration, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+            }
+
+            template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_fn<Handler, Args...> Fn>
+            static void defer_to(rpp::schedulers::time_point timepoint, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 const auto application = QCoreApplication::instance();
                 if (!application)
@@ -44,35 +53,58 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                const auto delay = get_delay(timepoint);
+                auto       slot  = [timepoint, fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
-                        invoke(std::move(fn), std::move(handler), std::move(args)...);
-                });
+                        invoke(timepoint, std::move(fn), std::move(handler), std::move(args)...);
+                };
+
+                // timers can be started only by threads with QT event dispatcher
+                if (delay == delay.zero() || QThread::currentThread() == application->thread())
+                    start_timer(application, delay, std::move(slot));
+                else
+                    QMetaObject::invokeMethod(
+                        application,
+                        [application, timepoint, slot = std::move(slot)]() mutable { start_timer(application, get_delay(timepoint), std::move(slot)); },
+                        Qt::QueuedConnection);
             }
 
             static rpp::schedulers::time_point now() { return rpp::schedulers::clock_type::now(); }
 
         private:
-            template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_now_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static std::chrono::milliseconds get_delay(const rpp::schedulers::time_point& timepoint)
+            {
+                // ceil: schedulable can't be invoked before its timepoint
+                return std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, timepoint - now()));
+            }
+
+            template<typename Slot>
+            static void start_timer(QCoreApplication* application, std::chrono::milliseconds delay, Slot&& slot)
+            {
+                // coarse timer can be triggered earlier
+                QTimer::singleShot(delay, Qt::PreciseTimer, application, std::forward<Slot>(slot));
+            }
+
+            template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_fn<Handler, Args...> Fn>
+            static void invoke(const rpp::schedulers::time_point& timepoint, Fn&& fn, Handler&& handler, Args&&... args)
+            {
+                if (const auto delay = fn(handler, args...))
+                    defer_to(get_next_timepoint(timepoint, *delay), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+            }
+
+            static rpp::schedulers::time_point get_next_timepoint(const rpp::schedulers::time_point&, const rpp::schedulers::delay_from_now& delay)
             {
-                if (const auto new_duration = fn(handler, args...))
-                    defer_for(new_duration->value, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                return now() + delay.value;
             }
 
-            template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_this_timepoint_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static rpp::schedulers::time_point get_next_timepoint(const rpp::schedulers::time_point& current, const rpp::schedulers::delay_from_this_timepoint& delay)
             {
-                const auto now = rpp::schedulers::clock_type::now();
-                if (const auto new_duration = fn(handler, args...))
-                    defer_for(now + new_duration->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                return current + delay.value;
             }
 
-            template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_to_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static rpp::schedulers::time_point get_next_timepoint(const rpp::schedulers::time_point&, const rpp::schedulers::delay_to& delay)
             {
-                if (const auto new_tp = fn(handler, args...))
-                    defer_for(new_tp->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                return delay.value;
             }
         };
 
-- 
2.43.0


From 6e1ebff2c8c88cbc605090f5f14db4126bd82b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:30 +0000
Subject: [PATCH 32/38] fix: Qt main_thread_scheduler reports exceptions of
 schedulables to handler

exception escaped to the event loop of Qt (std::terminate) instead of handler's on_error like in other schedulers.
---
 .../rppqt/rppqt/schedulers/main_thread.hpp      | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 9b28b93..bb98307 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -24,6 +24,8 @@
 #include <algorithm>
 #include <chrono>
 #include <concepts>
+#include <exception>
+#include <optional>
 
 namespace rppqt::schedulers
 {
@@ -88,8 +90,19 @@ namespace rppqt::schedulers
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_fn<Handler, Args...> Fn>
             static void invoke(const rpp::schedulers::time_point& timepoint, Fn&& fn, Handler&& handler, Args&&... args)
             {
-                if (const auto delay = fn(handler, args...))
-                    defer_to(get_next_timepoint(timepoint, *delay), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                std::optional<rpp::schedulers::time_point> next{};
+                try
+                {
+                    if (const auto delay = fn(handler, args...))
+                        next = get_next_timepoint(timepoint, *delay);
+                }
+                catch (...)
+                {
+                    handler.on_error(std::current_exception());
+                }
+
+                if (next)
+                    defer_to(*next, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             static rpp::schedulers::time_point get_next_timepoint(const rpp::schedulers::time_point&, const rpp::schedulers::delay_from_now& delay)
-- 
2.43.0


From d91808084c57dfe01455fab5743f3eac472a5728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:33 +0000
Subject: [PATCH 33/38] fix: on_error_resume_next passes only one upstream to
 observer

upstream of new observable was passed to observer from thread of error while observer could be already disposing on another thread (due to observe_on/delay)
---
 .../rpp/operators/on_error_resume_next.hpp    | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index 380f1de..437ac63 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -13,6 +13,7 @@
 #include <rpp/operators/fwd.hpp>
 
 #include <rpp/defs.hpp>
+#include <rpp/disposables/composite_disposable.hpp>
 #include <rpp/operators/details/strategy.hpp>
 
 namespace rpp::operators::details
@@ -22,7 +23,8 @@ namespace rpp::operators::details
     {
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
-        std::shared_ptr<TObserver> observer;
+        std::shared_ptr<TObserver>        observer;
+        rpp::composite_disposable_wrapper disposable;
 
         template<typename T>
         void on_next(T&& v) const
@@ -40,9 +42,9 @@ namespace rpp::operators::details
             observer->on_completed();
         }
 
-        void set_upstream(const disposable_wrapper& d) { observer->set_upstream(d); }
+        void set_upstream(const disposable_wrapper& d) const { disposable.add(d); }
 
-        bool is_disposed() const { return observer->is_disposed(); }
+        bool is_disposed() const { return disposable.is_disposed() || observer->is_disposed(); }
     };
 
 
@@ -55,12 +57,15 @@ namespace rpp::operators::details
             : state{std::make_shared<TObserver>(std::move(observer))}
             , selector{selector}
         {
+            // observer obtains only one upstream: it could be completing on another thread when new observable is being subscribed
+            disposable.add(source_disposable);
             state->set_upstream(disposable);
         }
 
         std::shared_ptr<TObserver>        state;
         RPP_NO_UNIQUE_ADDRESS Selector    selector;
-        rpp::composite_disposable_wrapper disposable = composite_disposable_wrapper::make();
+        rpp::composite_disposable_wrapper disposable        = composite_disposable_wrapper::make();
+        rpp::composite_disposable_wrapper source_disposable = composite_disposable_wrapper::make();
 
         template<typename T>
         void on_next(T&& v) const
@@ -71,10 +76,11 @@ namespace rpp::operators::details
         void on_error(const std::exception_ptr& err) const
         {
             // failed observable is over: nothing of it should stay subscribed while new observable emits
-            disposable.dispose();
+            disposable.remove(source_disposable);
+            source_disposable.dispose();
             try
             {
-                selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
+                selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state, disposable});
             }
             catch (...)
             {
@@ -89,10 +95,10 @@ namespace rpp::operators::details
 
         void set_upstream(const disposable_wrapper& d) const
         {
-            disposable.add(d);
+            source_disposable.add(d);
         }
 
-        bool is_disposed() const { return disposable.is_disposed() || state->is_disposed(); }
+        bool is_disposed() const { return source_disposable.is_disposed() || state->is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
-- 
2.43.0


From c7422efe2838fd795fa2019ed881bdb908211fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:33 +0000
Subject: [PATCH 34/38] fix: timeout passes upstream for fallback observable to
 observer in advance

upstream of fallback was passed to observer from thread of timer while observer could be already disposing on another thread
---
 src/rpp/rpp/operators/timeout.hpp | 37 +++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/timeout.hpp b/src/rpp/rpp/operators/timeout.hpp
index 4b6302e..0bb63b8 100644
--- a/src/rpp/rpp/operators/timeout.hpp
+++ b/src/rpp/rpp/operators/timeout.hpp
@@ -12,6 +12,7 @@
 
 #include <rpp/operators/fwd.hpp>
 
+#include <rpp/disposables/composite_disposable.hpp>
 #include <rpp/operators/details/strategy.hpp>
 #include <rpp/sources/error.hpp>
 #include <rpp/utils/exceptions.hpp>
@@ -41,11 +42,38 @@ namespace rpp::operators::details
 
         rpp::schedulers::duration get_period() const { return m_period; }
 
+        // observer belongs to fallback only when timeout reached
+        const TObserver&                         get_fallback_observer() { return m_observer_with_timeout.get_value_unsafe().observer; }
+        const rpp::composite_disposable_wrapper& get_fallback_disposable() const { return m_fallback_disposable; }
+
     private:
         rpp::utils::value_with_mutex<observer_with_timeout> m_observer_with_timeout;
 
         const rpp::schedulers::duration                 m_period;
         RPP_NO_UNIQUE_ADDRESS const TFallbackObservable m_fallback;
+        const rpp::composite_disposable_wrapper         m_fallback_disposable = rpp::composite_disposable_wrapper::make();
+    };
+
+    template<rpp::constraint::observer TObserver, rpp::constraint::observable TFallbackObservable, rpp::details::disposables::constraint::disposable_container Container>
+    struct timeout_fallback_observer_strategy
+    {
+        using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
+
+        std::shared_ptr<timeout_disposable<TObserver, TFallbackObservable, Container>> disposable;
+
+        template<typename T>
+        void on_next(T&& v) const
+        {
+            disposable->get_fallback_observer().on_next(std::forward<T>(v));
+        }
+
+        void on_error(const std::exception_ptr& err) const { disposable->get_fallback_observer().on_error(err); }
+
+        void on_completed() const { disposable->get_fallback_observer().on_completed(); }
+
+        void set_upstream(const rpp::disposable_wrapper& d) const { disposable->get_fallback_disposable().add(d); }
+
+        bool is_disposed() const { return disposable->get_fallback_disposable().is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, rpp::constraint::observable TFallbackObservable, rpp::details::disposables::constraint::disposable_container Container>
@@ -132,7 +160,12 @@ namespace rpp::operators::details
 
             const auto disposable = disposable_wrapper_impl<timeout_disposable<std::decay_t<Observer>, TFallbackObservable, container>>::make(std::forward<Observer>(observer), period, fallback, timeout);
             auto       ptr        = disposable.lock();
-            ptr->get_observer_with_timeout_under_lock()->observer.set_upstream(disposable.as_weak());
+            {
+                // observer could be completing on another thread when timeout is reached, so, it obtains upstream for fallback in advance
+                auto locked_obs_with_timeout = ptr->get_observer_with_timeout_under_lock();
+                locked_obs_with_timeout->observer.set_upstream(disposable.as_weak());
+                locked_obs_with_timeout->observer.set_upstream(ptr->get_fallback_disposable());
+            }
 
             const auto worker = scheduler.create_worker();
             using wrapper     = timeout_disposable_wrapper<std::decay_t<Observer>, TFallbackObservable, container>;
@@ -146,7 +179,7 @@ namespace rpp::operators::details
                     if (!handler.disposable->is_disposed())
                     {
                         handler.disposable->dispose();
-                        handler.disposable->get_fallback().subscribe(std::move(locked_obs_with_timeout->observer));
+                        handler.disposable->get_fallback().subscribe(timeout_fallback_observer_strategy<std::decay_t<Observer>, TFallbackObservable, container>{handler.disposable});
                     }
                     return std::nullopt;
                 },
-- 
2.43.0


From 8ff644959c776e3d3fcde680169b39f8fdd62a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:33 +0000
Subject: [PATCH 35/38] fix: delay, observe_on and debounce use atomic
 disposable strategies

disposed-flag of observer is checked by original observable and is set by thread of scheduler
---
 .../details/disposable_strategy.hpp           | 22 +++++++++++++++++++
 src/rpp/rpp/operators/debounce.hpp            |  2 +-
 src/rpp/rpp/operators/delay.hpp               |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/observables/details/disposable_strategy.hpp b/src/rpp/rpp/observables/details/disposable_strategy.hpp
index dfcb0cd..87e3136 100644
--- a/src/rpp/rpp/observables/details/disposable_strategy.hpp
+++ b/src/rpp/rpp/observables/details/disposable_strategy.hpp
@@ -75,6 +75,24 @@ namespace rpp::details::observables
 
     namespace details
     {
+        template<typename T>
+        struct atomic_disposable_strategy
+        {
+            using type = T;
+        };
+
+        template<size_t Count>
+        struct atomic_disposable_strategy<dynamic_disposable_strategy_selector<Count, AtomicMode::NonAtomic>>
+        {
+            using type = atomic_dynamic_disposable_strategy_selector<Count>;
+        };
+
+        template<size_t Count>
+        struct atomic_disposable_strategy<fixed_disposable_strategy_selector<Count, AtomicMode::NonAtomic>>
+        {
+            using type = atomic_fixed_disposable_strategy_selector<Count>;
+        };
+
         template<typename T>
         concept has_expected_disposable_strategy = requires { typename T::expected_disposable_strategy; };
 
@@ -100,6 +118,10 @@ namespace rpp::details::observables
         }
     } // namespace details
 
+    /// the same strategy, but it is allowed to check for disposing and to dispose from different threads
+    template<typename T>
+    using atomic_disposable_strategy_t = typename details::atomic_disposable_strategy<T>::type;
+
     template<typename T>
     using deduce_disposable_strategy_t = std::remove_pointer_t<decltype(details::deduce_disposable_strategy<T>())>;
 
diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index b74e80a..0f6b28d 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -159,7 +159,7 @@ namespace rpp::operators::details
         };
 
         template<rpp::details::observables::constraint::disposable_strategy Prev>
-        using updated_disposable_strategy = typename Prev::template add<1>;
+        using updated_disposable_strategy = rpp::details::observables::atomic_disposable_strategy_t<typename Prev::template add<1>>; // original observable checks for disposing on its own thread
 
         rpp::schedulers::duration       duration;
         RPP_NO_UNIQUE_ADDRESS Scheduler scheduler;
diff --git a/src/rpp/rpp/operators/delay.hpp b/src/rpp/rpp/operators/delay.hpp
index 340e0f1..3e2f8d1 100644
--- a/src/rpp/rpp/operators/delay.hpp
+++ b/src/rpp/rpp/operators/delay.hpp
@@ -178,7 +178,7 @@ namespace rpp::operators::details
         };
 
         template<rpp::details::observables::constraint::disposable_strategy Prev>
-        using updated_disposable_strategy = Prev;
+        using updated_disposable_strategy = rpp::details::observables::atomic_disposable_strategy_t<Prev>; // original observable checks for disposing on its own thread
 
         rpp::schedulers::duration       duration;
         RPP_NO_UNIQUE_ADDRESS Scheduler scheduler;
-- 
2.43.0


From b969abd4b5c3b68bdfed8696f8abda1ac507552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:12 +0000
Subject: [PATCH 36/38] fix: group_by uses the passed key comparator object
 instead of a default constructed one

---
 src/rpp/rpp/operators/group_by.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/group_by.hpp b/src/rpp/rpp/operators/group_by.hpp
index 1e6cccb..6e2e105 100644
--- a/src/rpp/rpp/operators/group_by.hpp
+++ b/src/rpp/rpp/operators/group_by.hpp
@@ -73,7 +73,7 @@ namespace rpp::operators::details
 
         using subject_observer = decltype(std::declval<subjects::publish_subject<Type>>().get_observer());
 
-        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{};
+        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{comparator};
         std::shared_ptr<refcount_disposable>                    disposable = [&] {
             auto ptr = disposable_wrapper_impl<refcount_disposable>::make().lock();
             observer.set_upstream(ptr->add_ref());
-- 
2.43.0


From 06694dd20b4fbdc9e42aa5ba34665f982c72218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:12 +0000
Subject: [PATCH 37/38] fix: buffer keeps its size when the observer swaps the
 moved bucket with another vector

---
 src/rpp/rpp/operators/buffer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/operators/buffer.hpp b/src/rpp/rpp/operators/buffer.hpp
index b82286f..0ba48e2 100644
--- a/src/rpp/rpp/operators/buffer.hpp
+++ b/src/rpp/rpp/operators/buffer.hpp
@@ -31,21 +31,22 @@ namespace rpp::operators::details
 
         buffer_observer_strategy(TObserver&& observer, size_t count)
             : m_observer{std::move(observer)}
+            , m_count{std::max(size_t{1}, count)}
         {
-            m_bucket.reserve(std::max(size_t{1}, count));
+            m_bucket.reserve(m_count);
         }
 
         template<typename T>
         void on_next(T&& v) const
         {
             m_bucket.push_back(std::forward<T>(v));
-            if (m_bucket.size() == m_bucket.capacity())
+            if (m_bucket.size() == m_count)
             {
-                const auto capacity = m_bucket.capacity();
                 m_observer.on_next(std::move(m_bucket));
 
+                // bucket can be moved out, left as is or even swapped with another one
                 m_bucket.clear();
-                m_bucket.reserve(capacity);
+                m_bucket.reserve(m_count);
             }
         }
 
@@ -64,6 +65,7 @@ namespace rpp::operators::details
 
     private:
         RPP_NO_UNIQUE_ADDRESS TObserver m_observer;
+        const size_t                    m_count;
         mutable std::vector<value_type> m_bucket;
     };
 
-- 
2.43.0


From 2aaf46b2212494e864f96005f0dc06ceea7e7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:25 +0000
Subject: [PATCH 38/38] fix: take_last keeps the count itself instead of the
 capacity of the vector

---
 src/rpp/rpp/operators/take_last.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rpp/rpp/operators/take_last.hpp b/src/rpp/rpp/operators/take_last.hpp
index f12b266..7ff8e8f 100644
--- a/src/rpp/rpp/operators/take_last.hpp
+++ b/src/rpp/rpp/operators/take_last.hpp
@@ -27,6 +27,7 @@ namespace rpp::operators::details
 
         take_last_observer_strategy(TObserver&& observer, size_t count)
             : m_observer{std::move(observer)}
+            , m_count{count}
         {
             m_data.reserve(count);
         }
@@ -35,11 +36,10 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             // handle case "count==0"
-            if (!m_data.capacity())
+            if (!m_count)
                 return;
 
-            // handle case "count==0"
-            if (m_data.size() < m_data.capacity())
+            if (m_data.size() < m_count)
             {
                 m_data.push_back(std::forward<T>(v));
             }
@@ -76,6 +76,7 @@ namespace rpp::operators::details
 
     private:
         RPP_NO_UNIQUE_ADDRESS TObserver                                     m_observer;
+        const size_t                                                        m_count;
         mutable std::vector<rpp::utils::extract_observer_type_t<TObserver>> m_data{};
         mutable size_t                                                      m_current_end{};
     };
-- 
2.43.0


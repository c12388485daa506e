From 3008a35741cc7e9b9e29079b0782bae35ffe99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:12 +0000
Subject: [PATCH 01/11] fix: moving a signal rebinds its slots and leaves the
 source usable

The move assignment operator did not return (undefined behaviour), a
self-move dead-locked, slots kept pointing at the moved-from signal (use
after free when a connection was used after the source was destroyed) and
the moved-from signal dereferenced a null list.
---
 signals.hpp | 68 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..516daca 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1672,17 +1672,29 @@ namespace sig
         {
             lock_type lock(other.m_SlotMutex);
             m_Slots = std::move(other.m_Slots);
+            bind_slots();
         }
 
         // Move assignable.
         signal& operator=(signal&& other) noexcept
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                // Destroyed after the locks are released.
+                cow_type old_slots;
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+                lock_type lock1(m_SlotMutex, std::defer_lock);
+                lock_type lock2(other.m_SlotMutex, std::defer_lock);
+                std::lock(lock1, lock2);
+
+                release_slots();
+                old_slots = std::move(m_Slots);
+                m_Slots = std::move(other.m_Slots);
+                bind_slots();
+                m_Blocked = other.m_Blocked.load();
+            }
+
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1785,7 +1797,8 @@ namespace sig
 
             // Get a read-only copy of the slots.
             const auto slots_copy = read_slots();
-            const auto& slots = slots_copy.read();
+            const list_type no_slots;   // A moved-from signal has no list.
+            const auto& slots = slots_copy ? slots_copy.read() : no_slots;
 
             using iterator = detail::slot_iterator<R, list_iterator, Args...>;
             return Combiner()(iterator(slots.begin(), t), iterator(slots.end(), t));
@@ -1795,10 +1808,47 @@ namespace sig
         template <typename>
         friend class slot;
         
+        // Make this signal the owner of all slots in the list.
+        void bind_slots() noexcept
+        {
+            if (m_Slots)
+            {
+                for (auto& s : m_Slots.read())
+                {
+                    s->m_pSignal = this;
+                }
+            }
+        }
+
+        // Disconnect all slots in the list from this signal.
+        void release_slots() noexcept
+        {
+            if (m_Slots)
+            {
+                for (auto& s : m_Slots.read())
+                {
+                    s->state().disconnect();
+                    s->m_pSignal = nullptr;
+                }
+            }
+        }
+
+        // Get the list of slots for writing.
+        // A moved-from signal gets a new list.
+        list_type& write_slots()
+        {
+            if (!m_Slots)
+            {
+                m_Slots = cow_type(new list_type());
+            }
+
+            return m_Slots.write();
+        }
+
         void add_slot(slot_ptr_type&& s)
         {
             lock_type lock(m_SlotMutex);
-            auto& slots = m_Slots.write();
+            auto& slots = write_slots();
 
             s->state().index() = slots.size();
             slots.push_back(std::move(s));
@@ -1809,7 +1859,7 @@ namespace sig
         {
             lock_type lock(m_SlotMutex);
             auto i = slot.index();
-            auto& slots = m_Slots.write();
+            auto& slots = write_slots();
 
             if (!slots.empty() && i < slots.size())
             {
@@ -1826,7 +1876,7 @@ namespace sig
         size_t erase(const slot<Func>& slot)
         {
             lock_type lock(m_SlotMutex);
-            auto& slots = m_Slots.write();
+            auto& slots = write_slots();
 
             std::size_t count = 0;   // The number of slots that were removed.
             std::size_t i = 0;       // Slot index
-- 
2.43.0


From 50a0e1c6ec2d584acdbcec460d57fbb41e02a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:20 +0000
Subject: [PATCH 02/11] fix: disconnecting by callable ends the connections of
 the removed slots

Slots removed by callable still reported connected and were still invoked by
an emission under way; a later disconnect through their connection removed
whatever slot had taken their position in the list. The removed callables
were also destroyed with the mutex held, so a destructor that used the
signal dead-locked.
---
 signals.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 516daca..8168f14 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1861,7 +1861,8 @@ namespace sig
             auto i = slot.index();
             auto& slots = write_slots();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may already have been removed from the list.
+            if (i < slots.size() && slots[i].get() == &slot)
             {
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
@@ -1875,6 +1876,7 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            list_type removed;       // Destroyed after the lock is released.
             lock_type lock(m_SlotMutex);
             auto& slots = write_slots();
 
@@ -1885,10 +1887,14 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    removed.push_back(slots[i]);
+                    if (s.state().disconnect())
+                    {
+                        ++count;
+                    }
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-                    ++count;
                 }
                 else
                 {
-- 
2.43.0


From c232aa6563978cdf8ae54b36c5d773c244d37c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:26 +0000
Subject: [PATCH 03/11] fix: every slot receives the by-value arguments of an
 emission

By-value arguments were forwarded as rvalues to each slot in turn, so the
first slot that took one by value moved it away from all later slots.
---
 signals.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 8168f14..7bc0269 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1077,6 +1077,28 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // Pass an argument of an emission on to one slot. Arguments that are
+        // passed by value are copied, so that a slot that moves from its
+        // parameter does not change what the following slots receive.
+        // References (and move-only arguments) are forwarded.
+        template<typename T, bool = !std::is_reference<T>::value && std::is_copy_constructible<T>::value>
+        struct slot_arg
+        {
+            static T get(const T& arg)
+            {
+                return arg;
+            }
+        };
+
+        template<typename T>
+        struct slot_arg<T, false>
+        {
+            static T&& get(traits::remove_reference_t<T>& arg)
+            {
+                return static_cast<T&&>(arg);
+            }
+        };
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1139,7 +1161,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1203,7 +1225,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From 36322a10c21aeea02d180b17dbbd38afef78cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:33 +0000
Subject: [PATCH 04/11] fix: cow_ptr synchronizes with released handles before
 writing in place

detach() only did a relaxed load of the use count before the object was
modified in place, which is a data race with reads made through a handle
that another thread has just released.
---
 signals.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 7bc0269..011b625 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -652,6 +652,13 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // use_count() is a relaxed load: synchronize with the
+                    // handles that were released by other threads before
+                    // the object is modified in place.
+                    std::atomic_thread_fence(std::memory_order_acquire);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0


From aced392e17db451dbe7dac48c37e3b95e0be5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:40 +0000
Subject: [PATCH 05/11] fix: slots can be copied and assigned, empty or not

Copying a non-const slot chose the function object constructor and recursed
without end, copy assignment did not compile, and copying or connecting an
empty slot dereferenced a null pointer.
---
 signals.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 011b625..8181886 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1288,7 +1288,8 @@ namespace sig
         {}
 
         // Slot that takes a function object.
-        template<typename Func>
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_same<detail::traits::remove_cvref_t<Func>, slot>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
@@ -1311,7 +1312,7 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
@@ -1334,7 +1335,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
+                m_pImpl.reset(other.m_pImpl ? other.m_pImpl->clone() : nullptr);
                 m_pSignal = other.m_pSignal;
             }
             return *this;
@@ -1729,6 +1730,8 @@ namespace sig
         // Connect a previously created slot
         connection connect(const slot_type& slot)
         {
+            if (!slot) return {};   // Nothing to connect.
+
             auto s = slot_ptr_type(new slot_type(slot, static_cast<detail::signal_base*>(this)));
             connection c(s);
             add_slot(std::move(s));
-- 
2.43.0


From eacaa4218d2e2454f33f22aae79b4c13c6f97c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:46 +0000
Subject: [PATCH 06/11] fix: slots do not refer to a signal that has been
 destroyed

A slot that an emission keeps alive past the end of its signal (the signal
was destroyed by a slot, or callables use connections while the list is
being destroyed) still pointed at the signal: disconnecting it accessed
freed memory, and it reported being connected.
---
 signals.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 8181886..9c505ca 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1689,7 +1689,15 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+        ~signal()
+        {
+            // Destroyed while the signal can still be used.
+            cow_type old_slots;
+
+            lock_type lock(m_SlotMutex);
+            release_slots();
+            old_slots = std::move(m_Slots);
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
-- 
2.43.0


From ac6824a391d29f05a53f7279f4d09f64142377f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:34 +0000
Subject: [PATCH 07/11] fix: a failed emplace leaves a scalar optional
 disengaged

As documented, and as for class types, the optional is uninitialized when
the conversion of the arguments throws; it kept its old value instead.
---
 optional.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optional.hpp b/optional.hpp
index 8a8a9f3..062bd44 100644
--- a/optional.hpp
+++ b/optional.hpp
@@ -642,6 +642,7 @@ namespace opt
             template<class... Args>
             void emplace_assign(Args&&... args)
             {
+                destroy();
                 construct(in_place, std::forward<Args>(args)...);
             }
 
-- 
2.43.0


From d843f92932b9a48aad84c39e2a931c6822712dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:39 +0000
Subject: [PATCH 08/11] fix: cow_ptr creation from a pointer may throw

Creating the shared pointer's control block allocates memory. Declared
noexcept, a failure in connect during an emission ended the program
instead of reaching the caller of connect.
---
 signals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 9c505ca..e7f5d3d 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -518,7 +518,7 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            constexpr explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -549,7 +549,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0


From a8962282ad83a6614a869acb4a9a9e4784b3fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:54 +0000
Subject: [PATCH 09/11] fix: disconnecting an expired slot does not report
 having ended a connection

---
 signals.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index e7f5d3d..c4b434f 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1381,10 +1381,13 @@ namespace sig
 
         bool disconnect() noexcept
         {
+            // The connection of an expired slot has already ended.
+            const bool live = connected();
+
             if (m_pImpl && m_pSignal && m_pImpl->disconnect() )
             {
                 m_pSignal->remove_slot(*this);
-                return true;
+                return live;
             }
 
             return false;
-- 
2.43.0


From 645877cc5dfcae47d13be80498ccb4f25ede2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:45 +0000
Subject: [PATCH 10/11] fix: callables of the same type match however they were
 passed to connect and disconnect

---
 signals.hpp | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index c4b434f..1bafba9 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -780,8 +780,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -817,8 +818,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -856,9 +858,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -899,9 +902,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -943,9 +947,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -1004,9 +1009,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -1291,7 +1297,7 @@ namespace sig
         template<typename Func,
             typename = detail::traits::enable_if_t<!std::is_same<detail::traits::remove_cvref_t<Func>, slot>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
         {}
 
@@ -1299,14 +1305,14 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, detail::traits::decay_t<decltype(to_weak(std::forward<Ptr>(ptr)))>, Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From 4ca4ff47297d0f93e3295c0a59c8eb862616430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:01 +0000
Subject: [PATCH 11/11] fix: testing a copy-on-write handle does not copy its
 value

---
 signals.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 1bafba9..1fbc4e9 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -638,11 +638,18 @@ namespace sig
 
             // Explicit bool conversion to check for a valid
             // internal value.
+            // No copy is made of the underlying object.
             explicit operator bool() const noexcept
             {
                 return bool(m_Ptr);
             }
 
+            // Preferred to the conversion to a non-const pointer.
+            explicit operator bool() noexcept
+            {
+                return bool(m_Ptr);
+            }
+
         private:
             void detach()
             {
-- 
2.43.0


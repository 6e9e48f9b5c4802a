From da4bf38446b0a6ffb2d08059b926336b8b2b3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 01/42] fix: do not move from an lvalue passed to co_return

---
 qcoro/impl/taskpromise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 2baf671..5913bff 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,7 +38,7 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::move(value);
+    mValue = std::forward<U>(value);
 }
 
 template<typename T>
-- 
2.43.0


From c0f39036e3ccbe9174047fefc1966e1906280189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 02/42] fix: keep a temporary awaitable passed to connect()
 alive until it completes

---
 qcoro/impl/connect.h | 6 +++++-
 qcoro/impl/waitfor.h | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/qcoro/impl/connect.h b/qcoro/impl/connect.h
index 7b01416..556fa10 100644
--- a/qcoro/impl/connect.h
+++ b/qcoro/impl/connect.h
@@ -54,7 +54,11 @@ requires detail::TaskConvertible<T>
         && (std::is_invocable_v<Callback> || std::is_invocable_v<Callback, detail::convertible_awaitable_return_type_t<T>> || std::is_invocable_v<Callback, QObjectSubclass *> || std::is_invocable_v<Callback, QObjectSubclass *, detail::convertible_awaitable_return_type_t<T>>)
         && (!detail::isTask_v<T>)
 inline void connect(T &&future, QObjectSubclass *context, Callback func) {
-    auto task = detail::toTask(std::move(future));
+    // The task outlives this call, so it must not refer to a temporary. Only a non-copyable
+    // awaitable that is owned by the caller (e.g. another task) is used in place.
+    using Awaitable = std::remove_cvref_t<T>;
+    using Stored = std::conditional_t<std::is_lvalue_reference_v<T> && !std::is_copy_constructible_v<Awaitable>, T, Awaitable>;
+    auto task = detail::toTask<Stored>(std::forward<T>(future));
     connect(std::move(task), context, func);
 }
 
diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index 40a5993..4d46823 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -22,7 +22,7 @@ namespace detail
 
 template <typename Awaitable>
 requires TaskConvertible<Awaitable>
-auto toTask(Awaitable &&future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<Awaitable>> {
+auto toTask(Awaitable future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<std::remove_reference_t<Awaitable>>> {
     co_return co_await future;
 }
 
-- 
2.43.0


From e8295340d9c73bed8f3948b314da7e0cd4593657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 03/42] fix: release the replaced coroutine when a generator is
 move-assigned

---
 qcoro/qcoroasyncgenerator.h | 9 +++++++--
 qcoro/qcorogenerator.h      | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index b976dbd..bc12d1e 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -303,8 +303,13 @@ public:
 
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
-        m_coroutine = other.m_coroutine;
-        other.m_coroutine = nullptr;
+        if (std::addressof(other) != this) {
+            if (m_coroutine) {
+                m_coroutine.destroy();
+            }
+            m_coroutine = other.m_coroutine;
+            other.m_coroutine = nullptr;
+        }
         return *this;
     }
 
diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a325463..e2ba93b 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -242,8 +242,13 @@ public:
     }
     Generator(const Generator &) = delete;
     Generator &operator=(Generator &&other) noexcept {
-            mGeneratorCoroutine = other.mGeneratorCoroutine;
-            other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
+            if (std::addressof(other) != this) {
+                if (mGeneratorCoroutine.address() != nullptr) {
+                    mGeneratorCoroutine.destroy();
+                }
+                mGeneratorCoroutine = other.mGeneratorCoroutine;
+                other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
+            }
             return *this;
     };
     Generator &operator=(const Generator &) = delete;
-- 
2.43.0


From 947832df2165f021a6544b0a01a8a622864efb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 04/42] fix: start a LazyTask only once and never resume an
 empty one

---
 qcoro/impl/lazytask.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d69db6b..b91d5df 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -44,8 +44,13 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         TaskAwaiter(std::coroutine_handle<promise_type> thisTask)
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
-        auto await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+            // Only the first awaiter starts the task, the others just wait for it to finish.
+            const bool start = this->mAwaitedCoroutine && !this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!start) {
+                return std::noop_coroutine();
+            }
             // Return handle to the lazy task, so that it gets automatically resumed.
             return this->mAwaitedCoroutine;
         }
-- 
2.43.0


From faffa0900aa9904d1dd5f3d303c1f34ab3dad00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 05/42] fix: release the coroutine of a LazyTask that is never
 awaited

---
 qcoro/impl/lazytask.h | 6 +++++-
 qcoro/qcorolazytask.h | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index b91d5df..9d9a336 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -21,7 +21,9 @@ inline LazyTask<T> LazyTaskPromise<T>::get_return_object() noexcept {
 }
 
 template<typename T>
-inline std::suspend_always LazyTaskPromise<T>::initial_suspend() const noexcept {
+inline std::suspend_always LazyTaskPromise<T>::initial_suspend() noexcept {
+    // Until it is started, the coroutine is only owned by its LazyTask.
+    this->derefCoroutine();
     return {};
 }
 
@@ -51,6 +53,8 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
             if (!start) {
                 return std::noop_coroutine();
             }
+            // The running coroutine shares ownership of itself until it finishes.
+            this->mAwaitedCoroutine.promise().refCoroutine();
             // Return handle to the lazy task, so that it gets automatically resumed.
             return this->mAwaitedCoroutine;
         }
diff --git a/qcoro/qcorolazytask.h b/qcoro/qcorolazytask.h
index 93635c9..9721ec0 100644
--- a/qcoro/qcorolazytask.h
+++ b/qcoro/qcorolazytask.h
@@ -29,7 +29,7 @@ public:
 
     LazyTask<T> get_return_object() noexcept;
 
-    std::suspend_always initial_suspend() const noexcept;
+    std::suspend_always initial_suspend() noexcept;
 };
 
 } // namespace detail
-- 
2.43.0


From e94441886a5c5aaeeafece2cae5d48bebfe5301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 06/42] fix: keep the callbacks of a lazy continuation until it
 is awaited

---
 qcoro/impl/taskbase.h | 12 ++++++------
 qcoro/qcorotask.h     |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 9a62449..09d6a9a 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -132,9 +132,9 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::handleException(ErrorCallback &e
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+    auto thenCb = std::move(thenCallback);
+    auto errCb = std::move(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
@@ -165,9 +165,9 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallba
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+    auto thenCb = std::move(thenCallback);
+    auto errCb = std::move(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 0f1bd8f..9d6149f 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -427,9 +427,9 @@ private:
     static auto handleException(ErrorCallback &errCb, const std::exception &exception) -> U;
 
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImpl(TaskT task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImpl(TaskT task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImplRef(TaskT &task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImplRef(TaskT &task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
 
 protected:
     std::coroutine_handle<PromiseType> mCoroutine = {};
-- 
2.43.0


From 84945b695941870e100dc142f6185fbba3cec934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 07/42] fix: time out awaiting a signal even if the sender is
 destroyed

---
 qcoro/core/qcorosignal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d68586c..ddbb32b 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,7 +110,8 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
-            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
+            // The timer is the context, so that the timeout works even after mObj is destroyed.
+            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
-- 
2.43.0


From fba93396724325f892dc9c4099d9389d3aa3c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 08/42] fix: resume a signal listener only while it is waiting

---
 qcoro/core/qcorosignal.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index ddbb32b..8b7f9b6 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,6 +110,8 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
+            // Drop the connection made by a previous wait.
+            QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             // The timer is the context, so that the timeout works even after mObj is destroyed.
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
@@ -272,6 +274,8 @@ public:
                 mQueue.setAwaiter(awaitingCoroutine);
             }
             result_type await_resume() {
+                // Emissions must not resume the coroutine again until it waits again.
+                mQueue.setAwaiter(nullptr);
                 return mQueue.dequeue();
             }
 
-- 
2.43.0


From 1ea4cec4a9b846a9805e3825ee1f360e81f89104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 09/42] fix: never let sleepFor() return early or hang on
 negative durations

---
 qcoro/core/qcorotimer.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 833c8f0..3d12fc2 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -11,6 +11,10 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
+#include <chrono>
+#include <limits>
+
 /*! \cond internal */
 
 namespace QCoro::detail {
@@ -57,10 +61,18 @@ namespace QCoro {
 //! A coroutine that suspends for given period of time.
 template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
+    using std::chrono::milliseconds;
+    // Never sleep for less than requested, and not at all for negative durations.
+    auto remaining = std::max(std::chrono::ceil<milliseconds>(timeout), milliseconds{0});
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
-    co_await timer;
+    do {
+        // QTimer intervals are limited to int
+        const auto interval = std::min(remaining, milliseconds{std::numeric_limits<int>::max()});
+        timer.start(interval);
+        co_await timer;
+        remaining -= interval;
+    } while (remaining > milliseconds{0});
 }
 
 //! A coroutine that suspends until the specified time.
-- 
2.43.0


From 6a092e9d9fc51cb81dcc07fd8cb2ee76739f3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 10/42] fix: let sleepUntil() use the clock of its argument

---
 qcoro/core/qcorotimer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 3d12fc2..3ce3fb8 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -78,8 +78,7 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    const auto tp = when.time_since_epoch() - std::chrono::steady_clock::now().time_since_epoch();
-    return sleepFor(tp);
+    return sleepFor(when - Clock::now());
 }
 
 } // namespace QCoro
-- 
2.43.0


From 88293006f815196639440d7127ae4aa0cfe85660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 11/42] fix: waitForReadyRead() must not report a closed device
 as ready

---
 qcoro/core/qcoroiodevice.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 0d457b8..9718775 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -109,8 +109,11 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds time
         co_return true;
     }
 
+    const auto device = mDevice;
     const auto result = co_await waitForReadyReadImpl(timeout);
-    co_return result.has_value();
+    // No value means a timeout, false means that the device was closed - but it may still have
+    // received some data before that.
+    co_return result.has_value() && (*result || (device && device->bytesAvailable() > 0));
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeout_msecs) {
-- 
2.43.0


From 873c9f00372105102f6f38d4591f971c2c563c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 12/42] fix: survive the destruction of a device that is being
 read

---
 qcoro/core/qcoroiodevice.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 9718775..b015fa6 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -41,7 +41,8 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
-    return mResultCb(mDevice);
+    // The device may have been destroyed before the coroutine got resumed.
+    return mDevice ? mResultCb(mDevice) : QByteArray{};
 }
 
 QCoroIODevice::ReadAllOperation::ReadAllOperation(QIODevice *device)
@@ -56,7 +57,7 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
 
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -65,7 +66,7 @@ QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout
 
 QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -74,7 +75,7 @@ QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::millise
 
 QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
-- 
2.43.0


From 6ab41c7d46a193fdc7ac0ac6fcebe7b10fd58f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 13/42] fix: let an awaited write finish exactly when its bytes
 are flushed

---
 qcoro/core/qcoroiodevice.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index b015fa6..85c9d8e 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -10,6 +10,8 @@
 #include <QIODevice>
 #include <QTimer>
 
+#include <algorithm>
+
 using namespace QCoro::detail;
 
 QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
@@ -83,19 +85,32 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 }
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
-    const auto bytesWritten = mDevice->write(buffer);
-    qint64 bytesConfirmed = 0;
-    while (bytesConfirmed < bytesWritten) {
+    const auto device = mDevice;
+    // Bytes buffered by earlier writes are flushed before ours.
+    const auto bytesPending = device->bytesToWrite();
+    const auto bytesWritten = device->write(buffer);
+    if (bytesWritten <= 0) {
+        co_return 0;
+    }
+    if (device->bytesToWrite() == 0) {
+        // The device is not buffered (or has nothing left to flush)
+        co_return bytesWritten;
+    }
+
+    // Count every flush, including those that happen before the coroutine gets resumed.
+    qint64 bytesFlushed = bytesPending + bytesWritten - device->bytesToWrite();
+    QObject context;
+    QObject::connect(device, &QIODevice::bytesWritten, &context, [&bytesFlushed](qint64 bytes) { bytesFlushed += bytes; });
+    while (bytesFlushed < bytesPending + bytesWritten) {
         const auto flushed = co_await waitForBytesWritten(-1);
-        if (!flushed.has_value()) {
+        if (!flushed.has_value() || !device || device->bytesToWrite() == 0) {
             // There was an intermediate error and we don't know how much was actually
             // written, so we report only what we know for sure was written.
             break;
         }
-        bytesConfirmed += *flushed;
     }
 
-    co_return bytesConfirmed;
+    co_return std::clamp<qint64>(bytesFlushed - bytesPending, 0, bytesWritten);
 }
 
 QCoro::Task<bool> QCoroIODevice::waitForReadyRead(int timeout_msecs) {
-- 
2.43.0


From 60f5f71ab94b54d31d2d4fb483386c698a031d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 14/42] fix: keep the wrapper of a device alive while an
 awaited write is pending

---
 qcoro/core/qcoroiodevice.cpp          | 9 +++++++--
 qcoro/core/qcoroiodevice.h            | 6 ++++++
 qcoro/network/qcoroabstractsocket.cpp | 4 ++++
 qcoro/network/qcoroabstractsocket.h   | 1 +
 qcoro/network/qcorolocalsocket.cpp    | 4 ++++
 qcoro/network/qcorolocalsocket.h      | 1 +
 qcoro/network/qcoronetworkreply.cpp   | 4 ++++
 qcoro/network/qcoronetworkreply.h     | 1 +
 8 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 85c9d8e..1d36f96 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -86,6 +86,7 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
     const auto device = mDevice;
+    const auto self = clone();
     // Bytes buffered by earlier writes are flushed before ours.
     const auto bytesPending = device->bytesToWrite();
     const auto bytesWritten = device->write(buffer);
@@ -102,7 +103,7 @@ QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
     QObject context;
     QObject::connect(device, &QIODevice::bytesWritten, &context, [&bytesFlushed](qint64 bytes) { bytesFlushed += bytes; });
     while (bytesFlushed < bytesPending + bytesWritten) {
-        const auto flushed = co_await waitForBytesWritten(-1);
+        const auto flushed = co_await self->waitForBytesWritten(-1);
         if (!flushed.has_value() || !device || device->bytesToWrite() == 0) {
             // There was an intermediate error and we don't know how much was actually
             // written, so we report only what we know for sure was written.
@@ -156,4 +157,8 @@ QCoro::Task<std::optional<bool>> QCoroIODevice::waitForReadyReadImpl(std::chrono
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWrittenImpl(std::chrono::milliseconds timeout) {
     WaitSignalHelper helper(mDevice.data(), &QIODevice::bytesWritten);
     co_return co_await qCoro(&helper, qOverload<qint64>(&WaitSignalHelper::ready), timeout);
-}
\ No newline at end of file
+}
+
+std::shared_ptr<QCoroIODevice> QCoroIODevice::clone() const {
+    return std::make_shared<QCoroIODevice>(*this);
+}
diff --git a/qcoro/core/qcoroiodevice.h b/qcoro/core/qcoroiodevice.h
index c382b48..8ec4186 100644
--- a/qcoro/core/qcoroiodevice.h
+++ b/qcoro/core/qcoroiodevice.h
@@ -12,6 +12,8 @@
 
 #include <QPointer>
 
+#include <memory>
+
 class QIODevice;
 
 /*! \cond internal */
@@ -197,6 +199,10 @@ protected:
     virtual Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout);
     virtual Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout);
 
+    // The wrapper is usually a temporary, so an operation that needs it after it has been
+    // suspended must use a copy.
+    virtual std::shared_ptr<QCoroIODevice> clone() const;
+
     QPointer<QIODevice> mDevice = {};
 };
 
diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 56fde6b..98aba24 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -106,4 +106,8 @@ QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address
     return waitForConnected(timeout);
 }
 
+std::shared_ptr<QCoroIODevice> QCoroAbstractSocket::clone() const {
+    return std::make_shared<QCoroAbstractSocket>(*this);
+}
+
 #include "qcoroabstractsocket.moc"
\ No newline at end of file
diff --git a/qcoro/network/qcoroabstractsocket.h b/qcoro/network/qcoroabstractsocket.h
index 5a367f6..0d4d911 100644
--- a/qcoro/network/qcoroabstractsocket.h
+++ b/qcoro/network/qcoroabstractsocket.h
@@ -107,6 +107,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 5cc97e5..6fb9b79 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -132,4 +132,8 @@ QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevi
     return waitForConnected(timeout);
 }
 
+std::shared_ptr<QCoroIODevice> QCoroLocalSocket::clone() const {
+    return std::make_shared<QCoroLocalSocket>(*this);
+}
+
 #include "qcorolocalsocket.moc"
\ No newline at end of file
diff --git a/qcoro/network/qcorolocalsocket.h b/qcoro/network/qcorolocalsocket.h
index 16e7166..f17f8fb 100644
--- a/qcoro/network/qcorolocalsocket.h
+++ b/qcoro/network/qcorolocalsocket.h
@@ -108,6 +108,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
diff --git a/qcoro/network/qcoronetworkreply.cpp b/qcoro/network/qcoronetworkreply.cpp
index ea34423..b759511 100644
--- a/qcoro/network/qcoronetworkreply.cpp
+++ b/qcoro/network/qcoronetworkreply.cpp
@@ -108,4 +108,8 @@ QCoro::Task<bool> QCoroNetworkReply::waitForFinished(std::chrono::milliseconds t
     co_return result.has_value();
 }
 
+std::shared_ptr<QCoroIODevice> QCoroNetworkReply::clone() const {
+    return std::make_shared<QCoroNetworkReply>(*this);
+}
+
 #include "qcoronetworkreply.moc"
\ No newline at end of file
diff --git a/qcoro/network/qcoronetworkreply.h b/qcoro/network/qcoronetworkreply.h
index 6d45366..0408036 100644
--- a/qcoro/network/qcoronetworkreply.h
+++ b/qcoro/network/qcoronetworkreply.h
@@ -54,6 +54,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
-- 
2.43.0


From 14c49573fd9cefccac07560c9d4cf10e92739598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 15/42] fix: QCoroAbstractSocket::waitForConnected() reports a
 failed attempt

It only listened to connected(), so a refused or unreachable connection kept it
waiting until the timeout, forever without one. connectToHost() returns false when
the attempt fails before it returns.
---
 qcoro/network/qcoroabstractsocket.cpp | 46 +++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 98aba24..3267efc 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -40,6 +40,31 @@ private:
     QMetaObject::Connection mStateChanged;
 };
 
+class SocketConnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit SocketConnectedHelper(const QAbstractSocket *socket)
+        : mStateChanged(connect(socket, &QAbstractSocket::stateChanged, this, [this](auto state) {
+            if (state == QAbstractSocket::ConnectedState) {
+                emitReady(true);
+            } else if (state == QAbstractSocket::UnconnectedState) {
+                emitReady(false); // the attempt has failed
+            }
+        }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    void emitReady(bool result) {
+        disconnect(mStateChanged);
+        Q_EMIT ready(result);
+    }
+
+    QMetaObject::Connection mStateChanged;
+};
+
 } // namespace
 
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
@@ -75,8 +100,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(std::chrono::millisecond
         co_return true;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::connected, timeout);
-    co_return result.has_value();
+    SocketConnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &SocketConnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(int timeout_msecs) {
@@ -96,14 +122,22 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
                                                      QIODevice::OpenMode openMode, QAbstractSocket::NetworkLayerProtocol protocol,
                                                      std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(hostName, port, openMode, protocol);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(hostName, port, openMode, protocol);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address, quint16 port,
                                                      QIODevice::OpenMode openMode, std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(address, port, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(address, port, openMode);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 std::shared_ptr<QCoroIODevice> QCoroAbstractSocket::clone() const {
-- 
2.43.0


From 8e273cf68b3821b82e4e01467a8a25b6c186df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 16/42] fix: QCoroAbstractSocket::waitForDisconnected() ends
 when a connection attempt fails

A connecting socket that never gets connected does not emit disconnected().
---
 qcoro/network/qcoroabstractsocket.cpp | 37 +++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 3267efc..0701b31 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -65,6 +65,38 @@ private:
     QMetaObject::Connection mStateChanged;
 };
 
+class SocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit SocketDisconnectedHelper(const QAbstractSocket *socket)
+        : mDisconnected(connect(socket, &QAbstractSocket::disconnected, this, [this]() { emitReady(true); }))
+        , mStateChanged(connect(socket, &QAbstractSocket::stateChanged, this,
+                        [this, connecting = isConnecting(socket->state())](auto state) mutable {
+            if (connecting && state == QAbstractSocket::UnconnectedState) {
+                emitReady(false); // never got connected
+            }
+            connecting = isConnecting(state);
+        }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    static bool isConnecting(QAbstractSocket::SocketState state) {
+        return state == QAbstractSocket::HostLookupState || state == QAbstractSocket::ConnectingState;
+    }
+
+    void emitReady(bool result) {
+        disconnect(mDisconnected);
+        disconnect(mStateChanged);
+        Q_EMIT ready(result);
+    }
+
+    QMetaObject::Connection mDisconnected;
+    QMetaObject::Connection mStateChanged;
+};
+
 } // namespace
 
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
@@ -115,8 +147,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
         co_return false;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::disconnected, timeout);
-    co_return result.has_value();
+    SocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &SocketDisconnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
-- 
2.43.0


From 4cd106cc74e1aca32050d507cd7dfb59bea36e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 17/42] fix: an awaited write to a connecting QAbstractSocket
 waits for the data to be written

QAbstractSocket buffers data written while connecting, but the wait for written bytes
gave up at once and the write reported 0 bytes.
---
 qcoro/network/qcoroabstractsocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 0701b31..cae853f 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -114,7 +114,7 @@ QCoro::Task<std::optional<bool>> QCoroAbstractSocket::waitForReadyReadImpl(std::
 
 QCoro::Task<std::optional<qint64>> QCoroAbstractSocket::waitForBytesWrittenImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
-    if (socket->state() != QAbstractSocket::ConnectedState) {
+    if (socket->state() == QAbstractSocket::UnconnectedState || socket->state() == QAbstractSocket::ClosingState) {
         co_return std::nullopt;
     }
 
-- 
2.43.0


From 2c1f9382aeff6f899a03c22bd90d00fc24fa2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 18/42] fix: QCoroLocalSocket::connectToServer() reports an
 attempt that fails right away

QLocalSocket usually knows about a failure before connectToServer() returns, its
signals were emitted before the wait began and it went on until the timeout.
---
 qcoro/network/qcorolocalsocket.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 6fb9b79..93b354e 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -122,14 +122,22 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(name, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(name, openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 std::shared_ptr<QCoroIODevice> QCoroLocalSocket::clone() const {
-- 
2.43.0


From 8d330c6fa58c338e8a25a475cb3259227c068e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 19/42] fix: QCoroLocalSocket::waitForDisconnected() ends when
 a connection attempt fails

A connecting socket that never gets connected does not emit disconnected().
---
 qcoro/network/qcorolocalsocket.cpp | 33 ++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 93b354e..ec86c32 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -42,6 +42,34 @@ private:
     QMetaObject::Connection mStateChange;
 };
 
+class SocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit SocketDisconnectedHelper(const QLocalSocket *socket)
+        : mDisconnected(connect(socket, &QLocalSocket::disconnected, this, [this]() { emitReady(true); }))
+        , mStateChanged(connect(socket, &QLocalSocket::stateChanged, this,
+                        [this, connecting = (socket->state() == QLocalSocket::ConnectingState)](auto state) mutable {
+            if (connecting && state == QLocalSocket::UnconnectedState) {
+                emitReady(false); // never got connected
+            }
+            connecting = (state == QLocalSocket::ConnectingState);
+        }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    void emitReady(bool result) {
+        disconnect(mDisconnected);
+        disconnect(mStateChanged);
+        Q_EMIT ready(result);
+    }
+
+    QMetaObject::Connection mDisconnected;
+    QMetaObject::Connection mStateChanged;
+};
+
 class LocalSocketReadySignalHelper : public WaitSignalHelper {
     Q_OBJECT
 public:
@@ -116,8 +144,9 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
     if (socket->state() == QLocalSocket::UnconnectedState) {
         co_return false;
     }
-    const auto result = co_await qCoro(socket, &QLocalSocket::disconnected, timeout);
-    co_return result.has_value();
+    SocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &SocketDisconnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
-- 
2.43.0


From 27b0bc18dd9ff8ca1e68a9f3af6b22d7b56dd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 20/42] fix: waitForNewConnection() survives the destruction of
 the server

The resumption is queued, so the server can be destroyed after a connection has
arrived and before the coroutine continues.
---
 qcoro/network/qcorotcpserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index b23e297..f922b76 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -44,7 +44,7 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::mill
     }
 
     const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, timeout);
-    if (result.has_value()) {
+    if (result.has_value() && server) { // the server may be gone by the time we are resumed
         co_return server->nextPendingConnection();
     }
     co_return nullptr;
-- 
2.43.0


From 1ff7d1ee7c8254aa81f4fde9759c8a221e893b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 21/42] fix: QCoroWebSocket::open() reports every failed
 attempt

An attempt that fails before QWebSocket::open() returns (bad URL, immediate refusal)
emitted its error before the wait began, and one that is aborted by the program emits
no error at all: both kept the coroutine waiting until the timeout, forever without one.
---
 qcoro/websockets/qcorowebsocket.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index c686d14..52f15d8 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -30,9 +30,12 @@ public:
         : mState(connect(socket, &QWebSocket::stateChanged, this, [this, desiredState](auto newState) {
             if (newState == desiredState) {
                 emitReady(true);
+            } else if (newState == QAbstractSocket::UnconnectedState) {
+                emitReady(false);
             }
         }))
-        , mError(connect(socket, qOverload<QAbstractSocket::SocketError>(
+    {
+        connect(socket, qOverload<QAbstractSocket::SocketError>(
 #if QT_VERSION >= QT_VERSION_CHECK(6, 5, 0)
                                      &QWebSocket::errorOccurred
 #else
@@ -41,21 +44,29 @@ public:
                                      ), this, [this](auto error) {
             qWarning() << "QWebSocket failed to connect to a websocket server: " << error;
             emitReady(false);
-        }))
-    {}
+        });
+    }
+
+    //! The result, if it is known already.
+    std::optional<bool> result() const {
+        return mResult;
+    }
 
 Q_SIGNALS:
     void ready(bool result);
 
 private:
     void emitReady(bool result) {
+        if (mResult) {
+            return;
+        }
+        mResult = result;
         disconnect(mState);
-        disconnect(mError);
         Q_EMIT ready(result);
     }
 
+    std::optional<bool> mResult;
     QMetaObject::Connection mState;
-    QMetaObject::Connection mError;
 };
 
 template<typename>
@@ -153,6 +164,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QUrl &url, std::chrono::millisecond
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(url);
+    if (watcher.result()) { // failed right away
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
@@ -165,6 +179,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QNetworkRequest &request, std::chro
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(request);
+    if (watcher.result()) { // failed right away
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
-- 
2.43.0


From 3d819712d6687703daba072c05db05b5cf8cc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 22/42] fix: web socket generators buffer messages from the
 moment they are created

They subscribed to the socket only when they were first awaited, and messages that
arrived before were lost, although they are documented to buffer everything received
for as long as the generator exists.
---
 qcoro/websockets/qcorowebsocket.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index 52f15d8..d9b1eca 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -9,6 +9,8 @@
 #include <QWebSocket>
 #include <QDebug>
 
+#include <memory>
+
 using namespace QCoro::detail;
 
 using TupleQInt64QByteArray = std::tuple<qint64, QByteArray>;
@@ -127,13 +129,12 @@ Q_SIGNALS:
     void ready(std::optional<std::tuple<QString>>); // text messages
 };
 
-template<typename Signal>
-auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+// Takes over objects that were created before the generator got initially suspended.
+template<typename Signal, typename Listener>
+auto watcherGeneratorImpl([[maybe_unused]] std::unique_ptr<WebSocketSignalWatcher> watcher, Listener signalListener) ->
     QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
 {
-    WebSocketSignalWatcher watcher(ws, signal);
     using signalType = std::optional<signal_args_t<Signal>>;
-    auto signalListener = qCoroSignalListener(&watcher, qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
     auto it = co_await signalListener.begin();
     while (it != signalListener.end()) {
         if (!(*it).has_value()) {
@@ -149,6 +150,16 @@ auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds t
     }
 }
 
+// Not a coroutine: listens from now on, rather than from the first time the generator is awaited.
+template<typename Signal>
+auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout)
+{
+    using signalType = std::optional<signal_args_t<Signal>>;
+    auto watcher = std::make_unique<WebSocketSignalWatcher>(ws, signal);
+    auto signalListener = qCoroSignalListener(watcher.get(), qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+    return watcherGeneratorImpl<Signal>(std::move(watcher), std::move(signalListener));
+}
+
 
 } // namespace
 
-- 
2.43.0


From e9cff15907cf90e72ffb88ae139da54248b483a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 23/42] fix: a finished or abandoned wait for a web socket
 connection no longer takes later connections

---
 qcoro/websockets/qcorowebsocketserver.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index c2c6056..d267e8b 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -5,6 +5,7 @@
 #include "qcorowebsocketserver.h"
 #include "qcorosignal.h"
 
+#include <QPointer>
 #include <QWebSocket>
 #include <QWebSocketServer>
 
@@ -17,15 +18,15 @@ class QCoroWebSocketServerSignalListener : public QObject {
 public:
     QCoroWebSocketServerSignalListener(QWebSocketServer *server) {
         connect(server, &QWebSocketServer::closed, this, [this]() {
-            Q_EMIT ready(nullptr);
+            Q_EMIT ready(false);
         });
-        connect(server, &QWebSocketServer::newConnection, [this, server]() {
-            Q_EMIT ready(server->nextPendingConnection());
+        connect(server, &QWebSocketServer::newConnection, this, [this]() {
+            Q_EMIT ready(true);
         });
     }
 
 Q_SIGNALS:
-    void ready(QWebSocket *socket);
+    void ready(bool hasConnection);
 };
 
 } // namespace
@@ -36,7 +37,7 @@ QCoroWebSocketServer::QCoroWebSocketServer(QWebSocketServer *server)
 
 QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chrono::milliseconds timeout)
 {
-    auto * const server = mServer;
+    const QPointer<QWebSocketServer> server = mServer;
     if (!server->isListening()) {
         co_return nullptr;
     }
@@ -45,9 +46,13 @@ QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chron
         co_return server->nextPendingConnection();
     }
 
-    QCoroWebSocketServerSignalListener listener(server);
+    QCoroWebSocketServerSignalListener listener(server.data());
     const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, timeout);
-    co_return result.value_or(nullptr);
+    if (!result.value_or(false) || !server) {
+        co_return nullptr;
+    }
+    // Taken only now, so that it stays pending if the wait has timed out.
+    co_return server->nextPendingConnection();
 }
 
 #include "qcorowebsocketserver.moc"
-- 
2.43.0


From 5732b862c70657e832942bd16c427d514c6e8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 24/42] fix: process waits end when the process fails to start

---
 qcoro/core/qcoroprocess.cpp | 38 +++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 6b0a03e..33bf57a 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -13,6 +13,26 @@
 
 using namespace QCoro::detail;
 
+namespace {
+
+//! Reports the outcome of starting or running a process, including failures to start.
+class QCoroProcessSignalListener : public QObject {
+    Q_OBJECT
+public:
+    explicit QCoroProcessSignalListener(const QProcess *process) {
+        connect(process, &QProcess::errorOccurred, this, [this](QProcess::ProcessError error) {
+            if (error == QProcess::FailedToStart) {
+                Q_EMIT ready(false);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool success);
+};
+
+} // namespace
+
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
@@ -24,8 +44,12 @@ QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
 QCoro::Task<bool> QCoroProcess::waitForStarted(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
     if (process->state() == QProcess::Starting) {
-        const auto started = co_await qCoro(process, &QProcess::started, timeout);
-        co_return started.has_value();
+        QCoroProcessSignalListener listener(process);
+        QObject::connect(process, &QProcess::started, &listener, [&listener]() {
+            Q_EMIT listener.ready(true);
+        });
+        const auto started = co_await qCoro(&listener, &QCoroProcessSignalListener::ready, timeout);
+        co_return started.value_or(false);
     }
 
     co_return process->state() == QProcess::Running;
@@ -41,8 +65,12 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeou
         co_return false;
     }
 
-    const auto finished = co_await qCoro(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), timeout);
-    co_return finished.has_value();
+    QCoroProcessSignalListener listener(process);
+    QObject::connect(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), &listener, [&listener]() {
+        Q_EMIT listener.ready(true);
+    });
+    const auto finished = co_await qCoro(&listener, &QCoroProcessSignalListener::ready, timeout);
+    co_return finished.value_or(false);
 }
 
 QCoro::Task<bool> QCoroProcess::start(QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
@@ -56,4 +84,6 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+#include "qcoroprocess.moc"
+
 #endif // QT_CONFIG(process)
-- 
2.43.0


From 4ed106bd204c90bfd50e3ff68965507e9ac41450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 25/42] fix: thread waits notice a start or end that happens
 while they begin

---
 qcoro/core/qcorothread.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index b1c73ee..39dd876 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -41,6 +41,13 @@ private:
 
 QEvent::Type ContextHelper::eventType = static_cast<QEvent::Type>(QEvent::registerEventType());
 
+//! Forwards a signal emitted by another thread into the thread in which it was created.
+class ThreadSignalListener : public QObject {
+    Q_OBJECT
+Q_SIGNALS:
+    void ready();
+};
+
 class ThreadContextPrivate {
 public:
     explicit ThreadContextPrivate(QThread *thread)
@@ -88,6 +95,9 @@ QCoroThread::QCoroThread(QThread *thread)
 {}
 
 QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout) {
+    // Connected before checking the state, so that the thread cannot start unnoticed.
+    ThreadSignalListener listener;
+    QObject::connect(mThread.data(), &QThread::started, &listener, &ThreadSignalListener::ready);
     if (mThread->isRunning()) {
         co_return true;
     }
@@ -95,19 +105,22 @@ QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout)
         co_return false;
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::started, timeout);
+    const auto result = co_await qCoro(&listener, &ThreadSignalListener::ready, timeout);
     co_return result.has_value();
 }
 
 QCoro::Task<bool> QCoroThread::waitForFinished(std::chrono::milliseconds timeout) {
+    // Connected before checking the state, so that the thread cannot finish unnoticed.
+    ThreadSignalListener listener;
+    QObject::connect(mThread.data(), &QThread::finished, &listener, &ThreadSignalListener::ready);
     if (mThread->isFinished()) {
         co_return true;
     }
     if (!mThread->isRunning()) {
-        co_return false;
+        co_return mThread->isFinished(); // it may have been running a moment ago
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::finished, timeout);
+    const auto result = co_await qCoro(&listener, &ThreadSignalListener::ready, timeout);
     co_return result.has_value();
 }
 
-- 
2.43.0


From 7d3bdda81f303042dd974cf2aa8406a436dad1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 26/42] fix: moveToThread() does not depend on the thread the
 coroutine leaves

---
 qcoro/core/qcorothread.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index 39dd876..03c3a4b 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -77,10 +77,10 @@ bool ThreadContext::await_ready() const noexcept {
 void ThreadContext::await_suspend(std::coroutine_handle<> awaiter) noexcept {
     d->mContext = std::make_unique<ContextHelper>(awaiter, d->mThread);
     d->mContext->moveToThread(d->mThread);
-    qCoro(d->mThread).waitForStarted().then([this]() {
-        auto *event = new QEvent(static_cast<QEvent::Type>(detail::ContextHelper::eventType));
-        QCoreApplication::postEvent(d->mContext.get(), event);
-    });
+    // If the thread is not running yet the event is delivered once it starts. Note that the coroutine
+    // may be resumed, and `this` destroyed, before postEvent() returns.
+    auto *event = new QEvent(static_cast<QEvent::Type>(detail::ContextHelper::eventType));
+    QCoreApplication::postEvent(d->mContext.get(), event);
 }
 
 void ThreadContext::await_resume() noexcept {}
-- 
2.43.0


From d30fa2fa9d77ded276b74fd13a156eda0083b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 27/42] fix: awaiting a canceled future that still runs does
 not block the thread

---
 qcoro/core/qcorofuture.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorofuture.h b/qcoro/core/qcorofuture.h
index 0e028d8..de54a92 100644
--- a/qcoro/core/qcorofuture.h
+++ b/qcoro/core/qcorofuture.h
@@ -28,7 +28,8 @@ private:
         QCORO_DEFAULT_MOVE(WaitForFinishedOperationBase)
 
         bool await_ready() const noexcept {
-            return mFuture.isFinished() || mFuture.isCanceled();
+            // A canceled or failed future may still be running, obtaining its result would block until it finishes.
+            return mFuture.isFinished();
         }
 
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
-- 
2.43.0


From 2d830af0d936ef34cbee24404a0409c38e4a2ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 28/42] fix: waiting for a D-Bus call that has already finished
 does not suspend

---
 qcoro/dbus/qcorodbuspendingcall.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index af7098e..6cb3a5e 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -37,7 +37,10 @@ QCoroDBusPendingCall::QCoroDBusPendingCall(const QDBusPendingCall &call)
 
 QCoro::Task<QDBusMessage> QCoroDBusPendingCall::waitForFinished() {
     QDBusPendingCallWatcher watcher{mCall};
-    co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    // The watcher of a call that has already finished may never emit finished().
+    if (!watcher.isFinished()) {
+        co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    }
     co_return watcher.reply();
 }
 
-- 
2.43.0


From a0cea31c531460080e36898ebe6c11e11ef4326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 29/42] fix: keep the awaited D-Bus call, not a reference to a
 variable

---
 qcoro/dbus/qcorodbuspendingcall.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index b56ff19..d8420ad 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -26,10 +26,10 @@ private:
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
-        const QDBusPendingCall &mCall;
+        QDBusPendingCall mCall;
     };
 
-    const QDBusPendingCall &mCall;
+    QDBusPendingCall mCall;
 
     friend struct awaiter_type<QDBusPendingCall>;
 public:
-- 
2.43.0


From c98bf235a686830ece8eaa470a7515872709c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 30/42] fix: notice a D-Bus call that finishes while it begins
 to be awaited

---
 qcoro/dbus/qcorodbuspendingcall.cpp | 10 ++++++++--
 qcoro/dbus/qcorodbuspendingcall.h   |  2 +-
 qcoro/dbus/qcorodbuspendingreply.h  | 13 +++++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index 6cb3a5e..dae8b8b 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -17,13 +17,19 @@ bool QCoroDBusPendingCall::WaitForFinishedOperation::await_ready() const noexcep
     return mCall.isFinished();
 }
 
-void QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
-auto *watcher = new QDBusPendingCallWatcher{mCall};
+bool QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+    auto *watcher = new QDBusPendingCallWatcher{mCall};
+    // The call may have finished just before the watcher was created, then it may never emit finished().
+    if (watcher->isFinished()) {
+        delete watcher;
+        return false;
+    }
     QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                      [awaitingCoroutine](auto *watcher) mutable {
                          awaitingCoroutine.resume();
                          watcher->deleteLater();
                      });
+    return true;
 }
 
 QDBusMessage QCoroDBusPendingCall::WaitForFinishedOperation::await_resume() const {
diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index d8420ad..38286d4 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -23,7 +23,7 @@ private:
         explicit WaitForFinishedOperation(const QDBusPendingCall &call);
 
         bool await_ready() const noexcept;
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
         QDBusPendingCall mCall;
diff --git a/qcoro/dbus/qcorodbuspendingreply.h b/qcoro/dbus/qcorodbuspendingreply.h
index 40154f5..44b6d51 100644
--- a/qcoro/dbus/qcorodbuspendingreply.h
+++ b/qcoro/dbus/qcorodbuspendingreply.h
@@ -36,13 +36,19 @@ private:
             return mReply.isFinished();
         }
 
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) {
             auto *watcher = new QDBusPendingCallWatcher{mReply};
+            // The call may have finished just before the watcher was created, then it may never emit finished().
+            if (watcher->isFinished()) {
+                delete watcher;
+                return false;
+            }
             QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                              [awaitingCoroutine](auto *watcher) mutable {
                                  awaitingCoroutine.resume();
                                  watcher->deleteLater();
                              });
+            return true;
         }
 
         QDBusPendingReply<Args ...> await_resume() const {
@@ -110,7 +116,10 @@ public:
     Task<QDBusPendingReply<Args ...>> waitForFinished() {
         if (!mReply.isFinished()) {
             QDBusPendingCallWatcher watcher{mReply};
-            co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            // The call may have finished just before the watcher was created, then it may never emit finished().
+            if (!watcher.isFinished()) {
+                co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            }
             co_return watcher.reply();
         }
         co_return mReply;
-- 
2.43.0


From 60f562dc27edc1c8bc563501bdbbbdb3a561dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 31/42] fix: let copies of a QmlTask share its work instead of
 aborting

---
 qcoro/qml/qcoroqmltask.cpp | 5 -----
 qcoro/qml/qcoroqmltask.h   | 2 +-
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 8523aeb..9627705 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -22,11 +22,6 @@ namespace QCoro {
 
 struct QmlTaskPrivate : public QSharedData {
     std::optional<QCoro::Task<QVariant>> task;
-
-    QmlTaskPrivate() = default;
-    QmlTaskPrivate(const QmlTaskPrivate &) : QSharedData() {
-        Q_UNREACHABLE();
-    };
 };
 
 inline QJSEngine *getEngineForValue(const QJSValue &val) {
diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 06f8c53..7b7a514 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -93,7 +93,7 @@ public:
     Q_INVOKABLE QCoro::QmlTaskListener *await(const QVariant &intermediateValue = {});
 
 private:
-    QSharedDataPointer<QmlTaskPrivate> d;
+    QExplicitlySharedDataPointer<QmlTaskPrivate> d;
 };
 
 class QmlTaskListener : public QObject {
-- 
2.43.0


From cdb9f0085c0389d9fd0949f65ad2e364062b6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 32/42] fix: every continuation and listener of a QmlTask gets
 its result

---
 qcoro/qml/qcoroqmltask.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 9627705..2880f7c 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -6,6 +6,7 @@
 
 #include <QLoggingCategory>
 
+#include <memory>
 #include <optional>
 
 #if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
@@ -22,6 +23,18 @@ namespace QCoro {
 
 struct QmlTaskPrivate : public QSharedData {
     std::optional<QCoro::Task<QVariant>> task;
+    // The first continuation moves the result out of the task, it is kept here for the others.
+    std::shared_ptr<std::optional<QVariant>> result = std::make_shared<std::optional<QVariant>>();
+
+    template<typename Callback>
+    void then(Callback &&callback) {
+        task->then([result = result, callback = std::forward<Callback>(callback)](QVariant &&value) mutable {
+            if (!result->has_value()) {
+                *result = std::move(value);
+            }
+            callback(**result);
+        });
+    }
 };
 
 inline QJSEngine *getEngineForValue(const QJSValue &val) {
@@ -62,7 +75,7 @@ void QmlTask::then(QJSValue func) {
         return;
     }
 
-    d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
+    d->then([func = std::move(func)](const QVariant &result) mutable -> void {
         auto jsval = getEngineForValue(func)->toScriptValue(result);
         func.call({jsval});
     });
@@ -74,9 +87,9 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
-    d->task->then([listener](auto &&value) {
+    d->then([listener](const QVariant &value) {
         if (listener) {
-            listener->setValue(std::move(value));
+            listener->setValue(QVariant(value));
         }
     });
     return listener;
-- 
2.43.0


From 530d7e13281777ba43bcd9bdb45b1186f2dad9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 33/42] fix: a QmlTask whose script engine is gone calls
 nothing

---
 qcoro/qml/qcoroqmltask.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 2880f7c..7d93260 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -45,7 +45,8 @@ inline QJSEngine *getEngineForValue(const QJSValue &val) {
     return val.engine();
     QT_WARNING_POP
 #else
-    return QJSValuePrivate::engine(&val)->jsEngine();
+    auto *engine = QJSValuePrivate::engine(&val);
+    return engine ? engine->jsEngine() : nullptr;
 #endif
 }
 
@@ -76,8 +77,10 @@ void QmlTask::then(QJSValue func) {
     }
 
     d->then([func = std::move(func)](const QVariant &result) mutable -> void {
-        auto jsval = getEngineForValue(func)->toScriptValue(result);
-        func.call({jsval});
+        // The engine may have been destroyed before the task finished, then there is nothing to call.
+        if (auto *engine = getEngineForValue(func)) {
+            func.call({engine->toScriptValue(result)});
+        }
     });
 }
 
-- 
2.43.0


From 31755ef5c33d6650e817614a1c36350de31f07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 34/42] fix: QmlTask::await() on an empty task does not access
 a missing task

---
 qcoro/qml/qcoroqmltask.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 7d93260..069743b 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -90,6 +90,11 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
+    if (!d->task) {
+        qCWarning(qcoroqml, ".await called on a QmlTask that is not connected to any coroutine. "
+                            "Make sure you don't default-construct QmlTask in your code");
+        return listener;
+    }
     d->then([listener](const QVariant &value) {
         if (listener) {
             listener->setValue(QVariant(value));
-- 
2.43.0


From f687f547d55d50554063430203c4674bfcdb7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 35/42] fix: image responses finish also when the coroutine
 fails, and may be destroyed before

---
 qcoro/quick/qcoroimageprovider.cpp | 49 ++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 72361c7..2a78380 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -4,6 +4,10 @@
 
 #include "qcoroimageprovider.h"
 
+#include <QPointer>
+
+#include <exception>
+
 namespace QCoro {
 
 // Internal implementation of the QQuickImageResponse interface
@@ -11,12 +15,44 @@ class QCoroImageResponse : public QQuickImageResponse {
 
 public:
     QQuickTextureFactory *textureFactory() const override;
+    QString errorString() const override;
     void reportFinished(QImage &&image);
+    void reportFailed(const QString &error);
 
 private:
     QImage m_image;
+    QString m_error;
 };
 
+namespace {
+
+// The response may be destroyed before the task finishes, but it has to finish in any case.
+QCoro::Task<> finishResponse(QPointer<QCoroImageResponse> response, QCoro::Task<QImage> task) {
+    QImage image;
+    QString error;
+    try {
+        image = co_await task;
+    } catch (const std::exception &e) {
+        error = QString::fromUtf8(e.what());
+        if (error.isEmpty()) {
+            error = QStringLiteral("Failed to load image");
+        }
+    } catch (...) {
+        error = QStringLiteral("Failed to load image");
+    }
+
+    if (response.isNull()) {
+        co_return;
+    }
+    if (error.isEmpty()) {
+        response->reportFinished(std::move(image));
+    } else {
+        response->reportFailed(error);
+    }
+}
+
+} // namespace
+
 
 ImageProvider::ImageProvider() = default;
 
@@ -25,9 +61,7 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     auto *response = new QCoroImageResponse();
 
-    task.then([response](QImage &&image) {
-        response->reportFinished(std::move(image));
-    });
+    finishResponse(response, std::move(task));
 
     return response;
 }
@@ -36,9 +70,18 @@ QQuickTextureFactory *QCoroImageResponse::textureFactory() const {
     return QQuickTextureFactory::textureFactoryForImage(m_image);
 }
 
+QString QCoroImageResponse::errorString() const {
+    return m_error;
+}
+
 void QCoroImageResponse::reportFinished(QImage &&image) {
     m_image = image;
     Q_EMIT finished();
 }
 
+void QCoroImageResponse::reportFailed(const QString &error) {
+    m_error = error;
+    Q_EMIT finished();
+}
+
 }
-- 
2.43.0


From 8b9c96fdafd5c66ee5221fc8c6bb4a2879cd6184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 36/42] fix: a future that finishes again does not resume its
 awaiter again

---
 qcoro/core/qcorofuture.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qcoro/core/qcorofuture.h b/qcoro/core/qcorofuture.h
index de54a92..efd4650 100644
--- a/qcoro/core/qcorofuture.h
+++ b/qcoro/core/qcorofuture.h
@@ -35,6 +35,8 @@ private:
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
             auto *watcher = new QFutureWatcher<T_>();
             QObject::connect(watcher, &QFutureWatcherBase::finished, [watcher, awaitingCoroutine]() mutable {
+                // A future whose result was taken may finish again when its promise is destroyed.
+                watcher->disconnect();
                 watcher->deleteLater();
                 awaitingCoroutine.resume();
             });
-- 
2.43.0


From 145256be5d1a71f3d13cece6a730d7f278ec0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 37/42] fix: a result that cannot be copied or converted fails
 the task

return_value() was noexcept, so that an exception thrown while the
returned object was copied or converted terminated the program instead
of being delivered to whoever awaits the task.
---
 qcoro/impl/taskpromise.h |  8 ++++----
 qcoro/qcorotask.h        | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 5913bff..738c72b 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -26,24 +26,24 @@ inline void TaskPromise<T>::unhandled_exception() {
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(T &&value) noexcept {
+inline void TaskPromise<T>::return_value(T &&value) {
     mValue.template emplace<T>(std::forward<T>(value));
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(const T &value) noexcept {
+inline void TaskPromise<T>::return_value(const T &value) {
     mValue = value;
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(U &&value) noexcept {
+inline void TaskPromise<T>::return_value(U &&value) {
     mValue = std::forward<U>(value);
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(const U &value) noexcept {
+inline void TaskPromise<T>::return_value(const U &value) {
     mValue = value;
 }
 
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 9d6149f..a4cb36a 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -212,16 +212,16 @@ public:
      * \param[in] value the value returned by the coroutine. It is stored in the
      *            promise, later can be retrieved by the calling coroutine.
      */
-    void return_value(T &&value) noexcept;
+    void return_value(T &&value);
 
-    //! \copydoc template<typename T> TaskPromise::return_value(T &&value) noexcept
-    void return_value(const T &value) noexcept;
+    //! \copydoc template<typename T> TaskPromise::return_value(T &&value)
+    void return_value(const T &value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(U &&value) noexcept;
+    void return_value(U &&value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(const U &value) noexcept;
+    void return_value(const U &value);
 
     //! Retrieves the result of the coroutine.
     /*!
-- 
2.43.0


From 5c79fb78af772ec8c4c978be28bfbc85320fba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 38/42] fix: sleeping and timeouts never end early

QTimer is coarse by default, which means that it may time out up to 5%
too early: sleepFor(1000ms) could take just 992 ms.
---
 qcoro/core/qcorosignal.h | 2 ++
 qcoro/core/qcorotimer.h  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 8b7f9b6..8e37eb9 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -127,6 +127,8 @@ protected:
         : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)) {
         if (timeout.count() > -1) {
             mTimeoutTimer = std::make_unique<QTimer>();
+            // Coarse timers, the default, may time out up to 5% early
+            mTimeoutTimer->setTimerType(Qt::PreciseTimer);
             mTimeoutTimer->setInterval(timeout);
             mTimeoutTimer->setSingleShot(true);
         }
diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 3ce3fb8..71e0c1f 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -65,6 +65,8 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     // Never sleep for less than requested, and not at all for negative durations.
     auto remaining = std::max(std::chrono::ceil<milliseconds>(timeout), milliseconds{0});
     QTimer timer;
+    // Coarse timers, the default, may time out up to 5% early
+    timer.setTimerType(Qt::PreciseTimer);
     timer.setSingleShot(true);
     do {
         // QTimer intervals are limited to int
-- 
2.43.0


From eeb5f1d274d18826337bdd5efd09471cbec08a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 39/42] fix: timeouts longer than 24 days

QTimer intervals are int: longer timeouts of a signal await either never
passed or passed too early.
---
 qcoro/core/qcorosignal.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 8e37eb9..a5ada5d 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -10,11 +10,15 @@
 #include "qcorotask.h"
 #include "qcoroasyncgenerator.h"
 
+#include <QDeadlineTimer>
 #include <QObject>
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
 #include <cassert>
+#include <chrono>
+#include <limits>
 #include <optional>
 #include <deque>
 #include <tuple>
@@ -110,26 +114,36 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
+            mDeadline = QDeadlineTimer{mTimeout, Qt::PreciseTimer};
             // Drop the connection made by a previous wait.
             QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             // The timer is the context, so that the timeout works even after mObj is destroyed.
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
+                    if (!mDeadline.hasExpired()) {
+                        startTimeoutTimer();
+                        return;
+                    }
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
                 }, Qt::DirectConnection); // force coro to be resumed on our thread, not mObj's thread
-            mTimeoutTimer->start();
+            startTimeoutTimer();
         }
     }
 
+    void startTimeoutTimer() {
+        // QTimer intervals are limited to int
+        const auto remaining = std::chrono::ceil<std::chrono::milliseconds>(mDeadline.remainingTimeAsDuration());
+        mTimeoutTimer->start(std::min(remaining, std::chrono::milliseconds{std::numeric_limits<int>::max()}));
+    }
+
 protected:
     QCoroSignalBase(T *obj, FuncPtr &&funcPtr, std::chrono::milliseconds timeout)
-        : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)) {
+        : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)), mTimeout(timeout) {
         if (timeout.count() > -1) {
             mTimeoutTimer = std::make_unique<QTimer>();
             // Coarse timers, the default, may time out up to 5% early
             mTimeoutTimer->setTimerType(Qt::PreciseTimer);
-            mTimeoutTimer->setInterval(timeout);
             mTimeoutTimer->setSingleShot(true);
         }
     }
@@ -166,6 +180,8 @@ protected:
     FuncPtr mFuncPtr;
     QMetaObject::Connection mConn;
     std::unique_ptr<QTimer> mTimeoutTimer;
+    std::chrono::milliseconds mTimeout;
+    QDeadlineTimer mDeadline;
 };
 
 template<concepts::QObject T, typename FuncPtr>
-- 
2.43.0


From ec82a11c2de112fd119f0b425d895100605d66d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:49 +0000
Subject: [PATCH 40/42] fix: overwriting a task whose coroutine keeps the owner
 of the task alive

Destroying the old coroutine may destroy the object that holds the task; move assignment
used the task afterwards.
---
 qcoro/impl/taskbase.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 09d6a9a..092abef 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -29,12 +29,14 @@ inline TaskBase<T, TaskImpl, PromiseType>::TaskBase(TaskBase &&other) noexcept :
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 inline auto TaskBase<T, TaskImpl, PromiseType>::operator=(TaskBase &&other) noexcept -> TaskBase & {
     if (std::addressof(other) != this) {
-        if (mCoroutine) {
-            mCoroutine.promise().derefCoroutine();
-        }
-
+        const auto oldCoroutine = mCoroutine;
         mCoroutine = other.mCoroutine;
         other.mCoroutine = nullptr;
+
+        // Destroying the old coroutine may destroy or use this object, so it must come last.
+        if (oldCoroutine) {
+            oldCoroutine.promise().derefCoroutine();
+        }
     }
     return *this;
 }
-- 
2.43.0


From 77a73282d2e72b5a428273795119af6fa726b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:49 +0000
Subject: [PATCH 41/42] fix: overwriting a generator whose producer keeps the
 owner of the generator alive

Destroying the old producer may destroy the object that holds the generator, which then
destroyed the producer a second time.
---
 qcoro/qcoroasyncgenerator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index bc12d1e..8e48003 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -304,11 +304,13 @@ public:
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
         if (std::addressof(other) != this) {
-            if (m_coroutine) {
-                m_coroutine.destroy();
-            }
+            const auto oldCoroutine = m_coroutine;
             m_coroutine = other.m_coroutine;
             other.m_coroutine = nullptr;
+            // Destroying the old coroutine may destroy or use this object, so it must come last.
+            if (oldCoroutine) {
+                oldCoroutine.destroy();
+            }
         }
         return *this;
     }
-- 
2.43.0


From 12b6716eaa5f1118019c4bc687fe7129cd331208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:36 +0000
Subject: [PATCH 42/42] fix: sleeping for durations that exceed the range of
 milliseconds

Converting them overflowed, so that endless sleeps ended at once, and sleeping until the
earliest time point of a clock did not end.
---
 qcoro/core/qcorotimer.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 71e0c1f..7457afd 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -63,7 +63,14 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     using std::chrono::milliseconds;
     // Never sleep for less than requested, and not at all for negative durations.
-    auto remaining = std::max(std::chrono::ceil<milliseconds>(timeout), milliseconds{0});
+    auto remaining = milliseconds{0};
+    // Durations of other types may exceed the range of milliseconds.
+    const std::chrono::duration<double, std::milli> approximate = timeout;
+    if (approximate >= std::chrono::duration<double, std::milli>{milliseconds::max()}) {
+        remaining = milliseconds::max();
+    } else if (approximate.count() > 0) {
+        remaining = std::chrono::ceil<milliseconds>(timeout);
+    }
     QTimer timer;
     // Coarse timers, the default, may time out up to 5% early
     timer.setTimerType(Qt::PreciseTimer);
@@ -80,7 +87,14 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    return sleepFor(when - Clock::now());
+    const auto now = Clock::now();
+    // The exact difference of time points that are far apart may not be representable.
+    using Seconds = std::chrono::duration<double>;
+    const auto approximate = Seconds{when.time_since_epoch()} - Seconds{now.time_since_epoch()};
+    if (std::chrono::abs(approximate) > std::chrono::hours{24 * 365 * 10}) {
+        return sleepFor(approximate);
+    }
+    return sleepFor(when - now);
 }
 
 } // namespace QCoro
-- 
2.43.0


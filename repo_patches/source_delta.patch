From 703961504c348f44816967586149b8b348a9f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 01/20] fix: gather_excs no longer reports exception objects
 that were merely returned

---
 aiuti/asyncio.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 2b71748..5411588 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,8 +97,19 @@ async def gather_excs(
     :param only:
         Optional specific type of exceptions to filter on and yield
     """
-    for res in await aio.gather(*aws, return_exceptions=True):
-        if isinstance(res, only):
+    # Wrap each awaitable up front, but only once like gather() does, to
+    # be able to tell raised exceptions apart from returned ones
+    futs: Dict[Awaitable[Any], 'aio.Future[Any]'] = {}
+    all_futs = []
+    for aw in aws:
+        if aw not in futs:
+            futs[aw] = aio.ensure_future(aw)
+        all_futs.append(futs[aw])
+
+    results = await aio.gather(*all_futs, return_exceptions=True)
+    for fut, res in zip(all_futs, results):
+        raised = fut.cancelled() or fut.exception() is not None
+        if raised and isinstance(res, only):
             yield res
 
 
-- 
2.43.0


From 0907dcbd458bc8ef954254279694e6c9d66c6ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 02/20] fix: entering a FileLock with-block raises TimeoutError
 when the lock wasn't acquired

---
 aiuti/filelock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 11430cd..0d59076 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -304,7 +304,8 @@ class BaseFileLock(abc.ABC):
         self._lock_counter = max(0, self._lock_counter - 1)
 
     def __enter__(self: FileLockT) -> FileLockT:
-        self.acquire()
+        if not self.acquire():
+            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
         return self
 
     def __exit__(self, *_exc: Any) -> None:
-- 
2.43.0


From c205935a418fc42acdf8089988740df7b277c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 03/20] fix: a forced FileLock release frees every nested level
 of a reentrant lock

---
 aiuti/filelock.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 0d59076..0bb7fed 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -224,6 +224,9 @@ class BaseFileLock(abc.ABC):
 
         self._decrement_lock_counter()
 
+        # Number of times the thread lock needs to be released
+        thread_lock_releases = 1
+
         if self._lock_counter == 0 or force:
             lid = id(self)
             fn = self._lock_file
@@ -234,13 +237,17 @@ class BaseFileLock(abc.ABC):
             except:  # noqa
                 _logger.exception("Failed to release lock %s on %s", lid, fn)
             else:
-                self._lock_counter = 0
                 _logger.info('Lock %s released on %s', lid, fn)
 
-        try:
-            self._thread_lock.release()
-        except RuntimeError:  # not reentrant and already unlocked
-            pass
+            # A forced release also gives up all of the outer levels
+            thread_lock_releases += self._lock_counter
+            self._lock_counter = 0
+
+        for _ in range(thread_lock_releases):
+            try:
+                self._thread_lock.release()
+            except RuntimeError:  # not reentrant and already unlocked
+                break
 
     # Open mode for the file descriptor
     _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC
-- 
2.43.0


From 9b23a270d5d9614f071e76387efb5b412edebe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 04/20] fix: a batcher answers its callers whatever the batch
 function yields or raises

A key that was never requested or was already answered made the whole
batch fail with that KeyError; a BaseException or an un-raisable
StopIteration left callers waiting forever.
---
 aiuti/asyncio.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 5411588..e62e026 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1198,21 +1198,41 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                     len(args), self.func,
                 )
                 async for key, result in self.func(args):
-                    fut = futs.pop(key)
-                    if isinstance(result, Exception):
-                        fut.set_exception(result)
-                    else:
+                    fut = futs.pop(key, None)
+                    if fut is None:  # Must not affect the other tasks
+                        logger.error("Unexpected result for %r", key)
+                    elif isinstance(result, Exception):
+                        self._set_exception(fut, result)
+                    elif not fut.done():
                         fut.set_result(result)
-        except Exception as e:
+        except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
-                fut.set_exception(e)
-            return
+                self._set_exception(fut, e)
+            if isinstance(e, Exception):
+                return
+            raise
 
         if futs:
             logger.error("Missing outputs for %d futures", len(futs))
             for key, fut in futs.items():
-                fut.set_exception(ValueError(f"Missing result for {key!r}"))
+                self._set_exception(
+                    fut, ValueError(f"Missing result for {key!r}"),
+                )
+
+    def _set_exception(self,
+                       fut: 'aio.Future[R_co]',
+                       exc: BaseException) -> None:
+        """
+        Mark the given future as failed if it is still unanswered.
+        """
+        if fut.done() or self._loop.is_closed():
+            return
+        if isinstance(exc, StopIteration):  # Not allowed in a future
+            error = RuntimeError(f"Batch result raised {exc!r}")
+            error.__cause__ = exc
+            exc = error
+        fut.set_exception(exc)
 
 
 _CROSS_LOOP_POOL = ThreadPoolExecutor(32)
-- 
2.43.0


From bea6944dc8291b1834ef58f444365e5f1b36a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 05/20] fix: cancelling a batcher caller no longer disturbs the
 others

The future shared by all callers of a key was cancelled along with any of
them and forgotten with the original caller; setting a cancelled future
then failed the rest of the batch.
---
 aiuti/asyncio.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index e62e026..4a35165 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1099,24 +1099,28 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         try:
             fut = self._retention_cache[key]
         except KeyError:
-            pass
-        else:
-            return await fut
+            fut = self._retention_cache[key] = self._loop.create_future()
+            # Tied to the future and not this caller as it can be
+            # cancelled while others are still waiting for the result
+            fut.add_done_callback(partial(self._retain, key))
+            self._queue.put_nowait((key, arg, fut))
 
-        fut = self._retention_cache[key] = self._loop.create_future()
-        await self._queue.put((key, arg, fut))
+        # The future is shared, so a cancelled caller can't cancel it
+        return await aio.shield(fut)
 
-        try:
-            return await fut
-        finally:
-            if self.retention_timeout > 0:
-                self._loop.call_later(
-                    self.retention_timeout,
-                    self._retention_cache.pop,
-                    key,
-                )
-            else:
-                del self._retention_cache[key]
+    def _retain(self, key: str, _: 'aio.Future[R_co]') -> None:
+        """
+        Forget the completed future for the given key once the retention
+        timeout has passed.
+        """
+        if self.retention_timeout > 0:
+            self._loop.call_later(
+                self.retention_timeout,
+                self._retention_cache.pop,
+                key,
+            )
+        else:
+            del self._retention_cache[key]
 
     def _daemon_task(
         self,
-- 
2.43.0


From 3f7cc027004b76fe237dfff8410d7fbde0f06ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 06/20] fix: @async_background_batcher(...) passes
 retention_timeout on

---
 aiuti/asyncio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 4a35165..6d0e8a3 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -914,6 +914,7 @@ def async_background_batcher(
             max_batch_size=max_batch_size,
             max_concurrent_batches=max_concurrent_batches,
             batch_timeout=batch_timeout,
+            retention_timeout=retention_timeout,
         )
 
     batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \
-- 
2.43.0


From b1411142e3ee7f0a5d5cc917d8391b35b1d11209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 07/20] fix: buffered calls are delivered exactly once and
 survive a failing function

A foreign thread clearing the event right after a successful run made the
round go on and deliver its arguments again, and a function which failed
after editing its set lost the arguments.
---
 aiuti/asyncio.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 6d0e8a3..ff4b51f 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -735,7 +735,7 @@ class BufferAsyncCalls(Generic[T]):
             self.event.clear()  # Ensure cleared in case previous cancel
             self.q.task_done()
         # Keep adding new args until the function has run successfully
-        while not self.event.is_set():
+        while True:
             # Get all the input generators currently in the queue
             input_gens.extend(map(_load_inputs, self._empty_queue()))
             # Schedule the q.get() and save it as an attribute so it
@@ -750,14 +750,17 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
-                await self._run_func(inputs)
+                if await self._run_func(inputs):
+                    return
             else:
                 self.q.task_done()
 
-    async def _run_func(self, inputs: Set[T]) -> None:
+    async def _run_func(self, inputs: Set[T]) -> bool:
         """
-        Run :attr:`func` with the given set of inputs and set
-        :attr:`event` once it has finished successfully.
+        Run :attr:`func` with the given set of inputs, set :attr:`event`
+        once it has finished successfully and return whether it did.
+        The event itself can't tell as it may be cleared again by a new
+        argument from another thread at any time.
 
         If an exception is raised, log it with its traceback and return
         without setting the event to prevent the buffered inputs from
@@ -765,11 +768,14 @@ class BufferAsyncCalls(Generic[T]):
         """
         try:
             if inputs:  # Could be empty if all empty iterators
-                await self.func(inputs)
+                # Copy to keep the inputs even if the function edits it
+                await self.func(inputs.copy())
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
+            return False
         else:
             self.event.set()
+            return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From 37a027cf30a41c63fca022438e0e6e663f0dc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 08/20] fix: cancelling the background task of a buffer always
 terminates it

The cancellation was mistaken for that of the pending q.get(), a producer
or the function, so event loop shutdown could hang forever.
---
 aiuti/asyncio.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index ff4b51f..d82e634 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -709,7 +709,7 @@ class BufferAsyncCalls(Generic[T]):
         Simple loop which tries to process the queue infinitely using
         :meth:`_process_queue`. This is spawned automatically upon
         """
-        while True:
+        while not self._waiting.cancel_requested:
             await self._process_queue()
 
     async def _process_queue(self) -> None:
@@ -734,8 +734,10 @@ class BufferAsyncCalls(Generic[T]):
         else:
             self.event.clear()  # Ensure cleared in case previous cancel
             self.q.task_done()
-        # Keep adding new args until the function has run successfully
-        while True:
+        # Keep adding new args until the function has run successfully or
+        # this task is cancelled, which is otherwise easily mistaken for
+        # the cancellation of a producer, self._getting, or the function
+        while not self._waiting.cancel_requested:
             # Get all the input generators currently in the queue
             input_gens.extend(map(_load_inputs, self._empty_queue()))
             # Schedule the q.get() and save it as an attribute so it
@@ -1420,6 +1422,13 @@ class DaemonTask(aio.Task):  # type: ignore
     therefore doesn't warn when it is still pending at loop shutdown.
     """
 
+    #: Whether the cancellation of this task was ever requested
+    cancel_requested: bool = False
+
+    def cancel(self, *args: Any, **kwargs: Any) -> bool:
+        self.cancel_requested = True
+        return super().cancel(*args, **kwargs)
+
     if sys.version_info < (3, 8):
 
         # Ignore name arg when it isn't available for compatibility
-- 
2.43.0


From dd0da160050ce7da90f8c545e9804c34998a252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 09/20] fix: a cache computation only removes its own
 in-progress marker

After another loop took over from a stopped one, the late clean-up of the
first computation removed the marker of the second, allowing a third one
to start concurrently and the second to fail with KeyError.
---
 aiuti/asyncio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d82e634..4c672ce 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -443,11 +443,13 @@ def threadsafe_async_cache(
                     _cache[key] = result  # Cache for other tasks
                 finally:
                     with event_making_lock:
+                        # Allow garbage collection and/or another loop
+                        # to take over caching if this failed, unless
+                        # one already did because this loop was stopped
+                        if events.get(key) == (caching_loop, event):
+                            del events[key]
                         # Wake up any waiting tasks
                         event.set()
-                        # Allow garbage collection and/or another loop
-                        # to take over caching if this failed
-                        del events[key]
                 return result
 
             # Need to wait for another task, possibly across threads
-- 
2.43.0


From 2f6c4546d68a561d0ea75c8b8a3289d287a0f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 10/20] fix: cache waiters no longer see the shutdown of the
 caching loop as their own cancellation

---
 aiuti/asyncio.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 4c672ce..6f81354 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -462,29 +462,17 @@ def threadsafe_async_cache(
                     continue  # loop around and try again
                 wait_event = aio.wrap_future(wait_fut)
 
-            # Wrap anything waiting for the event in a long timeout just
-            # to ensure nothing hangs completely if the original task is
-            # lost and somehow never sets the event
-            waiter = aio.create_task(aio.wait_for(wait_event, 60))
-
-            # wait_for will swallow CancelledErrors if the wrapped task
-            # is already finished. This can cause confusion and missed
-            # timeouts when there are multiple nested wait_fors.
-            # Shielding and handling the cancellation directly avoids
-            # this confusion by preventing this wait_for from seeing
-            # the outer CancelledError directly.
+            # Use a long timeout just to ensure nothing hangs completely
+            # if the original task is lost and somehow never sets the
+            # event. Unlike wait_for(), wait() only raises when this
+            # task is cancelled and never if the wait_event is, which
+            # happens when the caching loop is shut down. Either way,
+            # need to loop around and check.
+            waiter = aio.ensure_future(wait_event)
             try:
-                await aio.shield(waiter)
-            except aio.TimeoutError:  # Possible original task lost?
-                pass  # Need to loop around and check
-            except (Exception, aio.CancelledError):
-                if not waiter.done():
-                    waiter.cancel()
-                    try:
-                        await waiter
-                    except aio.CancelledError:
-                        pass
-                raise
+                await aio.wait([waiter], timeout=60)
+            finally:
+                waiter.cancel()
 
     return _wrapper  # type: ignore[return-value]
 
-- 
2.43.0


From 9b399cbef6f5a2575ac7b70ac4b27de7daeceea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 11/20] fix: collecting an abandoned cache computation can't
 deadlock

---
 aiuti/asyncio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 6f81354..629e5f5 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,7 +34,7 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock
+from threading import Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
@@ -392,8 +392,10 @@ def threadsafe_async_cache(
 
     # 1 loop + event per input key currently caching
     events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
-    # Ensure thread safety while creating events
-    event_making_lock = Lock()
+    # Ensure thread safety while creating events. Needs to be reentrant
+    # as the clean-up of an abandoned computation can be executed by the
+    # garbage collector at any time.
+    event_making_lock = RLock()
 
     @wraps(_func)
     async def _wrapper(*args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 3452b7a12270bc5006f5ec110c2fcda1e94c6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 12/20] fix: ensure_aw completes whichever thread runs or stops
 running the target loop

---
 aiuti/asyncio.py | 104 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 88 insertions(+), 16 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 629e5f5..677786c 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,11 +34,10 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock, RLock
+from threading import Event, Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
-from time import sleep
 from typing import (
     Any, AsyncIterable, Awaitable, Callable, Coroutine, Dict,
     MutableMapping, Generic, Iterable, Iterator, List, Optional, Protocol,
@@ -1291,18 +1290,50 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
-    if loop.is_running():
-        return await run_aw_threadsafe(aw, loop)
-
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
 
-    def _loop_thread() -> T:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            return loop.run_until_complete(aw)
+    coro = aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
+    result = run_coro_ts(coro, loop)
 
-    return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+    def _loop_thread() -> None:
+        lock = _get_loop_lock(loop)
+        if not lock.acquire(timeout=_LOOP_POLL):
+            return  # Some other thread is in charge of the loop
+        try:
+            if result.done() or loop.is_running() or loop.is_closed():
+                return
+            _LOOP_RUNNERS[loop] = False
+            aio.set_event_loop(loop)
+            result.add_done_callback(lambda _: _hand_over(loop))
+            loop.run_forever()
+        finally:
+            _LOOP_RUNNERS.pop(loop, None)
+            lock.release()
+
+    fut = aio.wrap_future(result)
+    runner: Optional['aio.Future[None]'] = None
+    try:
+        # Whichever thread runs the target loop can stop doing so at any
+        # time, so take over whenever the loop is found to be idle
+        while not fut.done():
+            if loop.is_closed() and not result.done():
+                raise RuntimeError("Target loop is closed!")
+            if runner is not None and runner.done():
+                runner = None
+            if runner is None and not loop.is_running():
+                runner = main_loop.run_in_executor(
+                    _CROSS_LOOP_POOL, _loop_thread,
+                )
+            futs: List['aio.Future[Any]'] = [fut]
+            if runner is not None:
+                futs.append(runner)
+            await aio.wait(
+                futs, timeout=_LOOP_POLL, return_when=aio.FIRST_COMPLETED,
+            )
+        return fut.result()
+    finally:
+        fut.cancel()
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
@@ -1336,23 +1367,64 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     >>> loop.is_running()  # No longer running
     False
     """
+    started, stopped = Event(), Event()
+
+    def _started() -> None:
+        _LOOP_RUNNERS[loop] = True
+        started.set()
+
     def _loop_thread() -> None:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            loop.run_forever()
+        lock = _get_loop_lock(loop)
+        while not lock.acquire(timeout=_LOOP_POLL):
+            if _LOOP_RUNNERS.get(loop):  # Already started by another call
+                started.set()
+            else:
+                _hand_over(loop)
+        try:
+            if not stopped.is_set():
+                aio.set_event_loop(loop)
+                loop.call_soon_threadsafe(_started)
+                loop.run_forever()
+        finally:
+            _LOOP_RUNNERS.pop(loop, None)
+            lock.release()
 
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
 
-    while not loop.is_running():
-        sleep(0)  # Force switching to other threads
+    while not started.wait(_LOOP_POLL):
+        if future.done():
+            future.result()  # Reveal why the loop can't run
+            break
 
     def _stopper() -> None:
-        loop.call_soon_threadsafe(loop.stop)
+        stopped.set()
+        if not future.done():
+            loop.call_soon_threadsafe(loop.stop)
         future.result()  # Wait for loop to exit and reveal errors
 
     return _stopper
 
 
+#: How often to check which thread is in charge of a loop
+_LOOP_POLL = 0.05
+
+#: Loops being run by this module: whether it is until stopped by the
+#: user (:func:`loop_in_thread`) or only while needed to be awaited on
+_LOOP_RUNNERS: Dict[Loop, bool] = {}
+
+
+def _hand_over(loop: Loop) -> None:
+    """Stop running the given loop if it is merely borrowed."""
+    def _stop() -> None:
+        if _LOOP_RUNNERS.get(loop) is False:
+            loop.stop()
+
+    try:
+        loop.call_soon_threadsafe(_stop)
+    except RuntimeError:
+        pass  # Closed, nothing to stop
+
+
 _LOOP_LOCKS: Dict[int, Lock] = {}
 _LOOP_LOCKS_CREATE_LOCK = Lock()
 
-- 
2.43.0


From 0a02fd5550c826c423aa9d36bc266e02d5e15e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 13/20] fix: any number of loops can be run or awaited across
 threads at once

---
 aiuti/asyncio.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 677786c..26df4a4 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -36,7 +36,7 @@ from asyncio import (
 from itertools import islice
 from threading import Event, Lock, RLock
 from functools import partial, wraps
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import Future, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
 from typing import (
     Any, AsyncIterable, Awaitable, Callable, Coroutine, Dict,
@@ -1239,7 +1239,17 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         fut.set_exception(exc)
 
 
-_CROSS_LOOP_POOL = ThreadPoolExecutor(32)
+def _run_in_thread(func: Callable[[], None]) -> 'Future[None]':
+    """
+    Run the given function in a thread of its own as a shared pool of any
+    size can be used up by loops which run indefinitely or depend on one
+    another.
+    """
+    pool = ThreadPoolExecutor(1)
+    try:
+        return pool.submit(func)
+    finally:
+        pool.shutdown(wait=False)
 
 
 async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
@@ -1322,9 +1332,7 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
             if runner is not None and runner.done():
                 runner = None
             if runner is None and not loop.is_running():
-                runner = main_loop.run_in_executor(
-                    _CROSS_LOOP_POOL, _loop_thread,
-                )
+                runner = aio.wrap_future(_run_in_thread(_loop_thread))
             futs: List['aio.Future[Any]'] = [fut]
             if runner is not None:
                 futs.append(runner)
@@ -1389,7 +1397,7 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
             _LOOP_RUNNERS.pop(loop, None)
             lock.release()
 
-    future = _CROSS_LOOP_POOL.submit(_loop_thread)
+    future = _run_in_thread(_loop_thread)
 
     while not started.wait(_LOOP_POLL):
         if future.done():
-- 
2.43.0


From b1b31a006bd08c4773d05ae056a17b330fd629c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 14/20] fix: a stop function of loop_in_thread never stops a
 later run of the same loop

---
 aiuti/asyncio.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 26df4a4..4b4eec1 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1315,7 +1315,7 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
                 return
             _LOOP_RUNNERS[loop] = False
             aio.set_event_loop(loop)
-            result.add_done_callback(lambda _: _hand_over(loop))
+            result.add_done_callback(lambda _: _stop_loop(loop, False))
             loop.run_forever()
         finally:
             _LOOP_RUNNERS.pop(loop, None)
@@ -1378,8 +1378,10 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     started, stopped = Event(), Event()
 
     def _started() -> None:
-        _LOOP_RUNNERS[loop] = True
+        _LOOP_RUNNERS[loop] = stopped
         started.set()
+        if stopped.is_set():  # In the meantime
+            loop.stop()
 
     def _loop_thread() -> None:
         lock = _get_loop_lock(loop)
@@ -1387,7 +1389,7 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
             if _LOOP_RUNNERS.get(loop):  # Already started by another call
                 started.set()
             else:
-                _hand_over(loop)
+                _stop_loop(loop, False)
         try:
             if not stopped.is_set():
                 aio.set_event_loop(loop)
@@ -1406,8 +1408,7 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
 
     def _stopper() -> None:
         stopped.set()
-        if not future.done():
-            loop.call_soon_threadsafe(loop.stop)
+        _stop_loop(loop, _LOOP_RUNNERS.get(loop))
         future.result()  # Wait for loop to exit and reveal errors
 
     return _stopper
@@ -1416,15 +1417,17 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
 #: How often to check which thread is in charge of a loop
 _LOOP_POLL = 0.05
 
-#: Loops being run by this module: whether it is until stopped by the
-#: user (:func:`loop_in_thread`) or only while needed to be awaited on
-_LOOP_RUNNERS: Dict[Loop, bool] = {}
+#: Loops being run by this module: either until stopped by the user
+#: (event of :func:`loop_in_thread`) or only while needed to be awaited
+#: on (False)
+_LOOP_RUNNERS: Dict[Loop, Union[Event, bool]] = {}
 
 
-def _hand_over(loop: Loop) -> None:
-    """Stop running the given loop if it is merely borrowed."""
+def _stop_loop(loop: Loop,
+               runner: Union[Event, bool, None]) -> None:
+    """Stop the given loop, but only if still run by the given runner."""
     def _stop() -> None:
-        if _LOOP_RUNNERS.get(loop) is False:
+        if runner is not None and _LOOP_RUNNERS.get(loop) is runner:
             loop.stop()
 
     try:
-- 
2.43.0


From cef1f3899b173b423fdc2150b0bcf17e3000acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 15/20] fix: an interrupted FileLock acquire leaks no file
 descriptor

---
 aiuti/filelock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 0bb7fed..2677ada 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -268,6 +268,9 @@ class BaseFileLock(abc.ABC):
             self._lock(fd, block)
         except (IOError, OSError):
             os.close(fd)
+        except BaseException:  # Interrupted while waiting
+            os.close(fd)
+            raise
         else:
             self._lock_file_fd = fd
 
-- 
2.43.0


From 022e20e1fcfb5aa29178469d9839643479e284bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 16/20] fix: clock changes don't affect the timeout of FileLock

---
 aiuti/filelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 2677ada..207fbc2 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -150,7 +150,7 @@ class BaseFileLock(abc.ABC):
         if self.is_locked:
             return True
 
-        start_time = time.time()
+        start_time = time.monotonic()
 
         def _cleanup_thread_lock() -> None:
             self._decrement_lock_counter()
@@ -168,7 +168,7 @@ class BaseFileLock(abc.ABC):
                     _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-                elif 0 <= timeout < time.time() - start_time:
+                elif 0 <= timeout < time.monotonic() - start_time:
                     _logger.debug('Timeout on acquiring lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-- 
2.43.0


From 3cb74956a7e1c26a10bc917b89a72ba5269ca786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 17/20] fix: split evaluates the truth of each condition only
 once

---
 aiuti/itertools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/itertools.py b/aiuti/itertools.py
index 96ddae6..648b3b5 100644
--- a/aiuti/itertools.py
+++ b/aiuti/itertools.py
@@ -74,5 +74,6 @@ def split(
         iterable, ci = tee(iterable)
         condition = map(condition, ci)
     i1, i2 = tee(iterable)
-    c1, c2 = tee(condition)
+    # Truth may change between the two iterators, so only evaluate it once
+    c1, c2 = tee(map(bool, condition))
     return compress(i1, c1), compress(i2, map(op.not_, c2))
-- 
2.43.0


From e671dad2f340f281963fcdea7d6b127bcf31d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 18/20] fix: to_sync_iter dropped exceptions which are falsy

---
 aiuti/asyncio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 4b4eec1..d78039e 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -273,7 +273,13 @@ def to_sync_iter(iterable: AsyncIterable[T],
             while (i := q.get()) is not _DONE:
                 yield i
         finally:
-            future.result()
+            # Not result(), it doesn't raise exceptions which are falsy
+            error = future.exception()
+            if error is not None:
+                try:
+                    raise error
+                finally:
+                    del error  # Break reference cycle with traceback
 
 
 _CacheMap = MutableMapping[Tuple[Any, ...], Any]
-- 
2.43.0


From ff0a0169e7aed4a6d3d13d196f9a96d76161ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 19/20] fix: gather_excs failed on unhashable awaitables and
 skipped equal ones

---
 aiuti/asyncio.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d78039e..3f4a96e 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,13 +97,14 @@ async def gather_excs(
         Optional specific type of exceptions to filter on and yield
     """
     # Wrap each awaitable up front, but only once like gather() does, to
-    # be able to tell raised exceptions apart from returned ones
-    futs: Dict[Awaitable[Any], 'aio.Future[Any]'] = {}
-    all_futs = []
+    # be able to tell raised exceptions apart from returned ones. Unlike
+    # gather(), they don't need to be hashable and may equal each other.
+    aws = list(aws)
+    futs: Dict[int, 'aio.Future[Any]'] = {}
     for aw in aws:
-        if aw not in futs:
-            futs[aw] = aio.ensure_future(aw)
-        all_futs.append(futs[aw])
+        if id(aw) not in futs:
+            futs[id(aw)] = aio.ensure_future(aw)
+    all_futs = [futs[id(aw)] for aw in aws]
 
     results = await aio.gather(*all_futs, return_exceptions=True)
     for fut, res in zip(all_futs, results):
-- 
2.43.0


From e3207eed21a4caec003fba9b428ae6766d700c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 20/20] fix: wait() of a buffer could return early with an
 eager task factory

---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 3f4a96e..32759fb 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -680,6 +680,9 @@ class BufferAsyncCalls(Generic[T]):
             to be met before the function is called if it hasn't been
             already.
         """
+        # Arguments submitted so far are put onto the queue by callbacks
+        # which are already scheduled but may not have been called yet
+        await aio.sleep(0)
         # Process all queued tasks
         # Create a task because some unknown bug on 3.7 blocks
         # infinitely sometimes if we await join directly
-- 
2.43.0


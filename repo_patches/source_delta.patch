From 9d8d42c5924b2913e98b4f8ebb44cca8e04e787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 01/28] fix: read() honours the reader's default peek

---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..3857b60 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -361,8 +361,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From 6cc769e61428a424d7d2158e2603e9f54553c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 02/28] fix: strict read of exactly the available number of
 items

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3857b60..ca8973e 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -411,7 +411,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From 176f7eef74af48f1496859941484addb3ab0395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 03/28] fix: tail() of an empty buffer raises the documented
 ValueError

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ca8973e..d5e33f3 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -326,7 +326,7 @@ class BufferReader:
                 except IndexError as e:  # IndexError: deque index out of range
                     if ignore_no_item_found:
                         return None
-                    raise e
+                    raise ValueError('No item found: buffer is empty') from e
         if not peek:
             self.last_item = item
         return item
-- 
2.43.0


From 6b06759efce9e5f56042fd72d76c28b5396c034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 04/28] fix: range(only_new_items=True) does not acquire the
 reader lock twice

---
 stream2py/buffer_reader.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index d5e33f3..5763eea 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -260,12 +260,10 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    # the lock is held: do not use self.read here, which would acquire it again
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above: self.last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From cce23dc202d7e4fde65fb8cebd81a8e43d130213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 05/28] fix: auto_drop=False works with an unbounded buffer

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..5b9275c 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -253,7 +253,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From fa2d4827ef289af6bbd99bec370a50c73b542b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 06/28] fix: readers do not end before delivering data that
 came in just before the stream stopped

---
 stream2py/buffer_reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 5763eea..ba7618e 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -142,6 +142,8 @@ class BufferReader:
 
     def __iter__(self):
         while True:
+            # checked before reading: data could still come in between reading and checking
+            _is_stopped = self.is_stopped
             try:
                 _next = next(self)
             except StopIteration:
@@ -150,7 +152,7 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
+            elif _is_stopped:
                 return
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
@@ -164,11 +166,14 @@ class BufferReader:
         This makes BufferReader compatible with Python's iterator protocol while
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
+        # checked before reading: data could still come in between reading and checking
+        _is_stopped = self.is_stopped
+
         # Call read with the args fixed by init
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and _is_stopped:
             raise StopIteration
 
         return result
@@ -378,6 +383,8 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                # checked before reading: data could still come in between reading and checking
+                _is_stopped = self.is_stopped
                 _read = self.read(
                     n,
                     peek=peek,
@@ -387,7 +394,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif _is_stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 2b8e8da57612475d68402e0ac09151e6eb3b4946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 07/28] fix: source_reader_info is available while the buffer
 is still empty

---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 5b9275c..a63af51 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -223,7 +223,7 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
+        if self.source_buffer is not None:  # an empty buffer is falsy
             return self.source_buffer.source_reader_info
         return None
 
-- 
2.43.0


From 6ec0659c3ff6aad59fd4104fbb6dd7384f724d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 08/28] fix: a restart waits for the previous run to be done
 with the source

---
 stream2py/stream_buffer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index a63af51..59f2303 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -265,7 +265,7 @@ class StreamBuffer:
                 if data is not None:
                     self.source_buffer.append(data)
                 else:
-                    time.sleep(self._sleep_time_on_read_none_s)
+                    self._stop_event.wait(self._sleep_time_on_read_none_s)
         finally:
             if not self._stop_event.is_set():
                 self._stop_event.set()
@@ -279,6 +279,9 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
+        if self._read_to_buffer_thread and self._read_to_buffer_thread.is_alive():
+            # the previous run may still be reading from or closing source_reader
+            self._read_to_buffer_thread.join()
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From 728b42b089b96cea2678f89cc2094d9b124aa7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 09/28] fix: a failed start leaves the stream stopped and the
 source closed

---
 stream2py/stream_buffer.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 59f2303..7a9c855 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -180,7 +180,11 @@ class StreamBuffer:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
+            try:
+                self._open()
+            except BaseException:
+                self._stop_event.set()  # not running
+                raise
             self._read_to_buffer_thread.start()
 
     def stop(self):
@@ -291,15 +295,22 @@ class StreamBuffer:
         Calls source_reader.open() and then sets up source_buffer with latest
         source_reader.info"""
         self.source_reader.open()
-        self.source_buffer = _SourceBuffer(
-            source_reader_info=self.source_reader.info,
-            stop_event=self._stop_event,
-            key=self.source_reader.key,
-            maxlen=self._maxlen,
-            buffer_reader_class=getattr(
-                self.source_reader, 'buffer_reader_class', BufferReader
-            ),
-        )
+        try:
+            self.source_buffer = _SourceBuffer(
+                source_reader_info=self.source_reader.info,
+                stop_event=self._stop_event,
+                key=self.source_reader.key,
+                maxlen=self._maxlen,
+                buffer_reader_class=getattr(
+                    self.source_reader, 'buffer_reader_class', BufferReader
+                ),
+            )
+        except BaseException:
+            try:
+                self.source_reader.close()  # nobody else would
+            except Exception as e:
+                logger.error(e)
+            raise
 
     # def _mk_contextualized_iterator(self):
     #     """Return next item (entering the context beforehand, if not running).
-- 
2.43.0


From 7f1620a18cbff8e0cebf2d505b95e09018c73a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 10/28] fix: next(buffer) reads from the current run after a
 restart

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 7a9c855..5dc7e13 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -286,6 +286,7 @@ class StreamBuffer:
         if self._read_to_buffer_thread and self._read_to_buffer_thread.is_alive():
             # the previous run may still be reading from or closing source_reader
             self._read_to_buffer_thread.join()
+        self._next_reader = None  # is bound to the previous run
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From ee8a5c7f5fe5d99c90b6daa7ba9407826305207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 11/28] fix: items with equal keys are not compared with each
 other

---
 stream2py/utility/sorted_collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4dd2757..dfc4fbe 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -5,6 +5,7 @@
 # Licensed under the MIT License
 
 from bisect import bisect_left, bisect_right
+from operator import itemgetter
 
 
 class SortedCollection(object):
@@ -79,7 +80,7 @@ class SortedCollection(object):
     def __init__(self, iterable=(), key=None):
         self._given_key = key
         key = (lambda x: x) if key is None else key
-        decorated = sorted((key(item), item) for item in iterable)
+        decorated = sorted(((key(item), item) for item in iterable), key=itemgetter(0))
         self._keys = [k for k, item in decorated]
         self._items = [item for k, item in decorated]
         self._key = key
-- 
2.43.0


From 9538ebbd52605e3d73dadb6b5cf31ee97a88ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 12/28] fix: assigning a SortedDeque key keeps its maxlen

---
 stream2py/utility/sorted_deque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..e454d70 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,10 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    key = property(
+        SortedCollection._getkey, _setkey, SortedCollection._delkey, 'key function'
+    )
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From 1cd9ec2e489710d5f4b23e435ef3b95c9fe1324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 13/28] fix: copied, cleared and resized sorted collections
 remember that no key was given

---
 stream2py/utility/sorted_collection.py | 4 ++--
 stream2py/utility/sorted_deque.py      | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index dfc4fbe..14ec7af 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -98,10 +98,10 @@ class SortedCollection(object):
     key = property(_getkey, _setkey, _delkey, 'key function')
 
     def clear(self):
-        self.__init__([], self._key)
+        self.__init__([], self._given_key)
 
     def copy(self):
-        return self.__class__(self, self._key)
+        return self.__class__(self, self._given_key)
 
     def __len__(self):
         return len(self._items)
diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index e454d70..aa044e4 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -28,7 +28,7 @@ class SortedDeque(SortedCollection):
         """TODO: WIP. Need to convert key function and iterable items to json friendly format"""
         return {
             'iterable': list(self._items),
-            'key': self._key,
+            'key': self._given_key,
             'maxlen': self._maxlen,
         }
 
@@ -41,7 +41,7 @@ class SortedDeque(SortedCollection):
 
     def _setmaxlen(self, maxlen):
         if maxlen is not self._maxlen:
-            self.__init__(self._items, key=self._key, maxlen=maxlen)
+            self.__init__(self._items, key=self._given_key, maxlen=maxlen)
 
     def _delmaxlen(self):
         self._setmaxlen(None)
@@ -57,10 +57,10 @@ class SortedDeque(SortedCollection):
     )
 
     def clear(self):
-        self.__init__([], self._key, self._maxlen)
+        self.__init__([], self._given_key, self._maxlen)
 
     def copy(self):
-        return self.__class__(self, self._key, self._maxlen)
+        return self.__class__(self, self._given_key, self._maxlen)
 
     def __repr__(self):
         return '%s(%r, key=%s, maxlen=%s)' % (
-- 
2.43.0


From b1594ee2d65f405daa8067da3eaa41fd5f498c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 14/28] fix: a StreamSource makes readers of the reader_cls it
 was given

---
 stream2py/stream_source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..ddfc8bc 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -164,6 +164,11 @@ class StreamSource(Source, metaclass=ABCMeta):
         """
         return int(time.time() * cls.timestamp_seconds_to_unit_conversion)
 
+    @property
+    def buffer_reader_class(self):
+        """The class of the readers, as given to __init__"""
+        return self._reader_cls
+
     def exit(self):
         if self._stream_buffer:
             self._stream_buffer.stop()
-- 
2.43.0


From d09ebd8c4d3621d634dae440815bfc14e996b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 15/28] fix: a closed StreamSource is reopened by opening
 another reader

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index ddfc8bc..2ef3ba6 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -103,6 +103,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if not self._stream_buffer.is_running:
             self._stream_buffer.start()
 
     def _handle_reader_open(self):
-- 
2.43.0


From c56b34d95bc684ee6e529ae3a3cd493112926571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 16/28] fix: closing a reader twice does not count as closing
 two readers

---
 stream2py/buffer_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ba7618e..41d62f7 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -450,8 +450,9 @@ class BufferReader:
         return self
 
     def close(self):
-        if self.onclose:
-            self.onclose()
+        onclose, self.onclose = self.onclose, None  # called once only
+        if onclose:
+            onclose()
 
     def __enter__(self):
         return self.enter()
-- 
2.43.0


From 3b3d0402d19d3fedc2f331a6fe1ec9f41b85a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 17/28] fix: StreamSource.get_timestamp finds its conversion
 factor

---
 stream2py/stream_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 2ef3ba6..5d5e3cd 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -163,7 +163,7 @@ class StreamSource(Source, metaclass=ABCMeta):
 
         :return: timestamp in UTC microseconds
         """
-        return int(time.time() * cls.timestamp_seconds_to_unit_conversion)
+        return int(time.time() * timestamp_seconds_to_unit_conversion)
 
     @property
     def buffer_reader_class(self):
-- 
2.43.0


From afc9eba79a56febc888b16c66e93b1f0fc8caf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 18/28] fix: readers made by a StreamBuffer can be closed

---
 stream2py/buffer_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 41d62f7..9ebf874 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -7,7 +7,7 @@ __all__ = ['BufferReader']
 from contextlib import suppress
 import threading
 import time
-from typing import Callable, Union
+from typing import Callable, Optional, Union
 
 from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
 
@@ -80,7 +80,7 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
+    onclose: Optional[Callable] = None
     onopen: Callable
 
     def __init__(
-- 
2.43.0


From e7d4cce187c814593eef7e36a23bbfc1814d0d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 19/28] fix: mk_stream_buffer does not enumerate None as data

---
 stream2py/simply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..2fc1e0a 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,6 +96,8 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
+            if read_data is None:
+                return None  # data is not ready to be read
             if enumerate_data:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
-- 
2.43.0


From e03557bde69f85dc48e99f1185547d702f21d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 20/28] fix: exit functions that cannot take the exception info
 are rejected

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 758a7b9..600067a 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -55,7 +55,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From 0efd418eb2e43c3691da24eb11f1d5b8c1f0bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 21/28] fix: wrapping a wrapped callable keeps the given enter
 and exit functions

---
 stream2py/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 600067a..a1489f8 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -125,12 +125,13 @@ class ContextualizeCall:
             f'Not a valid exit function (should be a callable with at least one arg or '
             f'varadic args): {exit_func}',
         )
-        # assignment
+        # wrapping self with attributes of func (signature, name, etc.)
+        wraps(func)(self)
+        # assignment (after wrapping, which copies the attributes func, enter_func and
+        # exit_func of a func that has them, such as another ContextualizeCall)
         self.func = func
         self.enter_func = enter_func
         self.exit_func = exit_func
-        # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
 
     def __call__(self, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From abc0ccb6e2995a4a692f9ea86d6340f7954d9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 22/28] fix: an attached reader shows the information of the
 source it reads

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 5dc7e13..2055cc6 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -76,6 +76,7 @@ class _SourceBuffer:
     def attach_reader(self, reader):
         reader._buffer = self._buffer
         reader._stop_event = self._stop_event
+        reader._source_reader_info = self._source_reader_info
 
 
 class StreamBuffer:
-- 
2.43.0


From 4b490cf14ddf922297c0d4fe72cd0d57ba196d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 23/28] fix: the HTTP source sends the request it was
 configured with

---
 stream2py/sources/http.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..39e2b21 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -52,6 +52,8 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        elif isinstance(body, str):
+            body = body.encode()  # a request only takes bytes
 
         self._url = url
         self._n_bytes_read = 0
@@ -98,10 +100,7 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
-        request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
-        )
-        self._response = urllib.request.urlopen(request)
+        self._response = urllib.request.urlopen(self._request)
 
     def close(self):
         if self._response:
-- 
2.43.0


From f3b91fbbe141d059aa3d75611173cc87aebf72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 24/28] fix: the HTTP source counts the bytes read and has no
 data after the end of the response

---
 stream2py/sources/http.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index 39e2b21..f6393c9 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -100,6 +100,7 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
+        self._n_bytes_read = 0
         self._response = urllib.request.urlopen(self._request)
 
     def close(self):
@@ -108,10 +109,14 @@ class HTTPResponseReader(SourceReader):
             self._response = None
 
     def read(self):
-        """Returns a chunk of raw binary data.
+        """Returns a timestamp and a chunk of raw binary data, or of text if an encoding was
+        given. Returns None if there is nothing left to read.
         """
         encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
+        if not result:
+            return None
+        self._n_bytes_read += len(result)
         timestamp = time.time()
         if encoding:
             result = result.decode(encoding)
-- 
2.43.0


From 8a1fc2da4f0a7e7331e44c8ebc9f7c7cabb2e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 25/28] fix: the HTTP source decodes characters that are split
 between chunks

---
 stream2py/sources/http.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index f6393c9..3aa82fa 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -9,6 +9,7 @@ HTTP Response streaming reader with no external dependencies
 
 """
 
+import codecs
 import urllib.request
 from typing import Union, Optional
 import time
@@ -101,6 +102,10 @@ class HTTPResponseReader(SourceReader):
 
     def open(self):
         self._n_bytes_read = 0
+        encoding = self._init_kwargs['encoding']
+        self._decoder = (
+            codecs.getincrementaldecoder(encoding)() if encoding else None
+        )
         self._response = urllib.request.urlopen(self._request)
 
     def close(self):
@@ -112,15 +117,19 @@ class HTTPResponseReader(SourceReader):
         """Returns a timestamp and a chunk of raw binary data, or of text if an encoding was
         given. Returns None if there is nothing left to read.
         """
-        encoding = self._init_kwargs.get('encoding')
-        result = self._response.read(*self.response_read_args)
-        if not result:
-            return None
-        self._n_bytes_read += len(result)
-        timestamp = time.time()
-        if encoding:
-            result = result.decode(encoding)
-        return timestamp, result
+        while True:
+            chunk = self._response.read(*self.response_read_args)
+            self._n_bytes_read += len(chunk)
+            timestamp = time.time()
+            if self._decoder is None:
+                result = chunk
+            else:
+                # keeps what a chunk has of a character that continues in the next chunk
+                result = self._decoder.decode(chunk, final=not chunk)
+            if result:
+                return timestamp, result
+            if not chunk:
+                return None
 
 
 def _test_run_HTTPResponseReader(url, **kwargs):
-- 
2.43.0


From 35f565567576b9f3d57f06266e1337e9dc6883a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 26/28] fix: read_configs can read all sections

---
 pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index 9b19fe3..86079a1 100644
--- a/pack.py
+++ b/pack.py
@@ -69,7 +69,7 @@ def read_configs(
     if section is None:
         d = dict(c)
         if postproc:
-            d = {k: dict(postproc(v)) for k, v in c}
+            d = {k: dict(postproc(v)) for k, v in c.items()}
     else:
         d = dict(c[section])
         if postproc:
-- 
2.43.0


From 2b1b5e39dec194d013124e880bd28b0668697f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 27/28] fix: ContextualizeCall delegates attributes that change
 after wrapping

It copied the attributes of the wrapped callable, so that a change of one of
them (such as a counter kept by a callable object) never showed.
---
 stream2py/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index a1489f8..2b02c2b 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -125,10 +125,10 @@ class ContextualizeCall:
             f'Not a valid exit function (should be a callable with at least one arg or '
             f'varadic args): {exit_func}',
         )
-        # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
-        # assignment (after wrapping, which copies the attributes func, enter_func and
-        # exit_func of a func that has them, such as another ContextualizeCall)
+        # wrapping self with the signature, name, etc. of func; its other attributes are
+        # delegated (see __getattr__): copies of them would not show when they change
+        wraps(func, updated=())(self)
+        # assignment
         self.func = func
         self.enter_func = enter_func
         self.exit_func = exit_func
-- 
2.43.0


From fbc25b0a58e4ba27265442a801a1601fad81fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:31 +0000
Subject: [PATCH 28/28] fix: next(buffer) does not fail or go back to an old
 run when the stream is stopped or restarted meanwhile

---
 stream2py/stream_buffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 2055cc6..21ce4be 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -159,9 +159,13 @@ class StreamBuffer:
         yield from iter(reader)
 
     def __next__(self):
-        if self._next_reader is None:
-            self._next_reader = self.mk_reader()
-        return next(self._next_reader)
+        reader = self._next_reader  # could be reset by another thread meanwhile
+        if reader is None:
+            reader = self.mk_reader()
+            with self.start_lock:
+                if reader._stop_event is self._stop_event:  # still the current run
+                    self._next_reader = reader
+        return next(reader)
 
     def drop(self, n=1):
         """Manually drop items from buffer when auto_drop is False
-- 
2.43.0


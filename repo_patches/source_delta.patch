From c87ba3a5a091169a0e2a9f96093fbdd8a6f8ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 01/38] fix: read() follows the reader's default peek when peek
 is not given

---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..3857b60 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -361,8 +361,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From 756d4ca2aa2cfae2fd8543ad8d38d0e2a0a10a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 02/38] fix: strict_n accepts a read of exactly the items
 available

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3857b60..ca8973e 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -411,7 +411,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From df24eca8146fb667f4b59ae9b9cbae965c034c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 03/38] fix: range(only_new_items=True) does not nest the
 reader lock nor take the key of None

---
 stream2py/buffer_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ca8973e..0d33552 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -260,12 +260,12 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
+                # the lock is already held: acquiring it again (e.g. by self.read) could
+                # deadlock with a waiting writer
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above:
+                    # self.last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From 1440d92612fd35beee9c20e62cf9e00d15efef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 04/38] fix: an unbounded buffer with auto_drop=False keeps
 reading its source

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..5b9275c 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -253,7 +253,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From fd41d0edd87c7526d31954f7bb7626bb6ba978ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 05/38] fix: iteration, next() and blocking reads deliver items
 appended just before the stop

---
 stream2py/buffer_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 0d33552..3a39129 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -150,8 +150,6 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
@@ -164,11 +162,14 @@ class BufferReader:
         This makes BufferReader compatible with Python's iterator protocol while
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
+        # Only a stream that had stopped before the read can't have any more data after it
+        stopped = self.is_stopped
+
         # Call read with the args fixed by init
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and stopped:
             raise StopIteration
 
         return result
@@ -380,6 +381,8 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                # Only a stream that had stopped before the read can't have more data after it
+                stopped = self.is_stopped
                 _read = self.read(
                     n,
                     peek=peek,
@@ -389,7 +392,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From d99c5cdf460133b97badd0fccc37690982cb7536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 06/38] fix: source_reader_info is available while the buffer
 is still empty

---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 5b9275c..a63af51 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -223,7 +223,7 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
+        if self.source_buffer is not None:  # an empty buffer is falsy
             return self.source_buffer.source_reader_info
         return None
 
-- 
2.43.0


From ab7602498701c4cc8203fd70055b6c1db39b1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 07/38] fix: stop() before the first start() is a no-op

---
 stream2py/stream_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index a63af51..503a749 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -185,6 +185,8 @@ class StreamBuffer:
 
     def stop(self):
         """Stop reading and close source_reader"""
+        if self._stop_event is None:  # never started
+            return
         self._stop_event.set()
         time.sleep(1)
         self._next_reader = None
-- 
2.43.0


From 3beab0aed2d1896a7a4b9d4c1c6ac00185ab439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 08/38] fix: a restart waits until the last session has closed
 the source

stop() returns after a second even if the source is still busy. start() then
replaced the stop event and the buffer under the running thread, which went on
reading into the new session, and opened a source that was still being read.
---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 503a749..58dc31a 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -267,7 +267,7 @@ class StreamBuffer:
                 if data is not None:
                     self.source_buffer.append(data)
                 else:
-                    time.sleep(self._sleep_time_on_read_none_s)
+                    self._stop_event.wait(self._sleep_time_on_read_none_s)
         finally:
             if not self._stop_event.is_set():
                 self._stop_event.set()
@@ -281,6 +281,10 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
+        last_thread = self._read_to_buffer_thread
+        if last_thread is not None and last_thread.is_alive():
+            # still reading or closing: it must be done with the source before it is reopened
+            last_thread.join()
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From bd9e75fad8fe3bc9ad359ec13eb67091ccc61463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 09/38] fix: a start that fails leaves the stream stopped and
 the source closed

If the source's open or info raised, the stream went on reporting that it was
running, and a source that had been opened stayed open.
---
 stream2py/stream_buffer.py | 39 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 58dc31a..aaad468 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -180,7 +180,11 @@ class StreamBuffer:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
+            try:
+                self._open()
+            except BaseException:
+                self._stop_event.set()
+                raise
             self._read_to_buffer_thread.start()
 
     def stop(self):
@@ -271,10 +275,7 @@ class StreamBuffer:
         finally:
             if not self._stop_event.is_set():
                 self._stop_event.set()
-            try:
-                self.source_reader.close()
-            except Exception as e:
-                logger.error(e)
+            self._close()
 
     def _set_read_to_buffer_thread_and_source_buffer(self):
         """Initialize source and buffer
@@ -294,15 +295,25 @@ class StreamBuffer:
         Calls source_reader.open() and then sets up source_buffer with latest
         source_reader.info"""
         self.source_reader.open()
-        self.source_buffer = _SourceBuffer(
-            source_reader_info=self.source_reader.info,
-            stop_event=self._stop_event,
-            key=self.source_reader.key,
-            maxlen=self._maxlen,
-            buffer_reader_class=getattr(
-                self.source_reader, 'buffer_reader_class', BufferReader
-            ),
-        )
+        try:
+            self.source_buffer = _SourceBuffer(
+                source_reader_info=self.source_reader.info,
+                stop_event=self._stop_event,
+                key=self.source_reader.key,
+                maxlen=self._maxlen,
+                buffer_reader_class=getattr(
+                    self.source_reader, 'buffer_reader_class', BufferReader
+                ),
+            )
+        except BaseException:
+            self._close()
+            raise
+
+    def _close(self):
+        try:
+            self.source_reader.close()
+        except Exception as e:
+            logger.error(e)
 
     # def _mk_contextualized_iterator(self):
     #     """Return next item (entering the context beforehand, if not running).
-- 
2.43.0


From db3759db0e447c26ae50b865732ba0384f199eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 10/38] fix: sorted containers order items by key only

Items with equal keys were compared with each other, which fails for items that
cannot be ordered.
---
 stream2py/utility/sorted_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4dd2757..ec42150 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -79,7 +79,9 @@ class SortedCollection(object):
     def __init__(self, iterable=(), key=None):
         self._given_key = key
         key = (lambda x: x) if key is None else key
-        decorated = sorted((key(item), item) for item in iterable)
+        decorated = sorted(
+            ((key(item), item) for item in iterable), key=lambda pair: pair[0]
+        )
         self._keys = [k for k, item in decorated]
         self._items = [item for k, item in decorated]
         self._key = key
-- 
2.43.0


From 34ce3144f5b7493a0fb827f4831aa9d95febcec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 11/38] fix: assigning the key of a SortedDeque keeps its
 maxlen

The inherited property was bound to the setter of SortedCollection.
---
 stream2py/utility/sorted_deque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..e454d70 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,10 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    key = property(
+        SortedCollection._getkey, _setkey, SortedCollection._delkey, 'key function'
+    )
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From 8b901317430fa27a4c4c22d6cca5052a36054f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 12/38] fix: copies, cleared and re-bounded sorted containers
 can be pickled

They were given the internal identity function in place of key=None.
---
 stream2py/utility/sorted_collection.py | 4 ++--
 stream2py/utility/sorted_deque.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index ec42150..21d31b2 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -99,10 +99,10 @@ class SortedCollection(object):
     key = property(_getkey, _setkey, _delkey, 'key function')
 
     def clear(self):
-        self.__init__([], self._key)
+        self.__init__([], self._given_key)
 
     def copy(self):
-        return self.__class__(self, self._key)
+        return self.__class__(self, self._given_key)
 
     def __len__(self):
         return len(self._items)
diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index e454d70..d317a3a 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -41,7 +41,7 @@ class SortedDeque(SortedCollection):
 
     def _setmaxlen(self, maxlen):
         if maxlen is not self._maxlen:
-            self.__init__(self._items, key=self._key, maxlen=maxlen)
+            self.__init__(self._items, key=self._given_key, maxlen=maxlen)
 
     def _delmaxlen(self):
         self._setmaxlen(None)
@@ -57,10 +57,10 @@ class SortedDeque(SortedCollection):
     )
 
     def clear(self):
-        self.__init__([], self._key, self._maxlen)
+        self.__init__([], self._given_key, self._maxlen)
 
     def copy(self):
-        return self.__class__(self, self._key, self._maxlen)
+        return self.__class__(self, self._given_key, self._maxlen)
 
     def __repr__(self):
         return '%s(%r, key=%s, maxlen=%s)' % (
-- 
2.43.0


From f48baab6649020f137515e0874251bfc0e261313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 13/38] fix: a reader is closed once, and readers made by a
 StreamBuffer can be closed

close() failed for want of an onclose, and closing a reader of a StreamSource
twice counted as closing two readers.
---
 stream2py/buffer_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3a39129..11cab27 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -7,7 +7,7 @@ __all__ = ['BufferReader']
 from contextlib import suppress
 import threading
 import time
-from typing import Callable, Union
+from typing import Callable, Optional, Union
 
 from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
 
@@ -80,7 +80,7 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
+    onclose: Optional[Callable] = None
     onopen: Callable
 
     def __init__(
@@ -448,8 +448,9 @@ class BufferReader:
         return self
 
     def close(self):
-        if self.onclose:
-            self.onclose()
+        onclose, self.onclose = self.onclose, None  # only the first close counts
+        if onclose:
+            onclose()
 
     def __enter__(self):
         return self.enter()
-- 
2.43.0


From a79de9e264547ed2c88cd4c6487d2222e8ad8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 14/38] fix: a stream source opens again once all readers were
 closed or an open failed

open_reader() never restarted a stopped stream buffer: readers opened after the
last one had been closed were stopped from the start. Opening and closing
readers in several threads is serialised, so that readers are counted right and
a source is not started twice.
---
 stream2py/stream_source.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..2ef75a8 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -4,6 +4,7 @@ as next(), range(), head(), tail().  Each BufferReader instance has it's own cur
 what data was last seen."""
 
 from abc import ABCMeta, abstractmethod
+import threading
 import time
 from typing import Optional, Union
 
@@ -14,6 +15,8 @@ from stream2py.stream_buffer import StreamBuffer
 DFLT_READ_SIZE = 1
 DFLT_MAX_LEN = 10000
 
+_mk_lock_lock = threading.Lock()
+
 timestamp_seconds_to_unit_conversion: Union[int, float] = 1e6  # to microseconds
 
 
@@ -62,6 +65,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     _reader_cls = BufferReader
     _sleep_time_on_iter_none_s = 0.001
     _stream_buffer: StreamBuffer = None
+    __readers_lock = None
 
     def __init__(self, *, reader_cls=BufferReader):
         self._reader_cls = reader_cls
@@ -100,18 +104,29 @@ class StreamSource(Source, metaclass=ABCMeta):
         )
         return self
 
+    @property
+    def _readers_lock(self):
+        """Held while readers are opened or closed, which may start or stop the buffer.
+        Made when first needed as subclasses may not call __init__."""
+        with _mk_lock_lock:
+            if self.__readers_lock is None:
+                self.__readers_lock = threading.Lock()
+            return self.__readers_lock
+
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if self._open_readers <= 0 and not self._stream_buffer.is_running:
             self._stream_buffer.start()
 
     def _handle_reader_open(self):
         self._open_readers += 1
 
     def _handle_reader_closed(self):
-        self._open_readers -= 1
-        if self._open_readers <= 0:
-            self.exit()
+        with self._readers_lock:
+            self._open_readers -= 1
+            if self._open_readers <= 0:
+                self.exit()
 
     def open_reader(self, read_size=1, strict_n=False, ignore_no_item_found=False):
         """Instantiates a reader.
@@ -122,13 +137,14 @@ class StreamSource(Source, metaclass=ABCMeta):
         :param ignore_no_item_found: if True, by default return None when no next item
             instead of raising exception during a read
         """
-        self._ensure_buffer()
-        new_reader = self._stream_buffer.mk_reader(
-            read_size=read_size,
-            strict_n=strict_n,
-            ignore_no_item_found=ignore_no_item_found,
-        )
-        self._handle_reader_open()
+        with self._readers_lock:
+            self._ensure_buffer()
+            new_reader = self._stream_buffer.mk_reader(
+                read_size=read_size,
+                strict_n=strict_n,
+                ignore_no_item_found=ignore_no_item_found,
+            )
+            self._handle_reader_open()
         new_reader.open()
         new_reader.onclose = self._handle_reader_closed
         return new_reader
-- 
2.43.0


From 9e1c48a3ee31c2c26b62cc6bbf5e926b23d2a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 15/38] fix: mk_stream_buffer does not enumerate None

None means that no data is ready; wrapped in a tuple it became an item and the
stream never paused.
---
 stream2py/simply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..17394f0 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,6 +96,8 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
+            if read_data is None:  # no data yet
+                return None
             if enumerate_data:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
-- 
2.43.0


From 9d0bf70cb6348448abe9327fbe39426b0d35a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 16/38] fix: HTTPResponseReader sends the configured method and
 body

open() made a new request from the URL and headers only; text bodies could not
be sent.
---
 stream2py/sources/http.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..f7ecbcb 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -52,6 +52,8 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        elif isinstance(body, str):
+            body = body.encode()
 
         self._url = url
         self._n_bytes_read = 0
@@ -98,10 +100,7 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
-        request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
-        )
-        self._response = urllib.request.urlopen(request)
+        self._response = urllib.request.urlopen(self._request)
 
     def close(self):
         if self._response:
-- 
2.43.0


From c3e70b881b8a748a225d8d8b2f0b876a0be1921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 17/38] fix: HTTPResponseReader reports no data after the end
 of the body

read() returned empty chunks for ever, which filled the buffer and never paused.
---
 stream2py/sources/http.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index f7ecbcb..0f6dca0 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -112,6 +112,8 @@ class HTTPResponseReader(SourceReader):
         """
         encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
+        if not result:  # end of the body
+            return None
         timestamp = time.time()
         if encoding:
             result = result.decode(encoding)
-- 
2.43.0


From 4ea70f049df9855f2b6b1abaabc8d3296f257bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 18/38] fix: HTTPResponseReader counts the bytes read

---
 stream2py/sources/http.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index 0f6dca0..e936014 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -101,6 +101,7 @@ class HTTPResponseReader(SourceReader):
 
     def open(self):
         self._response = urllib.request.urlopen(self._request)
+        self._n_bytes_read = 0
 
     def close(self):
         if self._response:
@@ -114,6 +115,7 @@ class HTTPResponseReader(SourceReader):
         result = self._response.read(*self.response_read_args)
         if not result:  # end of the body
             return None
+        self._n_bytes_read += len(result)
         timestamp = time.time()
         if encoding:
             result = result.decode(encoding)
-- 
2.43.0


From 45a4c3be61a7707394deec4f50c673a64f4ea59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 19/38] fix: HTTPResponseReader decodes characters that span
 chunks

Every chunk was decoded on its own, which fails in the middle of a character.
---
 stream2py/sources/http.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index e936014..8d2d916 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -9,6 +9,7 @@ HTTP Response streaming reader with no external dependencies
 
 """
 
+import codecs
 import urllib.request
 from typing import Union, Optional
 import time
@@ -57,6 +58,7 @@ class HTTPResponseReader(SourceReader):
 
         self._url = url
         self._n_bytes_read = 0
+        self._decoder = None
         self._request = urllib.request.Request(
             url, data=body, headers=headers, method=method
         )
@@ -102,6 +104,8 @@ class HTTPResponseReader(SourceReader):
     def open(self):
         self._response = urllib.request.urlopen(self._request)
         self._n_bytes_read = 0
+        encoding = self._init_kwargs.get('encoding')
+        self._decoder = codecs.getincrementaldecoder(encoding)() if encoding else None
 
     def close(self):
         if self._response:
@@ -109,16 +113,16 @@ class HTTPResponseReader(SourceReader):
             self._response = None
 
     def read(self):
-        """Returns a chunk of raw binary data.
+        """Returns a chunk of raw binary data, decoded if an encoding was given.
         """
-        encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
-        if not result:  # end of the body
-            return None
-        self._n_bytes_read += len(result)
         timestamp = time.time()
-        if encoding:
-            result = result.decode(encoding)
+        at_end = not result
+        self._n_bytes_read += len(result)
+        if self._decoder:
+            result = self._decoder.decode(result, final=at_end)
+        if at_end and not result:
+            return None
         return timestamp, result
 
 
-- 
2.43.0


From c2caa0c268ab6f7d5013c7f995a21fcd5df2257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 20/38] fix: a ContextualizeCall can be called with an argument
 named self

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 758a7b9..0432082 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -132,7 +132,7 @@ class ContextualizeCall:
         # wrapping self with attributes of func (signature, name, etc.)
         wraps(func)(self)
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         return self.func(*args, **kwargs)
 
     def __enter__(self):
-- 
2.43.0


From 9c42ee5a7b6511fa049dff704fef51d502afc3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 21/38] fix: ContextualizeCall delegates attributes, so nested
 wrappers keep their own functions

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 0432082..6e0129a 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -130,7 +130,7 @@ class ContextualizeCall:
         self.enter_func = enter_func
         self.exit_func = exit_func
         # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
+        wraps(func, updated=())(self)  # __getattr__ delegates func's other attributes
 
     def __call__(self, /, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From 7d93da1173152285abc7a08409da089f47dbc668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 22/38] fix: functions that can't be exit functions are refused

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 6e0129a..6b06e33 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -55,7 +55,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From 30a8184b36b8dbda630f5cdae1f8e3d9babcc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 23/38] fix: iterating a StreamSource goes on after a read
 without data

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 2ef75a8..d2fecaa 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -65,6 +65,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     _reader_cls = BufferReader
     _sleep_time_on_iter_none_s = 0.001
     _stream_buffer: StreamBuffer = None
+    is_stopped = False  # if set, iteration ends when there is no data
     __readers_lock = None
 
     def __init__(self, *, reader_cls=BufferReader):
-- 
2.43.0


From 987356720d4b2bdcba18de5c1b0e8ccf97b7ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 24/38] fix: StreamSource.get_timestamp finds its unit
 conversion

---
 stream2py/stream_source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index d2fecaa..4064972 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -173,6 +173,8 @@ class StreamSource(Source, metaclass=ABCMeta):
         """
         return None
 
+    timestamp_seconds_to_unit_conversion = timestamp_seconds_to_unit_conversion
+
     @classmethod
     def get_timestamp(cls) -> int:
         """Get timestamp of now as int microseconds
-- 
2.43.0


From c7d9d324713bcdf9d73e5f553e936c37ef3070fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 25/38] fix: a restart does not hold start_lock while the last
 session ends

---
 stream2py/stream_buffer.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index aaad468..81a8fb8 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -150,6 +150,8 @@ class StreamBuffer:
         self.source_buffer = None
         # start_lock used to lock mk_reader while source is still starting up
         self.start_lock = threading.Lock()
+        # only one thread at a time may restart, which can wait long for the source
+        self._restart_lock = threading.Lock()
         self._next_reader = None
         self._read_to_buffer_thread = None
 
@@ -176,16 +178,16 @@ class StreamBuffer:
 
     def start(self):
         """Open and start reading from source_reader into buffer"""
-        with self.start_lock:
-            if self._stop_event and not self._stop_event.is_set():
-                self.stop()
-            self._set_read_to_buffer_thread_and_source_buffer()
-            try:
-                self._open()
-            except BaseException:
-                self._stop_event.set()
-                raise
-            self._read_to_buffer_thread.start()
+        with self._restart_lock:
+            self._end_last_session()
+            with self.start_lock:
+                self._set_read_to_buffer_thread_and_source_buffer()
+                try:
+                    self._open()
+                except BaseException:
+                    self._stop_event.set()
+                    raise
+                self._read_to_buffer_thread.start()
 
     def stop(self):
         """Stop reading and close source_reader"""
@@ -277,15 +279,18 @@ class StreamBuffer:
                 self._stop_event.set()
             self._close()
 
-    def _set_read_to_buffer_thread_and_source_buffer(self):
-        """Initialize source and buffer
-        Makes a new run thread, and stop event that is unique to this run session"""
+    def _end_last_session(self):
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
         last_thread = self._read_to_buffer_thread
         if last_thread is not None and last_thread.is_alive():
             # still reading or closing: it must be done with the source before it is reopened
+            # (start_lock isn't held as the source may use its stream, e.g. ask if it runs)
             last_thread.join()
+
+    def _set_read_to_buffer_thread_and_source_buffer(self):
+        """Initialize source and buffer
+        Makes a new run thread, and stop event that is unique to this run session"""
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From b0ff331fa7dd6bf154becb8023e3d7b1e106a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 26/38] fix: next(stream) goes on with the same reader until
 the stream is started again

---
 stream2py/stream_buffer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 81a8fb8..3c384d4 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -149,7 +149,7 @@ class StreamBuffer:
         self._stop_event = None
         self.source_buffer = None
         # start_lock used to lock mk_reader while source is still starting up
-        self.start_lock = threading.Lock()
+        self.start_lock = threading.RLock()
         # only one thread at a time may restart, which can wait long for the source
         self._restart_lock = threading.Lock()
         self._next_reader = None
@@ -160,9 +160,11 @@ class StreamBuffer:
         yield from iter(reader)
 
     def __next__(self):
-        if self._next_reader is None:
-            self._next_reader = self.mk_reader()
-        return next(self._next_reader)
+        with self.start_lock:
+            if self._next_reader is None:
+                self._next_reader = self.mk_reader()
+            next_reader = self._next_reader
+        return next(next_reader)
 
     def drop(self, n=1):
         """Manually drop items from buffer when auto_drop is False
@@ -195,7 +197,6 @@ class StreamBuffer:
             return
         self._stop_event.set()
         time.sleep(1)
-        self._next_reader = None
 
     def mk_reader(self, **read_kwargs) -> BufferReader:
         """ Makes a BufferReader instance for the currently running  StreamBuffer.
@@ -292,6 +293,7 @@ class StreamBuffer:
         """Initialize source and buffer
         Makes a new run thread, and stop event that is unique to this run session"""
         self.source_buffer = None
+        self._next_reader = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
 
-- 
2.43.0


From c59c6b960f57d8e07b5a144370be22a5ae0ca3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 27/38] fix: an attached reader gives the info of the stream it
 is attached to

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 3c384d4..e01b6b2 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -76,6 +76,7 @@ class _SourceBuffer:
     def attach_reader(self, reader):
         reader._buffer = self._buffer
         reader._stop_event = self._stop_event
+        reader._source_reader_info = self._source_reader_info
 
 
 class StreamBuffer:
-- 
2.43.0


From 5bf7e40c988dba36ce212635f035647a1f708e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 28/38] fix: a stream source's reader_cls is the class of its
 readers

---
 stream2py/stream_buffer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e01b6b2..891980d 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -310,7 +310,10 @@ class StreamBuffer:
                 key=self.source_reader.key,
                 maxlen=self._maxlen,
                 buffer_reader_class=getattr(
-                    self.source_reader, 'buffer_reader_class', BufferReader
+                    self.source_reader,
+                    'buffer_reader_class',
+                    # the reader_cls of a StreamSource
+                    getattr(self.source_reader, '_reader_cls', BufferReader),
                 ),
             )
         except BaseException:
-- 
2.43.0


From fac77888d0063c8dd128ce1fb5ac50f323da73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 29/38] fix: configuration values with a % are kept as they are

---
 pack.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pack.py b/pack.py
index 9b19fe3..cf5ec70 100644
--- a/pack.py
+++ b/pack.py
@@ -59,12 +59,17 @@ def preprocess_ini_section_items(items: Union[Mapping, Iterable]) -> Generator:
         yield k, v
 
 
+def _mk_config_parser():
+    # no interpolation: setuptools doesn't interpolate the values of setup.cfg either
+    return ConfigParser(interpolation=None)
+
+
 def read_configs(
     config_file=DFLT_CONFIG_FILE,
     section=DFLT_CONFIG_SECTION,
     postproc=postprocess_ini_section_items,
 ):
-    c = ConfigParser()
+    c = _mk_config_parser()
     c.read_file(open(config_file, 'r'))
     if section is None:
         d = dict(c)
@@ -83,7 +88,7 @@ def write_configs(
     section=DFLT_CONFIG_SECTION,
     preproc=preprocess_ini_section_items,
 ):
-    c = ConfigParser()
+    c = _mk_config_parser()
     if os.path.isfile(config_file):
         c.read_file(open(config_file, 'r'))
     c[section] = dict(preproc(configs))
-- 
2.43.0


From 7345f4296ff2200f6d53d5b4338fe70aaf697de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 30/38] fix: configuration names keep their case

---
 pack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pack.py b/pack.py
index cf5ec70..6023447 100644
--- a/pack.py
+++ b/pack.py
@@ -60,8 +60,10 @@ def preprocess_ini_section_items(items: Union[Mapping, Iterable]) -> Generator:
 
 
 def _mk_config_parser():
-    # no interpolation: setuptools doesn't interpolate the values of setup.cfg either
-    return ConfigParser(interpolation=None)
+    # no interpolation, and case-sensitive names, as when setuptools reads setup.cfg
+    c = ConfigParser(interpolation=None)
+    c.optionxform = str
+    return c
 
 
 def read_configs(
-- 
2.43.0


From 40c1df6e8f317db6f8502fc2c15b747be11157c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 31/38] fix: read_configs(section=None) reads all sections

---
 pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index 6023447..94f3028 100644
--- a/pack.py
+++ b/pack.py
@@ -76,7 +76,7 @@ def read_configs(
     if section is None:
         d = dict(c)
         if postproc:
-            d = {k: dict(postproc(v)) for k, v in c}
+            d = {k: dict(postproc(v)) for k, v in c.items()}
     else:
         d = dict(c[section])
         if postproc:
-- 
2.43.0


From 1e39482a9282800504237f272ae5ff2159147d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 32/38] fix: source_reader_info does not fail while a start is
 in progress

---
 stream2py/stream_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 891980d..85ab89d 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -233,8 +233,9 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer is not None:  # an empty buffer is falsy
-            return self.source_buffer.source_reader_info
+        source_buffer = self.source_buffer  # None while a start is in progress
+        if source_buffer is not None:  # an empty buffer is falsy
+            return source_buffer.source_reader_info
         return None
 
     @property
-- 
2.43.0


From ad9b3324031960e57f59650e35239512982df18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 33/38] fix: a reader that fails to open does not keep its
 stream source open

---
 stream2py/stream_source.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 4064972..04143c5 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -146,7 +146,11 @@ class StreamSource(Source, metaclass=ABCMeta):
                 ignore_no_item_found=ignore_no_item_found,
             )
             self._handle_reader_open()
-        new_reader.open()
+        try:
+            new_reader.open()
+        except BaseException:
+            self._handle_reader_closed()
+            raise
         new_reader.onclose = self._handle_reader_closed
         return new_reader
 
-- 
2.43.0


From 167fe98de26d66b826d7a80ec7f387ddb007292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 34/38] fix: an interrupted wait does not break the
 readers-writer lock

---
 stream2py/utility/locked_sorted_deque.py |  4 ++--
 stream2py/utility/reader_writer_lock.py  | 22 +++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/stream2py/utility/locked_sorted_deque.py b/stream2py/utility/locked_sorted_deque.py
index 17d1d12..a516de3 100644
--- a/stream2py/utility/locked_sorted_deque.py
+++ b/stream2py/utility/locked_sorted_deque.py
@@ -39,16 +39,16 @@ class RWLockSortedDeque(RWLock):
 
     @contextmanager
     def reader_lock(self) -> Generator[SortedDeque, None, None]:
+        self.reader_acquire()
         try:
-            self.reader_acquire()
             yield self._sorted_deque
         finally:
             self.reader_release()
 
     @contextmanager
     def writer_lock(self):
+        self.writer_acquire()
         try:
-            self.writer_acquire()
             yield self._sorted_deque
         finally:
             self.writer_release()
diff --git a/stream2py/utility/reader_writer_lock.py b/stream2py/utility/reader_writer_lock.py
index fda1300..d2f9cdc 100644
--- a/stream2py/utility/reader_writer_lock.py
+++ b/stream2py/utility/reader_writer_lock.py
@@ -39,18 +39,19 @@ class RWLock:
         cases (see [2] for a discussion)"""
 
     def reader_acquire(self):
-        self.__readers_queue.acquire()
-        self.__no_readers.acquire()
-        self.__read_switch.acquire(self.__no_writers)
-        self.__no_readers.release()
-        self.__readers_queue.release()
+        with self.__readers_queue, self.__no_readers:
+            self.__read_switch.acquire(self.__no_writers)
 
     def reader_release(self):
         self.__read_switch.release(self.__no_writers)
 
     def writer_acquire(self):
         self.__write_switch.acquire(self.__no_readers)
-        self.__no_writers.acquire()
+        try:
+            self.__no_writers.acquire()
+        except BaseException:  # interrupted while waiting
+            self.__write_switch.release(self.__no_readers)
+            raise
 
     def writer_release(self):
         self.__no_writers.release()
@@ -66,11 +67,10 @@ class _LightSwitch:
         self.__mutex = threading.Lock()
 
     def acquire(self, lock):
-        self.__mutex.acquire()
-        self.__counter += 1
-        if self.__counter == 1:
-            lock.acquire()
-        self.__mutex.release()
+        with self.__mutex:
+            if self.__counter == 0:
+                lock.acquire()
+            self.__counter += 1
 
     def release(self, lock):
         self.__mutex.acquire()
-- 
2.43.0


From e7fb0b9cc37efd1165cb7bed17bac15d4dfd1fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 35/38] fix: a start that gets no thread closes the source

---
 stream2py/stream_buffer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 85ab89d..e886ee5 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -190,7 +190,12 @@ class StreamBuffer:
                 except BaseException:
                     self._stop_event.set()
                     raise
-                self._read_to_buffer_thread.start()
+                try:
+                    self._read_to_buffer_thread.start()
+                except RuntimeError:  # no thread will read, nor close
+                    self._stop_event.set()
+                    self._close()
+                    raise
 
     def stop(self):
         """Stop reading and close source_reader"""
-- 
2.43.0


From 45f9a2b4fb2fdcbadd84bae706d52fa2e4aa1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:57 +0000
Subject: [PATCH 36/38] fix: read a chunk of more than sys.maxsize items, which
 is all there are

---
 stream2py/buffer_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 11cab27..031a72f 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -419,7 +419,8 @@ class BufferReader:
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
 
-                next_items_list = reader.range_by_index(i, j)
+                # n may be as large as wanted, e.g. sys.maxsize for all items
+                next_items_list = reader.range_by_index(i, min(j, len(reader)))
                 if not peek:
                     self.last_item = next_items_list[-1]
                 return next_items_list
-- 
2.43.0


From 58061447584465711606c8c01aabfb82e208dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:35 +0000
Subject: [PATCH 37/38] fix: join URL parts that are only a slash with one
 slash

---
 pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index 94f3028..8400429 100644
--- a/pack.py
+++ b/pack.py
@@ -186,9 +186,13 @@ def ujoin(*args):
     """
     if len(args) == 0 or len(args[0]) == 0:
         return ''
+    parts = [x[(x[0] == '/') : (len(x) - (x[-1] == '/'))] for x in args]
+    parts = [x for x in parts if x]  # nothing is left of a part that is only a slash
+    if not parts:
+        return '/'
     return (
         (args[0][0] == '/') * '/'  # prepend slash if first arg starts with it
-        + '/'.join(x[(x[0] == '/') : (len(x) - (x[-1] == '/'))] for x in args)
+        + '/'.join(parts)
         + (args[-1][-1] == '/') * '/'
     )  # append slash if last arg ends with it
 
-- 
2.43.0


From ce24e313ea71d691d81253c90a9049d8c7a21873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:33 +0000
Subject: [PATCH 38/38] fix: HTTP chunks keep increasing keys while the system
 clock stands or is set back

---
 stream2py/sources/http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index 8d2d916..9f2c523 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -104,6 +104,7 @@ class HTTPResponseReader(SourceReader):
     def open(self):
         self._response = urllib.request.urlopen(self._request)
         self._n_bytes_read = 0
+        self._last_timestamp = 0
         encoding = self._init_kwargs.get('encoding')
         self._decoder = codecs.getincrementaldecoder(encoding)() if encoding else None
 
@@ -116,7 +117,9 @@ class HTTPResponseReader(SourceReader):
         """Returns a chunk of raw binary data, decoded if an encoding was given.
         """
         result = self._response.read(*self.response_read_args)
-        timestamp = time.time()
+        # the clock may stand or be set back, but the keys of a stream must increase
+        timestamp = max(time.time(), self._last_timestamp + 1e-6)
+        self._last_timestamp = timestamp
         at_end = not result
         self._n_bytes_read += len(result)
         if self._decoder:
-- 
2.43.0


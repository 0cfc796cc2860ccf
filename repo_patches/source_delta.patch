From 4a05c7f2fabb961850fa6af9008f99d5001c6c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 01/47] fix: never reuse an object id within one serialization

---
 python/xoscar/serialization/core.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index bf3bf56..76194cf 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -597,6 +597,10 @@ cdef class _SerialStackItem:
 
 cdef class _IdContextHolder:
     cdef unordered_map[uint64_t, uint64_t] d
+    cdef uint64_t next_id
+
+    def __cinit__(self):
+        self.next_id = 0
 
 
 cdef int _COMMON_HEADER_LEN = 4
@@ -624,7 +628,9 @@ cdef tuple _serial_single(
                 ordered_id = id_context_holder.d[obj_id]
             else:
                 obj_id = _fast_id(obj)
-                ordered_id = id_context_holder.d.size()
+                # ids must not repeat, even if an unbuffered object is met again
+                ordered_id = id_context_holder.next_id
+                id_context_holder.next_id += 1
                 id_context_holder.d[obj_id] = ordered_id
 
             # REMEMBER to change _COMMON_HEADER_LEN when content of
-- 
2.43.0


From a9fc8e45d22be1aa36897ae15fecd8b82a87b755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 02/47] fix: keep the sharing of empty dicts and dicts without
 init args

---
 python/xoscar/serialization/core.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 76194cf..5375560 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -461,14 +461,14 @@ cdef class DictSerializer(CollectionSerializer):
         cdef tuple key_obj, value_obj
         cdef list key_bufs, value_bufs
 
-        if type(obj) is dict and len(<dict>obj) == 0:
-            return (), [], True
-
         obj_id = _fast_id(obj)
         if obj_id in context:
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is dict and len(<dict>obj) == 0:
+            return (), [], True
+
         obj_type = type(obj)
 
         if obj_type is not dict and obj_type not in self._inspected_inherits:
@@ -480,8 +480,6 @@ cdef class DictSerializer(CollectionSerializer):
             ):
                 # inherited dicts may not have proper initializers
                 # for deserialization
-                # remove context to generate real serialized result
-                context.pop(obj_id)
                 return (obj,), [], True
             else:
                 self._inspected_inherits.add(obj_type)
-- 
2.43.0


From 6a74967944af61ebdb0d06e90e9b9b3f6f920c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 03/47] fix: serialize Counter and the factory of defaultdict

---
 python/xoscar/serialization/core.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 5375560..dcfbbba 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -20,6 +20,7 @@ import enum
 import hashlib
 import inspect
 import sys
+from collections import Counter, defaultdict
 from functools import partial, wraps
 from typing import Any, Dict, List
 
@@ -471,6 +472,10 @@ cdef class DictSerializer(CollectionSerializer):
 
         obj_type = type(obj)
 
+        if isinstance(obj, Counter):
+            # the initializer would count the items
+            return (obj,), [], True
+
         if obj_type is not dict and obj_type not in self._inspected_inherits:
             inspect_init = inspect.getfullargspec(obj_type.__init__)
             if (
@@ -488,6 +493,8 @@ cdef class DictSerializer(CollectionSerializer):
         value_obj, value_bufs, _ = self._serial_iterable(obj.values())
         if obj_type is dict:
             obj_type = None
+        elif isinstance(obj, defaultdict):
+            obj_type = partial(obj_type, obj.default_factory)
         ser_obj = (key_obj[:-1], value_obj[:-1], len(key_bufs), obj_type)
         return ser_obj, key_bufs + value_bufs, False
 
-- 
2.43.0


From 98c95c4003b185849aea9ac99613db1ce9372180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 04/47] fix: keep the type of str and bytes subclasses when
 serializing

---
 python/xoscar/serialization/core.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index dcfbbba..86c2399 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -316,9 +316,14 @@ cdef class BytesSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if isinstance(obj, bytes) and type(obj) is not bytes:
+            # keep the type of subclasses
+            return (True,), pickle_buffers(obj), True
         return (), [obj], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if serialized:
+            return unpickle_buffers(subs)
         return subs[0]
 
 
@@ -332,9 +337,14 @@ cdef class StrSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is not str:
+            # keep the type of subclasses, such as enums of strings
+            return (True,), pickle_buffers(obj), True
         return (), [(<str>obj).encode()], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if serialized:
+            return unpickle_buffers(subs)
         buffer = subs[0]
         if type(buffer) is memoryview:
             buffer = buffer.tobytes()
-- 
2.43.0


From 81df8e99b2903001cd95a5876bd1c30cc99a2f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 05/47] fix: serialize strings with lone surrogates

---
 python/xoscar/serialization/core.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 86c2399..aa8b212 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -340,7 +340,7 @@ cdef class StrSerializer(Serializer):
         if type(obj) is not str:
             # keep the type of subclasses, such as enums of strings
             return (True,), pickle_buffers(obj), True
-        return (), [(<str>obj).encode()], True
+        return (), [(<str>obj).encode("utf-8", "surrogatepass")], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
         if serialized:
@@ -348,7 +348,7 @@ cdef class StrSerializer(Serializer):
         buffer = subs[0]
         if type(buffer) is memoryview:
             buffer = buffer.tobytes()
-        return buffer.decode()
+        return buffer.decode("utf-8", "surrogatepass")
 
 
 cdef class CollectionSerializer(Serializer):
-- 
2.43.0


From 1d2f613215b934476a938f21b78f5f3a43e9311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 06/47] fix: forget inherited handlers when a type is
 registered

---
 python/xoscar/_utils.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index d573355..87a09d4 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -46,6 +46,8 @@ cdef class TypeDispatcher:
         _type_dispatchers.add(self)
 
     cpdef void register(self, object type_, object handler):
+        # inherited handlers found before may not be the closest ones any more
+        self._inherit_handlers.clear()
         if isinstance(type_, str):
             self._lazy_handlers[type_] = handler
         elif type(type_) is not NamedType and isinstance(type_, tuple):
-- 
2.43.0


From 191ea8f4bbeaf77dbfe206cdb690ba449d1e8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 07/47] fix: keep subclasses of ndarray when serializing

---
 python/xoscar/serialization/numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/numpy.py b/python/xoscar/serialization/numpy.py
index b5fb2c4..2597a46 100644
--- a/python/xoscar/serialization/numpy.py
+++ b/python/xoscar/serialization/numpy.py
@@ -24,7 +24,9 @@ class NDArraySerializer(Serializer):
     @buffered
     def serial(self, obj: np.ndarray, context: Dict):
         header: dict = {}
-        if obj.dtype.hasobject:
+        if obj.dtype.hasobject or type(obj) not in (np.ndarray, np.memmap):
+            # the buffer alone cannot represent objects,
+            # nor what subclasses add to it, e.g. the mask of a masked array
             header["pickle"] = True
             buffers = pickle_buffers(obj)
             return (header,), buffers, True
-- 
2.43.0


From 69459348878cbbd3adc209ab8f9cf5e7c0eab52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 08/47] fix: serialize arrays with overlapping fields

---
 python/xoscar/serialization/numpy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/numpy.py b/python/xoscar/serialization/numpy.py
index 2597a46..6302c35 100644
--- a/python/xoscar/serialization/numpy.py
+++ b/python/xoscar/serialization/numpy.py
@@ -44,7 +44,12 @@ class NDArraySerializer(Serializer):
             # and dtype_to_desc will fail due to the order
             fields = obj.dtype.fields
             new_fields = sorted(fields, key=lambda k: fields[k][1])
-            desc = np.lib.format.dtype_to_descr(obj.dtype[new_fields])
+            try:
+                desc = np.lib.format.dtype_to_descr(obj.dtype[new_fields])
+            except (KeyError, ValueError):
+                # overlapping or titled fields cannot be described
+                header["pickle"] = True
+                return (header,), pickle_buffers(obj), True
             dtype_new_order = list(fields)
         header.update(
             dict(
-- 
2.43.0


From cd7fe86628c07dd5a90a8d40843c69c9ed322fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 09/47] fix: serialize tensor subclasses, non-dense and
 unviewable CPU tensors

---
 python/xoscar/serialization/torch.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/serialization/torch.py b/python/xoscar/serialization/torch.py
index 835aaa9..df8164c 100644
--- a/python/xoscar/serialization/torch.py
+++ b/python/xoscar/serialization/torch.py
@@ -17,7 +17,7 @@ from typing import Any, Dict, List, Tuple
 import numpy as np
 
 from ..utils import lazy_import
-from .core import Serializer, buffered
+from .core import Serializer, buffered, pickle_buffers, unpickle_buffers
 
 # lazy import PyTorch to avoid enforced dependency
 torch = lazy_import("torch")
@@ -33,8 +33,18 @@ def rmm_to_torch(buf):
 class TorchTensorSerializer(Serializer):
     @buffered
     def serial(self, obj: "torch.Tensor", context: Dict):  # type: ignore
+        if obj.device.type == "cpu" and (
+            type(obj) is not torch.Tensor
+            or obj.layout is not torch.strided
+            or obj.is_quantized
+        ):
+            # subclasses (e.g. parameters), sparse and quantized tensors
+            # are more than one dense buffer
+            return ({"device": "cpu", "format": "pickle"},), pickle_buffers(obj), True
         # for cpu tensor, use memory viewpoint
         if obj.device.type == "cpu":
+            # make sure lazy conjugations and negations are applied
+            obj = obj.resolve_conj().resolve_neg()
             # make sure tensor is contiguous
             if not obj.is_contiguous():
                 obj = obj.contiguous()
@@ -56,7 +66,10 @@ class TorchTensorSerializer(Serializer):
             except Exception:
                 # Fallback: copy to uint8 bytes
                 # This works for ANY dtype
-                byte_tensor = obj.view(torch.uint8).clone()  # explicit copy
+                # explicit copy, with strides that can be viewed as bytes
+                flat = torch.empty(obj.numel(), dtype=obj.dtype)
+                flat.copy_(obj.detach().reshape(-1))
+                byte_tensor = flat.view(torch.uint8)
                 np_array = byte_tensor.numpy()
                 buffer = memoryview(np_array)
                 header["format"] = "bytes"
@@ -107,6 +120,8 @@ class TorchTensorSerializer(Serializer):
 
         if device == "cpu":
             fmt = header.get("format", "numpy")
+            if fmt == "pickle":
+                return unpickle_buffers(subs)
             dtype_name = header["dtype"].split(".")[-1]
             dtype = getattr(torch, dtype_name)
 
-- 
2.43.0


From bfa309680049901192dddb8d44741474f09bf02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 10/47] fix: put awaited results of a tuple at their own
 positions

---
 python/xoscar/core.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 9ea1ee5..8bf72e0 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -431,7 +431,7 @@ cdef class _BaseActor:
                 else:
                     result = tuple(task_result if t is coros[0] else t for t in values)
             elif len(coros) > 0:
-                tasks = [asyncio.create_task(t) for t in coros]
+                tasks = [asyncio.ensure_future(t) for t in coros]
                 try:
                     dones, pending = await asyncio.wait(tasks)
                 except asyncio.CancelledError:
@@ -444,8 +444,7 @@ cdef class _BaseActor:
                 if extract_tuple:
                     result = list(dones)[0].result()
                 else:
-                    for pos in coro_poses:
-                        task = tasks[pos]
+                    for pos, task in zip(coro_poses, tasks):
                         values[pos] = task.result()
                     result = tuple(values)
 
-- 
2.43.0


From 5bae05a5de8a7302695e7d29211305d0aea1b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 11/47] fix: honour no_lock of a class for its extensible
 methods

---
 python/xoscar/batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 82f8c25..aafba74 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -230,6 +230,7 @@ class _ExtensibleAccessor(_ExtensibleCallable):
         if (
             getattr(self.func, NO_LOCK_ATTRIBUTE_HINT, None) is True
             or getattr(self.batch_func, NO_LOCK_ATTRIBUTE_HINT, None) is True
+            or getattr(instance, NO_LOCK_ATTRIBUTE_HINT, None) is True
         ):
             setattr(wrapper, NO_LOCK_ATTRIBUTE_HINT, True)
         return wrapper
-- 
2.43.0


From eec384ad9839706f7795754677e2b7341d81e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 12/47] fix: allow a synchronous batch implementation without
 results

---
 python/xoscar/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index aafba74..4469182 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -112,7 +112,8 @@ class _ExtensibleCallable:
             self.has_single_func = False
 
         if self.batch_func is not None:
-            return self.batch_func([args], [kwargs])[0]
+            ret = self.batch_func([args], [kwargs])
+            return None if ret is None else ret[0]
         raise NotImplementedError
 
 
-- 
2.43.0


From 60a8ab5e9294b06b6cc0ea7205ec83b424a27845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 13/47] fix: keep the order of concurrent sends on socket
 channels

---
 python/xoscar/backends/communication/socket.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/communication/socket.py b/python/xoscar/backends/communication/socket.py
index 77fbdfb..a01f29a 100644
--- a/python/xoscar/backends/communication/socket.py
+++ b/python/xoscar/backends/communication/socket.py
@@ -76,15 +76,16 @@ class SocketChannel(Channel):
 
     @implements(Channel.send)
     async def send(self, message: Any):
-        # get buffers
         compress = self.compression or 0
         serializer = AioSerializer(message, compress=compress)
-        buffers = await serializer.run()
 
         try:
-            # write buffers
-            write_buffers(self.writer, buffers)
             async with self._send_lock:
+                # get buffers, large messages are serialized in threads,
+                # those sent later must not be written before them
+                buffers = await serializer.run()
+                # write buffers
+                write_buffers(self.writer, buffers)
                 # add lock, or when parallel send,
                 # assertion error may be raised
                 await self.writer.drain()
-- 
2.43.0


From 6a7a3656d1077b5dfe6d003c51609152f1a877a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 14/47] fix: finish a send on socket channels only when all is
 written

---
 python/xoscar/backends/communication/socket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/backends/communication/socket.py b/python/xoscar/backends/communication/socket.py
index a01f29a..f2a7a8a 100644
--- a/python/xoscar/backends/communication/socket.py
+++ b/python/xoscar/backends/communication/socket.py
@@ -64,6 +64,9 @@ class SocketChannel(Channel):
         )
         self.reader = reader
         self.writer = writer
+        # the transport keeps references to buffers instead of copies,
+        # so that sending is not done before all of them are written
+        writer.transport.set_write_buffer_limits(high=0)
         self._channel_type = channel_type
 
         self._send_lock = asyncio.Lock()
-- 
2.43.0


From df98c7c3dd65bdf141f7544b9db4af1861efef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 15/47] fix: keep the listener alive after late, unknown or
 cancelled replies

---
 python/xoscar/backends/core.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index e3ca09d..ea983b9 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -104,20 +104,26 @@ class ActorCallerThreadLocal:
                         raise ServerClosed(
                             f"Remote server {client.dest_address} closed: {e}"
                         ) from None
+                    # nobody waits for late or unknown messages
                     future = self._client_to_message_futures[client].pop(
-                        message.message_id
+                        message.message_id, None
                     )
-                    if not future.done():
+                    if future is not None and not future.done():
                         future.set_result(message)
                 except DeserializeMessageFailed as e:
                     message_id = e.message_id
-                    future = self._client_to_message_futures[client].pop(message_id)
-                    future.set_exception(e.__cause__)  # type: ignore
+                    future = self._client_to_message_futures[client].pop(
+                        message_id, None
+                    )
+                    if future is not None and not future.done():
+                        future.set_exception(e.__cause__)  # type: ignore
                 except Exception as e:  # noqa: E722  # pylint: disable=bare-except
                     message_futures = self._client_to_message_futures[client]
                     self._client_to_message_futures[client] = dict()
                     for future in message_futures.values():
-                        future.set_exception(copy.copy(e))
+                        # it may have been cancelled already
+                        if not future.done():
+                            future.set_exception(copy.copy(e))
                 finally:
                     # message may have Ray ObjectRef, delete it early in case next loop doesn't run
                     # as soon as expected.
@@ -135,7 +141,8 @@ class ActorCallerThreadLocal:
             self._client_to_message_futures[client] = dict()
             error = ServerClosed(f"Remote server {client.dest_address} closed")
             for future in message_futures.values():
-                future.set_exception(copy.copy(error))
+                if not future.done():
+                    future.set_exception(copy.copy(error))
         finally:
             try:
                 await client.close()
-- 
2.43.0


From bd5ae37c1b180586555baae4692c9c2f1b83a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 16/47] fix: wake up those who wait on in-process channels that
 get closed

---
 python/xoscar/backends/communication/dummy.py | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/backends/communication/dummy.py b/python/xoscar/backends/communication/dummy.py
index 4f1ddee..b50ee0c 100644
--- a/python/xoscar/backends/communication/dummy.py
+++ b/python/xoscar/backends/communication/dummy.py
@@ -29,6 +29,8 @@ from .core import register_client, register_server
 from .errors import ChannelClosed
 
 DEFAULT_DUMMY_ADDRESS = "dummy://0"
+# wakes up those who wait for messages when a channel is closed
+_CLOSE_MARK = object()
 
 logger = logging.getLogger(__name__)
 
@@ -77,14 +79,28 @@ class DummyChannel(Channel):
         if self._closed.is_set():  # pragma: no cover
             raise ChannelClosed("Channel already closed, cannot write message")
         try:
-            return await self._in_queue.get()
+            message = await self._in_queue.get()
         except RuntimeError:
             if self._closed.is_set():
                 pass
+            return
+        if message is _CLOSE_MARK:
+            # wake up others as well
+            self._in_queue.put_nowait(_CLOSE_MARK)
+            raise EOFError("Channel already closed")
+        return message
 
     @implements(Channel.close)
     async def close(self):
+        if self._closed.is_set():
+            return
         self._closed.set()
+        for queue in (self._in_queue, self._out_queue):
+            try:
+                queue.put_nowait(_CLOSE_MARK)
+            except RuntimeError:  # pragma: no cover
+                # event loop of those who wait is closed
+                pass
 
     @property
     @implements(Channel.closed)
@@ -218,11 +234,12 @@ class DummyClient(Client):
                 f'Destination address should start with "dummy://" '
                 f"for DummyClient, got {dest_address}"
             )
-        server = DummyServer.get_instance(dest_address)
-        if server is None:  # pragma: no cover
-            raise RuntimeError(
+        try:
+            server = DummyServer.get_instance(dest_address)
+        except KeyError:
+            raise ConnectionError(
                 f"DummyServer {dest_address} needs to be created first before DummyClient"
-            )
+            ) from None
         if server.stopped:  # pragma: no cover
             raise ConnectionError(f"Dummy server {dest_address} closed")
 
@@ -231,6 +248,8 @@ class DummyClient(Client):
         closed = asyncio.Event()
         client_channel = DummyChannel(q1, q2, closed, local_address=local_address)
         server_channel = DummyChannel(q2, q1, closed, dest_address=local_address)
+        # the server may stop before it gets to handle the channel
+        server._channels.add(server_channel)
 
         conn_coro = server.on_connected(server_channel)
         task = asyncio.create_task(conn_coro)
-- 
2.43.0


From f379d322601540b6f9ac895d2655748d6d109b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 17/47] fix: keep the data and cause of wrapped exceptions

---
 python/xoscar/utils.py | 53 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 3c2f6fb..48d6091 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -79,6 +79,15 @@ def parse_readable_size(value: str | int | float) -> tuple[float, bool]:
         raise ValueError(f"Unknown limitation value: {value}")
 
 
+def _rebuild_wrapped_exception(
+    exc: BaseException, args: tuple, state: tuple
+) -> BaseException:
+    wrapped = wrap_exception(exc, *args)
+    for name, value in zip(("__cause__", "__suppress_context__"), state):
+        getattr(BaseException, name).__set__(wrapped, value)
+    return wrapped
+
+
 def wrap_exception(
     exc: BaseException,
     bases: tuple[Type] | tuple | None = None,
@@ -98,25 +107,53 @@ def wrap_exception(
     def __str__(self):
         return message or super(type(self), self).__str__()
 
+    def __reduce_ex__(self, protocol):
+        args = (bases, wrap_name, message, self.__traceback__, raw_attr_dict)
+        state = (self.__cause__, self.__suppress_context__)
+        return _rebuild_wrapped_exception, (exc, args, state)
+
+    def delegate(name):
+        # this data is not in the instance dict of the cause exception
+        return property(
+            lambda self: getattr(exc, name), lambda self, v: setattr(exc, name, v)
+        )
+
+    exc_type = type(exc)
     traceback = traceback or exc.__traceback__
     bases = bases or ()
-    attr_dict = attr_dict or {}
+    raw_attr_dict = attr_dict or {}
+    attr_dict = {
+        name: delegate(name)
+        for cls in exc_type.__mro__[: exc_type.__mro__.index(BaseException)]
+        for name, attr in vars(cls).items()
+        if (inspect.ismemberdescriptor(attr) or inspect.isgetsetdescriptor(attr))
+        and not name.startswith("__")
+    }
+    attr_dict.update(raw_attr_dict)
     attr_dict.update(
         {
             "__init__": __init__,
             "__getattr__": __getattr__,
             "__str__": __str__,
+            "__reduce_ex__": __reduce_ex__,
             "__wrapname__": wrap_name,
             "__wrapped__": exc,
-            "__module__": type(exc).__module__,
-            "__cause__": exc.__cause__,
-            "__context__": exc.__context__,
-            "__suppress_context__": exc.__suppress_context__,
-            "args": exc.args,
+            "__module__": exc_type.__module__,
         }
     )
-    new_exc_type = type(type(exc).__name__, bases + (type(exc),), attr_dict)
-    return new_exc_type().with_traceback(traceback)
+    new_exc_type = type(exc_type.__name__, bases + (exc_type,), attr_dict)
+    # skip customized `__new__`, the state is copied from the cause exception
+    base_type = next(
+        cls
+        for cls in exc_type.__mro__
+        if inspect.isbuiltin(cls.__dict__.get("__new__"))
+    )
+    new_exc = base_type.__new__(new_exc_type, *exc.args)
+    new_exc.__dict__.update(getattr(exc, "__dict__", {}))
+    BaseException.args.__set__(new_exc, exc.args)  # type: ignore
+    for name in ("__cause__", "__context__", "__suppress_context__"):
+        getattr(BaseException, name).__set__(new_exc, getattr(exc, name))
+    return new_exc.with_traceback(traceback)
 
 
 # from https://github.com/ericvsmith/dataclasses/blob/master/dataclass_tools.py
-- 
2.43.0


From 023426f441481c45e362a40ace2105c5b94ffd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 18/47] fix: transport the cause of exceptions and survive any
 failure to pickle them

---
 python/xoscar/serialization/exception.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/serialization/exception.py b/python/xoscar/serialization/exception.py
index 8cd63df..45c80fd 100644
--- a/python/xoscar/serialization/exception.py
+++ b/python/xoscar/serialization/exception.py
@@ -34,15 +34,25 @@ class UnpickleableError(Exception):
 
 class ExceptionSerializer(Serializer):
     @buffered
-    def serial(self, obj: Exception, context: dict):
+    def serial(self, obj: BaseException, context: dict):
+        # pickle does not care about causes of exceptions
+        chain: list = []
+        e: BaseException | None = obj
+        while e is not None and not any(e is item[0] for item in chain):
+            chain.append((e, e.__cause__, e.__suppress_context__))
+            e = e.__cause__
         try:
-            buffers = pickle_buffers(obj)
-        except (TypeError, pickle.PicklingError):
-            buffers = pickle_buffers(UnpickleableError(obj))
+            buffers = pickle_buffers(chain)
+        except Exception:
+            buffers = pickle_buffers([(UnpickleableError(obj), None, False)])
         return (), buffers, True
 
     def deserial(self, serialized: tuple, context: dict, subs: list):
-        return unpickle_buffers(subs)
+        chain = unpickle_buffers(subs)
+        for e, cause, suppress_context in chain:
+            BaseException.__cause__.__set__(e, cause)  # type: ignore
+            BaseException.__suppress_context__.__set__(e, suppress_context)  # type: ignore
+        return chain[0][0]
 
 
-ExceptionSerializer.register(Exception)
+ExceptionSerializer.register(BaseException)
-- 
2.43.0


From d7eac1f6f1b276d83e5695bc42275f481569c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 19/47] fix: answer messages that cannot be deserialized with
 their error

---
 python/xoscar/backends/pool.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index cb61054..4e85be7 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -61,6 +61,7 @@ from .message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    DeserializeMessageFailed,
     DestroyActorMessage,
     ErrorMessage,
     ForwardMessage,
@@ -584,6 +585,14 @@ class AbstractActorPool(ABC):
                         # close failed, ignore
                         pass
                     return
+                except DeserializeMessageFailed as e:
+                    # the sender is still waiting for the result
+                    with _ErrorProcessor(
+                        self.external_address, e.message_id, DEFAULT_PROTOCOL
+                    ) as processor:
+                        raise e.__cause__  # type: ignore
+                    asyncio.create_task(self._send_channel(processor.result, channel))
+                    continue
                 if await self._handle_ucx_meta_message(message, channel):
                     continue
                 asyncio.create_task(self.process_message(message, channel))
-- 
2.43.0


From 3b8a50089b71e0576bda9774e6fc1a345ed28618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 20/47] fix: pickle builtin exceptions with all their data

---
 python/xoscar/backends/message.pyx | 32 +++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/message.pyx b/python/xoscar/backends/message.pyx
index 85b610a..3cc299f 100644
--- a/python/xoscar/backends/message.pyx
+++ b/python/xoscar/backends/message.pyx
@@ -14,8 +14,9 @@
 # limitations under the License.
 
 import asyncio
+import copyreg
 from enum import Enum
-from types import TracebackType
+from types import FunctionType, TracebackType
 from typing import Any, Type
 
 from tblib import pickling_support
@@ -27,8 +28,37 @@ from ..utils import wrap_exception
 
 from .._utils cimport new_random_id
 
+
+def _unpickle_exception(func, args, cause, traceback, context, suppress_context):
+    error = func(*args).with_traceback(traceback)
+    error.__cause__ = cause
+    error.__context__ = context
+    error.__suppress_context__ = suppress_context
+    return error
+
+
+def _pickle_exception(error):
+    func, args, *state = error.__reduce__()
+    return (
+        _unpickle_exception,
+        (
+            func,
+            args,
+            error.__cause__,
+            error.__traceback__,
+            error.__context__,
+            error.__suppress_context__,
+        ),
+        *state,
+    )
+
+
 # make sure traceback can be pickled
 pickling_support.install()
+for _tp in list(copyreg.dispatch_table):
+    # exceptions initialized in C have to be created with their arguments
+    if issubclass(_tp, BaseException) and not isinstance(_tp.__init__, FunctionType):
+        copyreg.pickle(_tp, _pickle_exception)
 
 cdef int _DEFAULT_PROTOCOL = 0
 DEFAULT_PROTOCOL = _DEFAULT_PROTOCOL
-- 
2.43.0


From 98b2954fe22a4518957ad8f001637a2ea8abbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 21/47] fix: do not replace a NotImplementedError of an
 extensible method

---
 python/xoscar/batch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 4469182..9734c4f 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -97,6 +97,8 @@ class _ExtensibleCallable:
             if self.has_single_func:
                 return await self.func(*args, **kwargs)
         except NotImplementedError:
+            if self.batch_func is None:
+                raise
             self.has_single_func = False
 
         if self.batch_func is not None:
@@ -109,6 +111,8 @@ class _ExtensibleCallable:
             if self.has_single_func:
                 return self.func(*args, **kwargs)
         except NotImplementedError:
+            if self.batch_func is None:
+                raise
             self.has_single_func = False
 
         if self.batch_func is not None:
-- 
2.43.0


From d58c44f8174e33351d7741f3b860806fd87b915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 22/47] fix: cancel redirected messages in the sub pool as well

---
 python/xoscar/backends/pool.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 4e85be7..c2475ba 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1047,6 +1047,23 @@ class MainActorPoolBase(ActorPoolBase):
     def _sub_processes(self):
         return self.sub_processes
 
+    async def _redirect(self, address: str, message: _MessageBase) -> ResultMessageType:
+        """Let a sub pool process the message, cancellation is redirected as well."""
+        call = asyncio.create_task(self.call(address, message))
+        try:
+            return await asyncio.shield(call)
+        except asyncio.CancelledError:
+            if not call.done():
+                cancel_message = CancelMessage(
+                    new_message_id(),
+                    address,
+                    message.message_id,
+                    protocol=message.protocol,
+                )
+                await self.call(address, cancel_message)
+            # the sub pool decides what becomes of the message
+            return await call
+
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         with _ErrorProcessor(
@@ -1157,7 +1174,7 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
             message_trace=message.message_trace,
         )
-        return await self.call(actor_ref.address, new_send_message)
+        return await self._redirect(actor_ref.address, new_send_message)
 
     @implements(AbstractActorPool.tell)
     async def tell(self, message: TellMessage) -> ResultMessageType:
@@ -1177,7 +1194,7 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
             message_trace=message.message_trace,
         )
-        return await self.call(actor_ref.address, new_tell_message)
+        return await self._redirect(actor_ref.address, new_tell_message)
 
     @implements(AbstractActorPool.actor_ref)
     async def actor_ref(self, message: ActorRefMessage) -> ResultMessageType:
@@ -1207,7 +1224,10 @@ class MainActorPoolBase(ActorPoolBase):
 
     @implements(AbstractActorPool.cancel)
     async def cancel(self, message: CancelMessage) -> ResultMessageType:
-        if message.address == self.external_address:
+        if (
+            message.address == self.external_address
+            or message.cancel_message_id in self._process_messages
+        ):
             # local message
             return await super().cancel(message)
         # redirect to sub pool
-- 
2.43.0


From 84b273b2c9f30d7513c46801d1ffa7fa868aa2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 23/47] fix: local references do not call actors that are
 destroyed or replaced

---
 python/xoscar/core.pxd |  2 +-
 python/xoscar/core.pyx | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/python/xoscar/core.pxd b/python/xoscar/core.pxd
index 3d6bae0..0033476 100644
--- a/python/xoscar/core.pxd
+++ b/python/xoscar/core.pxd
@@ -24,7 +24,7 @@ cdef class ActorRef:
 
 cdef class LocalActorRef(ActorRef):
     cdef object _actor_weakref
-    cdef _weakref_local_actor(self)
+    cdef _local_actor(self)
 
 
 cdef class BufferRef:
diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 8bf72e0..7870d36 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -248,19 +248,27 @@ cdef class LocalActorRef(ActorRef):
         super().__init__(actor._address, actor._uid)
         self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
 
-    cdef _weakref_local_actor(self):
-        actor = _get_local_actor(self.address, self.uid)
-        # Make sure the input actor is an instance of _BaseActor.
-        if actor is not None and isinstance(actor, _BaseActor):
-            self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
+    cdef _local_actor(self):
+        actor = self._actor_weakref()
+        pool_ref = _local_pool_map.get(self.address)
+        pool = None if pool_ref is None else pool_ref()
+        if pool is None:
             return actor
-        return None
+        # The actor may have been destroyed, or created again,
+        # while its instance is still alive.
+        pool_actor = pool._actors.get(self.uid)
+        # Make sure the input actor is an instance of _BaseActor.
+        if pool_actor is None or not isinstance(pool_actor, _BaseActor):
+            return None
+        if pool_actor is not actor:
+            self._actor_weakref = weakref.ref(pool_actor, lambda _: self._methods.clear())
+        return pool_actor
 
     def __getattr__(self, item):
         try:
             return self._methods[item]
         except KeyError:
-            actor = self._actor_weakref() or self._weakref_local_actor()
+            actor = self._local_actor()
             if actor is None:
                 raise ActorNotExist(f"Actor {self.uid} does not exist") from None
             # For detecting the attribute error.
@@ -306,7 +314,7 @@ cdef class LocalActorRefMethod:
         self._method_name = method_name
 
     cdef tuple _get_referent(self):
-        actor = self._local_actor_ref._actor_weakref() or self._local_actor_ref._weakref_local_actor()
+        actor = self._local_actor_ref._local_actor()
         if actor is None:
             raise ActorNotExist(f"Actor {self._local_actor_ref.uid} does not exist.")
         method = getattr(actor, self._method_name)
-- 
2.43.0


From 67fff64ede6471ff3023c169848b32a9a6dc5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 24/47] fix: destroying an actor of a sub pool does not destroy
 one of another pool with the same id

---
 python/xoscar/backends/message.pyi |  1 +
 python/xoscar/backends/message.pyx |  1 +
 python/xoscar/backends/pool.py     | 19 ++++++++++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/message.pyi b/python/xoscar/backends/message.pyi
index 3a9c3d0..508e709 100644
--- a/python/xoscar/backends/message.pyi
+++ b/python/xoscar/backends/message.pyi
@@ -47,6 +47,7 @@ class ControlMessageType(Enum):
     add_sub_pool_actor = 5
     # indicate that the following data will be used for copy_to
     switch_to_copy_to = 6
+    remove_sub_pool_actor = 7
 
 class _MessageBase:
     message_type: MessageType
diff --git a/python/xoscar/backends/message.pyx b/python/xoscar/backends/message.pyx
index 3cc299f..8778189 100644
--- a/python/xoscar/backends/message.pyx
+++ b/python/xoscar/backends/message.pyx
@@ -89,6 +89,7 @@ class ControlMessageType(Enum):
     add_sub_pool_actor = 5
     # the new channel created is for data transfer only
     switch_to_copy_to = 6
+    remove_sub_pool_actor = 7
 
 
 cdef class _MessageSerialItem:
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index c2475ba..132facd 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -914,7 +914,14 @@ class SubActorPoolBase(ActorPoolBase):
     async def notify_main_pool_to_destroy(
         self, message: DestroyActorMessage
     ):  # pragma: no cover
-        await self.call(self._main_address, message)
+        # the actor is gone here, the main pool just has to forget it
+        unreg_message = ControlMessage(
+            new_message_id(),
+            self.external_address,
+            ControlMessageType.remove_sub_pool_actor,
+            (self.external_address, message.actor_ref.uid),
+        )
+        await self.call(self._main_address, unreg_message)
 
     async def notify_main_pool_to_create(self, message: CreateActorMessage):
         reg_message = ControlMessage(
@@ -1297,6 +1304,16 @@ class MainActorPoolBase(ActorPoolBase):
                 processor.result = ResultMessage(
                     message.message_id, True, protocol=message.protocol
                 )
+            elif (
+                message.control_message_type == ControlMessageType.remove_sub_pool_actor
+            ):
+                address, actor_id = message.content
+                self._allocated_actors[address].pop(
+                    create_actor_ref(address, to_binary(actor_id)), None
+                )
+                processor.result = ResultMessage(
+                    message.message_id, True, protocol=message.protocol
+                )
             else:
                 processor.result = await self.call(message.address, message)
         return processor.result
-- 
2.43.0


From d58b3c3da758c3b55fe076a01356aaa535314760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 25/47] fix: destroy an actor once and forget it only when it
 is destroyed

---
 python/xoscar/backends/pool.py | 45 +++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 132facd..404967f 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -148,6 +148,7 @@ class AbstractActorPool(ABC):
         "_stopped",
         "_actors",
         "_caller",
+        "_destroying_actors",
         "_process_messages",
         "_asyncio_task_timeout_detector_task",
     )
@@ -186,6 +187,8 @@ class AbstractActorPool(ABC):
         # states
         # actor id -> actor
         self._actors: dict[bytes, Actor] = dict()
+        # ids of actors that are being destroyed
+        self._destroying_actors: set[bytes] = set()
         # message id -> future
         self._process_messages = dict()
 
@@ -657,18 +660,27 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             self.external_address, message.message_id, message.protocol
         ) as processor:
             actor_id = message.actor_ref.uid
-            try:
-                actor = self._actors[actor_id]
-            except KeyError:
+            actor = self._actors.get(actor_id)
+            if actor is None or actor_id in self._destroying_actors:
                 raise ActorNotExist(f"Actor {actor_id} does not exist")
-            await self._run_coro(message.message_id, actor.__pre_destroy__())
-            del self._actors[actor_id]
+            self._destroying_actors.add(actor_id)
+            try:
+                await self._run_coro(message.message_id, actor.__pre_destroy__())
+                try:
+                    await self._on_actor_destroyed(message)
+                finally:
+                    self._actors.pop(actor_id, None)
+            finally:
+                self._destroying_actors.discard(actor_id)
 
             processor.result = ResultMessage(
                 message.message_id, actor_id, protocol=message.protocol
             )
         return processor.result
 
+    async def _on_actor_destroyed(self, message: DestroyActorMessage):
+        """Called when an actor is about to be removed from the pool."""
+
     @implements(AbstractActorPool.actor_ref)
     async def actor_ref(self, message: ActorRefMessage) -> ResultMessageType:
         with _ErrorProcessor(
@@ -953,13 +965,10 @@ class SubActorPoolBase(ActorPoolBase):
             result.message_id = message.message_id
         return result
 
-    @implements(AbstractActorPool.destroy_actor)
-    async def destroy_actor(self, message: DestroyActorMessage) -> ResultMessageType:
-        result = await super().destroy_actor(message)
-        if isinstance(result, ResultMessage) and not message.from_main:
+    async def _on_actor_destroyed(self, message: DestroyActorMessage):
+        if not message.from_main:
             # sync back to main actor pool
             await self.notify_main_pool_to_destroy(message)
-        return result
 
     @implements(AbstractActorPool.handle_control_command)
     async def handle_control_command(
@@ -1149,19 +1158,27 @@ class MainActorPoolBase(ActorPoolBase):
             result = await super().destroy_actor(message)
             if result.message_type == MessageType.error:
                 return result
-            del self._allocated_actors[self.external_address][real_actor_ref]
+            self._allocated_actors[self.external_address].pop(real_actor_ref, None)
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-        # remove allocated actor ref
-        self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
+        allocated = self._allocated_actors[real_actor_ref.address]
+        value = allocated.get(real_actor_ref)
         new_destroy_message = DestroyActorMessage(
             message.message_id,
             real_actor_ref,
             from_main=True,
             protocol=message.protocol,
         )
-        return await self.call(real_actor_ref.address, new_destroy_message)
+        result = await self._redirect(real_actor_ref.address, new_destroy_message)
+        if isinstance(result, ResultMessage) and (
+            # it may have been created again in the meantime
+            allocated.get(real_actor_ref)
+            is value
+        ):
+            # remove allocated actor ref
+            allocated.pop(real_actor_ref, None)
+        return result
 
     @implements(AbstractActorPool.send)
     async def send(self, message: SendMessage) -> ResultMessageType:
-- 
2.43.0


From ed549ee8c33de878e3f50bd0a1c7e194eb57c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 26/47] fix: remove actors whose start-up hook failed

---
 python/xoscar/backends/pool.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 404967f..d6b64e8 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -635,7 +635,13 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             actor.uid = actor_id
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
-            await self._run_coro(message.message_id, actor.__post_create__())
+            try:
+                await self._run_coro(message.message_id, actor.__post_create__())
+            except BaseException:
+                # creation failed, do not leave a half-made actor
+                if self._actors.get(actor_id) is actor:
+                    del self._actors[actor_id]
+                raise
 
             proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
@@ -947,7 +953,7 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         result = await super().create_actor(message)
-        if not message.from_main:
+        if isinstance(result, ResultMessage) and not message.from_main:
             await self.notify_main_pool_to_create(message)
         return result
 
-- 
2.43.0


From 3b66b0807e59743ecd06a221fcbb106834ecf59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 27/47] fix: concurrent and cancelled creations do not leave or
 lose placeholders

---
 python/xoscar/backends/allocate_strategy.py |  2 +-
 python/xoscar/backends/indigen/pool.py      |  6 ++-
 python/xoscar/backends/pool.py              | 56 ++++++++++-----------
 3 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/python/xoscar/backends/allocate_strategy.py b/python/xoscar/backends/allocate_strategy.py
index ff5474b..d46142a 100644
--- a/python/xoscar/backends/allocate_strategy.py
+++ b/python/xoscar/backends/allocate_strategy.py
@@ -24,7 +24,7 @@ from .config import ActorPoolConfig
 from .message import _MessageBase
 
 allocated_value = Tuple["AllocateStrategy", Optional[_MessageBase]]
-allocated_values = Dict[Optional[ActorRef], allocated_value]
+allocated_values = Dict[ActorRef, allocated_value]
 allocated_type = Dict[str, allocated_values]
 
 
diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 9254bf6..91d6ceb 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -35,6 +35,7 @@ from typing import List, Optional
 import psutil
 
 from ..._utils import reset_id_random_seed
+from ...core import ActorRef
 from ...utils import ensure_coverage
 from ..config import ActorPoolConfig
 from ..message import (
@@ -501,7 +502,10 @@ class MainActorPool(MainActorPoolBase):
 
         if self._auto_recover == "actor":
             # need to recover all created actors
-            for _, message in self._allocated_actors[address].values():
+            for ref, (_, message) in list(self._allocated_actors[address].items()):
+                if not isinstance(ref, ActorRef):
+                    # placeholder of an actor that is being created
+                    continue
                 create_actor_message: CreateActorMessage = message  # type: ignore
                 await self.call(address, create_actor_message)
 
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index d6b64e8..174d790 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1100,41 +1100,41 @@ class MainActorPoolBase(ActorPoolBase):
                     self._config, self._allocated_actors
                 )
                 # set placeholder to make sure this label is occupied
-                self._allocated_actors[address][None] = (allocate_strategy, message)
-            if address == self.external_address:
-                # creating actor on main actor pool
-                result = await super().create_actor(message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[self.external_address][result.result] = (
-                        allocate_strategy,
-                        message,
-                    )
-                processor.result = result
-            else:
-                # creating actor on sub actor pool
-                # rewrite allocate strategy to AddressSpecified
-                new_allocate_strategy = AddressSpecified(address)
-                new_create_actor_message = CreateActorMessage(
-                    message.message_id,
-                    message.actor_cls,
-                    message.actor_id,
-                    message.args,
-                    message.kwargs,
-                    allocate_strategy=new_allocate_strategy,
-                    from_main=True,
-                    protocol=message.protocol,
-                    message_trace=message.message_trace,
+                placeholder = object()
+                self._allocated_actors[address][placeholder] = (  # type: ignore
+                    allocate_strategy,
+                    message,
                 )
-                result = await self.call(address, new_create_actor_message)
+            try:
+                if address == self.external_address:
+                    # creating actor on main actor pool
+                    result = await super().create_actor(message)
+                    new_create_actor_message = message
+                else:
+                    # creating actor on sub actor pool
+                    # rewrite allocate strategy to AddressSpecified
+                    new_allocate_strategy = AddressSpecified(address)
+                    new_create_actor_message = CreateActorMessage(
+                        message.message_id,
+                        message.actor_cls,
+                        message.actor_id,
+                        message.args,
+                        message.kwargs,
+                        allocate_strategy=new_allocate_strategy,
+                        from_main=True,
+                        protocol=message.protocol,
+                        message_trace=message.message_trace,
+                    )
+                    result = await self._redirect(address, new_create_actor_message)
                 if isinstance(result, ResultMessage):
                     self._allocated_actors[address][result.result] = (
                         allocate_strategy,
                         new_create_actor_message,
                     )
                 processor.result = result
-
-            # revert placeholder
-            self._allocated_actors[address].pop(None, None)
+            finally:
+                # revert placeholder
+                self._allocated_actors[address].pop(placeholder, None)  # type: ignore
 
         return processor.result
 
-- 
2.43.0


From d63b972ea01f6772ced4f17043fc64c2e1b8d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 28/47] fix: cancelling wait_for cancels the awaited call

---
 python/xoscar/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index a290bb4..f301502 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -206,7 +206,7 @@ async def wait_for(fut: Awaitable[Any], timeout: int | float | None = None) -> A
 
     try:
         return await asyncio.wait_for(new_fut, timeout)
-    except asyncio.TimeoutError:
+    except (asyncio.TimeoutError, asyncio.CancelledError):
         if not task.done():
             try:
                 task.cancel()  # Try to cancel without waiting
-- 
2.43.0


From bc7259f444e7737654686cdb9d617ab7b3129817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 29/47] fix: cancel calls through the proxies they were made
 through

---
 python/xoscar/backends/context.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 89582b1..85e9b73 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -110,12 +110,18 @@ class IndigenActorContext(BaseActorContext):
         else:
             raise message.as_instanceof_cause()
 
-    async def _wait(self, future: asyncio.Future, address: str, message: _MessageBase):
+    async def _wait(
+        self,
+        future: asyncio.Future,
+        address: str,
+        message: _MessageBase,
+        proxy_addresses: list[str] | None = None,
+    ):
         try:
             await asyncio.shield(future)
         except asyncio.CancelledError:
             try:
-                await self.cancel(address, message.message_id)
+                await self.cancel(address, message.message_id, proxy_addresses)
             except CannotCancelTask:
                 # cancel failed, already finished
                 raise asyncio.CancelledError
@@ -161,7 +167,7 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(future, actor_ref.address, message, actor_ref.proxy_addresses)  # type: ignore
         return self._process_result_message(result)
 
     async def destroy_actor(self, actor_ref: ActorRef):
@@ -174,7 +180,7 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(future, actor_ref.address, message, actor_ref.proxy_addresses)  # type: ignore
         return self._process_result_message(result)
 
     async def kill_actor(self, actor_ref: ActorRef, force: bool = True):
@@ -221,7 +227,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)
+        result = await self._wait(
+            future, actor_ref.address, message, actor_ref.proxy_addresses
+        )
         res = self._process_result_message(result)
         if res.address != connect_addr:
             res.address = fix_all_zero_ip(res.address, connect_addr)
@@ -258,16 +266,21 @@ class IndigenActorContext(BaseActorContext):
                 proxy_addresses=actor_ref.proxy_addresses,
             )
             if wait_response:
-                result = await self._wait(future, actor_ref.address, send_message)  # type: ignore
+                result = await self._wait(future, actor_ref.address, send_message, actor_ref.proxy_addresses)  # type: ignore
                 return self._process_result_message(result)
             else:
                 return future
 
-    async def cancel(self, address: str, cancel_message_id: bytes):
+    async def cancel(
+        self,
+        address: str,
+        cancel_message_id: bytes,
+        proxy_addresses: list[str] | None = None,
+    ):
         message = CancelMessage(
             new_message_id(), address, cancel_message_id, protocol=DEFAULT_PROTOCOL
         )
-        result = await self._call(address, message)
+        result = await self._call(address, message, proxy_addresses=proxy_addresses)
         return self._process_result_message(result)  # type: ignore
 
     async def wait_actor_pool_recovered(
-- 
2.43.0


From cd85ed5cf73f5963a3467b120ed3e52ded15124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 30/47] fix: cancel calls whose message is being sent

---
 python/xoscar/backends/core.py | 32 +++++++++++++++++++++++++++++++-
 python/xoscar/backends/pool.py |  5 +----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index ea983b9..4e66b2b 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -28,12 +28,14 @@ from ..errors import ServerClosed
 from ..profiling import get_profiling_data
 from .communication import ChannelType, Client, UCXClient
 from .message import (
+    CancelMessage,
     DeserializeMessageFailed,
     ErrorMessage,
     ForwardMessage,
     MessageType,
     ResultMessage,
     _MessageBase,
+    new_message_id,
 )
 from .router import Router
 
@@ -217,6 +219,22 @@ class ActorCallerThreadLocal:
         client = await self.get_client(
             router, dest_address, proxy_addresses=proxy_addresses
         )
+        try:
+            return await self.call_with_client(
+                client, self._wrap_message(client, dest_address, message), wait
+            )
+        except asyncio.CancelledError:
+            if not wait:
+                # the message may have been sent already, do not leave it running
+                asyncio.create_task(
+                    self._cancel_sent_message(client, dest_address, message)
+                )
+            raise
+
+    @staticmethod
+    def _wrap_message(
+        client: Client, dest_address: str, message: _MessageBase
+    ) -> _MessageBase:
         if (
             client.channel_type == ChannelType.remote
             and client.dest_address != dest_address
@@ -226,7 +244,19 @@ class ActorCallerThreadLocal:
             message = ForwardMessage(
                 message_id=message.message_id, address=dest_address, raw_message=message
             )
-        return await self.call_with_client(client, message, wait)
+        return message
+
+    async def _cancel_sent_message(
+        self, client: Client, dest_address: str, message: _MessageBase
+    ):
+        cancel_message = CancelMessage(
+            new_message_id(), dest_address, message.message_id
+        )
+        try:
+            # nobody waits for the result
+            await client.send(self._wrap_message(client, dest_address, cancel_message))
+        except Exception as e:
+            logger.debug("Failed to cancel message to %s: %s", dest_address, e)
 
     async def stop(self):
         try:
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 174d790..7f2df00 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1254,10 +1254,7 @@ class MainActorPoolBase(ActorPoolBase):
 
     @implements(AbstractActorPool.cancel)
     async def cancel(self, message: CancelMessage) -> ResultMessageType:
-        if (
-            message.address == self.external_address
-            or message.cancel_message_id in self._process_messages
-        ):
+        if message.address not in self.sub_processes:
             # local message
             return await super().cancel(message)
         # redirect to sub pool
-- 
2.43.0


From 3e23916cb50c5ee016da96321cc5f9a1c04154c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 31/47] fix: wrapped exceptions are pickled with their type

---
 python/xoscar/utils.py | 50 +++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 48d6091..91059e3 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -79,13 +79,28 @@ def parse_readable_size(value: str | int | float) -> tuple[float, bool]:
         raise ValueError(f"Unknown limitation value: {value}")
 
 
-def _rebuild_wrapped_exception(
-    exc: BaseException, args: tuple, state: tuple
+def _new_wrapped_exception(
+    wrapped_type: Type,
+    state: dict,
+    traceback: TracebackType | None,
+    cause: BaseException | None,
+    context: BaseException | None,
+    suppress_context: bool,
 ) -> BaseException:
-    wrapped = wrap_exception(exc, *args)
-    for name, value in zip(("__cause__", "__suppress_context__"), state):
-        getattr(BaseException, name).__set__(wrapped, value)
-    return wrapped
+    exc = wrapped_type.__wrapped__
+    # skip customized `__new__`, the state is copied from the cause exception
+    base_type = next(
+        cls
+        for cls in type(exc).__mro__
+        if inspect.isbuiltin(cls.__dict__.get("__new__"))
+    )
+    new_exc = base_type.__new__(wrapped_type, *exc.args)
+    new_exc.__dict__.update(state)
+    BaseException.args.__set__(new_exc, exc.args)  # type: ignore
+    BaseException.__cause__.__set__(new_exc, cause)  # type: ignore
+    BaseException.__context__.__set__(new_exc, context)  # type: ignore
+    BaseException.__suppress_context__.__set__(new_exc, suppress_context)  # type: ignore
+    return new_exc.with_traceback(traceback)
 
 
 def wrap_exception(
@@ -108,9 +123,8 @@ def wrap_exception(
         return message or super(type(self), self).__str__()
 
     def __reduce_ex__(self, protocol):
-        args = (bases, wrap_name, message, self.__traceback__, raw_attr_dict)
-        state = (self.__cause__, self.__suppress_context__)
-        return _rebuild_wrapped_exception, (exc, args, state)
+        args = (self.__traceback__, self.__cause__, None, self.__suppress_context__)
+        return _new_wrapped_exception, (type(self), self.__dict__, *args)
 
     def delegate(name):
         # this data is not in the instance dict of the cause exception
@@ -142,18 +156,14 @@ def wrap_exception(
         }
     )
     new_exc_type = type(exc_type.__name__, bases + (exc_type,), attr_dict)
-    # skip customized `__new__`, the state is copied from the cause exception
-    base_type = next(
-        cls
-        for cls in exc_type.__mro__
-        if inspect.isbuiltin(cls.__dict__.get("__new__"))
+    return _new_wrapped_exception(
+        new_exc_type,
+        getattr(exc, "__dict__", {}),
+        traceback,
+        exc.__cause__,
+        exc.__context__,
+        exc.__suppress_context__,
     )
-    new_exc = base_type.__new__(new_exc_type, *exc.args)
-    new_exc.__dict__.update(getattr(exc, "__dict__", {}))
-    BaseException.args.__set__(new_exc, exc.args)  # type: ignore
-    for name in ("__cause__", "__context__", "__suppress_context__"):
-        getattr(BaseException, name).__set__(new_exc, getattr(exc, name))
-    return new_exc.with_traceback(traceback)
 
 
 # from https://github.com/ericvsmith/dataclasses/blob/master/dataclass_tools.py
-- 
2.43.0


From e25b89232791f54f1cd804da7411c51a7fee6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 32/47] fix: only replace exceptions that cannot be pickled,
 report other failures to send them

---
 python/xoscar/serialization/exception.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/exception.py b/python/xoscar/serialization/exception.py
index 45c80fd..6326fa9 100644
--- a/python/xoscar/serialization/exception.py
+++ b/python/xoscar/serialization/exception.py
@@ -43,7 +43,7 @@ class ExceptionSerializer(Serializer):
             e = e.__cause__
         try:
             buffers = pickle_buffers(chain)
-        except Exception:
+        except (TypeError, pickle.PicklingError):
             buffers = pickle_buffers([(UnpickleableError(obj), None, False)])
         return (), buffers, True
 
-- 
2.43.0


From 4e93fb04af6aa863e5e14b50f6b40dbee4fdc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 33/47] fix: local references of actors overriding uid,
 cancellations do not overtake the calls to cancel

---
 python/xoscar/backends/pool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 7f2df00..69ccf28 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -633,6 +633,8 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
 
             actor = message.actor_cls(*message.args, **message.kwargs)
             actor.uid = actor_id
+            # attribute uid may be overridden by users
+            actor._set_uid(actor_id)
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
             try:
@@ -1257,8 +1259,8 @@ class MainActorPoolBase(ActorPoolBase):
         if message.address not in self.sub_processes:
             # local message
             return await super().cancel(message)
-        # redirect to sub pool
-        return await self.call(message.address, message)
+        # redirect to sub pool, in order with the message to cancel
+        return await self._redirect(message.address, message)
 
     @implements(AbstractActorPool.handle_control_command)
     async def handle_control_command(
-- 
2.43.0


From 9c1c4e00f8ffd97894c77813b377ee68ac2422d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 34/47] fix: generators: end of iteration, actors with their
 own __init__, releasing without blocking the loop

---
 python/xoscar/api.py | 52 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index f301502..ecf82eb 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -41,7 +41,14 @@ from urllib.parse import urlparse
 from .aio import AioFileObject
 from .backend import get_backend
 from .context import get_context
-from .core import ActorRef, BufferRef, FileObjectRef, _Actor, _StatelessActor
+from .core import (
+    ActorRef,
+    BufferRef,
+    FileObjectRef,
+    _Actor,
+    _StatelessActor,
+    create_local_actor_ref,
+)
 
 if TYPE_CHECKING:
     from .backends.config import ActorPoolConfig
@@ -327,6 +334,18 @@ def setup_cluster(address_to_resources: Dict[str, Dict[str, Number]]):
 T = TypeVar("T")
 
 
+class _GeneratorExhausted(Exception):
+    """Raised when a generator of an actor has no more items."""
+
+
+async def _destroy_generator(uid: str, actor_addr: str, actor_uid: str):
+    try:
+        ref = await actor_ref(address=actor_addr, uid=actor_uid)
+        await ref.__xoscar_destroy_generator__(uid)
+    except Exception:  # the actor may have gone
+        logger.debug("Destroy generator %s failed", uid, exc_info=True)
+
+
 class IteratorWrapper(Generic[T]):
     def __init__(self, uid: str, actor_addr: str, actor_uid: str):
         self._uid = uid
@@ -348,11 +367,22 @@ class IteratorWrapper(Generic[T]):
         # but currently it's the only way to GC the generator.
         # TODO(codingl2k1): This __del__ may hangs if the program is exiting.
         if self._gc_destroy:
-            thread = threading.Thread(
-                target=asyncio.run, args=(self.destroy(),), daemon=True
-            )
+            # do not refer to this object any more
+            coro = _destroy_generator(self._uid, self._actor_addr, self._actor_uid)
+            try:
+                loop = asyncio.get_running_loop()
+            except RuntimeError:
+                loop = None
+            if loop is not None:
+                # Never block the event loop, the actor may be waiting for it.
+                if create_local_actor_ref(self._actor_addr, self._actor_uid):
+                    loop.create_task(coro)
+                    return
+            thread = threading.Thread(target=asyncio.run, args=(coro,), daemon=True)
             thread.start()
-            thread.join()
+            if loop is None:
+                # the actor pool may not be running now
+                thread.join(timeout=3)
 
     def __aiter__(self):
         return self
@@ -373,8 +403,8 @@ class IteratorWrapper(Generic[T]):
             assert self._actor_ref is not None
             return await self._actor_ref.__xoscar_next__(self._uid)
         except Exception as e:
-            if "StopIteration" in str(e):
-                raise StopAsyncIteration
+            if isinstance(e, _GeneratorExhausted):
+                raise StopAsyncIteration from None
             else:
                 raise
 
@@ -392,7 +422,11 @@ class AsyncActorMixin:
 
     def __init__(self, *args, **kwargs) -> None:
         super().__init__()
-        self._generators: Dict[str, IteratorWrapper] = {}
+
+    @functools.cached_property
+    def _generators(self) -> Dict[str, Any]:
+        # created lazily, `__init__` may be overridden without being called
+        return {}
 
     async def __post_create__(self):
         """
@@ -466,7 +500,7 @@ class AsyncActorMixin:
             if r is stop:
                 await self.__xoscar_destroy_generator__(generator_uid)
                 del gen  # Avoid exception hold generator reference.
-                raise Exception("StopIteration")
+                raise _GeneratorExhausted("StopIteration")
             else:
                 return r
         else:
-- 
2.43.0


From 73e167b003394cedc308fbebc3bfcff49d1fbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 35/47] fix: copy_to raises when the copy failed, destinations
 are never overrun silently

---
 python/xoscar/backends/context.py | 17 +++++++++++------
 python/xoscar/backends/pool.py    |  5 +++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 85e9b73..86aa198 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -373,11 +373,12 @@ class IndigenActorContext(BaseActorContext):
         client = await self._get_client(address)
         if isinstance(client, UCXClient):
             message = [(buf.address, buf.uid) for buf in remote_buffer_refs]
-            await self._call_send_buffers(
+            result = await self._call_send_buffers(
                 client,
                 local_buffers,
                 self._gen_switch_to_copy_to_control_message(message),
             )
+            self._process_result_message(result)  # type: ignore
         else:
             # ``local_buffers`` will be divided into buffers of the specified block size for transmission.
             # Smaller buffers will be accumulated and sent together,
@@ -398,9 +399,10 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, remain, l_buf[:remain])
                     )
-                    await self._call_with_client(
+                    result = await self._call_with_client(
                         client, self._gen_copy_to_buffers_message(one_block_data)
                     )
+                    self._process_result_message(result)  # type: ignore
                     one_block_data = []
                     current_buf_size = 0
                     last_start += remain
@@ -410,12 +412,13 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, len(l_buf), l_buf)
                     )
-                    current_buf_size = len(l_buf)
+                    current_buf_size += len(l_buf)
 
             if one_block_data:
-                await self._call_with_client(
+                result = await self._call_with_client(
                     client, self._gen_copy_to_buffers_message(one_block_data)
                 )
+                self._process_result_message(result)  # type: ignore
 
     async def copy_to_fileobjs(
         self,
@@ -438,7 +441,8 @@ class IndigenActorContext(BaseActorContext):
                     current_file_size += len(file_data)
                     if current_file_size >= block_size:
                         message = self._gen_copy_to_fileobjs_message(one_block_data)
-                        await self._call_with_client(client, message)
+                        result = await self._call_with_client(client, message)
+                        self._process_result_message(result)  # type: ignore
                         one_block_data.clear()
                         current_file_size = 0
                 else:
@@ -446,5 +450,6 @@ class IndigenActorContext(BaseActorContext):
 
         if current_file_size > 0:
             message = self._gen_copy_to_fileobjs_message(one_block_data)
-            await self._call_with_client(client, message)
+            result = await self._call_with_client(client, message)
+            self._process_result_message(result)  # type: ignore
             one_block_data.clear()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 69ccf28..3a00488 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -530,6 +530,11 @@ class AbstractActorPool(ABC):
     async def handle_copy_to_buffers_message(self, message) -> ResultMessage:
         for addr, uid, start, _len, data in message.content:
             buffer = BufferRef.get_buffer(BufferRef(addr, uid))
+            if start + _len > len(buffer):
+                raise ValueError(
+                    f"Cannot copy to [{start}, {start + _len}) of a buffer "
+                    f"whose length is {len(buffer)}"
+                )
             buffer[start : start + _len] = data
         return ResultMessage(message_id=message.message_id, result=True)
 
-- 
2.43.0


From 2a18a0b21b15900c46c7a705d0d436fea559205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 36/47] fix: requirements keep extras and urls, markers compare
 versions and missing values

---
 python/xoscar/virtualenv/core.py | 67 ++++++++++++++++++++------------
 python/xoscar/virtualenv/uv.py   |  9 ++++-
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 709eacd..bd6ae8c 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -18,6 +18,7 @@ import ast
 import importlib
 import json
 import operator
+import re
 from abc import ABC, abstractmethod
 from pathlib import Path
 
@@ -137,28 +138,27 @@ def substitute_variables(marker_str: str, variables: dict) -> str:
     Returns:
         Marker string with placeholders replaced
     """
-    result = marker_str
+    if not variables:
+        return marker_str
 
-    for var_name, var_value in variables.items():
-        placeholder = f"#{var_name}#"
-        if placeholder not in result:
-            continue
+    def _format(match: re.Match) -> str:
+        var_value = variables[match.group(1)]
 
         # Format value based on type
         if var_value is None:
-            formatted = "None"
+            return "None"
         elif isinstance(var_value, bool):
             # Boolean: use Python literal (True/False) without quotes
-            formatted = str(var_value)  # True -> "True", False -> "False"
+            return str(var_value)  # True -> "True", False -> "False"
         elif isinstance(var_value, (int, float)):
-            formatted = str(var_value)
+            return str(var_value)
         else:
             # String: escape and add quotes
-            formatted = json.dumps(var_value)
+            return json.dumps(var_value, ensure_ascii=False)
 
-        result = result.replace(placeholder, formatted)
-
-    return result
+    # placeholders in values are not replaced
+    placeholders = "|".join(re.escape(var_name) for var_name in variables)
+    return re.sub(f"#({placeholders})#", _format, marker_str)
 
 
 def get_env() -> dict[str, str | bool]:
@@ -186,10 +186,11 @@ def is_custom_marker(marker_str: str) -> bool:
 
     def traverse_markers(node):
         if isinstance(node, tuple):
-            env_var = node[0]
-            if env_var not in STANDARD_ENV_VARS:
-                return True
-            return False
+            # one side is an environment variable, the other one is a value
+            return all(
+                getattr(side, "value", side) not in STANDARD_ENV_VARS
+                for side in (node[0], node[2])
+            )
         elif isinstance(node, list):
             return any(traverse_markers(child) for child in node)
         return False
@@ -235,6 +236,18 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 return val
         return val
 
+    def compare(op_node, left, right):
+        if isinstance(left, Version) and isinstance(right, str):
+            right = Version(right)
+        elif isinstance(left, str) and isinstance(right, Version):
+            left = Version(left)
+        if isinstance(op_node, (ast.Eq, ast.NotEq)):
+            return ops[type(op_node)](left, right)
+        if left is None or right is None:
+            # what does not exist is neither less nor greater
+            return False
+        return ops[type(op_node)](left, right)
+
     def _eval(node):
         if isinstance(node, ast.BoolOp):
             left = _eval(node.values[0])
@@ -247,6 +260,9 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
         elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
             return not _eval(node.operand)
 
+        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
+            return -_eval(node.operand)
+
         elif isinstance(node, ast.Compare):
             left = _eval(node.left)
             left = maybe_parse_cuda_arch(normalize_value(left))
@@ -255,8 +271,7 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 right = _eval(right_expr)
                 right = maybe_parse_cuda_arch(normalize_value(right))
 
-                op_func = ops[type(op_node)]
-                if not op_func(left, right):
+                if not compare(op_node, left, right):
                     return False
                 left = right  # for chained comparisons
 
@@ -294,23 +309,27 @@ def filter_requirements(requirements: list[str], **variables) -> list[str]:
             result.append(req_str)
         elif ";" in req_str:
             req_part, marker_part = req_str.split(";", 1)
-            marker_part = marker_part.strip()
+            raw_marker_part = marker_part.strip()
 
             # Substitute #var# placeholders with actual values
-            marker_part = substitute_variables(marker_part, variables)
+            marker_part = substitute_variables(raw_marker_part, variables)
 
             try:
                 req = Requirement(req_str)
                 if req.marker is None or req.marker.evaluate(env):
-                    result.append(f"{req.name}{req.specifier}")
+                    req.marker = None
+                    result.append(str(req))
                     continue
             except InvalidRequirement:
                 if is_custom_marker(marker_part):
-                    if eval_custom_marker(marker_part, env):
-                        req = Requirement(req_part.strip())
-                        result.append(str(req))
+                    holds = eval_custom_marker(marker_part, env)
+                elif marker_part != raw_marker_part:
+                    holds = Marker(marker_part).evaluate(env)
                 else:
                     raise
+                if holds:
+                    req = Requirement(req_part.strip())
+                    result.append(str(req))
         else:
             req = Requirement(req_str.strip())
             result.append(str(req))
diff --git a/python/xoscar/virtualenv/uv.py b/python/xoscar/virtualenv/uv.py
index 46ef777..b96abc0 100644
--- a/python/xoscar/virtualenv/uv.py
+++ b/python/xoscar/virtualenv/uv.py
@@ -168,11 +168,16 @@ class UVVirtualEnvManager(VirtualEnvManager):
                 continue
 
             req = Requirement(spec_str)
+            if req.url:
+                keep.append(spec_str)
+                continue
+
             name = req.name.lower()
             cur_ver = installed.get(name)
 
-            if cur_ver is None:
-                # Package not installed, needs resolution
+            if cur_ver is None or req.extras:
+                # Package not installed, or requirements of extras are unknown,
+                # needs resolution
                 to_resolve.append(spec_str)
                 continue
 
-- 
2.43.0


From 78050b3d339d971c12fa30b876fa58bd9f84381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 37/47] fix: cancelled work is not cached by alru_cache, a left
 aio file can be asked whether it is closed

---
 python/xoscar/aio/file.py |  1 -
 python/xoscar/aio/lru.py  | 11 ++++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/aio/file.py b/python/xoscar/aio/file.py
index 31afd01..38e3131 100644
--- a/python/xoscar/aio/file.py
+++ b/python/xoscar/aio/file.py
@@ -56,4 +56,3 @@ class AioFileObject(AioBase):
 
     async def __aexit__(self, exc_type, exc_val, exc_tb):
         await self.close()
-        self._file = None
diff --git a/python/xoscar/aio/lru.py b/python/xoscar/aio/lru.py
index 2cdf207..e1647e2 100644
--- a/python/xoscar/aio/lru.py
+++ b/python/xoscar/aio/lru.py
@@ -182,13 +182,14 @@ def alru_cache(
                     _cache_hit(wrapped, key)
                     return await asyncio.shield(fut)
 
-                exc = fut._exception
+                if not fut.cancelled():
+                    exc = fut._exception
 
-                if exc is None or cache_exceptions:
-                    _cache_hit(wrapped, key)
-                    return fut.result()
+                    if exc is None or cache_exceptions:
+                        _cache_hit(wrapped, key)
+                        return fut.result()
 
-                # exception here and cache_exceptions == False
+                # cancelled, or exception here and cache_exceptions == False
                 wrapped._cache.pop(key)
 
             fut = loop.create_future()
-- 
2.43.0


From 715f6efa49f228dfd1c65c1d38b84d21bffa1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 38/47] fix: metrics keep tag sets apart and leave the caller's
 tags alone

---
 python/xoscar/metrics/backends/metric.py      | 53 +++++++++++--------
 .../backends/prometheus/prometheus_metric.py  |  7 +--
 2 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/python/xoscar/metrics/backends/metric.py b/python/xoscar/metrics/backends/metric.py
index 95bfb3d..6388a3c 100644
--- a/python/xoscar/metrics/backends/metric.py
+++ b/python/xoscar/metrics/backends/metric.py
@@ -22,6 +22,10 @@ _THRESHOLD = 2000
 _RECORDED_INTERVAL_SECS = 1
 
 
+def _tags_key(tags: Optional[Dict[str, str]]) -> frozenset:
+    return frozenset(tags.items()) if tags else frozenset()
+
+
 class AbstractMetric(ABC):
     """Base class of metrics."""
 
@@ -82,11 +86,12 @@ class AbstractCounter(AbstractMetric):
         self, name: str, description: str = "", tag_keys: Optional[Tuple[str]] = None
     ):
         super().__init__(name, description, tag_keys)
-        self._count = 0
+        self._counts: dict[frozenset, float] = dict()
 
     def record(self, value=1, tags: Optional[Dict[str, str]] = None):
-        self._count += value
-        self._record(self._count, tags)
+        key = _tags_key(tags)
+        count = self._counts[key] = self._counts.get(key, 0) + value
+        self._record(count, tags)
 
 
 class AbstractGauge(AbstractMetric):
@@ -109,41 +114,45 @@ class AbstractMeter(AbstractMetric):
         self, name: str, description: str = "", tag_keys: Optional[Tuple[str]] = None
     ):
         super().__init__(name, description, tag_keys)
-        self._count = 0
-        self._last_time = time.time()
+        self._init_time = time.time()
+        # tags -> count and time of the last report
+        self._windows: dict[frozenset, tuple[float, float]] = dict()
 
     def record(self, value=1, tags: Optional[Dict[str, str]] = None):
-        self._count += value
+        key = _tags_key(tags)
+        count, last_time = self._windows.get(key, (0, self._init_time))
+        count += value
         now = time.time()
-        past = max(now - self._last_time, 1e-9)
-        if self._count >= _THRESHOLD or past >= _RECORDED_INTERVAL_SECS:
-            qps = self._count / past
+        past = max(now - last_time, 1e-9)
+        if count >= _THRESHOLD or past >= _RECORDED_INTERVAL_SECS:
+            qps = count / past
             self._record(qps, tags)
-            self._last_time = now
-            self._count = 0
+            last_time = now
+            count = 0
+        self._windows[key] = (count, last_time)
 
 
 class AbstractHistogram(AbstractMetric):
     """A histogram measures the distribution of values in a stream of data."""
 
     _type = "Histogram"
-    _data: list
 
     def __init__(
         self, name: str, description: str = "", tag_keys: Optional[Tuple[str]] = None
     ):
         super().__init__(name, description, tag_keys)
-        self._data = list()
-        self._last_time = time.time()
+        self._init_time = time.time()
+        # tags -> data and time of the last report
+        self._windows: dict[frozenset, tuple[list, float]] = dict()
 
     def record(self, value=1, tags: Optional[Dict[str, str]] = None):
-        self._data.append(value)
+        key = _tags_key(tags)
+        data, last_time = self._windows.get(key, ([], self._init_time))
+        data.append(value)
         now = time.time()
-        if (
-            len(self._data) >= _THRESHOLD
-            or now - self._last_time >= _RECORDED_INTERVAL_SECS
-        ):
-            avg = sum(self._data) / len(self._data)
+        if len(data) >= _THRESHOLD or now - last_time >= _RECORDED_INTERVAL_SECS:
+            avg = sum(data) / len(data)
             self._record(avg, tags)
-            self._data.clear()
-            self._last_time = now
+            data.clear()
+            last_time = now
+        self._windows[key] = (data, last_time)
diff --git a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
index e5eaa38..a5a6a2e 100644
--- a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
+++ b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
@@ -47,11 +47,8 @@ class PrometheusMetricMixin(AbstractMetric):
 
     def _record(self, value=1, tags: Optional[Dict[str, str]] = None):
         if self._metric:
-            if tags is not None:
-                tags.update(self._tags)
-            else:
-                tags = self._tags
-            self._metric.labels(**tags).set(value)
+            # never change the tags of the caller
+            self._metric.labels(**{**(tags or {}), **self._tags}).set(value)
 
 
 class Counter(PrometheusMetricMixin, AbstractCounter):
-- 
2.43.0


From 6da60c666402a618d271c421a02474458923177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 39/47] fix: profile the slowest calls with their whole
 duration, for any actor id

---
 python/xoscar/backends/core.py | 12 +++++++++++-
 python/xoscar/profiling.py     | 36 ++++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index 4e66b2b..947c9eb 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -20,6 +20,7 @@ import atexit
 import copy
 import logging
 import threading
+import time
 import weakref
 from typing import Type, Union
 
@@ -159,6 +160,7 @@ class ActorCallerThreadLocal:
         wait_response = loop.create_future()
         self._client_to_message_futures[client][message.message_id] = wait_response
 
+        start_time = time.time()
         with Timer() as timer:
             try:
                 await client.send(message)
@@ -175,7 +177,15 @@ class ActorCallerThreadLocal:
             else:
                 r = await wait_response
 
-        self._profiling_data.collect_actor_call(message, timer.duration)
+        if wait or wait_response.done():
+            self._profiling_data.collect_actor_call(message, timer.duration)
+        elif self._profiling_data.collecting:
+            # the call lasts until its result arrives
+            wait_response.add_done_callback(
+                lambda _: self._profiling_data.collect_actor_call(
+                    message, time.time() - start_time
+                )
+            )
         return r
 
     async def call_send_buffers(
diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index b6ec15c..c5908fe 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -16,6 +16,7 @@
 import asyncio
 import copy
 import heapq
+import itertools
 import json
 import logging
 import operator
@@ -134,6 +135,8 @@ class _CallStats:
         self._options = options
         self._call_counter = Counter()
         self._slow_calls = []
+        # never compare the contents of calls of the same duration
+        self._sequence = itertools.count()
 
     def collect(self, message, duration: float):
         key = (message.actor_ref.uid, message.content[0])
@@ -142,31 +145,36 @@ class _CallStats:
             return
         slow_call_key = (
             duration,
+            next(self._sequence),
             message.actor_ref.uid,
             message.actor_ref.address,
             message.content,
         )
-        try:
-            if len(self._slow_calls) < 10:
-                heapq.heappush(self._slow_calls, slow_call_key)
-            else:
-                heapq.heapreplace(self._slow_calls, slow_call_key)
-        except TypeError:
-            pass
+        if len(self._slow_calls) < 10:
+            heapq.heappush(self._slow_calls, slow_call_key)
+        else:
+            heapq.heappushpop(self._slow_calls, slow_call_key)
+
+    @staticmethod
+    def _uid_to_str(uid: bytes) -> str:
+        # generated ids are random bytes
+        return uid.decode("utf-8", "backslashreplace")
 
     def to_dict(self) -> dict:
         most_calls = {}
         for name_tuple, count in self._call_counter.most_common(10):
             uid, method_name = name_tuple
-            most_calls[f"{uid.decode('utf-8')}.{method_name}"] = count
+            most_calls[f"{self._uid_to_str(uid)}.{method_name}"] = count
         slow_calls = {}
-        for duration, uid, address, content in sorted(
+        for duration, _, uid, address, content in sorted(
             self._slow_calls, key=operator.itemgetter(0), reverse=True
         ):
             method_name, _batch, args, kwargs = content
-            slow_calls[
-                f"[{address}]{uid.decode('utf-8')}.{method_name}(args={args}, kwargs={kwargs})"
-            ] = duration
+            # the same call is listed with its longest duration
+            slow_calls.setdefault(
+                f"[{address}]{self._uid_to_str(uid)}.{method_name}(args={args}, kwargs={kwargs})",
+                duration,
+            )
         return {"most_calls": most_calls, "slow_calls": slow_calls}
 
 
@@ -233,6 +241,10 @@ class _ProfilingData:
             r.update(self._call_stats.pop(task_id).to_dict())
         return r
 
+    @property
+    def collecting(self) -> bool:
+        return bool(self._call_stats)
+
     def collect_actor_call(self, message, duration: float):
         if self._call_stats:
             message_type = type(message)
-- 
2.43.0


From 819f1b738035967ad098f9a7977279ffd3bef24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 40/47] fix: retried coroutines raise the last failure, lazy
 import hooks may use the module, wrapped exceptions keep their text

---
 python/xoscar/utils.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 91059e3..dca157d 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -120,7 +120,10 @@ def wrap_exception(
         return getattr(exc, item)
 
     def __str__(self):
-        return message or super(type(self), self).__str__()
+        if message or not custom_str:
+            # the text may be made from data that is not in the instance dict
+            return message or str(exc)
+        return super(type(self), self).__str__()
 
     def __reduce_ex__(self, protocol):
         args = (self.__traceback__, self.__cause__, None, self.__suppress_context__)
@@ -135,6 +138,7 @@ def wrap_exception(
     exc_type = type(exc)
     traceback = traceback or exc.__traceback__
     bases = bases or ()
+    custom_str = any("__str__" in vars(c) for b in bases for c in b.__mro__[:-1])
     raw_attr_dict = attr_dict or {}
     attr_dict = {
         name: delegate(name)
@@ -304,10 +308,11 @@ def lazy_import(
             elif locals is not None:
                 locals[rename] = real_mod
             ret = getattr(real_mod, item)
-            for on_load_func in self._on_loads:
+            # make sure on_load hooks only executed once,
+            # also when they use the module themselves
+            on_loads, self._on_loads = self._on_loads, []
+            for on_load_func in on_loads:
                 on_load_func()
-            # make sure on_load hooks only executed once
-            self._on_loads = []
             return ret
 
         def add_load_handler(self, func: Callable):
@@ -467,19 +472,23 @@ def retry_callable(
 ):
     if inspect.iscoroutinefunction(callable_) or sync is False:
 
-        @functools.wraps(callable)
+        @functools.wraps(callable_)
         async def retry_call(*args, **kwargs):
             num_retried = 0
+            ex = None
             while max_retries < 0 or num_retried < max_retries:
                 num_retried += 1
                 try:
                     return await callable_(*args, **kwargs)
-                except ex_type:
+                except ex_type as e:
+                    ex = e
                     await asyncio.sleep(wait_interval)
+            assert ex is not None
+            raise ex  # pylint: disable-msg=E0702
 
     else:
 
-        @functools.wraps(callable)
+        @functools.wraps(callable_)
         def retry_call(*args, **kwargs):
             num_retried = 0
             ex = None
-- 
2.43.0


From 2db6597d03ad4076ae10fe963eb7e9121532750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 41/47] fix: process indexes never collide, random ids differ
 in forked and equally seeded processes, a full port range is reported

---
 python/xoscar/_utils.pyx       | 10 ++++++++--
 python/xoscar/backends/pool.py |  3 +--
 python/xoscar/utils.py         |  5 ++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index 87a09d4..2ef4227 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -17,10 +17,10 @@
 import collections
 import importlib
 import itertools
+import os
 import time
 import warnings
 from functools import partial
-from random import getrandbits
 from typing import AsyncGenerator
 from weakref import WeakSet
 
@@ -142,11 +142,17 @@ cpdef void reset_id_random_seed() except *:
     cdef bytes seed_bytes
     global _rnd_is_seed_set
 
-    seed_bytes = getrandbits(64).to_bytes(8, "little")
+    # the state of Python's generator may be the same in several processes
+    seed_bytes = os.urandom(8)
     _rnd_gen.seed((<uint_fast64_t *><char *>seed_bytes)[0])
     _rnd_is_seed_set = True
 
 
+if hasattr(os, "register_at_fork"):  # pragma: no branch
+    # forked processes must not continue with the state of their parent
+    os.register_at_fork(after_in_child=reset_id_random_seed)
+
+
 cpdef bytes new_random_id(int byte_len):
     cdef uint_fast64_t *res_ptr
     cdef uint_fast64_t res_data[4]
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 3a00488..5bd6929 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1068,9 +1068,8 @@ class MainActorPoolBase(ActorPoolBase):
     @classmethod
     def process_index_gen(cls, address):
         # make sure different processes does not share process indexes
-        pid = os.getpid()
         for idx in cls._process_index_gen:
-            yield pid << 16 + idx
+            yield (os.getpid() << 32) + idx
 
     @property
     def _sub_processes(self):
diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index dca157d..f8a50b7 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -270,7 +270,10 @@ def get_next_port(typ: int | None = None, occupy: bool = True) -> int:
     random.seed(uuid.uuid1().bytes)
     randn = random.randint(0, 100000000)
 
-    idx = int(randn % (1 + HIGH_PORT_BOUND - LOW_PORT_BOUND - len(occupied)))
+    n_free = 1 + HIGH_PORT_BOUND - LOW_PORT_BOUND - len(occupied)
+    if n_free <= 0:
+        raise SystemError("No ports available.")
+    idx = int(randn % n_free)
     for i in range(LOW_PORT_BOUND, HIGH_PORT_BOUND + 1):
         if i in occupied:
             continue
-- 
2.43.0


From 5f7e8ce0079eb6693c0cf5bd75a4219828cc5c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 42/47] fix: routing: cyclic proxies, host rules with schemes
 and v6, control messages through proxies, pools listening on all interfaces,
 proxies of local references

---
 python/xoscar/backends/context.py |  5 ++++-
 python/xoscar/backends/core.py    |  2 --
 python/xoscar/backends/pool.py    | 30 +++++++++++++++++++++++++-----
 python/xoscar/backends/router.py  |  9 +++++++--
 python/xoscar/core.pxd            |  1 +
 python/xoscar/core.pyx            |  8 ++++++--
 6 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 86aa198..8da3166 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -155,7 +155,10 @@ class IndigenActorContext(BaseActorContext):
         )
         future = await self._call(address, create_actor_message, wait=False)
         result = await self._wait(future, address, create_actor_message)  # type: ignore
-        return self._process_result_message(result)
+        res = self._process_result_message(result)
+        if res.address != address:
+            res.address = fix_all_zero_ip(res.address, address)
+        return res
 
     async def has_actor(self, actor_ref: ActorRef) -> bool:
         message = HasActorMessage(
diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index 947c9eb..1cc1387 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -33,7 +33,6 @@ from .message import (
     DeserializeMessageFailed,
     ErrorMessage,
     ForwardMessage,
-    MessageType,
     ResultMessage,
     _MessageBase,
     new_message_id,
@@ -248,7 +247,6 @@ class ActorCallerThreadLocal:
         if (
             client.channel_type == ChannelType.remote
             and client.dest_address != dest_address
-            and message.message_type != MessageType.control
         ):
             # wrap message with forward message
             message = ForwardMessage(
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 5bd6929..e7cf7de 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -42,7 +42,12 @@ from ..errors import (
     ServerClosed,
 )
 from ..metrics import init_metrics
-from ..utils import implements, is_zero_ip, register_asyncio_task_timeout_detector
+from ..utils import (
+    fix_all_zero_ip,
+    implements,
+    is_zero_ip,
+    register_asyncio_task_timeout_detector,
+)
 from .allocate_strategy import AddressSpecified, allocated_type
 from .communication import (
     Channel,
@@ -641,6 +646,8 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             # attribute uid may be overridden by users
             actor._set_uid(actor_id)
             actor.address = address = self.external_address
+            proxies = self._router.get_proxies(address)
+            actor._set_proxy_addresses(proxies)
             self._actors[actor_id] = actor
             try:
                 await self._run_coro(message.message_id, actor.__post_create__())
@@ -650,7 +657,6 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
                     del self._actors[actor_id]
                 raise
 
-            proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
             # ensemble result message
             processor.result = ResultMessage(
@@ -1092,6 +1098,14 @@ class MainActorPoolBase(ActorPoolBase):
             # the sub pool decides what becomes of the message
             return await call
 
+    def _get_listening_address(self, address: str) -> str:
+        """Pools listening on all interfaces can be addressed by any of their ips."""
+        if address not in self._allocated_actors:
+            for listening_address in self._allocated_actors:
+                if fix_all_zero_ip(listening_address, address) == address:
+                    return listening_address
+        return address
+
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         with _ErrorProcessor(
@@ -1102,8 +1116,10 @@ class MainActorPoolBase(ActorPoolBase):
             allocate_strategy = message.allocate_strategy
             with self._allocation_lock:
                 # get allocated address according to corresponding strategy
-                address = allocate_strategy.get_allocated_address(
-                    self._config, self._allocated_actors
+                address = self._get_listening_address(
+                    allocate_strategy.get_allocated_address(
+                        self._config, self._allocated_actors
+                    )
                 )
                 # set placeholder to make sure this label is occupied
                 placeholder = object()
@@ -1273,6 +1289,7 @@ class MainActorPoolBase(ActorPoolBase):
         with _ErrorProcessor(
             self.external_address, message.message_id, message.protocol
         ) as processor:
+            message.address = self._get_listening_address(message.address)
             if message.address == self.external_address:
                 if message.control_message_type == ControlMessageType.sync_config:
                     # sync config, need to notify all sub pools
@@ -1340,8 +1357,11 @@ class MainActorPoolBase(ActorPoolBase):
                 processor.result = ResultMessage(
                     message.message_id, True, protocol=message.protocol
                 )
-            else:
+            elif message.address in self.sub_processes:
                 processor.result = await self.call(message.address, message)
+            else:
+                # messages to other pools are forwarded, this one is for this pool
+                processor.result = await super().handle_control_command(message)
         return processor.result
 
     @staticmethod
diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index c14a074..58bf833 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -113,6 +113,9 @@ class Router:
             self._local_mapping.pop(addr, None)
         for addr in router._mapping:
             self._mapping.pop(addr, None)
+        for addr, proxy in router._proxy_config.items():
+            if self._proxy_config.get(addr) == proxy:
+                del self._proxy_config[addr]
         self._cache_local = threading.local()
 
     @property
@@ -251,7 +254,8 @@ class Router:
            All the messages will be sent to 127.0.0.1:12346 as forward one.
         """
 
-        host = from_addr.split(":", 1)[0]
+        # addresses may have a scheme, and hosts may be IPv6 ones
+        host = from_addr.split("://", 1)[-1].rsplit(":", 1)[0]
 
         proxy_map = self._proxy_config
         addr = proxy_map.get(from_addr)
@@ -278,7 +282,8 @@ class Router:
             proxy = self.get_proxy(from_addr)
             if not proxies and not proxy:
                 return None
-            elif not proxy:
+            elif not proxy or proxy in proxies:
+                # proxies may be proxies of each other
                 return proxies
             else:
                 proxies.append(proxy)
diff --git a/python/xoscar/core.pxd b/python/xoscar/core.pxd
index 0033476..68ee83c 100644
--- a/python/xoscar/core.pxd
+++ b/python/xoscar/core.pxd
@@ -42,6 +42,7 @@ cdef class _BaseActor:
     cdef str _address
     cdef object _lock
     cdef object _uid
+    cdef list _proxy_addresses
 
     cpdef ActorRef ref(self)
 
diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 7870d36..dc41f21 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -245,7 +245,8 @@ cdef class ActorRefMethod:
 cdef class LocalActorRef(ActorRef):
     def __init__(self, _BaseActor actor):
         # Make sure the input actor is an instance of _BaseActor.
-        super().__init__(actor._address, actor._uid)
+        # The reference may be sent to where the proxies are needed.
+        super().__init__(actor._address, actor._uid, actor._proxy_addresses)
         self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
 
     cdef _local_actor(self):
@@ -394,8 +395,11 @@ cdef class _BaseActor:
     def _set_address(self, addr):
         self._address = addr
 
+    def _set_proxy_addresses(self, proxy_addresses):
+        self._proxy_addresses = proxy_addresses
+
     cpdef ActorRef ref(self):
-        return create_actor_ref(self._address, self._uid)
+        return create_actor_ref(self._address, self._uid, self._proxy_addresses)
 
     async def _handle_actor_result(self, result):
         cdef int idx
-- 
2.43.0


From b11a99e4ce09f9b52ec09872994952c178013f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 43/47] fix: a frame header must fill its announced length,
 connections out of step are closed

---
 .../xoscar/backends/communication/socket.py   |  9 +++++++--
 python/xoscar/serialization/aio.py            | 20 ++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/backends/communication/socket.py b/python/xoscar/backends/communication/socket.py
index f2a7a8a..e10b0bb 100644
--- a/python/xoscar/backends/communication/socket.py
+++ b/python/xoscar/backends/communication/socket.py
@@ -103,8 +103,13 @@ class SocketChannel(Channel):
     async def recv(self):
         deserializer = AioDeserializer(self.reader)
         async with self._recv_lock:
-            header = await deserializer.get_header()
-            buffers = await read_buffers(header, self.reader)
+            try:
+                header = await deserializer.get_header()
+                buffers = await read_buffers(header, self.reader)
+            except Exception:
+                # unknown where the next message begins
+                self.writer.close()
+                raise
         return deserialize(header, buffers)
 
     @implements(Channel.close)
diff --git a/python/xoscar/serialization/aio.py b/python/xoscar/serialization/aio.py
index 174087f..e8342ec 100644
--- a/python/xoscar/serialization/aio.py
+++ b/python/xoscar/serialization/aio.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 
 import asyncio
+import pickle  # nosec  # pylint: disable=import_pickle
 import struct
 from io import BytesIO
 from typing import Any, BinaryIO, Union
@@ -88,6 +89,19 @@ def get_header_length(header_bytes: bytes):
     return header_length
 
 
+def _load_header(header_bytes: bytes):
+    header_bio = BytesIO(header_bytes)
+    try:
+        header = cloudpickle.load(header_bio)
+    except (EOFError, pickle.UnpicklingError):
+        raise EOFError(MALFORMED_MSG) from None
+    if header_bio.tell() != len(header_bytes):
+        # the length does not belong to this header,
+        # what follows would be read at wrong positions
+        raise EOFError(MALFORMED_MSG)
+    return header
+
+
 class AioDeserializer:
     def __init__(self, file):
         self._file = file
@@ -113,7 +127,7 @@ class AioDeserializer:
         return await self._readexactly(header_length)
 
     async def _get_obj(self):
-        header = cloudpickle.loads(await self._get_obj_header_bytes())
+        header = _load_header(await self._get_obj_header_bytes())
         # get buffer size
         buffer_sizes = header[0].pop(BUFFER_SIZES_NAME)
         # get buffers
@@ -132,10 +146,10 @@ class AioDeserializer:
     async def get_size(self):
         # extract header
         header_bytes = await self._get_obj_header_bytes()
-        header = cloudpickle.loads(header_bytes)
+        header = _load_header(header_bytes)
         # get buffer size
         buffer_sizes = header[0].pop(BUFFER_SIZES_NAME)
         return 11 + len(header_bytes) + sum(buffer_sizes)
 
     async def get_header(self):
-        return cloudpickle.loads(await self._get_obj_header_bytes())
+        return _load_header(await self._get_obj_header_bytes())
-- 
2.43.0


From d1606705239dc6ece94c296d08e75d454775abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:06 +0000
Subject: [PATCH 44/47] fix: references of destroyed actors can be copied and
 probed for special methods

---
 python/xoscar/core.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index dc41f21..a41b582 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -271,6 +271,9 @@ cdef class LocalActorRef(ActorRef):
         except KeyError:
             actor = self._local_actor()
             if actor is None:
+                if item.startswith('__') and not item.startswith('__xoscar_'):
+                    # protocols like copying probe for special methods
+                    return object.__getattribute__(self, item)
                 raise ActorNotExist(f"Actor {self.uid} does not exist") from None
             # For detecting the attribute error.
             getattr(actor, item)
-- 
2.43.0


From 9f377a291f3bcb49507497038e5eac324738a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:27 +0000
Subject: [PATCH 45/47] fix: added and removed sub pools: all addresses are
 dropped, actors can be created, failed additions leave no trace, recovery is
 monitored

---
 python/xoscar/backends/config.py       |  6 +++---
 python/xoscar/backends/indigen/pool.py | 22 +++++++++++++++++++---
 python/xoscar/backends/pool.py         | 12 +++++++++---
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index 8b34212..f43c4bc 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -73,9 +73,9 @@ class ActorPoolConfig:
             mapping[addr] = internal_address
 
     def remove_pool_config(self, process_index: int):
-        addr = self.get_external_address(process_index)
-        del self._conf["pools"][process_index]
-        del self._conf["mapping"][addr]
+        conf = self._conf["pools"].pop(process_index)
+        for addr in conf["external_address"]:
+            self._conf["mapping"].pop(addr, None)
 
     def get_pool_config(self, process_index: int):
         return self._conf["pools"][process_index]
diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 91d6ceb..76efa3a 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -45,6 +45,7 @@ from ..message import (
     new_message_id,
 )
 from ..pool import MainActorPoolBase, SubActorPoolBase, _register_message_handler
+from ..router import Router
 from . import shared_memory
 from .fate_sharing import create_subprocess_exec
 
@@ -388,12 +389,20 @@ class MainActorPool(MainActorPoolBase):
             kwargs,
         )
 
-        process, external_addresses = await self._create_sub_pool_from_parent(
-            self._config, process_index, start_python
-        )
+        try:
+            process, external_addresses = await self._create_sub_pool_from_parent(
+                self._config, process_index, start_python
+            )
+        except BaseException:
+            # there is no such pool
+            self._config.remove_pool_config(process_index)
+            raise
 
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
+        if not self._stopped.is_set():
+            # there may have been no sub pools to monitor before
+            await self.start_monitor()
 
         control_message = ControlMessage(
             message_id=new_message_id(),
@@ -411,7 +420,14 @@ class MainActorPool(MainActorPoolBase):
         process = self.sub_processes[external_address]
         process_index = self._config.get_process_index(external_address)
         del self.sub_processes[external_address]
+        self._allocated_actors.pop(external_address, None)
+        # addresses of the pool are removed from the global router as well
+        global_router = Router.get_instance()
+        if global_router is not None:
+            global_router.remove_router(self._router)
         self._config.remove_pool_config(process_index)
+        if global_router is not None:
+            global_router.add_router(self._router)
         await self.stop_sub_pool(external_address, process, timeout, force)
 
         control_message = ControlMessage(
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index e7cf7de..158d483 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1123,7 +1123,9 @@ class MainActorPoolBase(ActorPoolBase):
                 )
                 # set placeholder to make sure this label is occupied
                 placeholder = object()
-                self._allocated_actors[address][placeholder] = (  # type: ignore
+                # the sub pool may be lost or removed in the meantime
+                allocated = self._allocated_actors[address]
+                allocated[placeholder] = (  # type: ignore
                     allocate_strategy,
                     message,
                 )
@@ -1149,14 +1151,14 @@ class MainActorPoolBase(ActorPoolBase):
                     )
                     result = await self._redirect(address, new_create_actor_message)
                 if isinstance(result, ResultMessage):
-                    self._allocated_actors[address][result.result] = (
+                    allocated[result.result] = (
                         allocate_strategy,
                         new_create_actor_message,
                     )
                 processor.result = result
             finally:
                 # revert placeholder
-                self._allocated_actors[address].pop(placeholder, None)  # type: ignore
+                allocated.pop(placeholder, None)  # type: ignore
 
         return processor.result
 
@@ -1472,6 +1474,7 @@ class MainActorPoolBase(ActorPoolBase):
 
     def attach_sub_process(self, external_address: str, process: SubProcessHandle):
         self.sub_processes[external_address] = process
+        self._allocated_actors.setdefault(external_address, dict())
 
     async def stop_sub_pools(self):
         to_stop_processes: dict[str, SubProcessHandle] = dict()  # type: ignore
@@ -1551,6 +1554,9 @@ class MainActorPoolBase(ActorPoolBase):
             while not self._stopped.is_set():
                 # Copy sub_processes to avoid changes during recover.
                 for address, process in list(self.sub_processes.items()):
+                    if self.sub_processes.get(address) is not process:
+                        # removed when recovering others
+                        continue
                     try:
                         recover_events_discovered = address in self._recover_events
                         if not await self.is_sub_pool_alive(
-- 
2.43.0


From 92d4519e6c5615a0514619964f3fd6c920d0942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 46/47] fix: recovery: waiters are always released, losses are
 reported once, removed pools stay removed, actors that cannot be recovered
 are forgotten, recovered pools know the current config

---
 python/xoscar/backends/indigen/pool.py | 30 ++++++++++++++++++++----
 python/xoscar/backends/pool.py         | 32 ++++++++++++++++++++++----
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 76efa3a..a070d73 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -42,6 +42,7 @@ from ..message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    ErrorMessage,
     new_message_id,
 )
 from ..pool import MainActorPoolBase, SubActorPoolBase, _register_message_handler
@@ -514,16 +515,37 @@ class MainActorPool(MainActorPoolBase):
         # process dead, restart it
         # remember always use spawn to recover sub pool
         task = asyncio.create_task(self.start_sub_pool(self._config, process_index))
-        self.sub_processes[address] = (await self.wait_sub_pools_ready([task]))[0][0]
+        process = (await self.wait_sub_pools_ready([task]))[0][0]
+        if address not in self.sub_processes:
+            # removed in the meantime
+            await self.kill_sub_pool(process, force=True)
+            return
+        self.sub_processes[address] = process
+        # sub pools may have been added or removed in the meantime
+        await self.call(
+            address,
+            ControlMessage(
+                message_id=new_message_id(),
+                address=self.external_address,
+                control_message_type=ControlMessageType.sync_config,
+                content=self._config,
+            ),
+        )
 
         if self._auto_recover == "actor":
             # need to recover all created actors
-            for ref, (_, message) in list(self._allocated_actors[address].items()):
+            allocated = self._allocated_actors.get(address, dict())
+            for ref, value in list(allocated.items()):
                 if not isinstance(ref, ActorRef):
                     # placeholder of an actor that is being created
                     continue
-                create_actor_message: CreateActorMessage = message  # type: ignore
-                await self.call(address, create_actor_message)
+                create_actor_message: CreateActorMessage = value[1]  # type: ignore
+                result = await self.call(address, create_actor_message)
+                if isinstance(result, ErrorMessage) and allocated.get(ref) is value:
+                    logger.error(
+                        "Failed to recover actor %s: %s", ref.uid, result.error
+                    )
+                    allocated.pop(ref)
 
     async def start(self):
         await super().start()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 158d483..fa906ad 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1329,7 +1329,11 @@ class MainActorPoolBase(ActorPoolBase):
                     message.message_id, True, protocol=message.protocol
                 )
             elif message.control_message_type == ControlMessageType.wait_pool_recovered:
-                if self._auto_recover and message.address not in self._recover_events:
+                if (
+                    self._auto_recover
+                    and message.address in self.sub_processes
+                    and message.address not in self._recover_events
+                ):
                     self._recover_events[message.address] = asyncio.Event()
 
                 event = self._recover_events.get(message.address, None)
@@ -1454,6 +1458,10 @@ class MainActorPoolBase(ActorPoolBase):
             except asyncio.CancelledError:
                 pass  # Expected when cancelling the task
             self._monitor_task = None
+        for event in self._recover_events.values():
+            # nothing will be recovered any more
+            event.set()
+        self._recover_events.clear()
         await self.stop_sub_pools()
         await super().stop()
 
@@ -1550,6 +1558,7 @@ class MainActorPoolBase(ActorPoolBase):
             self._allocated_actors[address] = dict()
 
     async def monitor_sub_pools(self):
+        lost: dict[str, SubProcessHandle] = dict()
         try:
             while not self._stopped.is_set():
                 # Copy sub_processes to avoid changes during recover.
@@ -1562,12 +1571,20 @@ class MainActorPoolBase(ActorPoolBase):
                         if not await self.is_sub_pool_alive(
                             process
                         ):  # pragma: no cover
-                            if self._on_process_down is not None:
-                                self._on_process_down(self, address)
-                            self.process_sub_pool_lost(address)
+                            if lost.get(address) is not process:
+                                # report every loss once
+                                lost[address] = process
+                                try:
+                                    if self._on_process_down is not None:
+                                        self._on_process_down(self, address)
+                                finally:
+                                    self.process_sub_pool_lost(address)
                             if self._auto_recover:
                                 await self.recover_sub_pool(address)
-                                if self._on_process_recover is not None:
+                                if (
+                                    self._on_process_recover is not None
+                                    and address in self.sub_processes
+                                ):
                                     self._on_process_recover(self, address)
                         if recover_events_discovered:
                             event = self._recover_events.pop(address)
@@ -1585,6 +1602,11 @@ class MainActorPoolBase(ActorPoolBase):
                         # sub pool silently.
                         logger.exception("Monitor sub pool %s failed", address)
 
+                for address in list(self._recover_events):
+                    if address not in self.sub_processes:
+                        # removed, will not be recovered
+                        self._recover_events.pop(address).set()
+
                 # check every half second
                 await asyncio.sleep(0.5)
         except asyncio.CancelledError:  # pragma: no cover
-- 
2.43.0


From a866ad4b066b706b158cb5469254d00a2790b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 47/47] fix: failing, cancelled and concurrent starts and stops
 of pools leave no processes behind, large configurations can be passed

---
 python/xoscar/backends/indigen/pool.py | 65 ++++++++++++++++----------
 python/xoscar/backends/pool.py         | 36 +++++++++++---
 2 files changed, 69 insertions(+), 32 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index a070d73..26ff00f 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -64,7 +64,7 @@ class _ShmSeq(IntEnum):
 def _shm_put_object(seq: _ShmSeq, shm: shared_memory.SharedMemory, o: object):
     serialized = pickle.dumps(o)
     assert (
-        len(serialized) < _SUBPROCESS_SHM_SIZE - 8
+        len(serialized) <= len(shm.buf) - 8
     ), f"Serialized object {o} is too long."
     shm.buf[4:8] = struct.pack("<I", len(serialized))
     shm.buf[8 : 8 + len(serialized)] = serialized
@@ -152,16 +152,24 @@ class MainActorPool(MainActorPoolBase):
     async def wait_sub_pools_ready(cls, create_pool_tasks: List[asyncio.Task]):
         processes: list[asyncio.subprocess.Process] = []
         ext_addresses = []
-        error = None
-        for task in create_pool_tasks:
-            process, address = await task
-            processes.append(process)
-            ext_addresses.append(address)
-        if error:
-            for p in processes:
-                # error happens, kill all subprocesses
-                p.kill()
-            raise error
+        try:
+            for task in create_pool_tasks:
+                process, address = await task
+                processes.append(process)
+                ext_addresses.append(address)
+        except BaseException:
+            # error happens, kill all subprocesses
+            for task in create_pool_tasks:
+                task.cancel()
+            for result in await asyncio.gather(
+                *create_pool_tasks, return_exceptions=True
+            ):
+                if not isinstance(result, BaseException):
+                    process = result[0]
+                    if process.returncode is None:
+                        process.kill()
+                        await process.wait()
+            raise
         return processes, ext_addresses
 
     @classmethod
@@ -274,20 +282,20 @@ class MainActorPool(MainActorPoolBase):
             start_python = sys.executable
 
         external_addresses: List | None = None
+        process: asyncio.subprocess.Process | None = None
+        init_params = {
+            "actor_pool_config": actor_pool_config,
+            "process_index": process_index,
+            "main_pool_pid": os.getpid(),
+            "python_version": sys.hexversion,
+        }
         shm = shared_memory.SharedMemory(
-            create=True, size=_SUBPROCESS_SHM_SIZE, track=False
+            create=True,
+            size=max(_SUBPROCESS_SHM_SIZE, len(pickle.dumps(init_params)) + 8),
+            track=False,
         )
         try:
-            _shm_put_object(
-                _ShmSeq.INIT_PARAMS,
-                shm,
-                {
-                    "actor_pool_config": actor_pool_config,
-                    "process_index": process_index,
-                    "main_pool_pid": os.getpid(),
-                    "python_version": sys.hexversion,
-                },
-            )
+            _shm_put_object(_ShmSeq.INIT_PARAMS, shm, init_params)
             cmd = [
                 start_python,
                 "-m",
@@ -334,6 +342,11 @@ class MainActorPool(MainActorPoolBase):
             )
             for t in unfinished:
                 t.cancel()
+        except BaseException:
+            if process is not None and process.returncode is None:
+                # cancelled, nobody knows the process
+                process.kill()
+            raise
         finally:
             shm.close()
             shm.unlink()
@@ -394,6 +407,9 @@ class MainActorPool(MainActorPoolBase):
             process, external_addresses = await self._create_sub_pool_from_parent(
                 self._config, process_index, start_python
             )
+            if self._stopped.is_set():
+                await self.kill_sub_pool(process, force=True)
+                raise RuntimeError("pool has been stopped, cannot append sub pool")
         except BaseException:
             # there is no such pool
             self._config.remove_pool_config(process_index)
@@ -401,9 +417,8 @@ class MainActorPool(MainActorPoolBase):
 
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
-        if not self._stopped.is_set():
-            # there may have been no sub pools to monitor before
-            await self.start_monitor()
+        # there may have been no sub pools to monitor before
+        await self.start_monitor()
 
         control_message = ControlMessage(
             message_id=new_message_id(),
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index fa906ad..e900c6d 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -842,8 +842,16 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             task = asyncio.create_task(server_type.create(server_config))
             create_server_tasks.append(task)
 
-        await asyncio.gather(*create_server_tasks)
-        return [f.result() for f in create_server_tasks]
+        try:
+            return await asyncio.gather(*create_server_tasks)
+        except BaseException:
+            # do not leave those behind that have been created
+            for server in await asyncio.gather(
+                *create_server_tasks, return_exceptions=True
+            ):
+                if not isinstance(server, BaseException):
+                    await server.stop()
+            raise
 
     @classmethod
     @implements(AbstractActorPool.create)
@@ -1400,8 +1408,6 @@ class MainActorPoolBase(ActorPoolBase):
                 create_pool_task = asyncio.create_task(
                     cls.start_sub_pool(actor_pool_config, process_index)
                 )
-                await asyncio.sleep(0)
-                # await create_pool_task
                 tasks.append(create_pool_task)
                 subpool_process_idxes.append(process_index)
 
@@ -1413,7 +1419,15 @@ class MainActorPoolBase(ActorPoolBase):
                 )
 
         # create main actor pool
-        pool: MainActorPoolType = await super().create(config)
+        try:
+            pool: MainActorPoolType = await super().create(config)
+        except BaseException:
+            # there will be no main pool for the sub pools
+            for proc in processes:
+                if proc is not None and proc.returncode is None:
+                    proc.kill()
+                    await proc.wait()
+            raise
         addresses = actor_pool_config.get_external_addresses()[1:]
 
         assert len(addresses) == len(
@@ -1430,7 +1444,11 @@ class MainActorPoolBase(ActorPoolBase):
                 control_message_type=ControlMessageType.sync_config,
                 content=actor_pool_config,
             )
-            await pool.handle_control_command(control_message)
+            try:
+                await pool.handle_control_command(control_message)
+            except BaseException:
+                await pool.stop()
+                raise
 
         return pool
 
@@ -1746,5 +1764,9 @@ async def create_actor_pool(
             "on_process_recover": on_process_recover,
         }
     )
-    await pool.start()
+    try:
+        await pool.start()
+    except BaseException:
+        await pool.stop()
+        raise
     return pool
-- 
2.43.0


From 583cbc3836a67744e182f0a1ef1339ba9713ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 01/17] fix: report a tuple header value as a corrupted span
 context instead of raising TypeError

---
 jaeger_client/codecs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 3f11755..c0e0f22 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -231,11 +231,11 @@ def span_context_from_string(value):
         # sometimes headers are presented as arrays of values
         if len(value) > 1:
             raise SpanContextCorruptedException(
-                'trace context must be a string or array of 1: "%s"' % value)
+                'trace context must be a string or array of 1: "%s"' % (value,))
         value = value[0]
     if not isinstance(value, (str,)):
         raise SpanContextCorruptedException(
-            'trace context not a string "%s"' % value)
+            'trace context not a string "%s"' % (value,))
     parts = value.split(':')
     if len(parts) != 4:
         raise SpanContextCorruptedException(
@@ -307,7 +307,7 @@ class ZipkinCodec(Codec):
 def header_to_hex(header):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
-            'malformed trace context "%s", expected hex string' % header)
+            'malformed trace context "%s", expected hex string' % (header,))
 
     try:
         return int(header, 16)
-- 
2.43.0


From 7146f3d77672272b0f085df66afae05ab08b8b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 02/17] fix: reject trace context headers whose ids or flags do
 not fit their fields

---
 jaeger_client/codecs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index c0e0f22..71365ee 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -30,6 +30,11 @@ from .constants import SAMPLED_FLAG, DEBUG_FLAG
 
 import urllib.parse
 
+# Largest values the fields of a span context can hold: 128-bit trace id, 64-bit span ids, one byte of flags.
+MAX_TRACE_ID = (1 << 128) - 1
+MAX_SPAN_ID = (1 << 64) - 1
+MAX_FLAGS = 0xFF
+
 
 class Codec(object):
     def inject(self, span_context, carrier):
@@ -248,6 +253,9 @@ def span_context_from_string(value):
         if trace_id < 1 or span_id < 1 or parent_id < 0 or flags < 0:
             raise SpanContextCorruptedException(
                 'malformed trace context "%s"' % value)
+        if trace_id > MAX_TRACE_ID or max(span_id, parent_id) > MAX_SPAN_ID or flags > MAX_FLAGS:
+            raise SpanContextCorruptedException(
+                'malformed trace context "%s"' % value)
         if parent_id == 0:
             parent_id = None
         return trace_id, span_id, parent_id, flags
-- 
2.43.0


From 6d2d3f471dbbda008a990ce254ab8574d526bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 03/17] fix: reject negative numbers in B3 headers

---
 jaeger_client/codecs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 71365ee..a9c45d7 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -318,10 +318,14 @@ def header_to_hex(header):
             'malformed trace context "%s", expected hex string' % (header,))
 
     try:
-        return int(header, 16)
+        value = int(header, 16)
     except ValueError:
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
+    if value < 0:
+        raise SpanContextCorruptedException(
+            'malformed trace context "%s", expected hex string' % header)
+    return value
 
 
 class B3Codec(Codec):
-- 
2.43.0


From 18d99575854c3956ba7746ac32cd498af85865d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 04/17] fix: ignore a sampling.priority tag whose value does
 not convert to an integer

---
 jaeger_client/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 65ff161..f244e09 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -124,7 +124,7 @@ class Span(opentracing.Span):
 
         try:
             value_num = int(value)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From 22f6d2e681f60d6240a5218ecf1900acaf4a66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 05/17] fix: build the new baggage under the span lock so that
 concurrent updates are not lost

---
 jaeger_client/span.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index f244e09..15eb088 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -149,10 +149,9 @@ class Span(opentracing.Span):
         return self
 
     def set_baggage_item(self, key: str, value: Optional[str]) -> 'Span':
-        prev_value = self.get_baggage_item(key=key)
-        new_context = self.context.with_baggage_item(key=key, value=value)
         with self.update_lock:
-            self._context = new_context
+            prev_value = self.get_baggage_item(key=key)
+            self._context = self.context.with_baggage_item(key=key, value=value)
         if self.is_sampled():
             logs = {
                 'event': 'baggage',
-- 
2.43.0


From 5dba4a18ce8fda90339c8dc5012268d9e25f398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 06/17] fix: report an integer tag that does not fit 64 bits as
 a string

---
 jaeger_client/thrift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index fbe07ff..1a9017b 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -66,7 +66,7 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int):
+    elif isinstance(value, int) and -_max_signed_id - 1 <= value <= _max_signed_id:
         return _make_long_tag(
             key=key,
             value=value
-- 
2.43.0


From 9bf59c95982dad26bdfdbbd909bf041cd0197de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 07/17] fix: give a batch its own copies of the tags and logs
 of a span

---
 jaeger_client/thrift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 1a9017b..0fac411 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -213,8 +213,8 @@ def make_jaeger_batch(spans, process):
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
-                tags=span.tags,  # TODO
-                logs=span.logs,  # TODO
+                tags=list(span.tags),  # TODO
+                logs=list(span.logs),  # TODO
             )
         batch.spans.append(jaeger_span)
     return batch
-- 
2.43.0


From 575fcb59e5151183917395680efae4c9e915af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 08/17] fix: count a sampling response that is not UTF-8 text
 as a failure instead of raising

---
 jaeger_client/sampler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 355f853..a589fc1 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -433,14 +433,13 @@ class RemoteControlledSampler(Sampler):
 
         response = future.result()
 
-        # In Python 3.5 response.body is of type bytes and json.loads() does only support str
-        # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
+        response_body = response.body
 
         try:
+            # In Python 3.5 response.body is of type bytes and json.loads() does only support str
+            # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             sampling_strategies_response = json.loads(response_body)
             self.metrics.sampler_retrieved(1)
         except Exception as e:
-- 
2.43.0


From 45261d12b8b83962667ea352c40f822f3e0eac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 09/17] fix: count a throttling response that is not UTF-8 text
 as a failure instead of raising

---
 jaeger_client/throttler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6866e4b..a3aaf12 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -155,14 +155,13 @@ class RemoteThrottler(Throttler):
             return
 
         response = future.result()
-        # In Python 3.5 response.body is of type bytes and json.loads() does only support str
-        # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
+        response_body = response.body
 
         try:
+            # In Python 3.5 response.body is of type bytes and json.loads() does only support str
+            # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             throttling_response = json.loads(response_body)
             self.logger.debug('Received throttling response: %s',
                               throttling_response)
-- 
2.43.0


From c82b72a86c30674c252b11dbf4b387b4757e656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 10/17] fix: request credits for a snapshot of the operations,
 not for a dict view used outside the lock

---
 jaeger_client/throttler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index a3aaf12..c6b74d5 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -117,7 +117,7 @@ class RemoteThrottler(Throttler):
 
     def _operations(self):
         with self.lock:
-            return self.credits.keys()
+            return list(self.credits.keys())
 
     def _delayed_polling(self):
         def callback():
-- 
2.43.0


From 1049b6bbc064373cc4d36512cdf2643b6c2a445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 11/17] fix: reject malformed per-operation strategies before
 applying any of them

---
 jaeger_client/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index a589fc1..ff1d77b 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -295,6 +295,7 @@ class AdaptiveSampler(Sampler):
 
     def update(self, strategies: Dict[str, Any]) -> None:
         # (NB) This function should only be called while holding a Write lock.
+        AdaptiveSampler(strategies, self.max_operations)  # malformed strategies change nothing
         for strategy in strategies.get(STRATEGIES_STR, []):
             operation = strategy.get(OPERATION_STR)
             lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
-- 
2.43.0


From 9d325a19939b72c20f99dbc01c086bbe6e14636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 12/17] fix: complete the future of submit() when the function
 raises at once

---
 jaeger_client/ioloop_util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index eb73b6f..11d7194 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -13,7 +13,6 @@
 # limitations under the License.
 
 
-import sys
 from tornado import gen
 from tornado.concurrent import Future
 
@@ -33,13 +32,10 @@ def submit(fn, io_loop, *args, **kwargs):
         """Execute fn on the IOLoop."""
         try:
             result = gen.maybe_future(fn(*args, **kwargs))
-        except Exception:
+        except Exception as e:
             # The function we ran didn't return a future and instead raised
-            # an exception. Let's pretend that it returned this dummy
-            # future with our stack trace.
-            f = gen.Future()
-            f.set_exc_info(sys.exc_info())
-            on_done(f)
+            # an exception.
+            future.set_exception(e)
         else:
             result.add_done_callback(on_done)
 
-- 
2.43.0


From 8493dd2f2b6eb09c1a40cbb98b1fcc7fe43722cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 13/17] fix: do not leave a partly encoded batch in the
 transport's buffer

---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 6888aa8..4818571 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -30,6 +30,7 @@ from .utils import ErrorReporter
 from .span import Span
 
 from thrift.protocol import TCompactProtocol
+from thrift.transport.TTransport import TBufferedTransport
 from jaeger_client.thrift_gen.agent import Agent
 
 default_logger = logging.getLogger('jaeger_tracing')
@@ -194,7 +195,9 @@ class Reporter(BaseReporter):
         :param: transport:
         :return: Thrift compact protocol
         """
-        return TCompactProtocol.TCompactProtocol(transport)
+        # each message gets its own buffer, so that nothing is left in the transport
+        # when encoding a message fails half-way
+        return TCompactProtocol.TCompactProtocol(TBufferedTransport(transport))
 
     @tornado.gen.coroutine
     def _submit(self, spans):
-- 
2.43.0


From 6a1de4e40f35d29ff51ab95d57df164a77d6fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 14/17] fix: let a second close of the reporter complete
 instead of waiting forever

---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 4818571..88a73c2 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -239,8 +239,11 @@ class Reporter(BaseReporter):
     def _flush(self):
         # stopping here ensures we don't lose spans from pending _report_span_from_ioloop callbacks
         with self.stop_lock:
+            already_stopped = self.stopped
             self.stopped = True
-        yield self.queue.put(self.stop)
+        # one stop signal is enough, nobody would take another one off the queue
+        if not already_stopped:
+            yield self.queue.put(self.stop)
         yield self.queue.join()
 
 
-- 
2.43.0


From 5250df98a70c500381f4f763b45ae5d976f7aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 15/17] fix: complete the close of a composite reporter without
 members

---
 jaeger_client/reporter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 88a73c2..0e213b3 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -286,6 +286,9 @@ class CompositeReporter(BaseReporter):
                 if count[0] == len(self.reporters):
                     future.set_result(True)
 
+        if not self.reporters:
+            future.set_result(True)
+
         for reporter in self.reporters:
             f = reporter.close()
             f.add_done_callback(on_close)
-- 
2.43.0


From 0c0f722549f677e8b172f70706bda02f37812b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 16/17] fix: accept all configuration keys that are honoured
 when validating, and name keys that are no strings

---
 jaeger_client/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index c70f56a..0d76416 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -124,8 +124,10 @@ class Config(object):
 
     def _validate_config(self, config):
         allowed_keys = ['logging',
+                        'metrics',
                         'local_agent',
                         'sampler',
+                        'max_operations',
                         'tags',
                         'enabled',
                         'reporter_batch_size',
@@ -138,13 +140,14 @@ class Config(object):
                         'trace_id_header',
                         'generate_128bit_trace_id',
                         'baggage_header_prefix',
+                        'debug_id_header',
                         'service_name',
                         'throttler']
         config_keys = config.keys()
         unexpected_config_keys = [k for k in config_keys if k not in allowed_keys]
         if unexpected_config_keys:
             raise ValueError('Unexpected keys found in config:{}'.
-                             format(','.join(unexpected_config_keys)))
+                             format(','.join(map(str, unexpected_config_keys))))
 
     @property
     def service_name(self) -> str:
-- 
2.43.0


From c31319dfca8965f366ac18d1c701a79c2960d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:17 +0000
Subject: [PATCH 17/17] fix: a start, finish or log time of 0 is a time that
 was given

---
 jaeger_client/span.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 15eb088..99bfccb 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -50,7 +50,7 @@ class Span(opentracing.Span):
     ) -> None:
         super(Span, self).__init__(context=context, tracer=tracer)
         self.operation_name = operation_name
-        self.start_time = start_time or time.time()
+        self.start_time = start_time if start_time is not None else time.time()
         self.end_time: Optional[float] = None
         self.finished = False
         self.update_lock = threading.Lock()
@@ -91,7 +91,7 @@ class Span(opentracing.Span):
                 logger.warning('Span has already been finished; will not be reported again.')
                 return
             self.finished = True
-            self.end_time = finish_time or time.time()
+            self.end_time = finish_time if finish_time is not None else time.time()
 
         self.tracer.report_span(self)
 
@@ -136,10 +136,10 @@ class Span(opentracing.Span):
 
     def log_kv(self, key_values: Dict[str, Any], timestamp: Optional[float] = None) -> 'Span':
         if self.is_sampled():
-            timestamp = timestamp if timestamp else time.time()
+            timestamp = timestamp if timestamp is not None else time.time()
             # TODO handle exception logging, 'python.exception.type' etc.
             log = thrift.make_log(
-                timestamp=timestamp if timestamp else time.time(),
+                timestamp=timestamp,
                 fields=key_values,
                 max_length=self._tracer.max_tag_value_length,
                 max_traceback_length=self._tracer.max_traceback_length,
-- 
2.43.0


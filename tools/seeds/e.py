"""fifth batch: written from the statements and the code alone"""
import runpy
_b = runpy.run_path('/verif/tools/seeds/b.py')
TR, P = _b['TR'], _b['P']
CTX = runpy.run_path('/verif/tools/seeds/c.py')['CTX']
LOOP = '''
import asyncio, time
from tornado.ioloop import IOLoop
from jaeger_client.reporter import *
'''
SEEDS = {
 'c01-plus-sign-and-spaces': dict(
    prop='C01', edits=[(P + 'codecs.py', "                    encoded_value = urllib.parse.quote(value)", "                    encoded_value = urllib.parse.quote(value, safe='/+')"),
                       (P + 'codecs.py', "            elif uc_key.startswith(self.baggage_prefix):\n                if self.url_encoding:\n                    value = urllib.parse.unquote(value)", "            elif uc_key.startswith(self.baggage_prefix):\n                if self.url_encoding:\n                    value = urllib.parse.unquote_plus(value)")],
    demo=CTX + '''
c = TextCodec(url_encoding=True)
for v in ('a b', 'a+b'):
    h = {}
    c.inject(ctx(baggage={'k': v}), h)
    assert c.extract(h).baggage == {'k': v}, (v, h)
''', needs='a plus sign in a baggage value of a URL-encoded carrier (two cooperating sites)', breaks='it arrives as a space'),
 'c02-tuple-accepted': dict(
    prop='C02', edits=[(P + 'codecs.py', "    if type(value) is list and len(value) > 0:", "    if isinstance(value, (list, tuple)) and len(value) > 0:")],
    demo=CTX + '''
from jaeger_client.codecs import span_context_from_string
from opentracing import SpanContextCorruptedException
try:
    span_context_from_string(('1:2:3:1',))
except SpanContextCorruptedException:
    pass
else:
    assert False
''', needs='a tuple holding the header value', breaks='it is accepted'),
 'c03-underscore-names-match': dict(
    prop='C03', edits=[(P + 'codecs.py', "            uc_key = key.lower()\n            if uc_key == self.trace_id_header:", "            uc_key = key.lower().replace('_', '-')\n            if uc_key == self.trace_id_header:")],
    demo=CTX + '''
assert TextCodec().extract({'uber_trace_id': '1:2:3:1'}) is None
''', needs='an unrelated entry whose name has underscores for the dashes', breaks='it is taken as the trace-context header'),
 'c04-long-trace-id-cut': dict(
    prop='C04', edits=[(P + 'codecs.py', "            carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(16)", "            carrier[self.trace_header] = format(span_context.trace_id, 'x')[-16:].zfill(16)")],
    demo=CTX + '''
h = {}
B3Codec().inject(ctx(trace_id=(5 << 64) | 1), h)
assert int(h['X-B3-TraceId'], 16) == (5 << 64) | 1, h
''', needs='a 128-bit trace received while 128-bit ids are not enabled', breaks='the high half is lost'),
 'c05-trailing-nul-stripped': dict(
    prop='C05', edits=[(P + 'codecs.py', "        return b''.join(data_value).decode('utf-8'), bytes_read", "        return b''.join(data_value).decode('utf-8').rstrip(chr(0)), bytes_read")],
    demo=CTX + '''
c = BinaryCodec()
b = bytearray()
c.inject(ctx(baggage={'k': 'v\\0'}), b)
assert c.extract(b).baggage == {'k': 'v\\0'}
''', needs='a value ending in a NUL character', breaks='the character is lost'),
 'c07-finished-span-refused': dict(any_error=True,
    prop='C07', edits=[(P + 'tracer.py', "        if isinstance(span_context, Span):\n            # be flexible", "        if isinstance(span_context, Span) and not span_context.finished:\n            # be flexible")],
    demo=TR + '''
from opentracing import Format
t = tracer()
s = t.start_span('x')
s.finish()
h = {}
t.inject(s, Format.TEXT_MAP, h)
assert h
''', needs='a span that has been finished', breaks='injecting it raises ValueError'),
 'c08-references-beat-active-span': dict(
    prop='C08', edits=[(P + 'tracer.py', "                and not ignore_active_span \\\n                and not parent:", "                and not ignore_active_span \\\n                and not references \\\n                and not parent:")],
    demo=TR + CTX + '''
import opentracing
t = tracer()
with t.start_active_span('a') as scope:
    s = t.start_span('x', references=opentracing.follows_from(ctx()))
    assert s.parent_id == scope.span.span_id
''', needs='an active span together with references', breaks='the reference becomes the parent'),
 'c09-falsy-sampler-tag-dropped': dict(
    prop='C09', edits=[(P + 'tracer.py', "                    for k, v in sampler_tags.items():\n                        tags[k] = v", "                    tags.update((k, v) for k, v in sampler_tags.items() if v)")],
    demo=TR + '''
from jaeger_client.sampler import GuaranteedThroughputProbabilisticSampler
s = GuaranteedThroughputProbabilisticSampler('x', 1, 0.0)
s.lower_bound_sampler.rate_limiter.balance = 1.0
t = tracer(sampler=s)
keys = [x.key for x in t.start_span('x').tags]
assert 'sampler.param' in keys, keys
''', needs='a sampler tag with the value 0', breaks='it is not recorded'),
 'c10-throttler-asked-twice': dict(
    prop='C10', edits=[(P + 'tracer.py', "            if parent and parent.baggage:", "            if parent and parent.debug_id and not flags and not self.is_debug_allowed(operation_name):\n                logger.info('Debug request was throttled')\n            if parent and parent.baggage:")],
    demo=TR + CTX + '''
class T:
    n = 0
    def set_client_id(self, i): pass
    def is_allowed(self, op):
        T.n += 1
        return False
t = tracer(throttler=T())
t.start_span('x', child_of=SpanContext(None, None, None, None, debug_id='d'))
assert T.n == 1, T.n
''', needs='a throttler that refuses', breaks='it is asked twice'),
 'c11-fraction-text-accepted': dict(
    prop='C11', edits=[(P + 'span.py', "            value_num = int(value)", "            value_num = int(float(value))")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_tag(ext_tags.SAMPLING_PRIORITY, '0.5')
assert s.is_sampled()
''', needs='a text that is a number but no integer', breaks='the flags are cleared'),
 'c12-empty-log-not-recorded': dict(
    prop='C12', edits=[(P + 'span.py', "    def log_kv(self, key_values: Dict[str, Any], timestamp: Optional[float] = None) -> 'Span':\n        if self.is_sampled():", "    def log_kv(self, key_values: Dict[str, Any], timestamp: Optional[float] = None) -> 'Span':\n        if self.is_sampled() and key_values:")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.log_kv({})
assert len(s.logs) == 1
''', needs='a log call without fields', breaks='it is not recorded'),
 'c12-null-tag-not-recorded': dict(
    prop='C12', edits=[(P + 'span.py', "            if self.is_sampled():\n                tag = thrift.make_tag(", "            if self.is_sampled() and value is not None:\n                tag = thrift.make_tag(")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
n = len(s.tags)
s.set_tag('a', None)
assert len(s.tags) == n + 1
''', needs='a tag whose value is None', breaks='it is not recorded'),
 'c13-unsampled-finish-remembered': dict(
    prop='C13', edits=[(P + 'span.py', "        if not self.is_sampled():\n            return\n\n        with self.update_lock:\n            if self.finished:", "        if not self.is_sampled():\n            self.finished = True\n            return\n\n        with self.update_lock:\n            if self.finished:")],
    demo=TR + '''
t = tracer(sampler=ConstSampler(False))
s = t.start_span('x')
s.finish()
s.set_tag(ext_tags.SAMPLING_PRIORITY, 1)
s.finish()
assert t.rep.get_spans() == [s]
''', needs='a finish before the span becomes sampled by its priority, then another one', breaks='the sampled span is never reported'),
 'c14-same-value-not-logged': dict(
    prop='C14', edits=[(P + 'span.py', "        if self.is_sampled():\n            logs = {", "        if self.is_sampled() and value != prev_value:\n            logs = {")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_baggage_item('a', 'b')
s.set_baggage_item('a', 'b')
assert len(s.logs) == 2
''', needs='an item set to the value it has', breaks='the update is not logged'),
 'c15-high-half-mixed-in': dict(
    prop='C15', edits=[(P + 'sampler.py', "        trace_id = trace_id & (self.max_number - 1)", "        trace_id = (trace_id ^ (trace_id >> _max_id_bits)) & (self.max_number - 1)")],
    demo='''
from jaeger_client import ProbabilisticSampler
s = ProbabilisticSampler(0.5)
assert s.is_sampled((1 << 127) | 5)[0]
''', needs='a 128-bit trace id', breaks='the decision is not that of the low 64 bits'),
 'c15-boundary-rounded-down': dict(
    prop='C15', edits=[(P + 'sampler.py', "        self.boundary = rate * self.max_number", "        self.boundary = int(rate * self.max_number)")],
    demo='''
from jaeger_client import ProbabilisticSampler
r = 2.0 ** -65
assert ProbabilisticSampler(r).is_sampled(0)[0]
''', needs='a rate so small that the boundary is no whole number', breaks='the trace id just below the boundary is refused'),
 'c16-short-intervals-lost': dict(
    prop='C16', edits=[(P + 'rate_limiter.py', "        self.balance += elapsed_time * self.credits_per_second", "        if elapsed_time < 0.001:\n            return\n        self.balance += elapsed_time * self.credits_per_second")],
    demo='''
from jaeger_client.rate_limiter import RateLimiter
now = [0.0]
RateLimiter.timestamp = staticmethod(lambda: now[0])
r = RateLimiter(100.0, 10.0)
r.balance = 0.0
for i in range(2100):
    now[0] += 0.0005
    r.check_credit(1000)
assert r.balance > 9, r.balance
''', needs='calls less than a millisecond apart', breaks='the time between them is not credited'),
 'c16-same-whole-part-not-updated': dict(
    prop='C16', edits=[(P + 'sampler.py', "        if self.traces_per_second == max_traces_per_second:\n            return False", "        if int(self.traces_per_second) == int(max_traces_per_second):\n            return False")],
    demo='''
from jaeger_client.sampler import RateLimitingSampler
s = RateLimitingSampler(1.0)
assert s.update(1.5) and s.rate_limiter.credits_per_second == 1.5
''', needs='limits with the same whole part', breaks='the new limit is not taken'),
 'c17-zero-lower-bound-means-default': dict(
    prop='C17', edits=[(P + 'sampler.py', "        self.lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)\n        if self.default_sampling_probability", "        self.lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR) or DEFAULT_LOWER_BOUND\n        if self.default_sampling_probability")],
    demo='''
from jaeger_client.sampler import AdaptiveSampler
s = AdaptiveSampler({}, 2)
s.update({'defaultLowerBoundTracesPerSecond': 0})
assert s.lower_bound == 0
''', needs='an update with the lower bound 0', breaks='the default bound is used for new operations'),
 'c18-invalid-text-replaced': dict(
    prop='C18', edits=[(P + 'sampler.py', "response_body = response_body.decode('utf-8')", "response_body = response_body.decode('utf-8', 'replace')")],
    demo='''
from unittest import mock
from jaeger_client.sampler import RemoteControlledSampler
ch = mock.MagicMock()
s = RemoteControlledSampler(ch, 'svc')
was = s.sampler
f = mock.MagicMock()
f.exception.return_value = None
f.result.return_value.body = b'{"strategyType":"PROBABILISTIC","x":"\\xff","probabilisticSampling":{"samplingRate":0.5}}'
s._sampling_request_callback(f)
assert s.sampler is was
''', needs='a response that is no UTF-8 text', breaks='it is applied'),
 'c18-null-operation-sampling': dict(
    prop='C18', edits=[(P + 'sampler.py', "                if response.get(OPERATION_SAMPLING_STR):", "                if OPERATION_SAMPLING_STR in response:")],
    demo='''
from unittest import mock
from jaeger_client.sampler import RemoteControlledSampler
s = RemoteControlledSampler(mock.MagicMock(), 'svc')
s._update_sampler({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.5}, 'operationSampling': None})
assert s.sampler.rate == 0.5
''', needs='a response whose operationSampling is null', breaks='the named probability is not installed'),
 'c19-client-id-zero-replaced': dict(
    prop='C19', edits=[(P + 'throttler.py', "            if self.client_id is None:", "            if not self.client_id:")],
    demo='''
from unittest import mock
from jaeger_client.throttler import RemoteThrottler
t = RemoteThrottler(mock.MagicMock(), 'svc')
t.set_client_id(0)
t.set_client_id(5)
assert t.client_id == 0
''', needs='the client id 0', breaks='a later id replaces it'),
 'c19-unnamed-operation-never-known': dict(
    prop='C19', edits=[(P + 'throttler.py', "            if operation not in self.credits:", "            if not operation:\n                return False\n            if operation not in self.credits:")],
    demo='''
from unittest import mock
from jaeger_client.throttler import RemoteThrottler
t = RemoteThrottler(mock.MagicMock(), 'svc')
assert not t.is_allowed('')
assert t._operations() == ['']
''', needs='an operation with an empty name', breaks='it never becomes known'),
 'c21-nan-as-text': dict(
    prop='C21', edits=[(P + 'thrift.py', "    elif isinstance(value, float):", "    elif isinstance(value, float) and value == value:")],
    demo='''
from jaeger_client import thrift
from jaeger_client.thrift_gen.jaeger.ttypes import TagType
assert thrift.make_tag('k', float('nan'), 10, 10).vType == TagType.DOUBLE
''', needs='the value NaN', breaks='it is reported as a string'),
 'c21-limit-zero-means-none': dict(
    prop='C21', edits=[(P + 'thrift.py', "    value = _to_string(value)\n    if len(value) > max_length:", "    value = _to_string(value)\n    if max_length and len(value) > max_length:")],
    demo='''
from jaeger_client import thrift
assert thrift.make_tag('k', 'abc', 0, 0).vStr == ''
''', needs='a maximum tag length of 0', breaks='strings are not cut'),
 'c22-reference-to-parent-omitted': dict(any_error=True,
    prop='C22', edits=[(P + 'thrift.py', "                references=make_references(span.references),", "                references=make_references([\n                    r for r in span.references or []\n                    if r.referenced_context.span_id != span.parent_id]),")],
    demo=TR + CTX + '''
from jaeger_client import thrift
t = tracer()
s = t.start_span('x', references=opentracing.follows_from(ctx()))
s.finish()
b = thrift.make_jaeger_batch([s], thrift.make_process('svc', {}, 10))
assert len(b.spans[0].references) == 1
''', needs='a reference to the parent', breaks='it is not reported'),
 'c23-same-span-twice-skipped': dict(
    prop='C23', edits=[(P + 'reporter.py', "                    else:\n                        spans.append(span)", "                    elif span in spans:\n                        self.queue.task_done()\n                    else:\n                        spans.append(span)")],
    demo=LOOP + '''
from unittest import mock
from tornado import gen
loop = IOLoop()
ch = mock.MagicMock()
r = Reporter(ch, io_loop=loop, flush_interval=0.05)
got = []
@gen.coroutine
def submit(spans):
    got.extend(spans)
r._submit = submit
s = object()
r.report_span(s)
r.report_span(s)
loop.run_sync(lambda: r.close(), timeout=5)
assert len(got) == 2, got
''', needs='a span handed over twice', breaks='it is neither sent nor counted the second time'),
 'c24-join-gives-up': dict(
    prop='C24', edits=[(P + 'reporter.py', "        yield self.queue.join()", "        try:\n            yield self.queue.join(timeout=self.io_loop.time() + 1)\n        except tornado.gen.TimeoutError:\n            self.logger.error('Timed out flushing spans')")],
    demo=LOOP + '''
from unittest import mock
from tornado import gen
loop = IOLoop()
r = Reporter(mock.MagicMock(), io_loop=loop, flush_interval=0.05)
done = []
@gen.coroutine
def submit(spans):
    yield gen.sleep(2.5)
    done.extend(spans)
r._submit = submit
r.report_span(object())
loop.run_sync(lambda: r.close(), timeout=8)
assert len(done) == 1, done
''', needs='an agent slower than a second', breaks='the close completes before the spans are submitted'),
 'c24-composite-waits-for-success': dict(
    prop='C24', edits=[(P + 'reporter.py', "            with lock:\n                count[0] += 1", "            if _.exception():\n                return\n            with lock:\n                count[0] += 1")],
    demo='''
import asyncio
from tornado.concurrent import Future
from jaeger_client.reporter import CompositeReporter, NullReporter
async def main():
    class R(NullReporter):
        def close(self):
            f = Future()
            f.set_exception(ValueError('x'))
            return f
    f = CompositeReporter(R(), NullReporter()).close()
    await asyncio.sleep(0.2)
    assert f.done()
asyncio.new_event_loop().run_until_complete(main())
''', needs='a member whose close fails', breaks='the close never completes'),
 'c25-empty-member-skipped': dict(
    prop='C25', edits=[(P + 'reporter.py', "        for reporter in self.reporters:\n            reporter.report_span(span)", "        for reporter in filter(None, self.reporters):\n            reporter.report_span(span)")],
    demo='''
from jaeger_client.reporter import CompositeReporter, InMemoryReporter
class R(InMemoryReporter):
    def __len__(self):
        return len(self.spans)
r = R()
CompositeReporter(r).report_span(1)
assert r.get_spans() == [1]
''', needs='a member that is false while empty', breaks='it never gets a span'),
 'c26-debug-counted-as-not-sampled': dict(
    prop='C26', edits=[(P + 'tracer.py', "    def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:\n        if span.is_sampled():\n            self.metrics.spans_started_sampled(1)", "    def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:\n        if span.is_sampled() and not span.is_debug():\n            self.metrics.spans_started_sampled(1)")],
    demo=TR + CTX + '''
t = tracer()
n = []
t.metrics.spans_started_sampled = n.append
t.start_span('x', child_of=ctx(flags=3))
assert n == [1]
''', needs='a debug span', breaks='it is counted as not sampled'),
 'c27-traceback-length-from-tag-length': dict(
    prop='C27', edits=[(P + 'config.py', "        return self.config.get('max_traceback_length', MAX_TRACEBACK_LENGTH)", "        return self.config.get('max_traceback_length', max(MAX_TRACEBACK_LENGTH, self.max_tag_value_length))")],
    demo='''
from jaeger_client import Config
c = Config({'max_tag_value_length': 10000}, service_name='s')
assert c.max_traceback_length == 4096
''', needs='a tag length above the traceback length', breaks='the tag length changes the traceback length too'),
 'c27-boolean-stripped': dict(
    prop='C27', edits=[(P + 'utils.py', "    string = str(string).lower()", "    string = str(string).strip().lower()")],
    demo='''
from jaeger_client import Config
assert Config({'enabled': ' false '}, service_name='s').enabled is True
''', needs='spaces around a boolean setting', breaks='it does not fall back to the default'),
 'c28-suppressed-errors-extend-silence': dict(
    prop='C28', edits=[(P + 'utils.py', "            # If we aren't yet at the next logging deadline\n            return", "            # If we aren't yet at the next logging deadline\n            if args and self.logger.isEnabledFor(10):\n                self._last_error_reported_at = current_time\n            return")],
    demo='''
import logging, time
from jaeger_client.utils import ErrorReporter
now = [0.0]
time.time = lambda: now[0]
class L(logging.Logger):
    got = 0
    def error(self, *a): L.got += 1
e = ErrorReporter(None, L('x', 10), 1)
now[0] = 50.0
e.error('a')
now[0] = 70.0
e.error('b')
assert L.got == 1
''', needs='a debug-level logger and errors during the silence', breaks='the next error after the interval is not logged'),
}

"""third batch: written from the statements and the code alone"""
import runpy
_b = runpy.run_path('/verif/tools/seeds/b.py')
TR, P = _b['TR'], _b['P']
CTX = '''
from jaeger_client import SpanContext
from jaeger_client.codecs import TextCodec, B3Codec, BinaryCodec, ZipkinCodec
from jaeger_client.constants import *
def ctx(**kw):
    d = dict(trace_id=7, span_id=8, parent_id=None, flags=1, baggage=None)
    d.update(kw)
    return SpanContext(**d)
'''
SEEDS = {
 'c01-empty-baggage-value-dropped': dict(
    prop='C01', edits=[(P + 'codecs.py', "            for key, value in baggage.items():\n                encoded_key = key", "            for key, value in baggage.items():\n                if not value:\n                    continue\n                encoded_key = key")],
    demo=CTX + '''
c = TextCodec()
h = {}
c.inject(ctx(baggage={'k': '', 'l': 'x'}), h)
assert c.extract(h).baggage == {'k': '', 'l': 'x'}, h
''', needs='an empty baggage value', breaks='the item does not arrive'),
 'c02-first-of-several-headers': dict(
    prop='C02', edits=[(P + 'codecs.py', "        if len(value) > 1:\n", "        if len(value) > 1 and value[0] != value[1]:\n")],
    demo=CTX + '''
from jaeger_client.codecs import span_context_from_string
from opentracing import SpanContextCorruptedException
for v in (['1:2:3:1', '1:2:3:1'], ['1:2:3:1', '1:2:3:1', 'zz']):
    try:
        span_context_from_string(v)
    except SpanContextCorruptedException:
        pass
    else:
        assert False, v
''', needs='a list of two equal header values', breaks='it is accepted although only one-element lists are'),
 'c02-unicode-error-escapes': dict(
    prop='C02', edits=[(P + 'codecs.py', "    parts = value.split(':')\n", "    value.encode('ascii')\n    parts = value.split(':')\n")],
    demo=CTX + '''
from jaeger_client.codecs import span_context_from_string
from opentracing import SpanContextCorruptedException
try:
    span_context_from_string('1:2:3:\\u00e9')
except SpanContextCorruptedException:
    pass
except Exception as e:
    assert False, e
''', needs='a header with a character outside ASCII', breaks='another error than the corrupted-context one is raised'),
 'c03-value-with-equals-sign': dict(
    prop='C03', edits=[(P + 'codecs.py', "part.strip().split('=')", "part.strip().split('=', 1)")],
    demo=CTX + '''
c = TextCodec()
r = c.extract({'jaeger-baggage': 'a=b=c, d=e'})
assert r.baggage == {'d': 'e'}, r.baggage
''', needs='an ad-hoc baggage item with two equals signs', breaks='a malformed item is taken'),
 'c03-debug-id-before-trace-only': dict(
    prop='C03', edits=[(P + 'codecs.py', "            elif uc_key == self.debug_id_header:", "            elif uc_key == self.debug_id_header and trace_id is None:")],
    demo=CTX + '''
c = TextCodec()
a = c.extract({'jaeger-debug-id': 'x', 'uber-trace-id': '1:2:0:1'})
b = c.extract({'uber-trace-id': '1:2:0:1', 'jaeger-debug-id': 'x'})
assert a.debug_id == b.debug_id == 'x'
''', needs='a debug-id header after a trace header', breaks='the debug id is lost'),
 'c04-debug-implies-sampled-header': dict(
    prop='C04', edits=[(P + 'codecs.py', "        elif span_context.flags & SAMPLED_FLAG == SAMPLED_FLAG:\n            carrier", "        if span_context.flags & SAMPLED_FLAG == SAMPLED_FLAG and span_context.parent_id:\n            carrier"),],
    demo=CTX + '''
h = {}
B3Codec().inject(ctx(flags=3, parent_id=5), h)
assert h.get('X-B3-Sampled') is None, h
h = {}
B3Codec().inject(ctx(flags=1), h)
assert h.get('X-B3-Sampled') == '1', h
''', needs='a sampled root context or a debug context with a parent', breaks='the sampled header is missing or added'),
 'c04-zero-parent-rejected': dict(
    prop='C04', edits=[(P + 'codecs.py', "                parent_id = header_to_hex(header_value)", "                parent_id = header_to_hex(header_value.lstrip('0'))")],
    demo=CTX + '''
r = B3Codec().extract({'X-B3-TraceId': '1', 'X-B3-SpanId': '2', 'X-B3-ParentSpanId': '0000000000000000'})
assert r.trace_id == 1 and not r.parent_id
''', needs='a parent id header of zeros', breaks='the carrier is rejected', any_error=True),
 'c05-carrier-replaced': dict(
    prop='C05', edits=[(P + 'codecs.py', "        carrier += struct.pack('>QQQQBI', high, low, span_context.span_id or 0,\n                               span_context.parent_id or 0, span_context.flags,\n                               len(span_context.baggage))\n", "        carrier[:] = struct.pack('>QQQQBI', high, low, span_context.span_id or 0,\n                                 span_context.parent_id or 0, span_context.flags,\n                                 len(span_context.baggage))\n")],
    demo=CTX + '''
b = bytearray(b'abc')
BinaryCodec().inject(ctx(), b)
assert b[:3] == b'abc' and len(b) == 40, b
''', needs='a carrier that is not empty', breaks='what the carrier contained is lost'),
 'c06-zero-flags-default': dict(
    prop='C06', edits=[(P + 'codecs.py', "            flags = carrier.get('traceflags')", "            flags = carrier.get('traceflags') or SAMPLED_FLAG")],
    demo=CTX + '''
r = ZipkinCodec().extract({'trace_id': 1, 'span_id': 2, 'parent_id': None, 'traceflags': 0})
assert r.flags == 0, r.flags
''', needs='an unsampled dictionary carrier', breaks='the trace comes out sampled'),
 'c07-codecs-shared-between-tracers': dict(
    prop='C07', edits=[(P + 'tracer.py', "        self.codecs = {\n            Format.TEXT_MAP", "        self.codecs = Tracer._codecs\n        self.codecs.update({\n            Format.TEXT_MAP"),
                       (P + 'tracer.py', "            ZipkinSpanFormat: ZipkinCodec(),\n        }\n", "            ZipkinSpanFormat: ZipkinCodec(),\n        })\n"),
                       (P + 'tracer.py', "    def start_span(self,\n", "    _codecs: dict = {}\n\n    def start_span(self,\n")],
    demo=TR + '''
from opentracing import UnsupportedFormatException
from jaeger_client.codecs import B3Codec
a = tracer(extra_codecs={'b3': B3Codec()})
b = tracer()
try:
    b.extract('b3', {})
except UnsupportedFormatException:
    pass
else:
    assert False
''', needs='two tracers, one of them with an extra codec', breaks='the codec of one tracer serves the other'),
 'c07-falsy-extra-codec-ignored': dict(
    prop='C07', edits=[(P + 'tracer.py', "            self.codecs.update(extra_codecs)", "            self.codecs.update({f: c for f, c in extra_codecs.items() if f not in self.codecs or c})")],
    demo=TR + '''
from jaeger_client.codecs import Codec
class C(Codec):
    n = 0
    def __len__(self):
        return self.n
    def inject(self, span_context, carrier):
        self.n += 1
c = C()
t = tracer(extra_codecs={opentracing.Format.TEXT_MAP: c})
t.inject(SpanContext(1, 2, None, 1), opentracing.Format.TEXT_MAP, {})
assert c.n == 1
''', needs='an extra codec for a built-in format that is falsy', breaks='the built-in codec is used'),
 'c08-client-span-shares-id': dict(
    prop='C08', edits=[(P + 'tracer.py', "rpc_server = bool(tags and tags.get(ext_tags.SPAN_KIND) == ext_tags.SPAN_KIND_RPC_SERVER)", "rpc_server = bool(tags and str(tags.get(ext_tags.SPAN_KIND)).startswith(ext_tags.SPAN_KIND_RPC_SERVER))")],
    demo=TR + '''
t = tracer(one_span_per_rpc=True)
s = t.start_span('x', child_of=SpanContext(7, 8, 9, 1), tags={'span.kind': 'server-ish'})
assert s.parent_id == 8 and s.span_id != 8
''', needs='one span per RPC and a span kind that begins like the server kind', breaks='the span shares the id of its parent'),
 'c08-first-reference-with-a-trace': dict(
    prop='C08', edits=[(P + 'tracer.py', "            parent = valid_references[0].referenced_context", "            parent = next((r.referenced_context for r in valid_references\n                           if r.referenced_context.has_trace),\n                          valid_references[0].referenced_context)")],
    demo=TR + '''
t = tracer()
a = SpanContext(None, None, None, None, baggage={'a': 'b'})
s = t.start_span('x', references=[opentracing.child_of(a), opentracing.child_of(SpanContext(7, 8, None, 1))])
assert s.trace_id != 7 and s.parent_id is None
''', needs='references of which the first has no trace', breaks='a later reference becomes the parent'),
 'c09-low-half-as-span-id': dict(
    prop='C09', edits=[(P + 'tracer.py', "            span_id = self._random_id(constants._max_id_bits)\n            parent_id = None", "            span_id = trace_id & ((1 << constants._max_id_bits) - 1)\n            parent_id = None")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
assert s.span_id != s.trace_id
''', needs='a look at both ids', breaks='the span id is no random number of its own'),
 'c09-high-bit-never-set': dict(
    prop='C09', edits=[(P + 'tracer.py', "        return self.random.getrandbits(bitsize)", "        return self.random.getrandbits(min(bitsize, 127))")],
    demo=TR + '''
t = tracer(generate_128bit_trace_id=True)
assert any(t.start_span('x').trace_id >> 127 for _ in range(200))
''', needs='128-bit ids', breaks='trace ids have 127 random bits'),
 'c10-baggage-lost-when-throttled': dict(
    prop='C10', edits=[(P + 'tracer.py', "            if parent and parent.baggage:", "            if parent and parent.baggage and (flags or not parent.debug_id):")],
    demo=TR + '''
class T(object):
    def set_client_id(self, i): pass
    def is_allowed(self, op): return False
t = tracer(throttler=T())
s = t.start_span('x', child_of=SpanContext(None, None, None, None, baggage={'a': 'b'}, debug_id='d'))
assert s.get_baggage_item('a') == 'b'
''', needs='a throttled debug request with baggage', breaks='the baggage is lost'),
 'c11-fraction-counts-as-one': dict(
    prop='C11', edits=[(P + 'span.py', "        if value_num == 0:", "        if value_num == 0 and not value:")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_tag('sampling.priority', 0.5)
assert not s.is_sampled(), s.flags
''', needs='a priority that is not 0 but converts to the integer 0', breaks='the span becomes a debug span'),
 'c11-throttled-priority-clears-debug': dict(
    prop='C11', edits=[(P + 'span.py', "            self.context.flags |= SAMPLED_FLAG | DEBUG_FLAG\n            return True\n        return False", "            self.context.flags |= SAMPLED_FLAG | DEBUG_FLAG\n            return True\n        self.context.flags &= ~DEBUG_FLAG\n        return self.is_sampled()")],
    demo=TR + '''
class T(object):
    def set_client_id(self, i): pass
    def is_allowed(self, op): return False
t = tracer(throttler=T())
s = t.start_span('x')
s.set_tag('sampling.priority', 1)
assert 'sampling.priority' not in [x.key for x in s.tags]
''', needs='a refused priority on a sampled span', breaks='the tag is recorded'),
 'c12-logs-after-finish-dropped': dict(
    prop='C12', edits=[(P + 'span.py', "            with self.update_lock:\n                self.logs.append(log)", "            with self.update_lock:\n                if not self.finished:\n                    self.logs.append(log)")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.finish()
s.log_kv({'a': 'b'})
assert len(s.logs) == 1
''', needs='a log call on a finished span', breaks='the log is not recorded'),
 'c12-oldest-log-dropped': dict(
    prop='C12', edits=[(P + 'span.py', "                self.logs.append(log)", "                self.logs.append(log)\n                if len(self.logs) > 128:\n                    del self.logs[64]")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
for i in range(129):
    s.log_kv({'i': i})
assert len(s.logs) == 129
''', needs='more than 128 logs on one span', breaks='an earlier log is removed'),
 'c13-reported-again-after-reporter-error': dict(
    prop='C13', edits=[(P + 'span.py', "        self.tracer.report_span(self)", "        try:\n            self.tracer.report_span(self)\n        except Exception:\n            self.finished = False\n            raise")],
    demo=TR + '''
from jaeger_client.reporter import NullReporter
class R(NullReporter):
    n = 0
    def report_span(self, span):
        self.n += 1
        raise ValueError()
r = R()
t = Tracer('svc', reporter=r, sampler=ConstSampler(True))
s = t.start_span('x')
for _ in range(2):
    try:
        s.finish()
    except ValueError:
        pass
assert r.n == 1, r.n
''', needs='a reporter that raises', breaks='a later finish reports the span again'),
 'c14-previous-value-read-outside-lock': dict(
    prop='C14', edits=[(P + 'span.py', "        with self.update_lock:\n            prev_value = self.get_baggage_item(key=key)\n            self._context = self.context.with_baggage_item(key=key, value=value)", "        context = self.context\n        prev_value = context.baggage.get(key)\n        with self.update_lock:\n            self._context = (self.context if prev_value else context).with_baggage_item(\n                key=key, value=value)")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
class L(object):
    """another thread sets an item just before the lock is taken"""
    def __init__(self, lock): self.lock, self.done = lock, False
    def __enter__(self):
        if not self.done:
            self.done = True
            s.set_baggage_item('b', '2')
        return self.lock.__enter__()
    def __exit__(self, *a): return self.lock.__exit__(*a)
s.update_lock = L(s.update_lock)
s.set_baggage_item('a', '1')
assert s.context.baggage == {'a': '1', 'b': '2'}, s.context.baggage
''', needs='two concurrent updates', breaks='one of them is lost'),
 'c15-boundary-of-63-bits': dict(
    prop='C15', edits=[(P + 'sampler.py', "        self.boundary = rate * self.max_number", "        self.boundary = 2 * int(rate * (self.max_number >> 1))")],
    demo='''
from jaeger_client.sampler import ProbabilisticSampler
s = ProbabilisticSampler(3.0 / (1 << 64))
assert s.is_sampled(2)[0] and not s.is_sampled(3)[0]
''', needs='a tiny rate', breaks='the id just below the boundary is refused'),
 'c16-long-pause-credited-again': dict(
    prop='C16', edits=[(P + 'rate_limiter.py', "        self.last_tick = current_time\n", "        self.last_tick = min(current_time, self.last_tick + 3600)\n")],
    demo='''
import time
from jaeger_client.rate_limiter import RateLimiter
now = [1000.0]
class R(RateLimiter):
    @staticmethod
    def timestamp():
        return now[0]
r = R(2.0, 2.0)
r.balance = 0.0
now[0] += 36000
n = 0
for _ in range(20):
    n += r.check_credit(1.0)
assert n <= 2, n
''', needs='a pause of more than an hour, followed by a burst', breaks='the same pause is credited again and again'),
 'c16-rescale-to-full': dict(
    prop='C16', edits=[(P + 'rate_limiter.py', "        self.balance = max_balance * self.balance / self.max_balance\n", "        self.balance = max_balance * (self.balance / self.max_balance or 1)\n")],
    demo='''
from jaeger_client.rate_limiter import RateLimiter
r = RateLimiter(0, 1.0)
r.balance = 0.0
r.update(0, 5.0)
assert r.balance == 0, r.balance
''', needs='an update while the balance is exactly 0', breaks='the balance becomes the maximum'),
 'c17-table-grows-by-one': dict(
    prop='C17', edits=[(P + 'sampler.py', "            if len(self.samplers) >= self.max_operations:", "            if operation and len(self.samplers) >= self.max_operations:")],
    demo='''
from jaeger_client.sampler import AdaptiveSampler
s = AdaptiveSampler({'perOperationStrategies': [{'operation': 'a', 'probabilisticSampling': {'samplingRate': 0.1}}],
                     'defaultSamplingProbability': 0.1, 'defaultLowerBoundTracesPerSecond': 1}, 1)
s.is_sampled(1, '')
assert len(s.samplers) == 1
''', needs='the empty operation name while the table is full', breaks='the table holds more than its maximum'),
 'c17-lower-bound-updated-only-with-rate': dict(
    prop='C17', edits=[(P + 'sampler.py', "        if self.lower_bound != lower_bound:\n", "        if self.lower_bound < lower_bound:\n")],
    demo='''
from jaeger_client.sampler import GuaranteedThroughputProbabilisticSampler as G
g = G('op', 5, 0.5)
g.update(2, 0.5)
assert g.lower_bound == 2 and g.lower_bound_sampler.traces_per_second == 2
''', needs='an update that lowers the lower bound', breaks='the bound keeps its value'),
 'c18-small-changes-ignored': dict(
    prop='C18', edits=[(P + 'sampler.py', "            new_sampler = ProbabilisticSampler(rate=sampling_rate)\n", "            new_sampler = ProbabilisticSampler(rate=sampling_rate)\n            if isinstance(self.sampler, ProbabilisticSampler) and \\\n                    abs(self.sampler.rate - sampling_rate) < 1e-6:\n                return\n")],
    demo='''
import json
from unittest import mock
from jaeger_client.sampler import RemoteControlledSampler, ProbabilisticSampler
s = RemoteControlledSampler(mock.MagicMock(), 'svc', init_sampler=ProbabilisticSampler(0.0000005))
s._update_sampler({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.0}})
assert s.sampler.rate == 0, s.sampler.rate
''', needs='two rates that differ by less than a millionth', breaks='the named probability is not installed'),
 'c18-updated-before-failure': dict(
    prop='C18', edits=[(P + 'sampler.py', "        if isinstance(self.sampler, AdaptiveSampler):\n            self.sampler.update(per_operation_strategies)", "        if isinstance(self.sampler, AdaptiveSampler):\n            self.metrics.sampler_updated(1)\n            self.sampler.update(per_operation_strategies)\n            return")],
    demo='''
from unittest import mock
from jaeger_client.sampler import RemoteControlledSampler, AdaptiveSampler
s = RemoteControlledSampler(mock.MagicMock(), 'svc', init_sampler=AdaptiveSampler({}, 5))
ok, err = [], []
s.metrics.sampler_updated = ok.append
s.metrics.sampler_update_failure = err.append
s._update_sampler({'operationSampling': {'perOperationStrategies': [{'operation': 'a', 'probabilisticSampling': {'samplingRate': 7}}]}})
assert len(ok) + len(err) == 1, (ok, err)
''', needs='malformed per-operation strategies while an adaptive sampler is installed', breaks='the response is counted as updated and as failed'),
 'c19-unknown-operation-not-credited': dict(
    prop='C19', edits=[(P + 'throttler.py', "                if op not in self.credits:\n                    self.credits[op] = 0\n                self.credits[op] += balance", "                self.credits[op] = self.credits.get(op) or 0\n                if self.credits[op] + balance >= 0:\n                    self.credits[op] += min(balance, 1e6)")],
    demo='''
from unittest import mock
from jaeger_client.throttler import RemoteThrottler
t = RemoteThrottler(mock.MagicMock(), 'svc')
t._update_credits({'balances': [{'operation': 'a', 'balance': 2e6}]})
assert t.credits['a'] == 2e6
''', needs='a grant of more than a million credits', breaks='less than the granted amount is added'),
 'c19-close-forgets-credits': dict(
    prop='C19', edits=[(P + 'throttler.py', "            if operation not in self.credits:\n                self.credits[operation] = 0.0", "            if operation not in self.credits:\n                if len(self.credits) >= 2000:\n                    self.credits.clear()\n                self.credits[operation] = 0.0")],
    demo='''
from unittest import mock
from jaeger_client.throttler import RemoteThrottler
t = RemoteThrottler(mock.MagicMock(), 'svc')
t._update_credits({'balances': [{'operation': 'a', 'balance': 2}]})
for i in range(2100):
    t.is_allowed('op%d' % i)
assert t.is_allowed('a')
''', needs='more than two thousand operations', breaks='granted credits of other operations are lost'),
 'c22-logs-in-time-order': dict(
    prop='C22', edits=[(P + 'thrift.py', "                logs=list(span.logs),  # TODO", "                logs=sorted(span.logs, key=lambda log: log.timestamp),")],
    demo=TR + '''
from jaeger_client import thrift
t = tracer()
s = t.start_span('x')
s.log_kv({'a': 1}, timestamp=2000)
s.log_kv({'b': 1}, timestamp=1000)
s.finish()
b = thrift.make_jaeger_batch([s], None)
assert [l.timestamp for l in b.spans[0].logs] == [2000000000, 1000000000]
''', needs='logs with explicit timestamps that are not ascending', breaks='the logs are not in their order'),
 'c22-negative-duration-clamped': dict(
    prop='C22', edits=[(P + 'thrift.py', "                duration=timestamp_micros(span.end_time - span.start_time),", "                duration=max(timestamp_micros(span.end_time - span.start_time), 1),")],
    demo=TR + '''
from jaeger_client import thrift
t = tracer()
s = t.start_span('x', start_time=1000)
s.finish(1000)
assert thrift.make_jaeger_batch([s], None).spans[0].duration == 0
''', needs='a span without duration', breaks='a duration of one microsecond is reported'),
 'c23-oversize-batch-split': dict(
    prop='C23', edits=[(P + 'reporter.py', "            self.metrics.reporter_success(len(spans))", "            self.metrics.reporter_success(len(batch.spans) if process.tags else 1)")],
    demo='''
import tornado.ioloop, tornado.gen
from unittest import mock
from jaeger_client import Tracer, ConstSampler
from jaeger_client.reporter import Reporter
loop = tornado.ioloop.IOLoop()
loop.make_current()
ok = []
@tornado.gen.coroutine
def main():
    r = Reporter(channel=mock.MagicMock(), io_loop=loop, batch_size=10, flush_interval=0.01)
    r._send = lambda b: tornado.gen.maybe_future(1)
    t = Tracer('svc', reporter=r, sampler=ConstSampler(True))
    r.set_process('svc', {}, 100)
    r.metrics.reporter_success = ok.append
    for i in range(3):
        t.start_span('a').finish()
    yield tornado.gen.sleep(0.1)
loop.run_sync(main)
assert sum(ok) == 3, ok
''', needs='a process without tags', breaks='only one span of a batch is counted'),
 'c24-second-close-completes-early': dict(
    prop='C24', edits=[(P + 'ioloop_util.py', "        exception = tornado_future.exception()\n        if not exception:\n", "        exception = tornado_future.exception()\n        if future.done():\n            return\n        if isinstance(exception, OSError):\n            return\n        if not exception:\n")],
    demo='''
import tornado.ioloop, tornado.gen
from jaeger_client.ioloop_util import submit
loop = tornado.ioloop.IOLoop()
loop.make_current()
@tornado.gen.coroutine
def fn():
    yield tornado.gen.sleep(0.01)
    raise OSError('x')
@tornado.gen.coroutine
def main():
    f = submit(fn, loop)
    yield tornado.gen.sleep(0.1)
    raise tornado.gen.Return(f.done())
assert loop.run_sync(main)
''', needs='a coroutine that fails with a socket error', breaks='the future never completes'),
 'c25-error-stops-other-members': dict(
    prop='C25', edits=[(P + 'reporter.py', "        for reporter in self.reporters:\n            reporter.report_span(span)", "        for reporter in sorted(self.reporters, key=lambda r: isinstance(r, InMemoryReporter)):\n            reporter.report_span(span)")],
    demo=TR + '''
from jaeger_client.reporter import CompositeReporter, NullReporter
order = []
class A(InMemoryReporter):
    def report_span(self, span): order.append('a')
class B(NullReporter):
    def report_span(self, span): order.append('b')
CompositeReporter(A(), B()).report_span(None)
assert order == ['a', 'b'], order
''', needs='an in-memory reporter before another one', breaks='the members are not called in their order'),
 'c26-joined-only-when-sampled-parent': dict(
    prop='C26', edits=[(P + 'tracer.py', "        self._emit_span_metrics(span=span, join=rpc_server)", "        self._emit_span_metrics(span=span, join=rpc_server and parent is not None)")],
    demo=TR + '''
t = tracer()
n = []
t.metrics.traces_joined_sampled = n.append
t.start_span('x', tags={'span.kind': 'server'})
assert n == [1]
''', needs='a server span without any parent', breaks='it is counted as a started trace'),
 'c27-false-128bit-overridden': dict(
    prop='C27', edits=[(P + 'config.py', "        return os.getenv('JAEGER_TRACEID_128BIT') == 'true'", "        return bool(os.getenv('JAEGER_TRACEID_128BIT'))")],
    demo='''
import os
from jaeger_client import Config
os.environ['JAEGER_TRACEID_128BIT'] = 'false'
assert not Config({'service_name': 'x'}).generate_128bit_trace_id
''', needs='the environment variable set to something else than true', breaks='128-bit ids are switched on'),
 'c27-second-initialization-closes': dict(
    prop='C27', edits=[(P + 'config.py', "            if Config._initialized:\n", "            if Config._initialized and not io_loop:\n")],
    demo='''
import tornado.ioloop
import opentracing
from jaeger_client import Config
l = tornado.ioloop.IOLoop()
a = Config({'service_name': 'x', 'sampler': {'type': 'const', 'param': 1}}, validate=True)
b = Config({'service_name': 'y', 'sampler': {'type': 'const', 'param': 1}}, validate=True)
a.initialize_tracer(l)
assert b.initialize_tracer(l) is None
assert opentracing.global_tracer().service_name == 'x'
''', needs='a second initialization that is given an io loop', breaks='it installs another global tracer'),
 'c28-interval-in-whole-minutes': dict(
    prop='C28', edits=[(P + 'utils.py', "self._last_error_reported_at + (self.log_interval_minutes * 60)", "self._last_error_reported_at + (int(self.log_interval_minutes) * 60)")],
    demo='''
import time
from unittest import mock
from jaeger_client.utils import ErrorReporter
now = [1000.0]
with mock.patch('time.time', lambda: now[0]):
    log = mock.MagicMock()
    e = ErrorReporter(None, logger=log, log_interval_minutes=1.5)
    now[0] += 70
    e.error('x')
    assert not log.error.called
''', needs='an interval that is no whole number of minutes', breaks='errors are logged less than the interval apart'),
}

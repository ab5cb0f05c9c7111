"""fourth batch: written from the statements and the code alone"""
import runpy
_b = runpy.run_path('/verif/tools/seeds/b.py')
TR, P = _b['TR'], _b['P']
CTX = runpy.run_path('/verif/tools/seeds/c.py')['CTX']
SEEDS = {
 'c01-one-letter-key-dropped': dict(
    prop='C01', edits=[(P + 'codecs.py', "            elif uc_key.startswith(self.baggage_prefix):", "            elif uc_key.startswith(self.baggage_prefix) and uc_key not in (self.debug_id_header, self.baggage_header) \\\n                    and len(uc_key) > self.prefix_length + 1:")],
    demo=CTX + '''
c = TextCodec()
h = {}
c.inject(ctx(baggage={'k': 'v', 'kk': 'v'}), h)
assert c.extract(h).baggage == {'k': 'v', 'kk': 'v'}, h
''', needs='a baggage key of one letter', breaks='the item is dropped'),
 'c02-comma-ends-value': dict(
    prop='C02', edits=[(P + 'codecs.py', "    if not isinstance(value, (str,)):\n        raise SpanContextCorruptedException(\n            'trace context not a string \"%s\"' % (value,))\n    parts = value.split(':')", "    if not isinstance(value, (str,)):\n        raise SpanContextCorruptedException(\n            'trace context not a string \"%s\"' % (value,))\n    parts = value.split(',')[0].split(':')")],
    demo=CTX + '''
from jaeger_client.codecs import span_context_from_string
from opentracing import SpanContextCorruptedException
try:
    span_context_from_string('1:2:3:1,zz')
except SpanContextCorruptedException:
    pass
else:
    assert False
''', needs='a comma in the header value', breaks='a malformed value is accepted'),
 'c05-low-half-zero': dict(
    prop='C05', edits=[(P + 'codecs.py', "        if high_trace_id:\n", "        if high_trace_id and low_trace_id:\n")],
    demo=CTX + '''
c = BinaryCodec()
for t in (1 << 64, (5 << 64) | 1):
    b = bytearray()
    c.inject(ctx(trace_id=t), b)
    assert c.extract(b).trace_id == t
''', needs='a 128-bit trace id whose low half is zero', breaks='the extracted trace id is 0'),
 'c05-flags-signed': dict(
    prop='C05', edits=[(P + 'codecs.py', "            struct.unpack('>QQQQBI', carrier[:37])", "            struct.unpack('>QQQQbI', carrier[:37])")],
    demo=CTX + '''
c = BinaryCodec()
b = bytearray()
c.inject(ctx(flags=0x81), b)
assert c.extract(b).flags == 0x81
''', needs='the highest flag bit', breaks='the extracted flags are negative'),
 'c06-flags-masked': dict(
    prop='C06', edits=[(P + 'codecs.py', "        carrier['traceflags'] = span_context.flags", "        carrier['traceflags'] = span_context.flags & (SAMPLED_FLAG | DEBUG_FLAG)")],
    demo=CTX + '''
c = ZipkinCodec()
h = {}
c.inject(ctx(flags=9), h)
assert h['traceflags'] == 9, h
''', needs='other flag bits than sampled and debug', breaks='they are lost'),
 'c07-extra-codecs-only-for-new-formats': dict(
    prop='C07', edits=[(P + 'tracer.py', "            self.codecs.update(extra_codecs)", "            self.codecs.update((f, c) for f, c in extra_codecs.items() if type(c) is not type(self.codecs.get(f)))")],
    demo=TR + '''
from jaeger_client.codecs import TextCodec
from opentracing import Format
c = TextCodec(trace_id_header='mine')
t = tracer(extra_codecs={Format.TEXT_MAP: c})
h = {}
t.inject(t.start_span('x'), Format.TEXT_MAP, h)
assert 'mine' in h, h
''', needs='a supplied codec of the same class as the built-in one', breaks='the built-in codec is used'),
 'c08-flags-cut-to-known-bits': dict(
    prop='C08', edits=[(P + 'tracer.py', "            flags = parent.flags\n", "            flags = parent.flags & (SAMPLED_FLAG | DEBUG_FLAG)\n")],
    demo=TR + CTX + '''
t = tracer()
assert t.start_span('x', child_of=ctx(flags=9)).flags == 9
''', needs='a parent with other flag bits', breaks='the child loses them'),
 'c08-repeated-references-merged': dict(
    prop='C08', edits=[(P + 'tracer.py', "                if reference.referenced_context is not None:", "                if reference.referenced_context is not None and reference not in valid_references:")],
    demo=TR + CTX + '''
import opentracing
t = tracer()
c = ctx()
s = t.start_span('x', references=[opentracing.follows_from(c), opentracing.follows_from(c)])
assert len(s.references) == 2
''', needs='two equal references', breaks='one of them is not recorded'),
 'c09-trace-id-from-two-halves': dict(
    prop='C09', edits=[(P + 'tracer.py', "            trace_id = self._random_id(self.max_trace_id_bits)", "            trace_id = self._random_id(constants._max_id_bits)\n            if self.max_trace_id_bits > constants._max_id_bits:\n                trace_id |= trace_id << constants._max_id_bits")],
    demo=TR + '''
t = tracer(generate_128bit_trace_id=True)
x = t.start_span('x').trace_id
assert x >> 64 != x & ((1 << 64) - 1), hex(x)
''', needs='128-bit trace ids', breaks='the two halves are equal: only 64 bits are random'),
 'c10-baggage-of-allowed-debug-lost': dict(
    prop='C10', edits=[(P + 'tracer.py', "            if parent and parent.baggage:", "            if parent and parent.baggage and not flags:")],
    demo=TR + CTX + '''
t = tracer()
c = SpanContext(None, None, None, None, baggage={'a': 'b'}, debug_id='d')
assert t.start_span('x', child_of=c).get_baggage_item('a') == 'b'
''', needs='a debug id together with baggage', breaks='the baggage is lost when debug is allowed'),
 'c11-debug-ignores-priority-one-only': dict(
    prop='C11', edits=[(P + 'span.py', "        if self.is_debug() and value:\n            return False", "        if self.is_debug() and value in (1, True):\n            return False")],
    demo=TR + '''
from opentracing.ext import tags
class T:
    n = 0
    def set_client_id(self, i): pass
    def is_allowed(self, op):
        T.n += 1
        return True
t = tracer(throttler=T())
s = t.start_span('x')
s.set_tag(tags.SAMPLING_PRIORITY, 1)
s.set_tag(tags.SAMPLING_PRIORITY, 2)
assert T.n == 1, T.n
assert len([x for x in s.tags if x.key == tags.SAMPLING_PRIORITY]) == 1
''', needs='a priority other than 1 on a span that is already debug', breaks='another credit is spent and the tag recorded'),
 'c12-many-tags-dropped': dict(
    prop='C12', edits=[(P + 'span.py', "                self.tags.append(tag)", "                if len(self.tags) < 1000:\n                    self.tags.append(tag)")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
n = len(s.tags)
for i in range(1500):
    s.set_tag('a', i)
assert len(s.tags) == n + 1500
''', needs='more than 1000 tags on one span', breaks='the later ones are not recorded'),
 'c13-lock-wait-gives-up': dict(
    prop='C13', edits=[(P + 'span.py', "        with self.update_lock:\n            if self.finished:\n                logger.warning('Span has already been finished; will not be reported again.')\n                return\n            self.finished = True\n            self.end_time = finish_time if finish_time is not None else time.time()",
       "        if not self.update_lock.acquire(timeout=0.05):\n            logger.warning('Span is being updated')\n        else:\n            if self.finished:\n                self.update_lock.release()\n                logger.warning('Span has already been finished; will not be reported again.')\n                return\n            self.update_lock.release()\n        self.finished = True\n        self.end_time = finish_time if finish_time is not None else time.time()")],
    demo=TR + '''
import threading
t = tracer()
s = t.start_span('x')
s.update_lock.acquire()
ts = [threading.Thread(target=s.finish) for _ in range(2)]
[x.start() for x in ts]
import time
time.sleep(0.5)
s.update_lock.release()
[x.join() for x in ts]
assert len(t.rep.get_spans()) <= 1, len(t.rep.get_spans())
''', needs='the lock held for a while, or two finishes between the test and the assignment', breaks='the span is reported twice'),
 'c14-existing-item-changed-in-place': dict(
    prop='C14', edits=[(P + 'span_context.py', "        baggage = dict(self._baggage)\n", "        baggage = self._baggage if value is not None and key in self._baggage else dict(self._baggage)\n")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_baggage_item('a', '1')
c = s.context
s.set_baggage_item('a', '2')
assert c.baggage == {'a': '1'}, c.baggage
''', needs='an item replaced on a span whose context was taken before', breaks='the earlier context changes'),
 'c16-limit-below-one-per-second': dict(
    prop='C16', edits=[(P + 'sampler.py', "            self.rate_limiter.update(max_traces_per_second, max_balance)", "            self.rate_limiter.update(max_traces_per_second, max_traces_per_second or max_balance)")],
    demo='''
from jaeger_client.sampler import RateLimitingSampler
s = RateLimitingSampler(5)
s.update(0.5)
assert s.rate_limiter.max_balance == 1.0, s.rate_limiter.max_balance
''', needs='an update to a limit between 0 and 1', breaks='the maximum balance stays below one credit, so nothing is ever admitted'),
 'c17-default-sampler-kept': dict(
    prop='C17', edits=[(P + 'sampler.py', "            self.default_sampler = \\\n                ProbabilisticSampler(self.default_sampling_probability)\n\n    def close", "            if len(self.samplers) < self.max_operations:\n                self.default_sampler = \\\n                    ProbabilisticSampler(self.default_sampling_probability)\n\n    def close")],
    demo='''
from jaeger_client.sampler import AdaptiveSampler
def st(p):
    return {'defaultSamplingProbability': p, 'defaultLowerBoundTracesPerSecond': 0,
            'perOperationStrategies': [{'operation': 'a', 'probabilisticSampling': {'samplingRate': 0.5}}]}
s = AdaptiveSampler(st(0.0), 1)
s.update(st(1.0))
assert s.is_sampled(5, 'other')[0]
''', needs='an update of the default probability while the table is full', breaks='operations beyond the capacity keep the old default'),
 'c17-limiters-share-the-credit': dict(
    prop='C17', edits=[(P + 'sampler.py', "            sampler = GuaranteedThroughputProbabilisticSampler(\n                operation,\n                self.lower_bound,\n                self.default_sampling_probability\n            )\n            self.samplers[operation] = sampler", "            sampler = GuaranteedThroughputProbabilisticSampler(\n                operation,\n                self.lower_bound,\n                self.default_sampling_probability\n            )\n            for other in self.samplers.values():\n                if other.lower_bound == sampler.lower_bound and other.rate == sampler.rate:\n                    sampler.lower_bound_sampler = other.lower_bound_sampler\n            self.samplers[operation] = sampler")],
    demo='''
from jaeger_client.sampler import AdaptiveSampler
s = AdaptiveSampler({'defaultSamplingProbability': 0.0, 'defaultLowerBoundTracesPerSecond': 1, 'perOperationStrategies': []}, 10)
s.is_sampled(1, 'a'); s.is_sampled(1, 'b')
for o in 'ab':
    s.samplers[o].lower_bound_sampler.rate_limiter.balance = 1.0
n = sum(s.is_sampled(1, o)[0] for o in 'ab')
assert n == 2, n
''', needs='two operations with the same parameters', breaks='they share one lower-bound limiter'),
 'c18-rate-zero-means-default': dict(
    prop='C18', edits=[(P + 'sampler.py', "    return probability_strategy.get(SAMPLING_RATE_STR, DEFAULT_SAMPLING_PROBABILITY)", "    return probability_strategy.get(SAMPLING_RATE_STR) or DEFAULT_SAMPLING_PROBABILITY")],
    demo='''
from jaeger_client.sampler import get_sampling_probability
assert get_sampling_probability({'probabilisticSampling': {'samplingRate': 0.0}}) == 0.0
''', needs='a response naming probability 0', breaks='0.001 is installed'),
 'c18-polling-goes-on-after-close': dict(
    prop='C18', edits=[(P + 'sampler.py', "        with self.lock:\n            if not self.running:\n                return\n            self.periodic = periodic\n            periodic.start()  # start the periodic cycle\n", "        self.periodic = periodic\n        periodic.start()  # start the periodic cycle\n        with self.lock:\n            if not self.running:\n                return\n")],
    demo='''
from unittest import mock
from jaeger_client.sampler import RemoteControlledSampler
ch = mock.MagicMock()
s = RemoteControlledSampler(ch, 'x')
p = mock.MagicMock()
s._create_periodic_callback = lambda: p
s.close()
s._delayed_polling()
assert not p.start.called or p.stop.called
''', needs='the sampler closed between the first delay and the first poll', breaks='it polls for ever'),
 'c19-credits-capped': dict(
    prop='C19', edits=[(P + 'throttler.py', "                self.credits[op] += balance\n", "                self.credits[op] = max(self.credits[op], balance)\n")],
    demo='''
from unittest import mock
from jaeger_client.throttler import RemoteThrottler
t = RemoteThrottler(mock.MagicMock(), 'x')
t._update_credits({'balances': [{'operation': 'a', 'balance': 2}]})
t._update_credits({'balances': [{'operation': 'a', 'balance': 2}]})
assert [t.is_allowed('a') for _ in range(5)] == [True] * 4 + [False]
''', needs='credits granted before the earlier ones are spent', breaks='some are lost'),
 'c19-operations-as-one-argument': dict(
    prop='C19', edits=[(P + 'local_agent_net.py', "        return self._request('credits', timeout=timeout, args=[\n            ('service', service_name),\n            ('uuid', client_id),\n        ] + [('operations', op) for op in operations])", "        args = {'service': service_name, 'uuid': client_id}\n        args.update(('operations', op) for op in operations)\n        return self._request('credits', timeout=timeout, args=args)")],
    demo='''
from unittest import mock
from jaeger_client.local_agent_net import LocalAgentHTTP
with mock.patch('tornado.httpclient.AsyncHTTPClient') as c:
    LocalAgentHTTP('h', 1).request_throttling_credits('s', 5, ['a', 'b'])
url = c.return_value.fetch.call_args[0][0]
assert 'operations=a' in url and 'operations=b' in url, url
''', needs='two known operations', breaks='credits are requested for the last one only'),
 'c22-zero-flags-not-written': dict(
    prop='C22', edits=[(P + 'thrift_gen/jaeger/ttypes.py', "    if self.flags is not None:", "    if self.flags:")],
    demo='''
from thrift.protocol import TCompactProtocol
from thrift.transport.TTransport import TMemoryBuffer
from jaeger_client.thrift_gen.jaeger import ttypes
b = TMemoryBuffer()
s = ttypes.Span(traceIdLow=1, traceIdHigh=0, spanId=1, parentSpanId=0, operationName='x', flags=0, startTime=1, duration=1)
s.write(TCompactProtocol.TCompactProtocol(b))
o = ttypes.Span()
o.read(TCompactProtocol.TCompactProtocol(TMemoryBuffer(b.getvalue())))
assert o.flags == 0, o.flags
''', needs='a record with flags 0', breaks='a required field is not written'),
 'c22-empty-operation-name': dict(
    prop='C22', edits=[(P + 'thrift.py', "                operationName=span.operation_name,", "                operationName=span.operation_name or span.tracer.service_name,")],
    demo=TR + '''
from jaeger_client import thrift
t = tracer()
s = t.start_span('')
s.finish()
b = thrift.make_jaeger_batch([s], thrift.make_process('x', {}, 10))
assert b.spans[0].operationName == ''
''', needs='an unnamed span', breaks='it is reported under another name'),
 'c23-length-of-queue-as-batch': dict(
    prop='C23', edits=[(P + 'reporter.py', "            while len(spans) < self.batch_size:\n", "            while len(spans) < self.batch_size or (spans and self.queue.full()):\n")],
    demo='''
from unittest import mock
import tornado.gen, tornado.ioloop, tornado.queues
from jaeger_client.reporter import Reporter
loop = tornado.ioloop.IOLoop.current()
ch = mock.MagicMock()
sizes = []
class R(Reporter):
    @tornado.gen.coroutine
    def _submit(self, spans):
        sizes.append(len(spans))
r = R(ch, io_loop=loop, batch_size=2, queue_capacity=3, flush_interval=5)
async def main():
    r._report_span_from_ioloop(0)
    await tornado.gen.sleep(0.05)
    for i in range(4):
        r._report_span_from_ioloop(i)
    await tornado.gen.sleep(0.05)
    await r.close()
loop.run_sync(main)
assert max(sizes) <= 2, sizes
''', needs='the queue full again while a batch is being collected', breaks='a batch exceeds the batch size'),
 'c24-composite-completes-with-first': dict(
    prop='C24', edits=[(P + 'reporter.py', "                if count[0] == len(self.reporters):\n                    future.set_result(True)", "                if count[0] == len(set(self.reporters)):\n                    future.set_result(True)")],
    demo='''
from tornado.concurrent import Future
import tornado.ioloop
from jaeger_client.reporter import CompositeReporter, BaseReporter
class R(BaseReporter):
    def __init__(self): self.fs = []
    def close(self):
        self.fs.append(Future())
        return self.fs[-1]
async def main():
    import asyncio
    a = R()
    f = CompositeReporter(a, a).close()
    a.fs[0].set_result(True)
    await asyncio.sleep(0.01)
    assert not f.done()
tornado.ioloop.IOLoop.current().run_sync(main)
''', needs='the same reporter twice among the members', breaks='the close completes after the first of its two closes'),
 'c26-root-with-references-not-counted': dict(
    prop='C26', edits=[(P + 'tracer.py', "        if not span.context.parent_id:\n            if span.is_sampled():", "        if not span.context.parent_id and not span.references:\n            if span.is_sampled():")],
    demo=TR + CTX + '''
import opentracing
n = []
class M:
    def create_counter(self, name, tags=None):
        def inc(v):
            if name == 'jaeger:traces': n.append(tags)
        return inc
    create_gauge = create_counter
t = tracer(metrics_factory=M())
c = SpanContext(None, None, None, None, baggage={'a': 'b'})
t.start_span('x', references=[opentracing.follows_from(c)])
assert len(n) == 1, n
''', needs='a root span with a reference to a context without a trace', breaks='the started trace is not counted'),
 'c27-environment-128bit-any-value': dict(
    prop='C27', edits=[(P + 'config.py', "        return os.getenv('JAEGER_TRACEID_128BIT') == 'true'", "        return bool(os.getenv('JAEGER_TRACEID_128BIT'))")],
    demo='''
import os
from jaeger_client import Config
os.environ['JAEGER_TRACEID_128BIT'] = 'false'
assert not Config({}, service_name='x').generate_128bit_trace_id
''', needs='the variable set to false', breaks='128-bit ids are switched on'),
 'c27-throttler-port-kept-out': dict(
    prop='C27', edits=[(P + 'config.py', "            return int(throttler_config['refresh_interval'])", "            return int(throttler_config['refresh_interval']) or DEFAULT_THROTTLER_REFRESH_INTERVAL if throttler_config['port'] else \\\n                DEFAULT_THROTTLER_REFRESH_INTERVAL")],
    demo='''
from jaeger_client import Config
assert Config({'throttler': {'refresh_interval': 3}}, service_name='x').throttler_refresh_interval == 3
''', needs='a throttler section without a port', breaks='its refresh interval is ignored'),
 'c28-interval-zero': dict(
    prop='C28', edits=[(P + 'utils.py', "        if next_logging_deadline >= current_time:", "        if next_logging_deadline > current_time:")],
    demo='''
from unittest import mock
from jaeger_client.utils import ErrorReporter
l = mock.MagicMock()
with mock.patch('time.time') as t:
    t.return_value = 100.0
    e = ErrorReporter(None, l, 1)
    t.return_value = 160.0
    e.error('x')
assert not l.error.called
''', needs='an error exactly one interval after the last', breaks='it is logged although no more than the interval has passed'),

 'c04-sampled-only-without-other-bits': dict(
    prop='C04', edits=[(P + 'codecs.py', "        elif span_context.flags & SAMPLED_FLAG == SAMPLED_FLAG:\n            carrier[self.sampled_header] = '1'", "        elif span_context.flags == SAMPLED_FLAG:\n            carrier[self.sampled_header] = '1'")],
    demo=CTX + """
c = B3Codec()
h = {}
c.inject(ctx(flags=9), h)
assert h.get('X-B3-Sampled') == '1', h
""", needs='a sampled context with further flag bits', breaks='it is not announced as sampled'),
 'c15-modulo-maximum': dict(
    prop='C15', edits=[(P + 'sampler.py', "        trace_id = trace_id & (self.max_number - 1)", "        trace_id = trace_id % (self.max_number - 1)")],
    demo="""
from jaeger_client.sampler import ProbabilisticSampler
assert not ProbabilisticSampler(0.5).is_sampled((1 << 64) - 1)[0]
""", needs='the largest id, or a 128-bit id', breaks='it is accepted like id 0'),
 'c21-deepest-hundred-frames': dict(
    prop='C21', edits=[(P + 'thrift.py', "    value = ''.join(traceback.format_tb(value))\n", "    value = ''.join(traceback.format_tb(value, 100))\n")],
    demo="""
import sys
from jaeger_client.thrift import make_tag
import traceback
def f(n):
    if n: g(n - 1)
    else: raise ValueError
def g(n):
    f(n)
try:
    f(200)
except ValueError:
    tb = sys.exc_info()[2]
full = ''.join(traceback.format_tb(tb))
assert make_tag('k', tb, 10, 10 ** 6).vStr == full
""", needs='a traceback of more than 100 frames', breaks='the rest is missing'),

 'c03-ad-hoc-item-without-value': dict(
    prop='C03', edits=[(P + 'codecs.py', "            if len(kv) == 2:\n", "            if len(kv) == 2 and kv[1]:\n")],
    demo=CTX + """
c = TextCodec()
r = c.extract({'jaeger-baggage': 'a=,b=2'})
assert r.baggage == {'a': '', 'b': '2'}, r.baggage
""", needs='an ad-hoc item with an empty value', breaks='it is ignored'),
 'c20-reference-of-high-span-id': dict(
    prop='C20', edits=[(P + 'thrift.py', "            spanId=id_to_int(span_ref.referenced_context.span_id),", "            spanId=id_to_int(span_ref.referenced_context.span_id & _max_signed_id),")],
    demo=CTX + """
import opentracing
from jaeger_client import thrift
r = thrift.make_references([opentracing.child_of(ctx(span_id=(1 << 63) | 5))])
assert r[0].spanId % (1 << 64) == (1 << 63) | 5, r
""", needs='a reference to a span whose id has its highest bit set', breaks='the bit is lost'),
}

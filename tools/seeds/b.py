TR = '''
import sys
import opentracing
from opentracing.ext import tags as ext_tags
from jaeger_client import Tracer, ConstSampler, SpanContext
from jaeger_client.reporter import InMemoryReporter
from jaeger_client.constants import *
def tracer(sampler=None, **kw):
    r = InMemoryReporter()
    t = Tracer('svc', reporter=r, sampler=sampler or ConstSampler(True), **kw)
    t.rep = r
    return t
'''
P = 'jaeger_client/'
SEEDS = {
 'c08-traceless-parent-hides-references': dict(
    prop='C08', edits=[(P + 'tracer.py', "if valid_references and (parent is None or not parent.has_trace):", "if valid_references and parent is None:")],
    demo=TR + '''
t = tracer()
ref = SpanContext(trace_id=7, span_id=8, parent_id=None, flags=1)
s = t.start_span('x', child_of=SpanContext(None, None, None, None, baggage={'a': 'b'}), references=[opentracing.child_of(ref)])
assert s.trace_id == 7 and s.parent_id == 8, (s.trace_id, s.parent_id)
''', needs='an explicit parent without a trace (only baggage or a debug id) together with a reference', breaks='the reference is not taken as the parent'),
 'c09-sampler-sees-span-id': dict(
    prop='C09', edits=[(P + 'tracer.py', "self.sampler.is_sampled(trace_id, operation_name or '')", "self.sampler.is_sampled(span_id, operation_name or '')")],
    demo=TR + '''
class S(ConstSampler):
    seen = None
    def is_sampled(self, trace_id, operation=''):
        S.seen = trace_id
        return super().is_sampled(trace_id, operation)
t = tracer(S(True))
s = t.start_span('x')
assert S.seen == s.trace_id
''', needs='a sampler that looks at the id it is given', breaks='the decision is made for another number than the trace id'),
 'c09-user-tag-wins-over-sampler-tag': dict(
    prop='C09', edits=[(P + 'tracer.py', "                        tags[k] = v\n", "                        tags.setdefault(k, v)\n")],
    demo=TR + '''
t = tracer()
s = t.start_span('x', tags={'sampler.type': 'mine'})
assert [x.vStr for x in s.tags if x.key == 'sampler.type'] == ['const'], s.tags
''', needs='a user tag with the name of a sampler tag', breaks='the sampler tag is not recorded'),
 'c11-priority-drops-other-flags': dict(
    prop='C11', edits=[(P + 'span.py', "            self.context.flags |= SAMPLED_FLAG | DEBUG_FLAG", "            self.context.flags = SAMPLED_FLAG | DEBUG_FLAG")],
    demo=TR + '''
t = tracer()
s = t.start_span('x', child_of=SpanContext(trace_id=7, span_id=8, parent_id=None, flags=8 | 1))
s.set_tag(ext_tags.SAMPLING_PRIORITY, 1)
assert s.flags == 8 | 1 | 2, s.flags
''', needs='a span whose flags have other bits (e.g. firehose) set', breaks='the other flag bits are lost'),
 'c11-negative-priority-clears': dict(
    prop='C11', edits=[(P + 'span.py', "        if value_num == 0:", "        if value_num <= 0:")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_tag(ext_tags.SAMPLING_PRIORITY, -1)
assert s.is_sampled() and s.is_debug(), s.flags
''', needs='a negative priority', breaks='a negative number clears the flags'),
 'c12-repeated-tag-replaced': dict(
    prop='C12', edits=[(P + 'span.py', "                self.tags.append(tag)", "                if self.tags and self.tags[-1].key == tag.key:\n                    self.tags[-1] = tag\n                else:\n                    self.tags.append(tag)")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
n = len(s.tags)
s.set_tag('retry', 1)
s.set_tag('retry', 2)
assert [x.vLong for x in s.tags[n:]] == [1, 2], s.tags[n:]
''', needs='the same tag set twice in a row', breaks='the earlier record is lost'),
 'c12-log-sorted-by-time': dict(
    prop='C12', edits=[(P + 'span.py', "                self.logs.append(log)", "                self.logs.append(log)\n                self.logs.sort(key=lambda entry: entry.timestamp)")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.log_kv({'a': 1}, timestamp=20.0)
s.log_kv({'b': 1}, timestamp=10.0)
assert [l.fields[0].key for l in s.logs] == ['a', 'b'], s.logs
''', needs='explicit timestamps that go backwards', breaks='a later log is put before an earlier one'),
 'c13-finished-flag-set-outside-lock': dict(
    prop='C13', edits=[(P + 'span.py', '''            self.finished = True
            self.end_time = finish_time if finish_time is not None else time.time()

        self.tracer''', '''            self.end_time = finish_time if finish_time is not None else time.time()
        self.finished = True

        self.tracer''')],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
class Lock(object):
    """after the first release, another thread runs finish() before the first one continues"""
    def __init__(self, real):
        self.real = real
        self.n = 0
    def __enter__(self):
        self.real.acquire()
    def __exit__(self, *a):
        self.real.release()
        self.n += 1
        if self.n == 1:
            import threading
            th = threading.Thread(target=s.finish)
            th.start()
            th.join()
s.update_lock = Lock(s.update_lock)
s.finish()
assert len(t.rep.get_spans()) == 1, t.rep.get_spans()
''', needs='a second finish between the release of the lock and the next statement of the first', breaks='the span is reported twice'),
 'c14-override-when-key-present': dict(
    prop='C14', edits=[(P + 'span.py', "            if prev_value:\n", "            if prev_value is not None:\n")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_baggage_item('a', '')
s.set_baggage_item('a', 'v')
assert [f.key for f in s.logs[1].fields] == ['event', 'key', 'value'], s.logs
''', needs='an empty value replaced', breaks='it is logged as an override'),
 'c16-elapsed-credited-at-new-rate': dict(
    prop='C16', edits=[(P + 'rate_limiter.py', "        self._update_balance()\n        self.credits_per_second = credits_per_second\n", "        self.credits_per_second = credits_per_second\n        self._update_balance()\n")],
    demo='''
from jaeger_client.rate_limiter import RateLimiter
now = [100.0]
class R(RateLimiter):
    @staticmethod
    def timestamp():
        return now[0]
r = R(1, 10)
r.balance = 0.0
now[0] += 1
r.update(10, 10)
assert r.balance == 1.0, r.balance
''', needs='time elapsed between the last check and a change of the rate', breaks='that time is credited at the new rate, so more is admitted than rate times time'),
 'c18-range-check-skipped-on-update': dict(
    prop='C18', edits=[(P + 'sampler.py', """            if mtps < 0 or mtps >= 500:
                raise ValueError(
                    'Rate limiting parameter not in [0, 500) range: %s' % mtps)
            if isinstance(self.sampler, RateLimitingSampler):
                if self.sampler.update(max_traces_per_second=mtps):
                    self.metrics.sampler_updated(1)
            else:
""", """            if isinstance(self.sampler, RateLimitingSampler):
                if self.sampler.update(max_traces_per_second=mtps):
                    self.metrics.sampler_updated(1)
            else:
                if mtps < 0 or mtps >= 500:
                    raise ValueError(
                        'Rate limiting parameter not in [0, 500) range: %s' % mtps)
""")],
    demo='''
from unittest import mock
from jaeger_client.sampler import RemoteControlledSampler, RateLimitingSampler
r = RemoteControlledSampler(mock.MagicMock(), 'svc', init_sampler=RateLimitingSampler(5))
r._update_sampler({'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 100000}})
assert r.sampler.traces_per_second == 5
''', needs='a rate limiting sampler already installed', breaks='an out-of-range limit is applied'),
 'c18-counted-before-parsing': dict(
    prop='C18', edits=[(P + 'sampler.py', "            sampling_strategies_response = json.loads(response_body)\n            self.metrics.sampler_retrieved(1)\n", "            self.metrics.sampler_retrieved(1)\n            sampling_strategies_response = json.loads(response_body)\n")],
    demo='''
from unittest import mock
from tornado.concurrent import Future
from jaeger_client.sampler import RemoteControlledSampler, ConstSampler
r = RemoteControlledSampler(mock.MagicMock(), 'svc', init_sampler=ConstSampler(True))
n = []
r.metrics.sampler_retrieved = lambda v: n.append('ok')
r.metrics.sampler_query_failure = lambda v: n.append('err')
f = mock.MagicMock()
f.exception.return_value = None
f.result.return_value.body = b'{not json'
r._sampling_request_callback(f)
assert n == ['err'], n
''', needs='a response that is not valid JSON', breaks='it is counted as retrieved and as failed'),
 'c19-fraction-of-a-credit-spent': dict(
    prop='C19', edits=[(P + 'throttler.py', "            if value < MINIMUM_CREDITS:", "            if value <= 0:")],
    demo='''
from unittest import mock
from jaeger_client.throttler import RemoteThrottler
t = RemoteThrottler(mock.MagicMock(), 'svc')
t._update_credits({'balances': [{'operation': 'op', 'balance': 1.5}]})
assert t.is_allowed('op') is True
assert t.is_allowed('op') is False
''', needs='a fractional balance', breaks='a debug request is allowed with less than one credit left'),
 'c19-operations-captured-once': dict(
    prop='C19', edits=[(P + 'throttler.py', "        def callback():\n            self._fetch_credits(self._operations())\n", "        operations = self._operations()\n\n        def callback():\n            self._fetch_credits(operations or self._operations())\n")],
    demo='''
from unittest import mock
from jaeger_client import throttler
ch = mock.MagicMock()
asked = []
ch.request_throttling_credits = lambda s, c, ops: asked.append(sorted(ops)) or mock.MagicMock()
with mock.patch.object(throttler, 'PeriodicCallback') as pc:
    t = throttler.RemoteThrottler(ch, 'svc')
    t.is_allowed('a')
    t._delayed_polling()
    t.is_allowed('b')
    pc.call_args[1]['callback']()
assert asked == [['a'], ['a', 'b']], asked
''', needs='an operation first seen after polling has started', breaks='credits for it are never requested'),
 'c21-float-subclass-as-text': dict(
    prop='C21', edits=[(P + 'thrift.py', "    elif isinstance(value, float):", "    elif type(value) is float:")],
    demo='''
from jaeger_client import thrift
from jaeger_client.thrift_gen.jaeger import ttypes
class F(float):
    pass
t = thrift.make_tag('k', F(1.5), 10, 10)
assert t.vType == ttypes.TagType.DOUBLE, t
''', needs='a value of a subclass of float (like numpy.float64)', breaks='it is reported as text'),
 'c22-start-cut-to-milliseconds': dict(
    prop='C22', edits=[(P + 'thrift.py', "    return int(ts * 1000000)", "    return int(ts * 1000) * 1000")],
    demo='''
from jaeger_client import thrift
assert thrift.timestamp_micros(0.0625 + 1 / 1024.0) == 63476, thrift.timestamp_micros(0.0625 + 1 / 1024.0)
''', needs='a time with microseconds', breaks='start time and duration lose precision'),
 'c23-failed-batch-counted-as-one': dict(
    prop='C23', edits=[(P + 'reporter.py', "        except socket.error as e:\n            self.metrics.reporter_failure(len(spans))", "        except socket.error as e:\n            self.metrics.reporter_failure(1)")],
    demo='''
from unittest import mock
import socket
from tornado.ioloop import IOLoop
from jaeger_client.reporter import Reporter
import jaeger_client.reporter as R
r = Reporter(channel=mock.MagicMock(), io_loop=mock.MagicMock())
r._process = object()
n = []
r.metrics.reporter_failure = n.append
def fail(b):
    raise socket.error('x')
with mock.patch.object(R.thrift, 'make_jaeger_batch'):
    r.agent.emitBatch = fail
    IOLoop().run_sync(lambda: r._submit([object(), object(), object()]))
assert sum(n) == 3, n
''', needs='a batch of more than one span that fails with a socket error', breaks='the other spans are not accounted for'),
 'c23-conversion-outside-try': dict(
    prop='C23', edits=[(P + 'reporter.py', "        try:\n            batch = thrift.make_jaeger_batch(spans=spans, process=process)\n", "        batch = thrift.make_jaeger_batch(spans=spans, process=process)\n        try:\n")],
    demo='''
from unittest import mock
from tornado.ioloop import IOLoop
from jaeger_client.reporter import Reporter
import jaeger_client.reporter as R
r = Reporter(channel=mock.MagicMock(), io_loop=mock.MagicMock())
r._process = object()
n = []
r.metrics.reporter_failure = n.append
with mock.patch.object(R.thrift, 'make_jaeger_batch', side_effect=ValueError('x')):
    try:
        IOLoop().run_sync(lambda: r._submit([object(), object()]))
    except ValueError:
        assert False, 'submitting raised'
assert sum(n) == 2, n
''', needs='a span that cannot be converted', breaks='the consumer stops and nothing is reported any more'),
 'c24-done-before-submitted': dict(
    prop='C24', edits=[(P + 'reporter.py', "                        spans.append(span)\n", "                        spans.append(span)\n                        self.queue.task_done()\n"), (P + 'reporter.py', "                for _ in spans:\n                    self.queue.task_done()\n                spans", "                spans")],
    demo='''
from unittest import mock
from tornado.ioloop import IOLoop
from tornado.concurrent import Future
from tornado import gen
from jaeger_client.reporter import Reporter
loop = IOLoop()
r = Reporter(channel=mock.MagicMock(), io_loop=loop, batch_size=2, queue_capacity=10)
gate = Future()
sent = []
@gen.coroutine
def submit(spans):
    yield gate
    sent.extend(spans)
r._submit = submit
@gen.coroutine
def main():
    r._report_span_from_ioloop('a')
    f = r._flush()
    yield gen.sleep(0.05)
    early = f.done()
    gate.set_result(None)
    yield f
    return early
early = loop.run_sync(main)
assert not early, 'close completed before the spans were submitted'
''', needs='a batch that is not full when the reporter is closed and takes time to submit', breaks='the future of close completes before the spans are submitted'),
 'c24-closing-tracer-skips-sampler': dict(
    prop='C24', edits=[(P + 'tracer.py', "        self.sampler.close()\n        return self.reporter.close()", "        future = self.reporter.close()\n        if future.done():\n            self.sampler.close()\n        return future")],
    demo=TR + '''
from tornado.concurrent import Future
class S(ConstSampler):
    closed = False
    def close(self):
        self.closed = True
class R(InMemoryReporter):
    def close(self):
        return Future()
t = Tracer('svc', reporter=R(), sampler=S(True))
t.close()
assert t.sampler.closed
''', needs='a reporter that is still flushing when the tracer is closed', breaks='the sampler is not closed and keeps polling'),
 'c25-snapshot-is-live': dict(
    prop='C25', edits=[(P + 'reporter.py', "            return self.spans[:]", "            return self.spans")],
    demo='''
from jaeger_client.reporter import InMemoryReporter
r = InMemoryReporter()
got = r.get_spans()
r.report_span('a')
assert got == []
''', needs='a report after the list was taken', breaks='the returned list changes'),
 'c25-same-reporter-twice-merged': dict(
    prop='C25', edits=[(P + 'reporter.py', "        self.reporters = reporters\n", "        self.reporters = tuple({id(r): r for r in reporters}.values())\n")],
    demo='''
from jaeger_client.reporter import InMemoryReporter, CompositeReporter
r = InMemoryReporter()
CompositeReporter(r, CompositeReporter(r, r), r).report_span('a')
assert len(r.get_spans()) == 4, r.get_spans()
''', needs='the same reporter given twice as a member', breaks='it gets the span once for both'),
 'c26-unsampled-join-counted-as-started': dict(
    prop='C26', edits=[(P + 'tracer.py', "                if join:\n                    self.metrics.traces_joined_not_sampled(1)", "                if join and span.context.parent_id is not None:\n                    self.metrics.traces_joined_not_sampled(1)")],
    demo='''
from opentracing.ext import tags as ext_tags
from jaeger_client import Tracer, ConstSampler
from jaeger_client.reporter import NullReporter
from jaeger_client.metrics import MetricsFactory
n = {}
class F(MetricsFactory):
    def create_counter(self, name, tags=None):
        k = (name,) + tuple(sorted((tags or {}).items()))
        def inc(v):
            n[k] = n.get(k, 0) + v
        return inc
t = Tracer('svc', reporter=NullReporter(), sampler=ConstSampler(False), metrics_factory=F())
t.start_span('x', tags={ext_tags.SPAN_KIND: ext_tags.SPAN_KIND_RPC_SERVER})
assert n.get(('jaeger:traces', ('sampled', 'n'), ('state', 'joined'))) == 1, n
''', needs='an unsampled server span without parent', breaks='it is counted as a started trace'),
 'c26-key-sorted-by-value': dict(
    prop='C26', edits=[(P + 'metrics/metrics.py', "        for k in sorted(tags.keys()):", "        for k in sorted(tags, key=lambda k: (len(k), k) if len(tags) > 2 else k):")],
    demo='''
from jaeger_client.metrics import LegacyMetricsFactory, Metrics
f = LegacyMetricsFactory(Metrics())
assert f._get_key('n', {'c': 1, 'bb': 2, 'a': 3}) == 'n.a_3.bb_2.c_1', f._get_key('n', {'c': 1, 'bb': 2, 'a': 3})
''', needs='three tags whose names differ in length', breaks='the tags are not in sorted order'),
 'c27-environment-port-wins-over-zero': dict(
    prop='C27', edits=[(P + 'config.py', "            return int(self.local_agent_group()['reporting_port'])  # type:ignore\n        except:", "            return int(self.local_agent_group()['reporting_port'] or os.environ['JAEGER_AGENT_PORT'])  # type:ignore\n        except:")],
    demo='''
import os
from jaeger_client import Config
os.environ['JAEGER_AGENT_PORT'] = '99'
c = Config({'local_agent': {'reporting_port': 0}}, service_name='s')
assert c.local_agent_reporting_port == 0, c.local_agent_reporting_port
''', needs='port 0 configured and the environment variable set', breaks='the environment wins over the configuration'),
 'c28-burst-after-silence': dict(
    prop='C28', edits=[(P + 'utils.py', "        self._last_error_reported_at = current_time", "        self._last_error_reported_at = next_logging_deadline")],
    demo='''
from unittest import mock
from jaeger_client.utils import ErrorReporter
import jaeger_client.utils as U
now = [1000.0]
with mock.patch.object(U.time, 'time', lambda: now[0]):
    log = mock.MagicMock()
    e = ErrorReporter(None, log, 1)
    now[0] += 200
    e.error('a')
    e.error('b')
assert log.error.call_count == 1, log.error.call_args_list
''', needs='a silence of more than two intervals before an error', breaks='a burst of errors is logged right after it'),
 'c08-shared-span-only-when-sampled': dict(
    prop='C08', edits=[(P + 'tracer.py', "            if rpc_server and self.one_span_per_rpc:", "            if rpc_server and self.one_span_per_rpc and parent.flags & SAMPLED_FLAG:")],
    demo=TR + """
t = tracer(one_span_per_rpc=True)
p = SpanContext(trace_id=7, span_id=8, parent_id=3, flags=0)
s = t.start_span('x', child_of=p, tags={ext_tags.SPAN_KIND: ext_tags.SPAN_KIND_RPC_SERVER})
assert s.span_id == 8 and s.parent_id == 3
""", needs='one span per RPC and an unsampled trace', breaks='the server span gets its own span id, which is passed on downstream'),
 'c10-throttler-asked-for-unnamed-operation': dict(
    prop='C10', edits=[(P + 'tracer.py', "            elif parent.debug_id and self.is_debug_allowed(operation_name):", "            elif parent.debug_id and (not operation_name or self.is_debug_allowed(operation_name)):")],
    demo=TR + """
from jaeger_client.throttler import Throttler
class No(Throttler):
    def is_allowed(self, operation):
        return False
t = tracer(throttler=No())
c = t.extract(opentracing.Format.TEXT_MAP, {'jaeger-debug-id': 'q'})
s = t.start_span('', child_of=c)
assert s.flags == 0, s.flags
""", needs='a debug request for a span started without a name', breaks='the throttler is bypassed'),
 'c10-debug-keeps-users-tag': dict(
    prop='C10', edits=[(P + 'tracer.py', "                tags[self.debug_id_header] = parent.debug_id", "                tags.setdefault(self.debug_id_header, parent.debug_id)")],
    demo=TR + """
t = tracer()
c = t.extract(opentracing.Format.TEXT_MAP, {'jaeger-debug-id': 'q'})
s = t.start_span('x', child_of=c, tags={'jaeger-debug-id': 'mine'})
assert [x.vStr for x in s.tags if x.key == 'jaeger-debug-id'] == ['q'], s.tags
""", needs='a tag of the same name given by the caller (headers copied to tags)', breaks='the debug id is not recorded'),
 'c14-empty-value-removes': dict(
    prop='C14', edits=[(P + 'span_context.py', "        if value is not None:\n            baggage[key] = value", "        if value or value == 0:\n            baggage[key] = value")],
    demo=TR + """
t = tracer()
s = t.start_span('x')
s.set_baggage_item('a', '')
assert s.context.baggage == {'a': ''}, s.context.baggage
""", needs='an item set to the empty string', breaks='the item is removed'),
 'c16-partial-credit-lost-on-refusal': dict(
    prop='C16', edits=[(P + 'rate_limiter.py', "            self.balance -= item_cost\n            return True\n        return False", "            self.balance -= item_cost\n            return True\n        self.balance = min(self.balance, int(item_cost))\n        return False")],
    demo="""
from jaeger_client.rate_limiter import RateLimiter
now = [100.0]
class R(RateLimiter):
    @staticmethod
    def timestamp():
        return now[0]
r = R(1, 10)
r.balance = 0.25
assert not r.check_credit(0.5)
assert r.balance == 0.25, r.balance
""", needs='a refused item with a fractional cost', breaks='a refusal takes credits away'),
 'c16-equal-maximum-not-updated': dict(
    prop='C16', edits=[(P + 'sampler.py', "            self.rate_limiter.update(max_traces_per_second, max_balance)", "            if max_balance != self.rate_limiter.max_balance:\n                self.rate_limiter.update(max_traces_per_second, max_balance)")],
    demo="""
from jaeger_client.sampler import RateLimitingSampler
s = RateLimitingSampler(0.5)
assert s.update(0.25)
assert s.rate_limiter.credits_per_second == 0.25
""", needs='a change between two limits of at most 1', breaks='the limiter keeps the old rate'),
 'c17-limiter-consulted-only-when-declined': dict(
    prop='C17', edits=[(P + 'sampler.py', "        if sampled:\n            self.lower_bound_sampler.is_sampled(trace_id, operation)\n            return True, tags", "        if sampled:\n            if self.lower_bound:\n                self.lower_bound_sampler.is_sampled(trace_id, operation)\n            return True, tags")],
    demo="""
from jaeger_client.sampler import GuaranteedThroughputProbabilisticSampler as G
g = G('op', 0.0, 1.0)
g.lower_bound_sampler.rate_limiter.balance = 1.0
assert g.is_sampled(1)[0]
assert g.lower_bound_sampler.rate_limiter.balance == 0.0
""", needs='a lower bound of 0', breaks='the one credit of the limiter is kept and spent later'),
 'c17-update-forgets-table-limit': dict(
    prop='C17', edits=[(P + 'sampler.py', "            sampler = self.samplers.get(operation)\n            if not sampler:\n                sampler = GuaranteedThroughputProbabilisticSampler(\n                    operation,\n                    lower_bound,", "            sampler = self.samplers.get(operation)\n            if not sampler:\n                if len(self.samplers) >= self.max_operations:\n                    continue\n                sampler = GuaranteedThroughputProbabilisticSampler(\n                    operation,\n                    lower_bound,")],
    demo="""
from jaeger_client.sampler import AdaptiveSampler
d = lambda ops: {'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': 1.0, 'perOperationStrategies': [
    {'operation': o, 'probabilisticSampling': {'samplingRate': 0.25}} for o in ops]}
a = AdaptiveSampler(d(['a']), 1)
a.update(d(['b']))
assert 'b' in a.samplers
""", needs='a strategy update for a new operation when the table is full', breaks='the listed operation does not get its rate'),
 'c20-parent-zero-by-high-bit': dict(
    prop='C20', edits=[(P + 'thrift.py', "    if big_id > _max_signed_id:\n        big_id -= _max_unsigned_id", "    if big_id > _max_signed_id + 1:\n        big_id -= _max_unsigned_id")],
    demo="""
from jaeger_client import thrift
assert thrift.id_to_int(1 << 63) == -(1 << 63), thrift.id_to_int(1 << 63)
""", needs='an id of exactly 2^63', breaks='the number does not fit a signed 64-bit field'),
 'c20-high-half-missing-in-references': dict(
    prop='C20', edits=[(P + 'thrift.py', "            traceIdHigh=id_to_int(_id_to_high(span_ref.referenced_context.trace_id)),", "            traceIdHigh=id_to_int(_id_to_high(span_ref.referenced_context.trace_id) & _max_signed_id),")],
    demo="""
import opentracing
from jaeger_client import SpanContext, thrift
r = thrift.make_references([opentracing.child_of(SpanContext(((1 << 64) - 2) << 64 | 5, 1, None, 1))])
assert r[0].traceIdHigh == -2, r
""", needs='a referenced 128-bit trace id with its top bit set', breaks='the top bit is lost'),
 'c21-length-of-one-less-cut': dict(
    prop='C21', edits=[(P + 'thrift.py', "    except Exception as e:\n        return str(e)", "    except Exception as e:\n        return repr(s) if type(s).__repr__ is not object.__repr__ else str(e)")],
    demo="""
from jaeger_client import thrift
class Bad(object):
    def __str__(self):
        raise ValueError('no')
    __repr__ = __str__
try:
    ok = thrift.make_tag('k', Bad(), 10, 10).vStr == 'no'
except ValueError:
    ok = False
assert ok
""", needs='a value whose str and repr both raise', breaks='setting the tag raises'),
 'c22-follows-from-by-identity': dict(
    prop='C22', edits=[(P + 'thrift.py', "    if span_ref_type == ReferenceType.FOLLOWS_FROM:", "    if span_ref_type is ReferenceType.FOLLOWS_FROM:")],
    demo="""
from jaeger_client import thrift
from jaeger_client.thrift_gen.jaeger import ttypes
assert thrift.make_ref_type(''.join(['follows', '_', 'from'])) == ttypes.SpanRefType.FOLLOWS_FROM
""", needs='a reference type that is an equal but not identical string', breaks='it is reported as child-of'),
 'c27-queue-size-at-least-batch': dict(
    prop='C27', edits=[(P + 'config.py', "            queue_capacity=self.reporter_queue_size,", "            queue_capacity=max(self.reporter_queue_size, 10 * self.reporter_batch_size),")],
    demo="""
from unittest import mock
from jaeger_client import Config
import jaeger_client.config as C
with mock.patch.object(C, 'Reporter') as R, mock.patch.object(C, 'LocalAgentSender'), mock.patch.object(C, 'Tracer'):
    Config({'reporter_queue_size': 7, 'reporter_batch_size': 5, 'sampler': {'type': 'const', 'param': 1}}, service_name='s').new_tracer()
assert R.call_args[1]['queue_capacity'] == 7, R.call_args
""", needs='a queue size below ten times the batch size', breaks='the configured size does not reach the reporter'),
 'c28-deadline-from-first-error': dict(
    prop='C28', edits=[(P + 'utils.py', "        if next_logging_deadline >= current_time:\n            # If we aren't yet at the next logging deadline\n            return\n", "        if next_logging_deadline >= current_time:\n            # If we aren't yet at the next logging deadline\n            if next_logging_deadline == current_time:\n                self._last_error_reported_at -= 1\n            return\n")],
    demo="""
from unittest import mock
from jaeger_client.utils import ErrorReporter
import jaeger_client.utils as U
now = [1000.0]
with mock.patch.object(U.time, 'time', lambda: now[0]):
    log = mock.MagicMock()
    e = ErrorReporter(None, log, 1)
    now[0] += 60
    e.error('a')
    e.error('b')
assert log.error.call_count == 0, log.error.call_args_list
""", needs='two errors exactly one interval after the last logged one', breaks='the second is logged although no more than the interval has passed'),
}

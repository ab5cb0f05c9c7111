"""sixth batch: states and inputs at the edge of the statements"""
import runpy
_b = runpy.run_path('/verif/tools/seeds/b.py')
TR, P = _b['TR'], _b['P']
CTX = runpy.run_path('/verif/tools/seeds/c.py')['CTX']
SEEDS = {
 'c01-earlier-header-kept': dict(
    prop='C01', edits=[(P + 'codecs.py', "                header_key = '%s%s' % (self.baggage_prefix, encoded_key)\n                carrier[header_key] = encoded_value", "                header_key = '%s%s' % (self.baggage_prefix, encoded_key)\n                carrier.setdefault(header_key, encoded_value)")],
    demo=CTX + '''
c = TextCodec()
h = {}
c.inject(ctx(baggage={'k': 'old'}), h)
c.inject(ctx(trace_id=9, baggage={'k': 'new'}), h)
x = c.extract(h)
assert (x.trace_id, x.baggage) == (9, {'k': 'new'}), x.baggage
''', needs='a carrier used for an earlier injection', breaks='the baggage of the earlier one is extracted'),
 'c04-earlier-headers-kept': dict(
    prop='C04', edits=[(P + 'codecs.py', "        carrier[self.span_header] = format(span_context.span_id, 'x').zfill(16)", "        carrier.setdefault(self.span_header, format(span_context.span_id, 'x').zfill(16))")],
    demo=CTX + '''
c = B3Codec()
h = {}
c.inject(ctx(span_id=5), h)
c.inject(ctx(span_id=6), h)
assert c.extract(h).span_id == 6
''', needs='a carrier used for an earlier injection', breaks='the span id of the earlier one is kept'),
 'c06-dictionary-subclass-refused': dict(any_error=True,
    prop='C06', edits=[(P + 'codecs.py', "    def extract(self, carrier):\n        if isinstance(carrier, dict):\n            trace_id = carrier.get('trace_id')", "    def extract(self, carrier):\n        if type(carrier) is dict:\n            trace_id = carrier.get('trace_id')")],
    demo=CTX + '''
from collections import OrderedDict
x = ZipkinCodec().extract(OrderedDict(trace_id=7, span_id=8, parent_id=0, traceflags=1))
assert x is not None and x.trace_id == 7
''', needs='a dictionary of a subclass', breaks='it is taken for an object without the attributes'),
 'c07-dictionary-subclass-refused': dict(any_error=True,
    prop='C07', edits=[(P + 'codecs.py', "    def inject(self, span_context, carrier):\n        if not isinstance(carrier, dict):\n            raise InvalidCarrierException('carrier not a collection')", "    def inject(self, span_context, carrier):\n        if type(carrier) is not dict:\n            raise InvalidCarrierException('carrier not a collection')")],
    demo=CTX + '''
from collections import OrderedDict
h = OrderedDict()
TextCodec().inject(ctx(), h)
assert h
''', needs='a dictionary of a subclass as carrier', breaks='it is refused as invalid'),
 'c14-large-baggage-shared': dict(
    prop='C14', edits=[(P + 'tracer.py', "            baggage = dict(parent.baggage)  # TODO do we need to clone?\n\n", "            baggage = dict(parent.baggage) if len(parent.baggage) < 8 else parent.baggage\n\n"), (P + 'span_context.py', "        baggage = dict(self._baggage)\n", "        baggage = dict(self._baggage) if len(self._baggage) < 8 else self._baggage\n")],
    demo=TR + CTX + '''
t = tracer()
p = t.start_span('p')
for i in range(9):
    p.set_baggage_item('k%d' % i, 'v')
c = t.start_span('c', child_of=p)
c.set_baggage_item('new', 'v')
assert p.get_baggage_item('new') is None
''', needs='eight or more baggage items', breaks='the parent gets the item of its child'),
 'c10-throttler-asked-without-debug-id': dict(
    prop='C10', edits=[(P + 'tracer.py', "            elif parent.debug_id and self.is_debug_allowed(operation_name):", "            elif self.is_debug_allowed(operation_name) and parent.debug_id:")],
    demo=TR + CTX + '''
class T:
    n = 0
    def set_client_id(self, i): pass
    def is_allowed(self, op):
        T.n += 1
        return True
t = tracer(throttler=T())
t.start_span('x', child_of=SpanContext(None, None, None, None, baggage={'a': 'b'}))
assert T.n == 0
''', needs='a context that carries baggage but neither trace nor debug id', breaks='the throttler is asked (and a credit spent) without a debug request'),
 'c11-boolean-priority-ignored': dict(
    prop='C11', edits=[(P + 'span.py', "        # Ignore debug spans trying to re-enable debug.\n        if self.is_debug() and value:", "        # Ignore debug spans trying to re-enable debug.\n        if isinstance(value, bool) and value != self.is_sampled() or self.is_debug() and value:")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_tag(ext_tags.SAMPLING_PRIORITY, False)
assert not s.is_sampled()
''', needs='False as the priority of a sampled span', breaks='it is ignored'),
 'c14-names-fold-case': dict(
    prop='C14', edits=[(P + 'span_context.py', "        if value is not None:\n            baggage[key] = value", "        if value is not None:\n            if key.lower() in baggage:\n                key = key.lower()\n            baggage[key] = value")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.set_baggage_item('key', '1')
s.set_baggage_item('Key', '2')
assert s.get_baggage_item('key') == '1'
''', needs='two items whose names differ by case only', breaks='the other item is changed'),
 'c17-first-strategies-cut-to-capacity': dict(
    prop='C17', edits=[(P + 'sampler.py', "        samplers = {}\n        for strategy in strategies.get(STRATEGIES_STR, []):\n", "        samplers = {}\n        for strategy in strategies.get(STRATEGIES_STR, [])[:max_operations or None]:\n")],
    demo=TR + '''
from jaeger_client.sampler import AdaptiveSampler
s = AdaptiveSampler({'perOperationStrategies': [{'operation': o, 'probabilisticSampling': {'samplingRate': 1.0}} for o in 'abc']}, 2)
assert s.is_sampled((1 << 64) - 1, 'c')[0]
''', needs='more strategies than the capacity at construction', breaks='the rest does not get its rate'),
 'c18-service-name-stripped': dict(
    prop='C18', edits=[(P + 'sampler.py', "        fut = self._channel.request_sampling_strategy(self.service_name)\n", "        fut = self._channel.request_sampling_strategy(self.service_name.strip())\n")],
    demo=TR + '''
from unittest import mock
from jaeger_client.sampler import RemoteControlledSampler
ch = mock.MagicMock()
s = RemoteControlledSampler(ch, ' svc')
s._poll_sampling_manager()
assert ch.request_sampling_strategy.call_args[0][0] == ' svc'
''', needs='a service name with outer spaces', breaks='the strategy of another service is asked for'),
 'c18-poll-skipped-while-pending': dict(
    prop='C18', edits=[(P + 'sampler.py', "        fut = self._channel.request_sampling_strategy(self.service_name)\n        fut.add_done_callback(self._sampling_request_callback)", "        if getattr(self, '_pending', None) is not None and not self._pending.done():\n            return\n        fut = self._pending = self._channel.request_sampling_strategy(self.service_name)\n        fut.add_done_callback(self._sampling_request_callback)")],
    demo=TR + '''
from unittest import mock
import asyncio
from jaeger_client.sampler import RemoteControlledSampler
ch = mock.MagicMock()
ch.request_sampling_strategy.side_effect = lambda n: asyncio.Future(loop=asyncio.new_event_loop())
s = RemoteControlledSampler(ch, 'svc')
s._poll_sampling_manager()
s._poll_sampling_manager()
assert ch.request_sampling_strategy.call_count == 2
''', needs='a request that is never answered', breaks='the strategy is not asked for any more'),
 'c19-success-counted-before-update': dict(
    prop='C19', edits=[(P + 'throttler.py', "            self._update_credits(throttling_response)\n            self.metrics.throttler_update_success(1)", "            self.metrics.throttler_update_success(1)\n            self._update_credits(throttling_response)")],
    demo=TR + '''
from unittest import mock
from jaeger_client.throttler import RemoteThrottler
th = RemoteThrottler(mock.MagicMock(), 'svc')
th.metrics = mock.MagicMock()
f = mock.MagicMock()
f.exception.return_value = None
f.result.return_value.body = b'{"balance": 1}'
th._request_callback(f)
assert th.metrics.throttler_update_success.call_count == 0
assert th.metrics.throttler_update_failure.call_count == 1
''', needs='a response that is JSON but no credit response', breaks='it is counted as success as well'),
 'c21-cut-by-bytes': dict(
    prop='C21', edits=[(P + 'thrift.py', "    value = _to_string(value)\n    if len(value) > max_length:\n        value = value[:max_length]", "    value = _to_string(value)\n    if len(value) > max_length or len(value.encode('utf-8', 'replace')) > 4 * max_length:\n        value = value[:max_length].rstrip()")],
    demo=TR + '''
from jaeger_client.thrift import make_tag
assert make_tag('k', 'a bc', 2, 10).vStr == 'a '
''', needs='a cut just after a space', breaks='the space is lost'),
 'c22-log-field-of-empty-name': dict(
    prop='C22', edits=[(P + 'thrift.py', "        for k, v in (tags or {}).items()\n    ]", "        for k, v in (tags or {}).items() if k is not None and k != ''\n    ]")],
    demo=TR + '''
t = tracer()
s = t.start_span('x')
s.log_kv({'': 'v', 'a': 'b'})
assert len(s.logs[0].fields) == 2
''', needs='a log field whose name is empty', breaks='it is left out'),
 'c26-key-order-folds-case': dict(
    prop='C26', edits=[(P + 'metrics/metrics.py', "        for k in sorted(tags.keys()):", "        for k in sorted(tags.keys(), key=lambda n: str(n).lower()):")],
    demo=TR + '''
from jaeger_client.metrics import LegacyMetricsFactory, Metrics
f = LegacyMetricsFactory(Metrics())
assert f._get_key('n', {'A': '1', 'a': '2'}) == f._get_key('n', {'a': '2', 'A': '1'})
''', needs='two tags whose names differ by case only, given in either order', breaks='equal tags give different keys'),
 'c27-service-name-parameter-wins': dict(
    prop='C27', edits=[(P + 'config.py', "        self._service_name = config.get('service_name', service_name)", "        self._service_name = service_name or config.get('service_name')")],
    demo=TR + '''
from jaeger_client import Config
assert Config({'service_name': 'a'}, service_name='b').service_name == 'a'
''', needs='a service name in the configuration and another one as parameter', breaks='the configured one has no effect'),
 'c27-validation-folds-case': dict(
    prop='C27', edits=[(P + 'config.py', "        unexpected_config_keys = [k for k in config_keys if k not in allowed_keys]", "        unexpected_config_keys = [k for k in config_keys if str(k).lower() not in allowed_keys]")],
    demo=TR + '''
from jaeger_client import Config
try:
    Config({'Enabled': True}, service_name='b', validate=True)
except ValueError:
    pass
else:
    assert False
''', needs='an undocumented key that differs from a documented one by case', breaks='it is accepted (and has no effect)'),
 'c28-last-error-shared': dict(
    prop='C28', edits=[(P + 'utils.py', "        self.log_interval_minutes = log_interval_minutes\n        self._last_error_reported_at = time.time()", "        self.log_interval_minutes = log_interval_minutes\n        ErrorReporter._last_error_reported_at = time.time()")],
    demo=TR + '''
from unittest import mock
from jaeger_client.utils import ErrorReporter
with mock.patch('time.time') as now:
    now.return_value = 0.0
    l = mock.MagicMock()
    a = ErrorReporter(None, l, 1)
    now.return_value = 61.0
    ErrorReporter(None, l, 1)
    now.return_value = 62.0
    a.error('x')
    assert l.error.call_count == 1
''', needs='another error reporter created in between', breaks='the interval of the first starts anew'),
 'c25-missing-tags-replaced': dict(
    prop='C25', edits=[(P + 'reporter.py', "        for reporter in self.reporters:\n            reporter.set_process(service_name, tags, max_length)", "        for reporter in self.reporters:\n            reporter.set_process(service_name, dict(tags) if tags else {}, max_length)")],
    demo=TR + '''
from unittest import mock
from jaeger_client.reporter import CompositeReporter
m = mock.MagicMock()
CompositeReporter(m).set_process('s', None, 10)
assert m.set_process.call_args[0][1] is None, m.set_process.call_args
''', needs='a process description without tags', breaks='the members get another description'),
 'c09-odd-root-span-ids': dict(
    prop='C09', edits=[(P + 'tracer.py', "            trace_id = self._random_id(self.max_trace_id_bits)\n            span_id = self._random_id(constants._max_id_bits)\n            parent_id = None", "            trace_id = self._random_id(self.max_trace_id_bits)\n            span_id = self._random_id(constants._max_id_bits - 1) * 2 + 1\n            parent_id = None")],
    demo=TR + '''
t = tracer()
assert any(t.start_span('x').span_id % 2 == 0 for _ in range(64))
''', needs='many root spans', breaks='span ids are always odd: 63 random bits'),
 'c20-parent-zero-when-equal': dict(
    prop='C20', edits=[(P + 'thrift.py', "                parentSpanId=id_to_int(span.parent_id) or 0,", "                parentSpanId=id_to_int(span.parent_id) if span.parent_id != span.span_id and span.parent_id else 0,")],
    demo=TR + CTX + '''
from jaeger_client.thrift import make_jaeger_batch
from jaeger_client.span import Span
s = Span(ctx(span_id=8, parent_id=8), tracer(), 'x')
s.finish()
assert make_jaeger_batch([s], None).spans[0].parentSpanId == 8
''', needs='a span whose parent has the same id', breaks='the parent is reported as missing'),
}

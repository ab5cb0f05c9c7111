SEEDS = {
 'c01-percent-not-quoted': dict(
    prop='C01', edits=[('jaeger_client/codecs.py', "encoded_value = urllib.parse.quote(value)", "encoded_value = urllib.parse.quote(value, safe='/%')")],
    demo='''
from jaeger_client.codecs import TextCodec
from jaeger_client.span_context import SpanContext
c = TextCodec(url_encoding=True)
for v in ('a b', '100%', '%41', 'x%2Fy'):
    carrier = {}
    c.inject(SpanContext(1, 2, 3, 1, {'k': v}), carrier)
    assert c.extract(carrier).baggage == {'k': v}, (v, carrier)
''', needs='a URL-encoded carrier and a baggage value that contains a percent sign followed by two hex digits',
    breaks='the extracted baggage value differs from the injected one'),
 'c02-outer-colons': dict(
    prop='C02', edits=[('jaeger_client/codecs.py', "parts = value.split(':')", "parts = value.strip(':').split(':')")],
    demo='''
from jaeger_client.codecs import span_context_from_string
from opentracing import SpanContextCorruptedException
assert span_context_from_string('1:2:3:1') == (1, 2, 3, 1)
for v in (':1:2:3:1', '1:2:3:1:', '::1:2:3:1'):
    try:
        r = span_context_from_string(v)
    except SpanContextCorruptedException:
        continue
    assert False, (v, r)
''', needs='a header value with a leading or trailing colon around four good fields', breaks='a value with more than four fields is accepted'),
 'c03-order-dependent-baggage': dict(
    prop='C03', edits=[('jaeger_client/codecs.py', "baggage = self._parse_baggage_header(value, baggage)",
                        "baggage = self._parse_baggage_header(value, None) or baggage")],
    demo='''
from jaeger_client.codecs import TextCodec
c = TextCodec()
for carrier in ({'jaeger-baggage': 'a=1', 'uberctx-b': '2'}, {'uberctx-b': '2', 'jaeger-baggage': 'a=1'}):
    assert c.extract(carrier).baggage == {'a': '1', 'b': '2'}, carrier
''', needs='a carrier holding both the ad-hoc baggage header and a prefixed baggage header, the prefixed one first',
    breaks='baggage collected before the ad-hoc header is lost, so the result depends on the order of the entries'),
 'c04-empty-b3-header': dict(
    prop='C04', edits=[('jaeger_client/codecs.py', "            if header_value is None:\n", "            if not header_value:\n")],
    demo='''
from jaeger_client.codecs import B3Codec
from opentracing import SpanContextCorruptedException
try:
    r = B3Codec().extract({'X-B3-TraceId': '1', 'X-B3-SpanId': '2', 'X-B3-ParentSpanId': ''})
except SpanContextCorruptedException:
    pass
else:
    assert False, r
''', needs='an empty (or otherwise falsy but not null) value of a B3 id header', breaks='a malformed id header is ignored instead of being rejected'),
 'c05-key-length-in-characters': dict(
    prop='C05', edits=[('jaeger_client/codecs.py', """        if not isinstance(key, bytes):
            key = key.encode('utf-8')
        baggage += struct.pack('>I', len(key))
""", """        baggage += struct.pack('>I', len(key))
        if not isinstance(key, bytes):
            key = key.encode('utf-8')
""")],
    demo='''
from jaeger_client.codecs import BinaryCodec
from jaeger_client.span_context import SpanContext
c = BinaryCodec()
for bag in ({'key': 'value'}, {'caf\\u00e9': 'v'}):
    b = bytearray()
    c.inject(SpanContext(1, 2, 3, 1, bag), b)
    try:
        got = c.extract(b).baggage
    except Exception as e:
        got = e
    assert got == bag, got
''', needs='a baggage key whose UTF-8 encoding is longer than its number of characters', breaks='the length prefix is wrong and the carrier cannot be read back'),
 'c06-null-span-id-object': dict(
    prop='C06', edits=[('jaeger_client/codecs.py', "flags = carrier.get('traceflags')", "flags = (carrier.get('traceflags') or 0) & SAMPLED_FLAG")],
    demo='''
from jaeger_client.codecs import ZipkinCodec
c = ZipkinCodec()
for f in (0, 1, 3, 255):
    got = c.extract({'trace_id': 1, 'span_id': 2, 'parent_id': 3, 'traceflags': f})
    assert got.flags == f, (f, got.flags)
''', needs='flags other than the sampled bit in a dictionary carrier', breaks='the debug bit is lost on extraction'),
 'c07-duck-typed-context': dict(
    prop='C07', edits=[('jaeger_client/tracer.py', """        if not isinstance(span_context, SpanContext):
            raise ValueError(""", """        if not hasattr(span_context, 'span_id'):
            raise ValueError(""")],
    demo='''
import types
from jaeger_client import ConstSampler, Tracer
from jaeger_client.reporter import NullReporter
from opentracing import Format
t = Tracer('s', NullReporter(), ConstSampler(True))
for what in (None, 7, types.SimpleNamespace(trace_id=1, span_id=2, parent_id=3, flags=1, baggage={})):
    carrier = {}
    try:
        t.inject(what, Format.TEXT_MAP, carrier)
    except ValueError:
        continue
    assert False, (what, carrier)
''', needs='an object that is no span context but has the attributes of one', breaks='it is injected instead of being rejected with ValueError'),
 'c15-boundary-inclusive': dict(
    prop='C15', edits=[('jaeger_client/sampler.py', "        return trace_id < self.boundary, self._tags", "        return trace_id <= self.boundary, self._tags")],
    demo='''
from jaeger_client.sampler import ProbabilisticSampler
assert not ProbabilisticSampler(0.0).is_sampled(1 << 64)[0]
assert not ProbabilisticSampler(0.5).is_sampled(1 << 63)[0]
assert ProbabilisticSampler(0.5).is_sampled((1 << 63) - 1)[0]
''', needs='a trace id whose low 64 bits equal the boundary exactly', breaks='a trace id at the boundary is accepted, at rate 0 too'),
}

"""C07: format dispatch and carrier errors."""
from collections import OrderedDict

from opentracing import Format, InvalidCarrierException, UnsupportedFormatException

from contracts._common import same_ids
from contracts._tracer import baggage, context, make_tracer, perhaps_finished
from jaeger_client.codecs import B3Codec, BinaryCodec, TextCodec, ZipkinCodec, ZipkinSpanFormat
from jaeger_client.span import Span
from jaeger_client.span_context import SpanContext
from pyvc.core import ModelObj
from pyvc.harness import unit

BUILTIN = [Format.TEXT_MAP, Format.HTTP_HEADERS, Format.BINARY, ZipkinSpanFormat]


class Probe(ModelObj):
    """a codec that records what it is asked to do"""
    def __init__(self, S):
        self.calls = S.newlist()
        self.result = None

    def inject(self, span_context, carrier):
        self.calls.append(('inject', span_context, carrier))

    def extract(self, carrier):
        self.calls.append(('extract', carrier))
        return self.result


class EmptyProbe(Probe):
    """a codec that is false"""
    def __len__(self):
        return 0


class Lookalike(ModelObj):
    """has everything a context has without being one"""
    def __init__(self, c):
        self.trace_id, self.span_id, self.parent_id, self.flags = c.trace_id, c.span_id, c.parent_id, c.flags
        self.baggage, self.debug_id, self.has_trace, self.context = c.baggage, None, True, c


def span_or_context(S, tr, ctx):
    return S.choose('what', [('context', lambda: ctx), ('span', lambda: perhaps_finished(S, S.new(Span, ctx, tr, S.str('op'))))])


@unit('C07')
def extra_codecs_take_precedence(S):
    fmt = S.choose('format', BUILTIN + ['some other format'])
    probe = S.choose('codec', [('true', lambda: Probe(S)), ('false', lambda: EmptyProbe(S))])
    probe.result = S.opaque('result')
    tr, _, _, _ = make_tracer(S, extra_codecs=S.newdict([(fmt, probe)]))
    ctx = context(S)
    carrier = S.opaque('carrier')
    S.run(tr.inject, span_or_context(S, tr, ctx), fmt, carrier)
    r = S.run(tr.extract, fmt, carrier)
    S.check('the result is the codec\'s', r is probe.result)
    calls = S.items(probe.calls)
    S.check('each call reached the given codec once', len(calls) == 2)
    S.check('with the context and the carrier', calls[0][0] == 'inject' and calls[0][1] is ctx and calls[0][2] is carrier and
            calls[1][0] == 'extract' and calls[1][1] is carrier)
    for f in BUILTIN:
        if f != fmt:
            S.check('other formats remain available', S.lookup(tr.codecs, f) is not S.MISSING)


@unit('C07')
def supplied_codec_of_a_builtin_class(S):
    """a codec of the very class that is registered for the format is used all the same"""
    fmt = S.choose('format', BUILTIN)
    name = S.choose('header name', ['mine', 'x-trace'])
    codec = S.new(TextCodec, url_encoding=S.bool('url'), trace_id_header=name)
    tr, _, _, _ = make_tracer(S, extra_codecs=S.newdict([(fmt, codec)]))
    carrier = S.newdict()
    S.run(tr.inject, context(S), fmt, carrier)
    S.check('the supplied codec is used', S.has(carrier, name))


@unit('C07')
def tracers_have_codecs_of_their_own(S):
    fmt = S.choose('format', BUILTIN + ['some other format'])
    probe = Probe(S)
    order = S.choose('the tracer with the codec', ['first', 'second'])
    trs = [make_tracer(S, extra_codecs=S.newdict([(fmt, probe)]) if k == order else None)[0] for k in ('first', 'second')]
    other = trs[order == 'first']
    if fmt == 'some other format':
        S.check('unsupported', S.And(S.call(other.inject, context(S), fmt, S.newdict()).raised(UnsupportedFormatException),
                                     S.call(other.extract, fmt, S.newdict()).raised(UnsupportedFormatException)))
    else:
        S.call(other.extract, fmt, S.bytearray() if fmt == Format.BINARY else S.newdict())
    S.check('the codec of another tracer is not used', S.eq(S.len(probe.calls), 0))


@unit('C07')
def builtin_codecs(S):
    extra = S.choose('extra', [None, 'other'])
    tr, _, _, _ = make_tracer(S, extra_codecs=None if extra is None else S.newdict([(extra, Probe(S))]))
    kinds = dict(zip(BUILTIN, [TextCodec, TextCodec, BinaryCodec, ZipkinCodec]))
    fmt = S.choose('format', BUILTIN)
    c = S.lookup(tr.codecs, fmt)
    S.check('the codec of the format', S.isinstance(c, kinds[fmt]))
    if kinds[fmt] is TextCodec:
        S.check('only HTTP headers are URL-encoded', c.url_encoding is (fmt == Format.HTTP_HEADERS))


@unit('C07')
def unknown_format(S):
    tr, _, _, _ = make_tracer(S)
    fmt = S.str('format')
    S.assume(S.And(*[S.Not(S.eq(fmt, f)) for f in BUILTIN]))
    carrier = S.newdict()
    r = S.call(tr.inject, span_or_context(S, tr, context(S)), fmt, carrier)
    S.check('inject: unsupported format', r.raised(UnsupportedFormatException))
    S.check('extract: unsupported format', S.call(tr.extract, fmt, carrier).raised(UnsupportedFormatException))
    S.check('the carrier is not touched', S.eq(S.len(carrier), 0))


@unit('C07')
def not_a_context(S):
    tr, _, _, _ = make_tracer(S)
    what = S.choose('kind', [('any', lambda: S.value('what', kinds=('none', 'int', 'str', 'dict', 'tuple', 'obj'))),
                             ('lookalike', lambda: Lookalike(context(S)))])
    carrier = S.newdict()
    r = S.call(tr.inject, what, S.choose('format', BUILTIN), carrier)
    S.check('ValueError', r.raised(ValueError))
    S.check('the carrier is not touched', S.eq(S.len(carrier), 0))


@unit('C07')
def wrong_carrier(S):
    codec = S.choose('codec', [('text', lambda: S.new(TextCodec, url_encoding=S.bool('url'))), ('binary', lambda: S.new(BinaryCodec)),
                               ('zipkin', lambda: S.new(ZipkinCodec)), ('b3', lambda: S.new(B3Codec))])
    kinds = ('none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'obj')
    if S.isinstance(codec, BinaryCodec):
        kinds += ('dict',)
    bad = S.value('carrier', kinds=kinds)
    bag, _, _ = baggage(S)
    S.check('inject: invalid carrier', S.call(codec.inject, context(S, bag=bag), bad).raised(InvalidCarrierException))
    S.check('extract: invalid carrier', S.call(codec.extract, bad).raised(InvalidCarrierException))


@unit('C07')
def injection_leaves_the_context(S):
    fmt = S.choose('format', BUILTIN)
    tr, _, _, _ = make_tracer(S)
    k, v = S.str('k', utf8=True), S.str('v', utf8=True)
    q = S.str('q')
    S.interest(k, q)
    bag = S.dict('baggage', key=lambda: S.str('bk', utf8=True), val=lambda: S.str('bv', utf8=True), entries=[(k, v)])
    had = S.lookup(bag, q)
    ctx = context(S, bag=bag)
    t, s, p, f = ctx.trace_id, ctx.span_id, ctx.parent_id, ctx.flags
    n = S.len(bag)
    S.assume(n < 1000)
    S.call(tr.inject, ctx, fmt, S.bytearray() if fmt == Format.BINARY else S.newdict())
    S.check('ids and flags unchanged', same_ids(S, ctx, t, s, p, f))
    S.check('baggage unchanged', S.And(S.same(S.lookup(ctx.baggage, k), v), S.eq(S.len(ctx.baggage), n)))
    now = S.lookup(ctx.baggage, q)
    S.check('no baggage added or lost', (now is S.MISSING) == (had is S.MISSING))


class SomeDict(dict):
    """a dictionary of a subclass"""


class SomeBytes(bytearray):
    """a byte array of a subclass"""


@unit('C07', sym=False, bounded='native runs only: carriers of subclasses')
def carriers_of_subclasses(S):
    """they are of the right kind"""
    tr, _, _, _ = make_tracer(S, extra_codecs=S.newdict([('b3', S.new(B3Codec))]))
    fmt = S.choose('format', BUILTIN + ['b3'])
    carrier = S.choose('carrier', [SomeDict, OrderedDict])() if fmt != Format.BINARY else SomeBytes()
    S.run(tr.inject, S.new(SpanContext, 5, 6, 7, 1), fmt, carrier)
    r = S.run(tr.extract, fmt, carrier)
    S.check('inject and extract take them', r is not None and S.same(r.trace_id, 5))

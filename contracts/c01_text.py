"""C01: text-map and HTTP-header round trip; C03: extraction grammar."""
from contracts._common import M64, M128, ids, same_ids
from jaeger_client.codecs import TextCodec
from jaeger_client.span_context import SpanContext
from pyvc.harness import unit

# configured names (header, prefix, debug id header, baggage header) and what they mean on the wire
NAMES = [
    (dict(), 'uber-trace-id', 'uberctx-', 'jaeger-debug-id', 'jaeger-baggage'),
    (dict(trace_id_header='My_Trace_ID', baggage_header_prefix='My_Baggage_', debug_id_header='Why_Debug', baggage_header='their-bag'),
     'my-trace-id', 'my-baggage-', 'why-debug', 'their-bag'),
    (dict(trace_id_header='X-Trace', baggage_header_prefix='X-B'), 'x-trace', 'x-b', 'jaeger-debug-id', 'jaeger-baggage'),
]
CONFIGS = [(n, u) for n in NAMES for u in (False, True)]


def unrelated(S, q, conf, sw=None):
    l = S.lower(q)
    return S.And(S.Not(S.eq(l, conf[1])), S.Not(S.startswith(l, conf[2])), S.Not(S.eq(l, conf[3])), S.Not(S.eq(l, conf[4])))


def carrier_of(S, conf):
    return S.dict('carrier', key=lambda: S.str('ck'), val=lambda: S.str('cv'), ok=lambda q: unrelated(S, q, conf))


@unit('C01', runs=600)
def text_inject_frame(S):
    """injection leaves unrelated entries and the context alone"""
    conf, url = S.choose('names and encoding', CONFIGS)
    t, s, p, f = ids(S)
    bag = S.choose('baggage', [('none', lambda: None),
                               ('some', lambda: S.dict('bag', key=lambda: S.str('bk', lower=True, utf8=True), val=lambda: S.str('bv', utf8=True)))])
    q = S.str('unrelated_key')
    S.assume(unrelated(S, q, conf))
    S.interest(q)
    carrier = carrier_of(S, conf)
    before = S.snap(carrier)
    bag0 = None if bag is None else S.snap(bag)
    ctx = S.new(SpanContext, t, s, p, f, bag)
    S.run(S.new(TextCodec, url_encoding=url, **conf[0]).inject, ctx, carrier)
    S.check('unrelated entries are left as they were', S.same_at(carrier, before, q))
    S.check('the injected context is unchanged', same_ids(S, ctx, t, s, p, f))
    if bag is not None:
        S.check('its baggage is unchanged', S.same_at(bag, bag0, S.str('baggage key')))


@unit('C01', runs=600, shards=6)
def text_round_trip(S):
    conf, url = S.choose('names and encoding', CONFIGS)
    t, s, p, f = ids(S)
    kind = S.choose('baggage', ['none', 'some'])
    bag = None
    if kind == 'some':
        k0, v0 = S.str('key', lower=True, utf8=True), S.str('value', utf8=True)
        j = S.str('no such key')
        S.interest(k0, j, S.cat(conf[2], k0), S.cat(conf[2], j))
        bag = S.dict('bag', key=lambda: S.str('bk', lower=True, utf8=True), val=lambda: S.str('bv', utf8=True), entries=[(k0, v0)])
        S.assume(S.Not(S.has(bag, j)))
    ctx = S.new(SpanContext, t, s, p, f, bag)
    codec = S.new(TextCodec, url_encoding=url, **conf[0])
    carrier = carrier_of(S, conf)
    S.run(codec.inject, ctx, carrier)
    r = S.run(codec.extract, carrier)
    S.check('a context is extracted', r is not None)
    S.check('same ids and flags', same_ids(S, r, t, s, p, f))
    S.check('no debug id appears', r.debug_id is None)
    if kind == 'some':
        S.check('a baggage item comes back with its value', S.same(S.lookup(r.baggage, k0), v0))
        S.check('no other baggage appears', S.Not(S.has(r.baggage, j)))
    else:
        S.check('no baggage appears from nowhere', S.eq(S.len(r.baggage), 0))


@unit('C01', runs=300)
def carrier_of_an_earlier_injection(S):
    """a carrier used before: the latest context is extracted"""
    conf, url = S.choose('names and encoding', CONFIGS)
    t, s, p, f = ids(S)
    k, v0, v = S.str('key', lower=True, utf8=True), S.str('earlier value', utf8=True), S.str('value', utf8=True)
    S.interest(k, S.cat(conf[2], k))
    codec = S.new(TextCodec, url_encoding=url, **conf[0])
    carrier = S.newdict()
    S.run(codec.inject, S.new(SpanContext, 1, 2, 3, 1, S.newdict([(k, v0)])), carrier)
    S.run(codec.inject, S.new(SpanContext, t, s, p, f, S.newdict([(k, v)])), carrier)
    r = S.run(codec.extract, carrier)
    S.check('the ids and flags of the latest', same_ids(S, r, t, s, p, f))
    S.check('its baggage', S.And(S.eq(S.len(r.baggage), 1), S.same(S.lookup(r.baggage, k), v)))

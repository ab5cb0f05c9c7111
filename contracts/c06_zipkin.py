"""C06: Zipkin span-format propagation."""
from collections import OrderedDict, defaultdict

from opentracing import InvalidCarrierException

from contracts._common import M64, M128, ids, same_ids
from jaeger_client.codecs import ZipkinCodec
from jaeger_client.span_context import SpanContext
from pyvc.core import ModelObj
from pyvc.harness import unit

FIELDS = ['trace_id', 'span_id', 'parent_id', 'traceflags']


@unit('C06')
def zipkin_inject(S):
    t, s, p, f = ids(S)
    k = S.str('other_key')
    S.interest(k)
    carrier = S.dict('carrier', key=lambda: S.str('ck'), val=lambda: S.str('cv'))
    before = S.snap(carrier)
    S.run(S.new(ZipkinCodec).inject, S.new(SpanContext, t, s, p, f), carrier)
    for n, v in zip(FIELDS, (t, s, p, f)):
        S.check('the four fields are stored', S.same(S.lookup(carrier, n), v))
    if not any(S.case(S.eq(k, n)) for n in FIELDS):
        S.check('other entries are left alone', S.same_at(carrier, before, k))


class Carrier(ModelObj):
    """an object with some of the four attributes"""


def arbitrary(S, n):
    hi = {'trace_id': M128, 'traceflags': 255}.get(n, M64)
    return S.choose(n, [('none', lambda: None), ('number', lambda: S.int('value ' + n, 0, hi))])


@unit('C06')
def zipkin_extract_dict(S):
    vals = {n: arbitrary(S, n) for n in FIELDS}
    present = {n: S.choose('has ' + n, [True, False]) for n in FIELDS}
    carrier = S.dict('carrier', key=lambda: S.str('ck'), val=lambda: S.str('cv'),
                     entries=[(n, vals[n]) for n in FIELDS if present[n]], ok=lambda q: S.And(*[S.Not(S.eq(q, n)) for n in FIELDS]))
    check(S, S.run(S.new(ZipkinCodec).extract, carrier), [vals[n] if present[n] else None for n in FIELDS])


@unit('C06')
def zipkin_extract_object(S):
    c = Carrier()
    missing = False
    vals = []
    for n in FIELDS:
        v = arbitrary(S, n)
        vals.append(v)
        if S.choose('has ' + n, [True, False]):
            S.setfield(c, n, v)
        else:
            missing = True
    r = S.call(S.new(ZipkinCodec).extract, c)
    if missing:
        S.check('an object lacking an attribute is an invalid carrier', r.raised(InvalidCarrierException))
    else:
        S.check('an object with the four attributes is accepted', r.ok)
        check(S, r.value, vals)


def check(S, r, vals):
    t, s, p, f = vals
    if t is None or S.case(S.eq(t, 0)):
        S.check('no context without a trace id', r is None)
        return
    if p is not None and S.case(S.eq(p, 0)):
        p = None        # parent id 0 means no parent
    S.check('the same four numbers', r is not None and same_ids(S, r, t, s, p, f))
    S.check('no baggage', S.eq(S.len(r.baggage), 0))


class SomeDict(dict):
    """a dictionary of a subclass"""


@unit('C06', sym=False, bounded='native runs only: dictionaries of subclasses')
def zipkin_dictionary_subclasses(S):
    t, s, p, f = ids(S)
    codec = S.new(ZipkinCodec)
    carrier = S.choose('carrier', [SomeDict, OrderedDict, lambda: defaultdict(int)])()
    S.run(codec.inject, S.new(SpanContext, t, s, p, f), carrier)
    r = S.run(codec.extract, carrier)
    S.check('they are dictionaries', r is not None and same_ids(S, r, t, s, p, f))

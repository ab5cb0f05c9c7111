"""C04: B3 propagation."""
from opentracing import SpanContextCorruptedException

from contracts._common import M64, M128, ids, not_in, same_ids, some_parent
from jaeger_client.codecs import B3Codec
from jaeger_client.span_context import SpanContext
from pyvc.harness import unit

NAMES = ['x-b3-traceid', 'x-b3-spanid', 'x-b3-parentspanid', 'x-b3-sampled', 'x-b3-flags']
KINDS = ['absent', 'null', 'number']
EXACT = ['X-B3-TraceId', 'X-B3-SpanId', 'X-B3-ParentSpanId', 'X-B3-Sampled', 'X-B3-Flags']


@unit('C04')
def b3_inject(S):
    t, s, p, f = ids(S)
    wide = S.bool('generate_128bit')
    ctx = S.new(SpanContext, t, s, p, f)
    k = S.str('other_key')
    S.interest(k)
    carrier = S.dict('carrier', key=lambda: S.str('ck'), val=lambda: S.str('cv'), ok=lambda q: not_in(S, q, NAMES))
    before = S.snap(carrier)
    S.run(S.new(B3Codec, generate_128bit_trace_id=wide).inject, ctx, carrier)
    w = 32 if S.case(wide) else 16
    S.check('trace id header', S.same(S.lookup(carrier, 'X-B3-TraceId'), S.hexpad(t, w)))
    S.check('span id header', S.same(S.lookup(carrier, 'X-B3-SpanId'), S.hexpad(s, 16)))
    if p is None:
        S.check('no parent header without a parent', S.Not(S.has(carrier, 'X-B3-ParentSpanId')))
    else:
        S.check('parent header', S.same(S.lookup(carrier, 'X-B3-ParentSpanId'), S.hexpad(p, 16)))
    debug = S.case(S.Not(S.eq(S.band(f, 2), 0)))
    sampled = S.case(S.Not(S.eq(S.band(f, 1), 0)))
    if debug:
        S.check('flags header announces debug', S.same(S.lookup(carrier, 'X-B3-Flags'), '1'))
        S.check('no sampled header on debug', S.Not(S.has(carrier, 'X-B3-Sampled')))
    elif sampled:
        S.check('sampled header announces sampled', S.same(S.lookup(carrier, 'X-B3-Sampled'), '1'))
        S.check('no flags header without debug', S.Not(S.has(carrier, 'X-B3-Flags')))
    else:
        S.check('no sampling header when unsampled', S.Not(S.Or(S.has(carrier, 'X-B3-Flags'), S.has(carrier, 'X-B3-Sampled'))))
    if not any(S.case(S.eq(k, n)) for n in EXACT):
        S.check('other entries are left alone', S.same_at(carrier, before, k))


def cased_entries(S, spec):
    return [(S.cased('name ' + n, n), v) for n, v in spec]


def others(S, entries):
    """a carrier with the given entries in any order among unrelated (possibly null) ones"""
    return S.dict('carrier', key=lambda: S.str('ck'), val=lambda: S.value('cv', kinds=('none', 'str')), entries=entries,
                  ok=lambda q: not_in(S, q, NAMES))


@unit('C04', runs=400, shards=9)
def b3_extract_ids(S):
    """ids in any padding and case; missing and zero ids; null entries"""
    spec, want = [], {}
    first = S.choose('trace and span header', [(a, b) for a in KINDS for b in KINDS])
    for n, k in zip(NAMES[:3], first + (S.choose('parent header', KINDS),)):
        if k == 'null':
            spec.append((n, None))
        elif k == 'number':
            v = S.int('value ' + n, 0, M128 if n == NAMES[0] else M64)
            want[n] = v
            spec.append((n, S.hexstr('text ' + n, v)))
    r = S.run(S.new(B3Codec).extract, others(S, cased_entries(S, spec)))
    t, s, p = want.get(NAMES[0]), want.get(NAMES[1]), want.get(NAMES[2])
    if t is None or s is None or S.case(S.Or(S.eq(t, 0), S.eq(s, 0))):
        S.check('no context without trace id or span id', r is None)
    else:
        S.check('ids are the header numbers', r is not None and S.And(S.same(r.trace_id, t), S.same(r.span_id, s), S.eq(r.flags, 0)))
        if p is not None and not S.case(S.eq(p, 0)):
            S.check('parent id is the header number', S.same(r.parent_id, p))
        else:
            S.check('no parent id without the header, or with parent 0', r.parent_id is None)
        S.check('no baggage', S.eq(S.len(r.baggage), 0))


def flag_headers(S, sampled, debug):
    spec = []
    if sampled is not None:
        v = S.str('sampled_text') if sampled == 'other' else sampled
        if sampled == 'other':
            S.assume(S.Not(S.eq(v, '1')))
        spec.append((NAMES[3], v))
    if debug is not None:
        v = S.str('flags_text') if debug == 'other' else debug
        if debug == 'other':
            S.assume(S.Not(S.eq(v, '1')))
        spec.append((NAMES[4], v))
    return spec, (1 if sampled == '1' else 0) + (2 if debug == '1' else 0)


@unit('C04', runs=400, shards=6)
def b3_extract_one_flag_header(S):
    """one sampling header, in any position among the ids and unrelated entries"""
    sampled, debug = S.choose('flag header', [(None, None), ('1', None), ('other', None), (None, '1'), (None, 'other'), (None, '0')])
    t, s = S.int('trace_id', 1, M128), S.int('span_id', 1, M64)
    spec = [(NAMES[0], S.hexstr('trace_text', t)), (NAMES[1], S.hexstr('span_text', s))]
    more, want = flag_headers(S, sampled, debug)
    r = S.run(S.new(B3Codec).extract, others(S, cased_entries(S, spec + more)))
    S.check('flags follow the sampling headers', r is not None and S.eq(r.flags, want))


@unit('C04', runs=400)
def b3_extract_both_flag_headers(S):
    """both sampling headers and the ids in any order"""
    sampled, debug = S.choose('flag headers', [('1', '1'), ('other', '1'), ('1', 'other'), ('other', 'other')])
    spec = [(NAMES[0], '1'), (NAMES[1], 'a')]
    more, want = flag_headers(S, sampled, debug)
    r = S.run(S.new(B3Codec).extract, S.dict('carrier', entries=cased_entries(S, spec + more), key=lambda: S.str('ck'),
                                             val=lambda: S.str('cv'), rest=False))
    S.check('flags follow the sampling headers', r is not None and S.eq(r.flags, want))


@unit('C04', runs=400, shards=3)
def b3_extract_malformed(S):
    """one id header with a value of any kind"""
    n = S.choose('header', NAMES[:3])
    v = S.value('value', kinds=('bool', 'int', 'float', 'str', 'bytes', 'list', 'list1', 'tuple', 'tuple0', 'dict', 'obj'))
    good = [(m, '1f') for m in NAMES[:3] if m != n]
    r = S.call(S.new(B3Codec).extract, others(S, cased_entries(S, [(n, v)] + good)))
    if S.isinstance(v, str) and S.ishex(v) and S.case(S.hexval(v) >= 0):
        S.check('an unsigned hexadecimal string is accepted', r.ok)
    else:
        S.check('any other value is rejected as corrupted', r.raised(SpanContextCorruptedException))


@unit('C04')
def b3_round_trip(S):
    t, s, p, f = ids(S)
    c = S.new(B3Codec, generate_128bit_trace_id=S.bool('generate_128bit'))
    carrier = S.newdict()
    S.run(c.inject, S.new(SpanContext, t, s, p, f), carrier)
    r = S.run(c.extract, carrier)
    S.check('ids survive', r is not None and S.And(S.same(r.trace_id, t), S.same(r.span_id, s), S.same(r.parent_id, p)))
    S.check('sampled or debug survives', S.Iff(S.Not(S.eq(S.band(f, 3), 0)), S.Not(S.eq(r.flags, 0))))


@unit('C04')
def carrier_of_an_earlier_injection(S):
    """a carrier used before: the latest ids are those that travel"""
    t, s, p = S.int('t', 1, M128), S.int('s', 1, M64), S.int('p', 1, M64)
    wide = S.choose('generate_128bit', [False, True])
    codec = S.new(B3Codec, generate_128bit_trace_id=wide)
    carrier = S.newdict()
    S.run(codec.inject, S.new(SpanContext, 1, 2, 3, 1), carrier)
    S.run(codec.inject, S.new(SpanContext, t, s, p, 1), carrier)
    for n, v, w in (('X-B3-TraceId', t, 32 if wide else 16), ('X-B3-SpanId', s, 16), ('X-B3-ParentSpanId', p, 16)):
        S.check('the ids of the latest', S.same(S.lookup(carrier, n), S.hexpad(v, w)))

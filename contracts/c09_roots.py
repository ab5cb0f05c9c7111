"""C09: root spans: ids, sampling decision and sampler tags; C10: debug-id requests."""
from opentracing import Reference, ReferenceType

from contracts import _callees  # noqa: F401
from contracts._common import M64, M128
from contracts._tracer import Sampler, Scope, Scopes, Throttler, baggage, make_tracer, user_tags
from jaeger_client.span import Span
from jaeger_client.span_context import SpanContext
from jaeger_client.thrift_gen.jaeger.ttypes import TagType
from pyvc.harness import unit


def no_parent(S, tr):
    """the ways to start a span without a parent"""
    how = S.choose('how', ['nothing', 'active ignored', 'references without context'])
    if how == 'active ignored':
        tr.scope_manager.active = Scope(S.new(Span, S.new(SpanContext, 7, 8, None, 1), tr, 'a'))
        return {'ignore_active_span': True}
    if how == 'references without context':
        return {'references': S.newlist([S.new(Reference, ReferenceType.CHILD_OF, None)])}
    return {}


def check_new_ids(S, sp, bits):
    c = sp.context
    S.check('trace id in range', S.And(0 <= c.trace_id, c.trace_id < (1 << bits)))
    S.check('span id in range', S.And(0 <= c.span_id, c.span_id <= M64))
    S.check('two different random numbers of the right widths', S.Or(False, *[
        S.And(S.eq(c.trace_id, a), S.eq(c.span_id, b)) for i, (a, m) in enumerate(S.draws()) for j, (b, n) in enumerate(S.draws())
        if i != j and m == bits and n == 64]))
    S.check('no parent id', c.parent_id is None)


@unit('C09')
def root_ids_and_decision(S):
    wide = S.choose('128 bits', [False, True])
    smp = Sampler(S, decision=S.bool('decision'), tags=S.newdict([('sampler.type', S.str('stype')), ('sampler.param', S.float('param'))]))
    tr, rep, _, met = make_tracer(S, sampler=smp, generate_128bit_trace_id=wide, scope_manager=Scopes(S))
    kw = no_parent(S, tr)
    op = S.str('operation')
    sp = S.run(tr.start_span, op, start_time=S.float('start', 0, None), **kw)
    check_new_ids(S, sp, 128 if wide else 64)
    S.check('no baggage', S.eq(S.len(sp.context.baggage), 0))
    S.check('the sampler is asked once, about this trace and operation', S.same_list(smp.calls, [(sp.context.trace_id, op)]))
    if S.case(smp.decision):
        S.check('exactly the sampled flag', S.same(sp.context.flags, 1))
        S.check('the sampler tags are recorded, nothing else', S.And(S.eq(S.len(sp.tags), 2), *[
            S.some(sp.tags, lambda t: S.And(S.eq(t.key, k), S.eq(t.vType, ty), S.same(getattr(t, f), smp_tag(S, smp, k))))
            for k, ty, f in (('sampler.type', TagType.STRING, 'vStr'), ('sampler.param', TagType.DOUBLE, 'vDouble'))]))
    else:
        S.check('flags 0', S.same(sp.context.flags, 0))
        S.check('nothing is recorded', S.eq(S.len(sp.tags), 0))
    S.check('no log', S.eq(S.len(sp.logs), 0))


def smp_tag(S, smp, k):
    v = S.lookup(smp.tags, k)
    return S.cut(v, 1024) if S.isinstance(v, str) else v


@unit('C09', uses=('make_tag',), shards=4)
def root_with_tags(S):
    """arbitrary user tags, arbitrary sampler tags; one of either is followed"""
    about = S.choose('about', ['a sampler tag', 'a clashing sampler tag', 'a user tag', 'declined'])
    k, v = S.str('sampler tag'), S.float('sampler value')
    uk = S.str('user key')
    P = 'sampling.priority'
    S.assume(S.And(S.Not(S.eq(k, P)), S.Not(S.eq(uk, k)), S.Not(S.eq(uk, P))))
    S.interest(k, uk, P)
    stags = S.dict('sampler tags', key=lambda: S.str('sk'), val=lambda: S.float('sv'), entries=[(k, v)] if about != 'a user tag' else [],
                   ok=lambda q: S.And(S.Not(S.eq(q, P)), S.Not(S.eq(q, uk))))
    smp = Sampler(S, decision=about != 'declined', tags=stags)
    tr, rep, _, met = make_tracer(S, sampler=smp, scope_manager=Scopes(S))
    es = [(k, 'of the user')] if about == 'a clashing sampler tag' else [(uk, S.float('user value'))] if about == 'a user tag' else []
    tags = S.dict('tags', key=lambda: S.str('tag key'), val=lambda: S.bool('tag value'), entries=es,
                  ok=lambda q: S.And(S.Not(S.eq(q, P)), S.Not(S.eq(q, k))))
    n = S.len(smp.tags)
    had = S.lookup(smp.tags, k)
    uv = S.lookup(tags, uk)
    sp = S.run(tr.start_span, 'op', tags=tags)
    S.check('the sampler is asked once', S.eq(S.len(smp.calls), 1))
    now = S.lookup(smp.tags, k)
    S.check('the tags of the sampler are not changed', S.And(S.eq(S.len(smp.tags), n), (now is S.MISSING) == (had is S.MISSING),
                                                             had is S.MISSING or S.same(now, had)))
    if smp.decision:
        S.check('exactly the sampled flag', S.same(sp.context.flags, 1))
        if about == 'a user tag':
            S.check('user tags are recorded', S.some(sp.tags, lambda t: S.And(S.eq(t.key, uk), S.eq(t.vType, TagType.DOUBLE), S.same(t.vDouble, uv))))
        else:
            S.check('every sampler tag is recorded', S.some(sp.tags, lambda t: S.And(S.eq(t.key, k), S.eq(t.vType, TagType.DOUBLE), S.same(t.vDouble, v))))
    else:
        S.check('flags 0', S.same(sp.context.flags, 0))
        S.check('nothing is recorded', S.eq(S.len(sp.tags), 0))


@unit('C09')
def sampler_tag_overrides_user_tag(S):
    k = S.str('key')
    S.assume(S.Not(S.eq(k, 'sampling.priority')))
    smp = Sampler(S, decision=True, tags=S.newdict([(k, S.float('sampler value'))]))
    tr, rep, _, met = make_tracer(S, sampler=smp, scope_manager=Scopes(S))
    k2 = S.str('key2')
    S.assume(S.And(S.Not(S.eq(k, k2)), S.Not(S.eq(k2, 'sampling.priority'))))
    sp = S.run(tr.start_span, 'op', tags=S.newdict([(k, S.float('user value')), (k2, 5)]))
    S.check('one record per key', S.eq(S.len(sp.tags), 2))
    S.check('the value is that of the sampler', S.some(sp.tags, lambda t: S.And(S.eq(t.key, k), S.same(t.vDouble, S.lookup(smp.tags, k)))))
    S.check('other user tags are kept', S.some(sp.tags, lambda t: S.And(S.eq(t.key, k2), S.same(t.vLong, 5))))


# ---------------------------------------------------------------- C10
def debug_request(S, **kw):
    d = S.str('debug id', minlen=1)
    bag, bk, bv = baggage(S)
    return S.new(SpanContext, None, None, None, None, bag, d), d, bk, bv


@unit('C10', uses=('make_tag',), shards=3)
def debug_request_starts_a_debug_trace(S):
    th = S.choose('throttler', [('none', lambda: None), ('allows', lambda: Throttler(S, True)), ('refuses', lambda: Throttler(S, False))])
    via = S.choose('via', ['child_of', 'reference', 'active span'])
    ctx, d, bk, bv = debug_request(S)
    S.interest(bk)
    n = S.len(ctx.baggage)
    header = S.choose('header', [('default', lambda: 'jaeger-debug-id'), ('own', lambda: S.str('header'))])
    S.assume(S.Not(S.eq(header, 'sampling.priority')))
    wide = S.choose('128 bits', [False, True])
    smp = Sampler(S, decision=True)
    tr, rep, _, met = make_tracer(S, sampler=smp, throttler=th, debug_id_header=header, generate_128bit_trace_id=wide, scope_manager=Scopes(S))
    op = S.str('operation')
    kw = {}
    if via == 'child_of':
        kw['child_of'] = ctx
    elif via == 'reference':
        kw['references'] = S.newlist([S.new(Reference, ReferenceType.CHILD_OF, ctx)])
    else:
        tr.scope_manager.active = Scope(S.new(Span, ctx, tr, 'a'))
    tags = S.choose('tags', [('none', lambda: None), ('some', lambda: user_tags(S, no=['jaeger-debug-id'])),
                             ('headers as tags', lambda: S.newdict([('first', 1), (header, 'of the user')]))])
    S.assume(tags is None or S.eq(header, 'jaeger-debug-id') or S.has(tags, header))
    sp = S.run(tr.start_span, op, tags=tags, **kw)
    check_new_ids(S, sp, 128 if wide else 64)
    if th is not None:
        S.check('the throttler is asked once, about this operation', S.same_list(th.asked, [(op,)]))
    if th is None or th.answer:
        S.check('flags are sampled and debug', S.same(sp.context.flags, 3))
        S.check('the debug id is recorded under the header name', S.some(sp.tags, lambda t: S.And(
            S.eq(t.key, header), S.eq(t.vType, TagType.STRING), S.eq(t.vStr, S.cut(d, 1024)))))
    else:
        S.check('flags are 0', S.same(sp.context.flags, 0))
        S.check('the debug id is not recorded', S.eq(S.len(sp.tags), 0))
    S.check('the baggage is carried over', S.And(bv is None or S.same(S.lookup(sp.context.baggage, bk), bv), S.eq(S.len(sp.context.baggage), n)))


@unit('C10')
def no_debug_id_no_debug_trace(S):
    """a context with baggage alone is no debug request"""
    th = S.choose('throttler', [('none', lambda: None), ('some', lambda: Throttler(S, S.bool('answer')))])
    tr, rep, smp, met = make_tracer(S, throttler=th, scope_manager=Scopes(S))
    k, v = S.str('key'), S.str('value')
    parent = S.new(SpanContext, None, None, None, None, S.newdict([(k, v)]))
    sp = S.run(tr.start_span, S.str('operation'), child_of=parent)
    S.check('no debug trace', S.eq(S.band(sp.context.flags, 2), 0))
    S.check('the debug header is not recorded', S.eq(S.len(sp.tags), 0))
    S.check('the baggage is carried over', S.same(S.lookup(sp.context.baggage, k), v))
    if th is not None:
        S.check('the throttler is not asked', S.eq(S.len(th.asked), 0))

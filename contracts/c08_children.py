"""C08: child spans continue the trace of the right parent."""
from opentracing import Reference, ReferenceType

from contracts._common import M64, M128
from contracts._tracer import Scope, Scopes, baggage, context, drawn, make_tracer, perhaps_finished, user_tags
from contracts import _callees  # noqa: F401
from jaeger_client.span import Span
from jaeger_client.span_context import SpanContext
from pyvc.harness import unit

def other_kind(S):
    """no span kind, or one that is not that of a server"""
    def text():
        k = S.str('span kind')
        S.assume(S.Not(S.eq(k, 'server')))
        return k
    return S.choose('span kind', [('absent', lambda: None), ('text', text), ('odd', lambda: ('server',))])


HOWS = ['context', 'span', 'active span', 'reference', 'active span over reference', 'reference as container has no trace']


def no_trace_context(S, name):
    """a context without a trace: debug-id or baggage container"""
    d = S.choose(name + ' kind', [('debug', lambda: S.str(name + ' debug id')), ('plain', lambda: None)])
    return S.new(SpanContext, None, None, None, None, None, d)


@unit('C08', shards=6, uses=('make_tag',))
def child_continues_the_parent(S):
    how = S.choose('how', HOWS)
    single = S.bool('one_span_per_rpc')
    bag, bk, bv = baggage(S)
    par = context(S, 'parent ', bag=bag)
    pspan = None
    scopes = Scopes(S)
    tr, rep, smp, met = make_tracer(S, one_span_per_rpc=single, scope_manager=scopes)
    q = S.str('absent key')
    S.interest(bk, q)
    had = S.lookup(par.baggage, q)
    n = S.len(par.baggage)
    other = S.new(SpanContext, S.int('other trace', 1, M128), S.int('other span', 1, M64), None, 0)
    kw = {}
    ref = S.new(Reference, ReferenceType.FOLLOWS_FROM if how == 'reference' else ReferenceType.CHILD_OF, par)
    oref = S.new(Reference, ReferenceType.CHILD_OF, other)
    if how == 'context':
        kw['child_of'] = par
        kw['references'] = S.choose('refs', [('none', lambda: None), ('other', lambda: S.newlist([oref]))])
        scopes.active = S.choose('active', [('none', lambda: None), ('other', lambda: Scope(perhaps_finished(S, S.new(Span, other, tr, 'x'))))])
    elif how == 'span':
        pspan = kw['child_of'] = perhaps_finished(S, S.new(Span, par, tr, S.str('parent op')))
        scopes.active = S.choose('active', [('none', lambda: None), ('other', lambda: Scope(perhaps_finished(S, S.new(Span, other, tr, 'x'))))])
    elif how == 'active span':
        scopes.active = Scope(perhaps_finished(S, S.new(Span, par, tr, S.str('parent op'))))
    elif how == 'reference':
        kw['references'] = S.choose('refs', [('list', lambda: S.newlist([ref])), ('single', lambda: ref)])
        kw['ignore_active_span'] = S.bool('ignore')
    elif how == 'active span over reference':
        scopes.active = Scope(perhaps_finished(S, S.new(Span, par, tr, S.str('parent op'))))
        kw['references'] = S.newlist([oref])
    else:
        kw['child_of'] = no_trace_context(S, 'container')
        kw['references'] = S.newlist([ref, oref])
    server = S.choose('server', [True, False])
    kw['tags'] = user_tags(S, kind='server') if server else S.choose('tags', [('none', lambda: None), ('some', lambda: user_tags(S, kind=other_kind(S)))])
    op = S.str('operation')
    t, s, p, f = par.trace_id, par.span_id, par.parent_id, par.flags
    sp = S.run(tr.start_span, op, start_time=S.float('start', 0, None), **kw)
    S.check('a span of this tracer', S.isinstance(sp, Span) and sp.tracer is tr)
    S.check('operation name', S.same(sp.operation_name, op))
    S.check('trace id and flags of the parent', S.And(S.same(sp.context.trace_id, t), S.same(sp.context.flags, f)))
    if S.case(S.And(server, single)):
        S.check('one span per RPC: same span id', S.same(sp.context.span_id, s))
        S.check('one span per RPC: same parent id', S.same(sp.context.parent_id, p))
    else:
        S.check('a fresh random 64-bit span id', drawn(S, sp.context.span_id, 64))
        S.check('parent id is the span id of the parent', S.same(sp.context.parent_id, s))
    S.check('baggage of the parent', S.And(bv is None or S.same(S.lookup(sp.context.baggage, bk), bv), S.eq(S.len(sp.context.baggage), n)))
    now = S.lookup(sp.context.baggage, q)
    S.check('no other baggage', now is S.MISSING if had is S.MISSING else S.same(now, had))
    S.check('the sampler is not consulted', S.eq(S.len(smp.calls), 0))
    S.check('the parent is unchanged', S.And(S.same(par.trace_id, t), S.same(par.span_id, s), S.same(par.parent_id, p), S.same(par.flags, f),
                                             S.eq(S.len(par.baggage), n)))


@unit('C08')
def which_parent(S):
    """the explicit parent, else the active span unless ignored, else the first reference that has a context"""
    tr, rep, smp, met = make_tracer(S, scope_manager=Scopes(S))

    def ctx(i):
        return S.new(SpanContext, S.int('trace %d' % i, 1, M128), S.int('span %d' % i, 1, M64), None, S.int('flags %d' % i, 0, 255))
    explicit, active, referenced = ctx(0), ctx(1), ctx(2)
    e = S.choose('explicit', [('none', lambda: None), ('no trace', lambda: no_trace_context(S, 'explicit')), ('trace', lambda: explicit),
                              ('span', lambda: perhaps_finished(S, S.new(Span, explicit, tr, 'e')))])
    a = S.choose('active', [('none', lambda: None), ('trace', lambda: Scope(perhaps_finished(S, S.new(Span, active, tr, 'a')))),
                            ('no trace', lambda: Scope(S.new(Span, no_trace_context(S, 'active'), tr, 'a')))])
    tr.scope_manager.active = a
    refs = S.choose('references', [('none', lambda: None), ('empty', lambda: S.newlist()), ('trace', lambda: S.newlist(
        [S.new(Reference, ReferenceType.CHILD_OF, None), S.new(Reference, ReferenceType.FOLLOWS_FROM, referenced),
         S.new(Reference, ReferenceType.CHILD_OF, active)])),
        ('no context', lambda: S.newlist([S.new(Reference, ReferenceType.CHILD_OF, None)])),
        ('no trace first', lambda: S.newlist([S.new(Reference, ReferenceType.CHILD_OF, no_trace_context(S, 'reference')),
                                              S.new(Reference, ReferenceType.CHILD_OF, referenced)]))])
    ignore = S.choose('ignore', [True, False])
    # the context that decides: explicit, else active
    if e is not None:
        c = explicit if S.isinstance(e, Span) else e
    elif a is not None and not ignore:
        c = a.span.context
    else:
        c = None
    if (c is None or c.trace_id is None) and refs is not None and S.len(refs) == 3:
        c = referenced
    via = S.choose('via', ['start_span', 'start_active_span'])
    if via == 'start_span':
        sp = S.run(tr.start_span, 'op', child_of=e, references=refs, ignore_active_span=ignore)
    else:
        fin = S.choose('finish_on_close', [True, False])
        scope = S.run(tr.start_active_span, 'op', child_of=e, references=refs, ignore_active_span=ignore, finish_on_close=fin)
        sp = scope.span
        S.check('the scope of the new span is activated', S.same_list(tr.scope_manager.activated, [(sp, fin)]))
    if c is not None and c.trace_id is not None:
        S.check('child of the right parent', S.And(S.same(sp.context.trace_id, c.trace_id), S.same(sp.context.parent_id, c.span_id),
                                                   S.same(sp.context.flags, c.flags)))
        S.check('sampler not consulted', S.eq(S.len(smp.calls), 0))
    else:
        S.check('a root span', S.And(sp.context.parent_id is None, drawn(S, sp.context.trace_id, 64)))


@unit('C08')
def references_are_recorded(S):
    """those with a context, in order, whatever surrounds them"""
    tr, rep, smp, met = make_tracer(S, scope_manager=Scopes(S))

    def mk(i, c):
        return S.new(Reference, S.choose('type %d' % i, [ReferenceType.CHILD_OF, ReferenceType.FOLLOWS_FROM]), c)
    r1, r2 = mk(1, context(S, 'c1 ')), mk(2, context(S, 'c2 '))

    def none():
        return S.new(Reference, ReferenceType.CHILD_OF, None)
    again = S.new(Reference, r1.type, r1.referenced_context)
    refs = S.newlist([S.seg('before', none), r1, S.seg('between', none), r2, S.seg('after', none), again, r2])
    p = S.choose('parent', [('none', lambda: None), ('some', lambda: context(S, 'parent '))])
    sp = S.run(tr.start_span, 'op', child_of=p, references=refs)
    S.check('the references with a context, in order', S.same_list(sp.references, [r1, r2, again, r2]))
    if p is None:
        S.check('the first of them is the parent', S.same(sp.context.parent_id, r1.referenced_context.span_id))


@unit('C08')
def no_references(S):
    tr, rep, smp, met = make_tracer(S, scope_manager=Scopes(S))
    refs = S.choose('references', [('none', lambda: None), ('empty', lambda: S.newlist()),
                                   ('no context', lambda: S.newlist([S.seg('none', lambda: S.new(Reference, ReferenceType.CHILD_OF, None))]))])
    sp = S.run(tr.start_span, child_of=context(S, 'parent '), references=refs)
    S.check('no reference is recorded', sp.references is None or S.eq(S.len(sp.references), 0))
    S.check('no operation name is the empty one', S.eq(sp.operation_name, ''))

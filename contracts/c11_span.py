"""C11: sampling-priority tag; C12: recording."""
from contracts import _callees  # noqa: F401
from contracts._common import M64, M128
from contracts._tracer import Throttler, make_tracer, perhaps_finished, tag_value
from jaeger_client.span import Span
from jaeger_client.span_context import SpanContext
from jaeger_client.thrift_gen.jaeger import ttypes
from jaeger_client.thrift_gen.jaeger.ttypes import TagType
from pyvc.harness import unit

KINDS = ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'obj')


def some_span(S, tr, flags):
    ctx = S.new(SpanContext, S.int('trace_id', 1, M128), S.int('span_id', 1, M64), None, flags)
    return S.new(Span, ctx, tr, S.str('operation'), start_time=S.float('start', 0, None))


def truthy(S, v):
    """truth value, and the integer v converts to (None: it does not)"""
    if v is None:
        return False, None
    if S.isinstance(v, bool):
        return v, S.int_of(v)
    if S.isinstance(v, (int, float)):
        return S.Not(S.eq(v, 0)), S.int_of(v)
    if S.isinstance(v, str):
        return S.Not(S.eq(v, '')), S.int_of(v)
    if S.isinstance(v, (list, dict)):
        return S.len(v) > 0, None
    return True, None


@unit('C11')
def sampling_priority(S):
    flags = S.int('flags', 0, 255)
    th = S.choose('throttler', [('none', lambda: None), ('allows', lambda: Throttler(S, True)), ('refuses', lambda: Throttler(S, False))])
    tr, rep, smp, met = make_tracer(S, throttler=th)
    sp = perhaps_finished(S, some_span(S, tr, flags))
    n0 = 2 if S.bool('earlier tags') and S.case(S.eq(S.band(flags, 1), 1)) else 0
    if n0:
        S.run(sp.set_tag, 'a', 1)
        S.run(sp.set_tag, 'b', 'x')
    v = S.value('value', kinds=KINDS)
    t, n = truthy(S, v)
    debug = S.eq(S.band(flags, 2), 2)
    r = S.run(sp.set_tag, 'sampling.priority', v)
    S.check('returns the span', r is sp)
    asked = 0
    if S.case(S.And(debug, t)):
        S.check('a truthy value on a debug span changes nothing', S.And(S.same(sp.context.flags, flags), S.eq(S.len(sp.tags), n0)))
    elif n is None:
        S.check('no integer: nothing changes', S.And(S.same(sp.context.flags, flags), S.eq(S.len(sp.tags), n0)))
    elif S.case(S.eq(n, 0)):
        S.check('zero clears sampled and debug, keeps the other bits', S.eq(sp.context.flags, flags - S.band(flags, 3)))
        S.check('zero records no tag', S.eq(S.len(sp.tags), n0))
    else:
        asked = 1
        if th is None or th.answer:
            S.check('both flags are set, the other bits kept', S.eq(sp.context.flags, S.bor(flags, 3)))
            S.check('the tag is recorded', S.And(S.eq(S.len(sp.tags), n0 + 1), S.eq(sp.tags[-1].key, 'sampling.priority')))
        else:
            S.check('refused: nothing changes', S.And(S.same(sp.context.flags, flags), S.eq(S.len(sp.tags), n0)))
    if th is not None:
        S.check('the throttler is asked about this operation only when needed', S.same_list(th.asked, [(sp.operation_name,)] * asked))
    S.check('the lock is free again', S.Not(S.run(sp.update_lock.locked)))


@unit('C11')
def special_numbers(S):
    tr, rep, smp, met = make_tracer(S)
    flags = S.choose('flags', [0, 1, 2, 3, 9])
    sp = some_span(S, tr, flags)
    v = S.choose('value', [('inf', lambda: float('inf')), ('-inf', lambda: -float('inf')), ('nan', lambda: float('nan')), ('bytes', lambda: b'x'),
                           ('class', lambda: int), ('complex', lambda: 1j), ('tuple', lambda: (1,))] + [(repr(w), lambda w=w: w) for w in ('0.5', '1.0', '1e0', '0x1', '', ' ', '-', 'true', 'None', '1 0', '1,0')])
    S.run(sp.set_tag, 'sampling.priority', v)
    S.check('no integer: nothing changes', S.And(S.same(sp.context.flags, flags), S.eq(S.len(sp.tags), 0)))


@unit('C11', uses=('make_tag',))
def other_tags_keep_the_flags(S):
    flags = S.int('flags', 0, 255)
    th = Throttler(S, S.bool('answer'))
    tr, rep, smp, met = make_tracer(S, throttler=th)
    sp = perhaps_finished(S, some_span(S, tr, flags))
    k = S.str('key')
    S.assume(S.Not(S.eq(k, 'sampling.priority')))
    S.run(sp.set_tag, k, tag_value(S))
    S.check('flags unchanged', S.same(sp.context.flags, flags))
    S.check('throttler not asked', S.eq(S.len(th.asked), 0))


@unit('C11', uses=('make_tag',))
def tags_given_at_creation(S):
    """the same semantics for tags passed to the constructor: any other tags, then the priority"""
    flags = S.int('flags', 0, 255)
    tr, rep, smp, met = make_tracer(S)
    ctx = S.new(SpanContext, S.int('trace_id', 1, M128), S.int('span_id', 1, M64), None, flags)
    pr = S.choose('priority', [('absent', lambda: None), ('number', lambda: S.int('priority'))])
    tags = S.dict('tags', key=lambda: S.str('tag key'), val=lambda: S.float('tag value'),
                  entries=[] if pr is None else [('sampling.priority', pr)], ok=lambda q: S.Not(S.eq(q, 'sampling.priority')))
    S.interest('sampling.priority')
    S.candidate(lambda: S.same(ctx.flags, flags))
    sp = S.run(Span, ctx, tr, 'op', tags=tags)
    if pr is None or S.case(S.And(S.eq(S.band(flags, 2), 2), S.Not(S.eq(pr, 0)))):
        S.check('flags unchanged', S.same(sp.context.flags, flags))
    elif S.case(S.eq(pr, 0)):
        S.check('cleared', S.eq(sp.context.flags, flags - S.band(flags, 3)))
    else:
        S.check('set', S.eq(sp.context.flags, S.bor(flags, 3)))


# ---------------------------------------------------------------- C12
def a_tag(S):
    return S.new(ttypes.Tag, key=S.str('earlier key'), vType=TagType.LONG, vLong=S.int('earlier value'))


def a_log(S):
    return S.new(ttypes.Log, timestamp=S.int('earlier time'), fields=S.newlist([a_tag(S)]))


def with_history(S, sp):
    """the span has recorded any number of tags and logs, one of each singled out"""
    t, l = a_tag(S), a_log(S)
    S.setfield(sp, 'tags', S.newlist([S.seg('tags before', lambda: a_tag(S)), t, S.seg('tags after', lambda: a_tag(S))]))
    S.setfield(sp, 'logs', S.newlist([S.seg('logs before', lambda: a_log(S)), l, S.seg('logs after', lambda: a_log(S))]))
    return t, l


def fields(S):
    """an arbitrary dict"""
    return S.dict('fields', key=lambda: S.str('field key'), val=lambda: S.float('field value'), entries=[('event', S.str('event'))])


CALLS = ['set_tag', 'log_kv', 'log_event', 'log', 'set_baggage_item', 'set_operation_name', 'info', 'error', 'finish', 'exit with error',
         'sampling.priority 0']


def do_call(S, what, sp):
    if what == 'set_tag':
        k = S.str('key')
        S.assume(S.Not(S.eq(k, 'sampling.priority')))
        S.run(sp.set_tag, k, tag_value(S))
    elif what == 'log_kv':
        S.run(sp.log_kv, fields(S), timestamp=S.choose('timestamp', [('none', lambda: None), ('some', lambda: S.float('timestamp', 0, None))]))
    elif what == 'log_event':
        S.run(sp.log_event, S.str('event'), S.choose('payload', [('none', lambda: None), ('some', lambda: S.str('payload'))]))
    elif what == 'log':
        S.run(sp.log, event=S.str('event'), payload=S.str('payload'))
    elif what == 'set_baggage_item':
        S.run(sp.set_baggage_item, S.str('key'), S.choose('value', [('none', lambda: None), ('some', lambda: S.str('value'))]))
    elif what == 'set_operation_name':
        S.run(sp.set_operation_name, S.str('name'))
    elif what == 'info':
        S.run(sp.info, S.str('message'), S.choose('payload', [('none', lambda: None), ('some', lambda: S.str('payload'))]))
    elif what == 'error':
        S.run(sp.error, S.str('message'), S.choose('payload', [('none', lambda: None), ('some', lambda: S.str('payload'))]))
    elif what == 'finish':
        S.run(sp.finish, S.choose('finish time', [('none', lambda: None), ('some', lambda: S.float('finish time', 0, None))]))
    elif what == 'exit with error':
        S.run(S.attr(sp, '__exit__'), ValueError, ValueError('x'), None)
    else:
        S.run(sp.set_tag, 'sampling.priority', 0)


@unit('C12', uses=('make_tag',))
def unsampled_records_nothing(S):
    what = S.choose('call', CALLS)
    flags = S.int('flags', 0, 255)
    S.assume(S.eq(S.band(flags, 1), 0))
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, flags)
    how = S.choose('history', ['fresh', 'was sampled before'])
    if how == 'was sampled before':
        with_history(S, sp)
    perhaps_finished(S, sp)
    t0, l0 = S.parts(sp.tags), S.parts(sp.logs)
    do_call(S, what, sp)
    S.check('no tag is recorded', S.grown(t0, sp.tags) == [])
    S.check('no log is recorded', S.grown(l0, sp.logs) == [])
    S.check('nothing is reported', S.eq(S.len(rep.log), 0))
    S.check('no metric changes', S.eq(S.len(met.log), 0))
    S.check('still not sampled', S.eq(S.band(sp.context.flags, 1), 0))


@unit('C12')
def tags_are_appended(S):
    flags = S.bor(S.int('flags', 0, 255), 1)
    n = S.choose('length', [('default', lambda: None), ('own', lambda: S.int('max_tag_value_length', 1, None, soft=5000))])
    tr, rep, smp, met = make_tracer(S, **({} if n is None else {'max_tag_value_length': n}))
    sp = some_span(S, tr, flags)
    t, l = with_history(S, sp)
    perhaps_finished(S, sp)
    st, sl = S.snap(t), S.snap(l)
    t0, l0 = S.parts(sp.tags), S.parts(sp.logs)
    k = S.str('key')
    S.assume(S.Not(S.eq(k, 'sampling.priority')))
    kind, ty, f, v = S.choose('value', [
        ('bool', lambda: ('bool', TagType.BOOL, 'vBool', S.bool('value'))), ('str', lambda: ('str', TagType.STRING, 'vStr', S.str('value'))),
        ('int', lambda: ('int', TagType.LONG, 'vLong', S.int('value', -2 ** 63, 2 ** 63 - 1))),
        ('float', lambda: ('float', TagType.DOUBLE, 'vDouble', S.float('value'))),
        ('other', lambda: ('other', TagType.STRING, 'vStr', S.value('value', kinds=('none', 'obj', 'list', 'tuple0', 'bytes'))))])
    r = S.run(sp.set_tag, k, v)
    S.check('returns the span', r is sp)
    new = S.grown(t0, sp.tags)
    S.check('exactly one tag is appended', new is not None and len(new) == 1)
    want = S.cut(v if kind == 'str' else S.str_of(v), n if n is not None else 1024) if kind in ('str', 'other') else v
    S.check('with this key and value', S.And(S.eq(new[0].key, k), S.eq(new[0].vType, ty), S.same(getattr(new[0], f), want)))
    S.check('earlier tags are not altered', S.unchanged_fields(t, st))
    S.check('logs are not altered', S.And(S.grown(l0, sp.logs) == [], S.unchanged_fields(l, sl)))
    S.check('nothing is reported', S.eq(S.len(rep.log), 0))


@unit('C12')
def logs_are_appended(S):
    flags = S.bor(S.int('flags', 0, 255), 1)
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, flags)
    t, l = with_history(S, sp)
    perhaps_finished(S, sp)
    st, sl = S.snap(t), S.snap(l)
    t0, l0 = S.parts(sp.tags), S.parts(sp.logs)
    ts = S.choose('timestamp', [('none', lambda: None), ('some', lambda: S.float('timestamp', 0, None))])
    k, v = S.str('another field'), S.float('another value')
    S.assume(S.And(S.Not(S.eq(k, 'event')), S.Not(S.eq(k, 'n'))))
    es = [('event', S.str('event')), (k, v), ('n', S.int('n', -2 ** 63, 2 ** 63 - 1))]
    shape = S.choose('shape', ['any', 'exact', 'empty'])
    exact = shape == 'exact'
    kv = S.newdict([]) if shape == 'empty' else S.newdict(es) if exact else S.dict('fields', key=lambda: S.str('field key'), val=lambda: S.float('field value'), entries=es)
    n = S.len(kv)
    ev, num = S.lookup(kv, 'event'), S.lookup(kv, 'n')
    r = S.run(sp.log_kv, kv, timestamp=ts) if ts is not None or S.bool('keyword') else S.run(sp.log_kv, kv)
    S.check('returns the span', r is sp)
    new = S.grown(l0, sp.logs)
    S.check('exactly one log is appended', new is not None and len(new) == 1)
    g = new[0]
    fs = S.attr(g, 'fields')
    if ts is not None:
        S.check('the given timestamp, in microseconds', S.same(g.timestamp, S.trunc(ts * 1000000)))
    else:
        S.check('the time of the call, in microseconds', S.Or(False, *[S.same(g.timestamp, S.trunc(x * 1000000)) for x in S.readings()]))
    S.check('one field per entry', S.eq(S.len(fs), n))
    S.check('earlier logs are not altered', S.unchanged_fields(l, sl))
    S.check('tags are not altered', S.And(S.grown(t0, sp.tags) == [], S.unchanged_fields(t, st)))
    S.check('nothing is reported', S.eq(S.len(rep.log), 0))
    if shape == 'empty':
        return
    S.check('string field', S.some(fs, lambda q: S.And(S.eq(q.key, 'event'), S.eq(q.vType, TagType.STRING), S.same(q.vStr, S.cut(ev, 1024)))))
    S.check('integer field', S.some(fs, lambda q: S.And(S.eq(q.key, 'n'), S.eq(q.vType, TagType.LONG), S.same(q.vLong, num))))
    S.check('any other field', S.some(fs, lambda q: S.And(S.eq(q.key, k), S.eq(q.vType, TagType.DOUBLE), S.same(q.vDouble, v))))
    if exact:
        S.check('fields in the order given', S.And(S.eq(fs[0].key, 'event'), S.eq(fs[1].key, k), S.eq(fs[2].key, 'n')))


@unit('C12', uses=('make_tag',))
def other_calls_on_a_sampled_span(S):
    """how many records each call of the API makes"""
    what = S.choose('call', [c for c in CALLS if c not in ('set_tag', 'log_kv', 'finish')])
    flags = S.bor(S.int('flags', 0, 255), 1)
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, flags)
    t, l = with_history(S, sp)
    t0, l0 = S.parts(sp.tags), S.parts(sp.logs)
    do_call(S, what, sp)
    nt, nl = S.grown(t0, sp.tags), S.grown(l0, sp.logs)
    S.check('earlier records are kept in place', nt is not None and nl is not None)
    S.check('number of tags', len(nt) == (1 if what in ('error', 'exit with error') else 0))
    S.check('number of logs', len(nl) == (0 if what in ('set_operation_name', 'sampling.priority 0') else 1))
    S.check('reported only when finished', S.eq(S.len(rep.log), 1 if what == 'exit with error' else 0))

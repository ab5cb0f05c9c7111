"""C20: ids in thrift records; C21: tags; C22: batches and process records."""
import types

from clients.values import Mute, Silent, Touchy, Worded
from contracts import _callees  # noqa: F401
from contracts._common import M64, M128
from contracts._tracer import Metrics, Reporter, Sampler, Scopes, Throttler, make_tracer
from jaeger_client import thrift
from jaeger_client.constants import JAEGER_CLIENT_VERSION
from jaeger_client.span import Span
from jaeger_client.span_context import SpanContext
from jaeger_client.thrift_gen.jaeger import ttypes
from jaeger_client.tracer import Tracer
from opentracing import Reference, ReferenceType
from contracts.c11_span import CALLS, do_call, with_history
from pyvc.harness import unit

TWO64 = 1 << 64
LOW, HIGH = -(1 << 63), (1 << 63) - 1


def check_i64(S, name, v, u):
    """v is the signed 64-bit integer that is u modulo 2^64"""
    S.check(name + ' is a signed 64-bit integer', S.And(S.isinstance(v, int), v >= LOW, v <= HIGH))
    S.check(name + ' reproduces the id modulo 2^64', S.eq(S.mod(v, TWO64), u))


def context(S, p=''):
    return S.new(SpanContext, S.int(p + 'trace_id', 0, M128), S.int(p + 'span_id', 0, M64),
                 S.choose(p + 'parent?', [('none', lambda: None), ('some', lambda: S.int(p + 'parent_id', 0, M64))]), S.int(p + 'flags', 0, 255))


def reference(S, p, c):
    kind = S.choose(p + 'type', ['child', 'follows', 'other'])
    ty = {'child': ReferenceType.CHILD_OF, 'follows': ReferenceType.FOLLOWS_FROM}.get(kind) if kind != 'other' else S.str(p + 'type text')
    if kind == 'other':
        S.assume(S.Not(S.eq(ty, ReferenceType.FOLLOWS_FROM)))
    if kind == 'follows' and not S.sym:
        ty = ''.join(list(ty))      # equal to the constant, not the same object
    return S.new(Reference, ty, c), (ttypes.SpanRefType.FOLLOWS_FROM if kind == 'follows' else ttypes.SpanRefType.CHILD_OF)


def span(S, p='', refs=None, ctx=None, tr=None):
    """a finished span in an arbitrary state"""
    tr = tr or make_tracer(S)[0]
    s = S.new(Span, ctx if ctx is not None else context(S, p), tr, S.str(p + 'operation'), start_time=S.float(p + 'start', 0, None, soft=4e9), references=refs)
    S.setfield(s, 'end_time', S.float(p + 'end', None, None, soft=4e9))
    S.setfield(s, 'finished', True)
    return s


def batch_of(S, spans, process=None):
    return S.run(thrift.make_jaeger_batch, spans=S.newlist(spans), process=process)


@unit('C20')
def span_ids(S):
    c = context(S)
    sp = span(S, ctx=c)
    t, i, par = c.trace_id, c.span_id, c.parent_id
    r = S.items(batch_of(S, [sp]).spans)[0]
    check_i64(S, 'low half of the trace id', r.traceIdLow, S.mod(t, TWO64))
    check_i64(S, 'high half of the trace id', r.traceIdHigh, S.div(t, TWO64))
    check_i64(S, 'span id', r.spanId, i)
    check_i64(S, 'parent id', r.parentSpanId, par if par is not None else 0)


@unit('C20')
def reference_ids(S):
    c = context(S, 'referenced ')
    ref, ty = reference(S, '', c)
    where = S.choose('position', ['first', 'last'])
    seg = S.seg('other references', lambda: S.new(Reference, S.choose('other type', [ReferenceType.CHILD_OF, ReferenceType.FOLLOWS_FROM]),
                                                  S.new(SpanContext, S.int('t', 0, M128), S.int('s', 0, M64), None, 0)))
    l = S.newlist([ref, seg] if where == 'first' else [seg, ref])
    n = S.len(l)
    out = S.run(thrift.make_references, l)
    S.check('one record per reference', S.eq(S.len(out), n))
    r = out[0] if where == 'first' else out[-1]
    check_i64(S, 'low half of the referenced trace id', r.traceIdLow, S.mod(c.trace_id, TWO64))
    check_i64(S, 'high half of the referenced trace id', r.traceIdHigh, S.div(c.trace_id, TWO64))
    check_i64(S, 'referenced span id', r.spanId, c.span_id)
    S.check('reference type', S.eq(r.refType, ty))


# ---- C21
def check_tag(S, t, key, v, n, m):
    S.check('a tag', S.isinstance(t, ttypes.Tag))
    S.check('the key is reported as a string', S.And(S.isinstance(t.key, str), S.eq(t.key, S.str_of(key))))
    kind, want = 'vStr', None
    if S.isinstance(v, bool):
        kind, want, ty = 'vBool', v, ttypes.TagType.BOOL
    elif S.isinstance(v, int) and S.case(S.And(v >= LOW, v <= HIGH)):
        kind, want, ty = 'vLong', v, ttypes.TagType.LONG
    elif S.isinstance(v, float):
        kind, want, ty = 'vDouble', v, ttypes.TagType.DOUBLE
    else:
        ty = ttypes.TagType.STRING
        if S.isinstance(v, types.TracebackType):
            want = S.cut(S.tb_text(v), m)
        elif S.isinstance(v, Silent):
            want = S.cut(v.message, n)
        elif S.isinstance(v, Worded):
            want = S.cut(v.text, n)
        else:
            want = S.cut(S.str_of(v), n)
    S.check('the type of the tag', S.eq(t.vType, ty))
    S.check('the value of the tag', S.same(S.attr(t, kind), want) if want == want else S.attr(t, kind) is want)
    S.check('no other value', S.And(*[S.attr(t, k) is None for k in ('vStr', 'vDouble', 'vBool', 'vLong', 'vBinary') if k != kind]))


def any_value(S):
    return S.choose('value', [('plain', lambda: S.plain(S.value('plain value'))), ('silent', lambda: S.new(Silent, S.str('message'))),
                              ('worded', lambda: S.new(Worded, S.str('text'))),
                              ('mute', lambda: S.new(Mute, S.str('message'))), ('touchy', lambda: S.new(Touchy, S.str('text'))), ('traceback', lambda: S.traceback()),
                              ('derived', lambda: S.sub(S.plain(S.value('value of a derived class', kinds=('int', 'float', 'str'))))),
                              ('nan', lambda: float('nan')), ('inf', lambda: float('inf')), ('class', lambda: int), ('complex', lambda: 1j)])


@unit('C21', runs=500)
def make_tag_contract(S):
    key = S.choose('key', [('text', lambda: S.str('key text')), ('other', lambda: S.plain(S.value('key', kinds=('none', 'bool', 'int', 'float', 'tuple', 'obj'))))])
    v, n, m = any_value(S), S.int('max length', 0), S.int('max traceback length', 0)
    r = S.call(thrift.make_tag, key=key, value=v, max_length=n, max_traceback_length=m)
    S.check('converting does not raise', r.ok)
    check_tag(S, r.value, key, v, n, m)


@unit('C21')
def key_whose_text_raises(S):
    msg = S.str('message')
    r = S.call(thrift.make_tag, key=S.new(Silent, msg), value=S.str('value'), max_length=S.int('max length', 0), max_traceback_length=1)
    S.check('converting does not raise', r.ok)
    S.check('the key is a string', S.eq(r.value.key, msg))


@unit('C21')
def span_tags_are_converted(S):
    """the tag of a span is the conversion of what was set, with the limits of the tracer"""
    n, m = S.int('tracer limit', 0), S.int('tracer traceback limit', 0)
    tr = make_tracer(S, max_tag_value_length=n, max_traceback_length=m)[0]
    sp = S.new(Span, S.new(SpanContext, 1, 2, None, 1), tr, 'op')
    k, v = S.str('key'), any_value(S)
    S.assume(S.Not(S.eq(k, 'sampling.priority')))
    S.run(sp.set_tag, k, v)
    check_tag(S, sp.tags[0], k, v, n, m)
    S.run(sp.log_kv, S.newdict([(k, v)]))
    check_tag(S, S.items(S.attr(sp.logs[0], 'fields'))[0], k, v, n, m)


# ---- C22
def micros(S, x):
    return S.trunc(x * 1000000)


def check_record(S, r, e):
    S.check('operation name', S.same(r.operationName, e['operation']))
    S.check('flags', S.same(r.flags, e['flags']))
    S.check('start time in microseconds', S.same(r.startTime, micros(S, e['start'])))
    S.check('duration in microseconds', S.same(r.duration, micros(S, e['end'] - e['start'])))
    S.check('all tags in order', S.same_list(r.tags, e['tags']))
    S.check('all logs in order', S.same_list(r.logs, e['logs']))


def expected(S, sp):
    return dict(operation=sp.operation_name, flags=sp.context.flags, start=sp.start_time, end=sp.end_time,
                tags=S.parts(sp.tags), logs=S.parts(sp.logs))


def batch_span(S, refs=None, tr=None):
    sp = span(S, refs=refs, tr=tr)
    with_history(S, sp)
    return sp


def others(S, tr, name):
    """any number of other spans"""
    return S.seg(name, lambda: span(S, 'other ', ctx=S.new(SpanContext, S.int('t', 0, M128), S.int('s', 0, M64), None, 1), tr=tr))


@unit('C22')
def records(S):
    tr = make_tracer(S)[0]
    sp = batch_span(S, tr=tr)
    e = expected(S, sp)
    before, after = others(S, tr, 'spans before'), others(S, tr, 'spans after')
    l = S.newlist([before, sp, after])
    n, k = S.len(l), S.len(S.newlist([before]))
    p = S.new(ttypes.Process, serviceName='service', tags=None)
    b = S.run(thrift.make_jaeger_batch, spans=l, process=p)
    S.check('a batch', S.isinstance(b, ttypes.Batch))
    S.check('with the process', b.process is p)
    S.check('one record for each span', S.eq(S.len(b.spans), n))
    check_record(S, b.spans[k], e)
    S.check('the spans are not changed', S.And(S.same_list(sp.tags, e['tags']), S.same_list(sp.logs, e['logs']), S.same(sp.operation_name, e['operation'])))
    S.check('the lock of the span is free again', S.unlocked(sp))


@unit('C22')
def records_in_order(S):
    """each record is that of the span in the same place (the span id stands for the record)"""
    tr = make_tracer(S)[0]
    c = S.new(SpanContext, 1, 2, None, 1)
    a, b = span(S, 'a ', ctx=c, tr=tr), span(S, 'b ', ctx=c, tr=tr)
    gap = S.choose('between', ['some', 'none'])
    l = S.newlist([others(S, tr, 'before'), a] + ([others(S, tr, 'between')] if gap == 'some' else []) + [b, others(S, tr, 'after')])
    rs = S.run(thrift.make_jaeger_batch, spans=l, process=None).spans
    S.check('order of the spans', S.in_order(rs, [lambda r: S.eq(r.operationName, a.operation_name), lambda r: S.eq(r.operationName, b.operation_name)]))


@unit('C22')
def recorded_references(S):
    c = context(S, 'referenced ')
    ref, ty = reference(S, '', c)
    how = S.choose('references', ['none', 'empty', 'some'])
    if how == 'none':
        refs = None
    elif how == 'empty':
        refs = S.newlist()
    else:
        refs = S.newlist([S.seg('earlier references', lambda: S.new(Reference, S.str('type'), S.new(SpanContext, S.int('t', 0, M128), S.int('s', 0, M64), None, 1))), ref])
    tr = make_tracer(S)[0]
    if not S.sym and S.bool('a reference to the parent'):
        own = S.new(SpanContext, c.trace_id, 2, c.span_id, 1)
    else:
        own = S.new(SpanContext, 1, 2, S.int('own parent_id', 1, M64), 1)
    sp = span(S, refs=refs, ctx=own, tr=tr)
    out = S.items(S.run(thrift.make_jaeger_batch, spans=S.newlist([sp]), process=None).spans)[0].references
    if how != 'some':
        S.check('no references', out is None or S.eq(S.len(out), 0))
    else:
        S.check('one per reference', S.eq(S.len(out), S.len(refs)))
        S.check('type of the reference', S.eq(out[-1].refType, ty))
        S.check('id of the referenced span', S.eq(S.mod(out[-1].spanId, TWO64), c.span_id))


@unit('C22', uses=('make_tag',))
def later_changes(S):
    """a batch is not altered by what happens to its spans afterwards"""
    sp = span(S, ctx=S.new(SpanContext, S.int('trace_id', 1, M128), S.int('span_id', 1, M64), None, S.bor(S.int('flags', 0, 255), 1)))
    t, l = with_history(S, sp)
    e = expected(S, sp)
    r = S.items(S.run(thrift.make_jaeger_batch, spans=S.newlist([sp]), process=None).spans)[0]
    i, st, sl, fs = r.spanId, S.snap(t), S.snap(l), S.parts(S.attr(l, 'fields'))
    do_call(S, S.choose('call', CALLS), sp)
    check_record(S, r, e)
    S.check('span id', S.same(r.spanId, i))
    S.check('content of a tag', S.unchanged_fields(t, st))
    S.check('content of a log', S.And(S.unchanged_fields(l, sl), S.same_list(S.attr(l, 'fields'), fs)))


@unit('C22', uses=('make_tag',))
def logs(S):
    """a log record: timestamp in microseconds, one field per key and value in order"""
    a, b, q = S.str('key a'), S.str('key b'), S.str('key c')
    S.assume(S.Not(S.eq(a, b)))
    S.assume(S.And(S.Not(S.eq(a, q)), S.Not(S.eq(b, q))))
    va, vb = S.value('value a', kinds=('bool', 'int', 'float', 'str', 'obj')), S.value('value b', kinds=('none', 'float', 'str'))
    kv = S.newdict([(a, va), (b, vb), (q, 'x')])
    tr = make_tracer(S)[0]
    sp = S.new(Span, S.new(SpanContext, 1, 2, None, 1), tr, 'op')
    ts = S.choose('timestamp', [('given', lambda: S.float('timestamp', 0, None, soft=4e9)), ('none', lambda: None)])
    n0 = len(S.readings())
    S.run(sp.log_kv, kv, timestamp=ts) if ts is not None else S.run(sp.log_kv, kv)
    S.check('one log', S.eq(S.len(sp.logs), 1))
    r = S.items(sp.logs)[0]
    if ts is not None:
        S.check('the given timestamp in microseconds', S.same(r.timestamp, micros(S, ts)))
    else:
        S.check('the current time in microseconds', S.Or(False, *[S.same(r.timestamp, micros(S, x)) for x in S.readings()[n0:]]))
    fs = S.items(S.attr(r, 'fields'))
    S.check('one field per key and value, in order', len(fs) == 3 and S.And(S.eq(fs[0].key, a), S.eq(fs[1].key, b), S.eq(fs[2].key, q)))


@unit('C22')
def log_values(S):
    """field for field the conversion of the value"""
    a, b = S.plain(S.value('value a', kinds=('bool', 'int', 'float', 'str'))), S.plain(S.value('value b', kinds=('none', 'float', 'str')))
    kv = S.newdict([('a', a), ('b', b)])
    n, m = S.int('max length', 0), S.int('max traceback length', 0)
    r = S.run(thrift.make_log, timestamp=S.float('timestamp', 0, None, soft=4e9), fields=kv, max_length=n, max_traceback_length=m)
    fs = S.items(S.attr(r, 'fields'))
    S.check('number of fields', len(fs) == 2)
    check_tag(S, fs[0], 'a', a, n, m)
    check_tag(S, fs[1], 'b', b, n, m)


@unit('C22', uses=('make_tag',))
def process(S):
    """any tags, one singled out"""
    name, k = S.str('service name'), S.str('key')
    kind = S.choose('tags', ['some', 'empty', 'none'])
    v = S.value('value', kinds=('none', 'bool', 'int', 'float', 'str', 'obj'))
    tags = None if kind == 'none' else S.newdict() if kind == 'empty' else \
        S.dict('tags', key=lambda: S.str('other key'), val=lambda: S.value('other value', kinds=('none', 'bool', 'int', 'float', 'str', 'obj')), entries=[(k, v)])
    p = S.run(thrift.make_process, name, tags, S.int('max length', 0))
    S.check('a process', S.isinstance(p, ttypes.Process))
    S.check('carries the service name', S.same(p.serviceName, name))
    S.check('one tag for each tag of the tracer', S.eq(S.len(p.tags), S.len(tags) if tags is not None else 0))
    if kind == 'some':
        S.check('every tag is carried', S.some(p.tags, lambda t: S.eq(t.key, k)))


@unit('C22')
def process_values(S):
    name, n = S.str('service name'), S.int('max length', 0)
    v = S.plain(S.value('value', kinds=('none', 'bool', 'int', 'float', 'str')))
    p = S.run(thrift.make_process, service_name=name, tags=S.newdict([('k', v)]), max_length=n)
    ts = S.items(p.tags)
    S.check('number of tags', len(ts) == 1)
    check_tag(S, ts[0], 'k', v, n, 0)


@unit('C22')
def tags_of_the_process_that_are_given(S):
    """address and host name given by the user are not replaced"""
    key = S.choose('key', ['ip', 'hostname'])
    v = S.value('value', kinds=('bool', 'int', 'float', 'str', 'obj'))
    rep = Reporter(S)
    S.new(Tracer, 'svc', rep, Sampler(S), metrics_factory=Metrics(S), scope_manager=Scopes(S), tags=S.newdict([(key, v), ('k', 1)]))
    S.check('the tags given to the tracer', S.And(S.same(S.lookup(rep.process[1], key), v), S.eq(S.lookup(rep.process[1], 'k'), 1)))
    S.check('version, host name and address', S.And(S.eq(S.lookup(rep.process[1], 'jaeger.version'), JAEGER_CLIENT_VERSION),
                                                    S.has(rep.process[1], 'ip'), S.has(rep.process[1], 'hostname')))


@unit('C22')
def tracer_describes_its_process(S):
    name, k, v, n = S.str('service name'), S.str('key'), S.str('value'), S.int('max length', 0)
    given = S.choose('tags', ['none', 'some'])
    ok = lambda q: S.And(*[S.Not(S.eq(q, b)) for b in ('ip', 'hostname', 'jaeger.version', 'client-uuid')])   # noqa: E731
    S.assume(ok(k))
    tags = None if given == 'none' else S.dict('tags', key=lambda: S.str('other key'), val=lambda: S.str('other value'), entries=[(k, v)], ok=ok)
    th = S.choose('throttler', [('none', lambda: None), ('some', lambda: Throttler(S, True))])
    rep = Reporter(S)
    tr = S.new(Tracer, name, rep, Sampler(S), metrics_factory=Metrics(S), scope_manager=Scopes(S), tags=tags, max_tag_value_length=n, throttler=th)
    S.check('the service name', S.same(rep.process[0], name))
    S.check('the tag length', S.same(rep.process[2], n))
    S.check('version, host name and address', S.And(S.eq(S.lookup(rep.process[1], 'jaeger.version'), JAEGER_CLIENT_VERSION),
                                                    S.has(rep.process[1], 'ip'), S.has(rep.process[1], 'hostname')))
    if given == 'some':
        S.check('the tags given to the tracer', S.same(S.lookup(rep.process[1], k), v))
    if th is not None:
        S.check('the client id', S.same(S.lookup(rep.process[1], 'client-uuid'), th.client_id))

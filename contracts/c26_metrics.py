"""C26: tracer metrics count every span and trace exactly once"""
from opentracing import Reference, ReferenceType

from contracts import _callees  # noqa: F401
from contracts._common import M64, M128
from contracts._tracer import Sampler, Scopes, Throttler, make_tracer, user_tags
from jaeger_client.metrics import LegacyMetricsFactory, Metrics
from jaeger_client.span_context import SpanContext
from pyvc.core import ModelObj
from pyvc.harness import unit

WAYS = ['root', 'child', 'debug', 'container', 'reference']


def parent(S, how):
    f = S.int('flags', 0, 255)
    par = S.choose('parent?', [('none', lambda: None), ('zero', lambda: 0), ('some', lambda: S.int('parent_id', 1, M64))])
    if how in ('child', 'reference'):
        return S.new(SpanContext, S.int('trace_id', 1, M128), S.int('span_id', 1, M64), par, f)
    if how == 'debug':
        return S.new(SpanContext, None, None, None, None, None, S.str('debug id'))
    if how == 'container':
        return S.new(SpanContext, None, None, None, None, S.newdict([('key', S.str('value'))]))
    return None


@unit('C26', shards=5, uses=('make_tag',))
def started(S):
    """each span once, each trace once, and nothing else, whatever it is started from"""
    how = S.choose('how', WAYS)
    th = S.choose('throttler', ['none', 'allows', 'denies']) if how == 'debug' else 'none'
    smp = Sampler(S, decision=S.bool('decision') if how == 'root' else True)
    tr, rep, _, met = make_tracer(S, sampler=smp, one_span_per_rpc=S.bool('one_span_per_rpc'), scope_manager=Scopes(S),
                                  throttler=None if th == 'none' else Throttler(S, th == 'allows'))
    S.check('nothing is counted yet', S.eq(S.len(met.log), 0))
    p = parent(S, how)
    kw = {'references': S.newlist([S.new(Reference, ReferenceType.FOLLOWS_FROM, p)])} if how == 'reference' else {'child_of': p}
    kind = S.choose('kind', ['server', 'client', 'absent', 'no tags'])
    pr = S.choose('priority', [('absent', lambda: None), ('on', lambda: 1), ('off', lambda: 0)]) if kind in ('server', 'absent') else None
    if kind != 'no tags':
        kw['tags'] = user_tags(S, kind=None if kind == 'absent' else kind, entries=[] if pr is None else [('sampling.priority', pr)])
    sp = S.run(tr.start_span, 'op', **kw)
    sampled = 'y' if S.case(S.eq(S.band(sp.context.flags, 1), 1)) else 'n'
    root = S.case(S.Or(sp.context.parent_id is None, S.same(sp.context.parent_id, 0)))
    want = ['jaeger:started_spans|sampled=' + sampled]
    if root:
        want.append('jaeger:traces|state=%s,sampled=%s' % ('joined' if kind == 'server' else 'started', sampled))
    S.check('one span, and one trace exactly for a span without a parent id', S.eq(S.len(met.log), len(want)))
    for w in want:
        S.check('counted as what it is', S.some(met.log, lambda e: S.And(S.eq(e[0], w), S.eq(e[1], 1))))


def same_counter(S, e, name, tags):
    if not S.case(S.eq(e[0], name)):
        return False
    if tags is None or e[1] is None:
        return tags is None and (e[1] is None or S.eq(S.len(e[1]), 0))
    return S.And(S.eq(S.len(e[1]), len(tags)), *[S.eq(S.lookup(e[1], k), v) for k, v in tags.items()])


class Created(ModelObj):
    def __init__(self, S):
        self.S = S
        self.names = S.newlist()

    def create_counter(self, name, tags=None):
        self.names.append((name, tags))
        return lambda value: None


@unit('C26')
def names(S):
    """the counters of a tracer: fixed names and tags"""
    from jaeger_client.tracer import TracerMetrics
    f = Created(S)
    S.new(TracerMetrics, f)
    want = [('jaeger:traces', {'state': s, 'sampled': y}) for s in ('started', 'joined') for y in 'yn']
    want += [('jaeger:started_spans', {'sampled': y}) for y in 'yn'] + [('jaeger:finished_spans', None)]
    S.check('as many counters', S.eq(S.len(f.names), len(want)))
    for n, t in want:
        S.check('each of them', S.some(f.names, lambda e: same_counter(S, e, n, t)))


class Sink(ModelObj):
    def __init__(self, S):
        self.log = S.newlist()

    def of(self, what):
        return lambda key, value: self.log.append((what, key, value))


def permutations(xs):
    return [xs] if len(xs) < 2 else [[x] + r for i, x in enumerate(xs) for r in permutations(xs[:i] + xs[i + 1:])]


@unit('C26', bounded='at most 3 tags', runs=300)
def equal_tags_equal_keys(S):
    """one key whatever the order of the tags; the tags in sorted order after the name"""
    sink = Sink(S)
    f = S.new(LegacyMetricsFactory, S.new(Metrics, sink.of('count'), sink.of('gauge'), sink.of('timing')))
    n = S.choose('tags', [0, 1, 2, 3])
    ks = [S.str('key %d' % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.Not(S.eq(ks[i], ks[j])))
    vs = [S.choose('value %d' % i, [('str', lambda: S.str('v')), ('int', lambda: S.int('v'))]) for i in range(n)]
    es = list(zip(ks, vs))
    orders = permutations(es)
    other = S.choose('order', list(range(len(orders))))
    name = S.str('name')
    what = S.choose('metric', ['counter', 'timer', 'gauge'])
    make = {'counter': f.create_counter, 'timer': f.create_timer, 'gauge': f.create_gauge}[what]
    tags = [S.newdict(es), S.newdict(orders[other])] if n else [S.choose('no tags', [('none', lambda: None), ('empty', lambda: S.newdict())]), None]
    amount = S.int('amount', 0, None)
    for t in tags:
        m = S.run(make, name, t)
        S.run(m, amount)
    (a, k1, v1), (b, k2, v2) = S.items(sink.log)
    S.check('the kind of metric', a == b == {'counter': 'count', 'timer': 'timing', 'gauge': 'gauge'}[what])
    S.check('equal tags, equal keys', S.eq(k1, k2))
    S.check('the amount', S.And(S.eq(v1, v2), S.approx(v1 * 1000, amount) if what == 'timer' else S.eq(v1, amount)))
    for o in orders:
        if S.case(S.And(True, *[S.less(a[0], b[0]) for a, b in zip(o, o[1:])])):
            S.check('the name, then the tags in sorted order', S.eq(k1, S.cat(name, *[x for k, v in o for x in ('.', k, '_', S.str_of(v))])))


@unit('C26', sym=False, bounded='native runs only: up to 200 tags', runs=40)
def keys_of_many_tags(S):
    n = S.choose('tags', [4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 64, 100, 200])
    es = [('k%d' % i, S.choose('value', ['', 'v', 'V' * 300, 7, True, None, 2.5])) for i in range(n)]
    ks = []
    f = S.new(LegacyMetricsFactory, S.new(Metrics, count=lambda k, v: ks.append(k)))
    turn = S.choose('turn', list(range(4)))
    for tags in (es, es[::-1], es[turn:] + es[:turn]):
        S.run(S.run(f.create_counter, 'name', S.newdict(tags)), 1)
    S.check('equal tags, equal keys', ks[0] == ks[1] == ks[2])
    S.check('the tags in sorted order', ks[0] == 'name' + ''.join('.%s_%s' % e for e in sorted(es, key=lambda e: e[0])))


@unit('C26', uses=())
def legacy_without_functions(S):
    """metrics without functions to call ignore everything"""
    bad = S.choose('functions', [('none', lambda: {}), ('not callable', lambda: {'count': 1, 'gauge': 'x', 'timing': ()})])
    m = S.new(Metrics, **bad)
    f = S.new(LegacyMetricsFactory, m)
    for make in (f.create_counter, f.create_gauge, f.create_timer):
        out = S.call(S.run(make, S.str('name'), S.newdict([('k', S.str('v'))])), S.int('amount'))
        S.check('ignored', out.ok)

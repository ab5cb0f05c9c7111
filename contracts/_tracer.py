"""a real Tracer between recording stand-ins for its environment (reporter, sampler, throttler, metrics, scope manager)"""
from contracts._common import M64, M128
from jaeger_client.span_context import SpanContext
from jaeger_client.tracer import Tracer
from pyvc.core import ModelObj

COUNTERS = ['traces started y', 'traces started n', 'traces joined y', 'traces joined n', 'started_spans y', 'started_spans n',
            'finished_spans']


class Counter(ModelObj):
    def __init__(self, log, label):
        self.log, self.label = log, label

    def __call__(self, value):
        self.log.append((self.label, value))


class Metrics(ModelObj):
    """metrics factory whose counters write (label, amount) to a log"""
    def __init__(self, S):
        self.log = S.newlist()

    def _label(self, name, tags):
        t = ''
        if tags is not None:
            t = '|' + ','.join('%s=%s' % (k, tags.get(k)) for k in ('state', 'sampled', 'result') if tags.get(k) is not None)
        return name + t

    def create_counter(self, name, tags=None):
        return Counter(self.log, self._label(name, tags))

    def create_gauge(self, name, tags=None):
        return Counter(self.log, 'gauge ' + self._label(name, tags))

    def create_timer(self, name, tags=None):
        return Counter(self.log, 'timer ' + self._label(name, tags))


class Reporter(ModelObj):
    def __init__(self, S):
        self.log = S.newlist()
        self.process = None
        self.seen = S.newlist()

    def set_process(self, service_name, tags, max_length):
        self.process = (service_name, tags, max_length)

    def report_span(self, span):
        self.log.append(span)
        self.seen.append((span.finished, span.end_time))

    def close(self):
        return None


class Sampler(ModelObj):
    def __init__(self, S, decision=False, tags=None):
        self.calls = S.newlist()
        self.decision = decision
        self.tags = tags if tags is not None else S.newdict()

    def is_sampled(self, trace_id, operation=''):
        self.calls.append((trace_id, operation))
        return self.decision, self.tags

    def close(self):
        return None


class Throttler(ModelObj):
    def __init__(self, S, answer):
        self.asked = S.newlist()
        self.client_id = None
        self.answer = answer

    def is_allowed(self, *args):
        self.asked.append(args)
        return self.answer

    def set_client_id(self, client_id):
        self.client_id = client_id


class Scope(ModelObj):
    def __init__(self, span):
        self.span = span


class Scopes(ModelObj):
    """scope manager with the given active scope (or None)"""
    def __init__(self, S, active=None):
        self.active = active
        self.activated = S.newlist()

    def activate(self, span, finish_on_close):
        self.activated.append((span, finish_on_close))
        return Scope(span)


def make_tracer(S, sampler=None, **kw):
    """(tracer, reporter, sampler, metrics)"""
    rep, met = Reporter(S), Metrics(S)
    smp = sampler if sampler is not None else Sampler(S)
    kw.setdefault('scope_manager', Scopes(S))
    tr = S.new(Tracer, 'service', rep, smp, metrics_factory=met, **kw)
    return tr, rep, smp, met


def baggage(S, name='baggage'):
    """no baggage, or arbitrary baggage with one item singled out: (dict or None, key, value)"""
    k, v = S.str(name + ' key'), S.str(name + ' value')
    kind = S.choose(name + '?', ['none', 'some'])
    if kind == 'none':
        return None, k, None
    return S.dict(name, key=lambda: S.str(name + ' k'), val=lambda: S.str(name + ' v'), entries=[(k, v)]), k, v


def context(S, p='', bag=None, debug_id=None, parent_lo=1):
    t, s, f = S.int(p + 'trace_id', 1, M128), S.int(p + 'span_id', 1, M64), S.int(p + 'flags', 0, 255)
    par = S.choose(p + 'parent?', [('none', lambda: None), ('some', lambda: S.int(p + 'parent_id', parent_lo, M64))])
    return S.new(SpanContext, t, s, par, f, bag, debug_id)


def tag_value(S, name='tag value', kinds=('none', 'bool', 'int', 'float', 'str', 'obj')):
    """any value a user may give to a tag"""
    return S.value(name, kinds=kinds)


def user_tags(S, name='tags', kind=None, entries=(), no=()):
    """arbitrary tags without sampling.priority; kind is the value of span.kind (None: absent)"""
    es = list(entries)
    if kind is not None:
        es.append(('span.kind', kind))
    bad = ['sampling.priority', 'span.kind'] + list(no)
    return S.dict(name, key=lambda: S.str('tag key'), val=lambda: tag_value(S), entries=es,
                  ok=lambda q: S.And(*[S.Not(S.eq(q, b)) for b in bad]))


def perhaps_finished(S, sp):
    """the span, which may have been finished already"""
    S.setfield(sp, 'finished', S.bool('finished'))
    S.setfield(sp, 'end_time', S.choose('end time', [('none', lambda: None), ('some', lambda: S.float('end time', 0, None))]))
    return sp


def drawn(S, v, bits):
    """v is one of the random numbers of that many bits drawn so far"""
    return S.Or(False, *[S.eq(v, d) for d, n in S.draws() if n == bits])


def tag_of(span, key):
    """the last tag recorded under a literal key"""
    r = None
    for t in span.tags:
        if t.key == key:
            r = t
    return r

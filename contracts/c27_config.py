"""C27: configuration values take effect with the documented precedence"""
import opentracing
from opentracing.propagation import Format

from contracts import _callees  # noqa: F401
from contracts._tracer import Metrics, Reporter, Sampler, Scopes
from contracts.c23_reporter import Loop
from jaeger_client import config as config_module
from jaeger_client.codecs import B3Codec
from jaeger_client.config import Config
from jaeger_client.reporter import CompositeReporter, LoggingReporter
from jaeger_client.reporter import Reporter as RemoteReporter
from jaeger_client.sampler import ConstSampler, ProbabilisticSampler, RateLimitingSampler, RemoteControlledSampler
from jaeger_client.throttler import RemoteThrottler
from pyvc.core import ModelObj
from pyvc.harness import unit

KEYS = ['logging', 'metrics', 'local_agent', 'sampler', 'max_operations', 'tags', 'enabled', 'reporter_batch_size', 'reporter_queue_size',
        'propagation', 'max_tag_value_length', 'max_traceback_length', 'reporter_flush_interval', 'sampling_refresh_interval',
        'trace_id_header', 'generate_128bit_trace_id', 'baggage_header_prefix', 'debug_id_header', 'service_name', 'throttler']
BOOLEAN = {'enabled': True, 'logging': False, 'generate_128bit_trace_id': False}
NUMBER = {'reporter_batch_size': 10, 'reporter_queue_size': 100}
AS_IS = {'trace_id_header': 'uber-trace-id', 'baggage_header_prefix': 'uberctx-', 'debug_id_header': 'jaeger-debug-id',
         'max_tag_value_length': 1024, 'max_traceback_length': 4096, 'sampling_refresh_interval': 60, 'reporter_flush_interval': 1,
         'max_operations': None}


def scalar(S, name):
    return S.value(name, kinds=('none', 'bool', 'int', 'float', 'str'))


def given(S, name, *alts):
    """a setting: left out, or given"""
    return S.choose(name + '?', [('absent', lambda: None)] + [(k, lambda k=k, f=f: (k, f())) for k, f in alts])


def switch(S, v, default):
    s = S.lower(S.str_of(v))
    if S.case(S.Or(*[S.eq(s, w) for w in ('false', '0', 'none')])):
        return False
    if S.case(S.Or(*[S.eq(s, w) for w in ('true', '1')])):
        return True
    return default


def others(S, *keys):
    """a configuration with these settings, and anything else under other keys"""
    names = [k for k, v in keys]
    return S.dict('config', key=lambda: S.str('other key'), val=lambda: scalar(S, 'other value'), entries=[e for e in keys if e[1] is not None or e[0] == ''],
                  ok=lambda q: S.And(*[S.Not(S.eq(q, b)) for b in names + ['service_name', 'logging', 'metrics']]))


def config(S, entries, avoid=(), **kw):
    """entries: [(key, value)]; arbitrary other content, except under the keys to avoid"""
    names = [k for k, v in entries] + list(avoid) + ['service_name', 'logging', 'metrics']
    d = S.dict('config', key=lambda: S.str('other key'), val=lambda: scalar(S, 'other value'), entries=list(entries),
               ok=lambda q: S.And(*[S.Not(S.eq(q, b)) for b in names]))
    kw.setdefault('service_name', 'service')
    return S.new(Config, d, **kw)


@unit('C27', shards=13)
def settings(S):
    """each key decides its own setting, whatever else the configuration has; without it there is the default"""
    k = S.choose('setting', sorted(BOOLEAN) + sorted(NUMBER) + sorted(AS_IS))
    present = S.choose('present', [True, False])
    S.environ([])
    if k in BOOLEAN:
        v, default = scalar(S, 'value'), BOOLEAN[k]
    elif k in NUMBER:
        v, default = S.int('value'), NUMBER[k]
    else:
        v, default = S.any('value', [('int', lambda: S.int('value')), ('str', lambda: S.str('value')), ('float', lambda: S.float('value'))]), AS_IS[k]
    c = config(S, [(k, v)] if present else [], avoid=[k])
    got = S.attr(c, k)
    if not present:
        S.check('the default', S.same(got, default))
    elif k in BOOLEAN:
        S.check('the switch', S.same(got, switch(S, v, default)))
    else:
        S.check('the value', S.same(got, v))


@unit('C27')
def environment(S):
    """agent host, agent port and 128-bit ids: the configuration, else the environment, else the default"""
    what = S.choose('what', ['reporting_host', 'reporting_port', '128 bits'])
    name = {'reporting_host': 'JAEGER_AGENT_HOST', 'reporting_port': 'JAEGER_AGENT_PORT', '128 bits': 'JAEGER_TRACEID_128BIT'}[what]
    in_env = S.choose('environment', ['absent', 'valid', 'invalid'])
    port = S.int('port in the environment', 0, 65535)
    ev = {'reporting_host': 'agent.host', 'reporting_port': S.str_of(port), '128 bits': 'true'}[what] if in_env == 'valid' else 'none of this'
    S.environ([] if in_env == 'absent' else [(name, ev)])
    own = S.choose('configured', ['group absent', 'absent', 'valid', 'invalid'])
    if what == '128 bits':
        v = S.bool('value')
        c = config(S, [('generate_128bit_trace_id', v)] if own == 'valid' else [], avoid=['generate_128bit_trace_id'])
        S.check('128 bits', S.same(c.generate_128bit_trace_id, v if own == 'valid' else in_env == 'valid'))
        return
    v = S.str('host') if what == 'reporting_host' else S.int('port', 0, 65535)
    entries = [(what, v)] if own == 'valid' else [(what, 'no number')] if own == 'invalid' and what == 'reporting_port' else []
    g = S.dict('group', key=lambda: S.str('other key'), val=lambda: scalar(S, 'value'), entries=entries, ok=lambda q: S.Not(S.eq(q, what)))
    c = config(S, [] if own == 'group absent' else [('local_agent', g)], avoid=['local_agent'])
    if what == 'reporting_host':
        want = v if own == 'valid' else 'localhost' if in_env == 'absent' else ev
        S.check('agent host', S.same(c.local_agent_reporting_host, want))
    else:
        S.check('agent port', S.same(c.local_agent_reporting_port, v if own == 'valid' else port if in_env == 'valid' else 6831))


@unit('C27')
def groups(S):
    """the other settings of the local agent, and those of the throttler"""
    S.environ([])
    what = S.choose('what', ['enabled', 'sampling_port', 'port', 'refresh_interval'])
    group = 'local_agent' if what in ('enabled', 'sampling_port') else 'throttler'
    own = S.choose('configured', ['group absent', 'absent', 'valid', 'invalid'])
    v = scalar(S, 'value') if what == 'enabled' else S.int('value', 0, None)
    entries = [(what, v)] if own == 'valid' else [(what, 'nothing valid')] if own == 'invalid' else []
    g = S.dict('group', key=lambda: S.str('other key'), val=lambda: scalar(S, 'value'), entries=entries, ok=lambda q: S.Not(S.eq(q, what)))
    c = config(S, [] if own == 'group absent' else [(group, g)], avoid=[group])
    if what == 'enabled':
        S.check('enabled unless switched off', S.same(c.local_agent_enabled, switch(S, v, True) if own == 'valid' else True))
    elif what == 'sampling_port':
        S.check('sampling port', S.same(c.local_agent_sampling_port, v if own == 'valid' else 5778))
    elif what == 'port':
        S.check('throttler port', S.same(c.throttler_port, v if own == 'valid' else None if own == 'group absent' else 5778))
    else:
        S.check('throttler refresh interval', S.same(c.throttler_refresh_interval, v if own == 'valid' else None if own == 'group absent' else 5))


@unit('C27', runs=300)
def sampler(S):
    S.environ([])
    kind = S.choose('type', ['const', 'probabilistic', 'ratelimiting', 'rate_limiting', 'own', 'unknown'])
    if kind == 'own':
        own = S.new(ConstSampler, S.bool('decision'))
        c = config(S, [('sampler', own)])
        S.check('a sampler is used as it is', S.is_(c.sampler, own))
        return
    t = S.str('unknown type') if kind == 'unknown' else kind
    if kind == 'unknown':
        S.assume(S.And(S.Not(S.eq(t, '')), *[S.Not(S.eq(t, x)) for x in ('const', 'probabilistic', 'ratelimiting', 'rate_limiting')]))
    p = scalar(S, 'param') if kind in ('const', 'unknown') else S.choose('param', [('float', lambda: S.float('param', 0, 1)), ('int', lambda: S.int('param', 0, 1))]) \
        if kind == 'probabilistic' else S.choose('param', [('float', lambda: S.float('param', 0, None)), ('int', lambda: S.int('param', 0, None, soft=100))])
    c = config(S, [('sampler', S.newdict([('type', t), ('param', p)]))])
    out = S.call(lambda: c.sampler)
    if kind == 'unknown':
        S.check('an unknown type is rejected', out.raised(ValueError))
        return
    s = S.attr(c, 'sampler')
    S.check('of the class of its type', type_of(S, s) is {'const': ConstSampler, 'probabilistic': ProbabilisticSampler}.get(kind, RateLimitingSampler))
    tags = S.run(s.is_sampled, 1)[1]
    S.check('with its parameter', S.eq(S.lookup(tags, 'sampler.param'), switch(S, p, False) if kind == 'const' else p))


def type_of(S, o):
    for k in (ConstSampler, ProbabilisticSampler, RateLimitingSampler, RemoteControlledSampler):
        if S.isinstance(o, k):
            return k


@unit('C27', runs=300)
def validation(S):
    """ValueError exactly for an undocumented key, whatever else there is"""
    S.environ([])
    good = S.choose('key', KEYS + ['other'])
    k = S.str('other') if good == 'other' else good
    v = S.str('value')
    S.assume(S.Not(S.eq(v, '')))
    known = S.case(S.Or(*[S.eq(k, x) for x in KEYS]))
    rest = S.choose('rest', ['unknown keys', 'known keys'])
    d = S.dict('config', key=lambda: S.choose('known key', KEYS) if rest == 'known keys' else S.str('unknown key'), val=lambda: v, entries=[(k, v)],
               ok=lambda q: S.And(S.Not(S.eq(q, k)), S.Or(*[S.eq(q, x) for x in KEYS]) if rest == 'known keys' else S.And(*[S.Not(S.eq(q, x)) for x in KEYS])))
    n = S.len(d)
    if rest == 'unknown keys':
        known = S.case(S.And(known, S.eq(n, 1)))
    out = S.call(Config, d, service_name='service', validate=True)
    S.check('rejected exactly with an undocumented key', out.ok if known else out.raised(ValueError))
    out = S.call(Config, d, service_name='service')
    S.check('only when asked to validate', out.ok)


@unit('C27')
def service_name(S):
    S.environ([])
    a, b = given(S, 'in the configuration', ('str', lambda: S.str('configured name'))), given(S, 'parameter', ('str', lambda: S.str('name')))
    d = S.newdict([('service_name', a[1])] if a else [])
    out = S.call(Config, d, service_name=b[1]) if b else S.call(Config, d)
    want = a[1] if a else b[1] if b else ''
    if S.case(S.eq(want, '')):
        S.check('a missing service name is rejected', out.raised(ValueError))
    else:
        S.check('the configured name, else the parameter', out.ok and S.same(out.value.service_name, want))


@unit('C27')
def metrics(S):
    """a metrics factory counts unless metrics are switched off"""
    S.environ([])
    f = Metrics(S)
    v = given(S, 'metrics', ('scalar', lambda: scalar(S, 'value')))
    c = S.new(Config, S.newdict([('metrics', v[1])] if v else []), service_name='service', metrics_factory=f)
    on = switch(S, v[1], True) if v else True
    tr = S.run(c.create_tracer, Reporter(S), Sampler(S))
    S.run(tr.start_span, 'op')
    S.check('counted or not', S.Iff(S.eq(S.len(f.log), 0), not on))


class Count(ModelObj):
    def __init__(self):
        self.n = 0

    def count(self, key, value):
        self.n = self.n + 1


@unit('C27')
def legacy_metrics(S):
    """the older metrics are used through the adapter when there is no factory"""
    from jaeger_client.metrics import Metrics as Legacy
    S.environ([])
    n = Count()
    c = S.new(Config, S.newdict(), service_name='service', metrics=S.new(Legacy, count=n.count))
    tr = S.run(c.create_tracer, Reporter(S), Sampler(S))
    S.run(tr.start_span, 'op')
    S.check('a span and a trace are counted', S.eq(n.n, 2))


@unit('C27', runs=300)
def tracer_settings(S):
    """the values reach the tracer"""
    S.environ([])
    prop = S.choose('propagation', ['absent', 'b3', 'unknown'])
    wide = S.choose('128 bits', ['absent', True, False])
    tv = S.str('tag value')
    entries = [] if prop == 'absent' else [('propagation', 'b3' if prop == 'b3' else 'something')]
    if wide != 'absent':
        entries.append(('generate_128bit_trace_id', wide))
    some = S.bool('other settings')
    tid, bag, dbg = 'own-trace-id', 'own-baggage-', 'own-debug-id'
    n, m = S.int('max tag value length', 1, None, soft=100), S.int('max traceback length', 1, None, soft=100)
    if some:
        entries += [('trace_id_header', tid), ('baggage_header_prefix', bag), ('debug_id_header', dbg), ('max_tag_value_length', n),
                    ('max_traceback_length', m), ('tags', S.newdict([('tag', tv)]))]
    scopes = Scopes(S)
    service = S.str('service name') if some else 'service'
    S.assume(S.Not(S.eq(service, '')))
    c = S.new(Config, S.newdict(entries), service_name=service, scope_manager=scopes)
    rep, smp = Reporter(S), Sampler(S)
    tr = S.run(c.create_tracer, rep, smp)
    S.check('service, reporter, sampler, scope manager', S.And(S.same(tr.service_name, service), S.is_(tr.reporter, rep), S.is_(tr.sampler, smp),
                                                               S.is_(tr.scope_manager, scopes)))
    S.check('lengths', S.And(S.same(tr.max_tag_value_length, n if some else 1024), S.same(tr.max_traceback_length, m if some else 4096)))
    name, tags, length = rep.process
    S.check('the process has them', S.And(S.same(name, service), S.same(length, n if some else 1024), S.lookup(tags, 'tag') is S.MISSING if not some else
                                          S.same(S.lookup(tags, 'tag'), tv)))
    sp = S.run(tr.start_span, 'op')
    width = 128 if wide is True else 64
    S.check('trace ids of that many bits', S.Or(*[S.And(S.same(sp.trace_id, d), w == width) for d, w in S.draws()]))
    S.run(sp.set_baggage_item, 'key', 'value')
    carrier = S.newdict()
    S.run(tr.inject, sp, Format.TEXT_MAP, carrier)
    S.check('header names', S.And(S.lookup(carrier, tid if some else 'uber-trace-id') is not S.MISSING,
                                  S.same(S.lookup(carrier, (bag if some else 'uberctx-') + 'key'), 'value'), S.eq(S.len(carrier), 2)))
    ctx = S.run(tr.extract, Format.TEXT_MAP, S.newdict([(dbg if some else 'jaeger-debug-id', 'wanted')]))
    S.check('debug id header', ctx is not None and S.same(ctx.debug_id, 'wanted'))
    carrier = S.newdict()
    S.run(tr.inject, sp, Format.HTTP_HEADERS, carrier)
    if prop == 'b3':
        t = S.lookup(carrier, 'X-B3-TraceId')
        S.check('B3 headers of that many digits', t is not S.MISSING and S.eq(S.len(t), width // 4))
    else:
        S.check('Jaeger headers', S.lookup(carrier, tid if some else 'uber-trace-id') is not S.MISSING)


class Sender(ModelObj):
    """stands in for the channel to the agent"""
    def __init__(self, S, loop):
        self.args = None
        self.io_loop = loop
        self.n = 0

    def create(self, host, sampling_port, reporting_port, io_loop=None, throttling_port=None):
        self.n = self.n + 1
        self.args = (host, sampling_port, reporting_port, io_loop, throttling_port)
        return self


class OwnLoop(Loop):
    def call_later(self, delay, callback):
        self.soon.append((callback, ()))


@unit('C27')
def whole_tracer(S):
    """channel, sampler, reporter and throttler are built from the settings"""
    S.environ([])
    loop = OwnLoop(S)
    sender = Sender(S, loop)
    S.replace(config_module, 'LocalAgentSender', sender.create)
    host, port, sampling = S.str('host'), S.int('port', 1, 65535), S.int('sampling port', 1, 65535)
    tport, every = S.int('throttler port', 1, 65535), S.int('refresh interval', 1, None, soft=100)
    size, queue, flush = S.int('batch size', 1, None, soft=100), S.int('queue size', 1, None, soft=1000), S.float('flush interval', 0, None, lo_open=True, soft=100)
    S.assume(size <= queue)
    refresh, most = S.int('sampling refresh interval', 1, None, soft=100), S.int('max operations', 1, None, soft=100)
    some = S.choose('settings', [True, False])
    kind = S.choose('sampler', ['remote', 'const'])
    throttled = S.choose('throttler', ['absent', 'default', 'own'])
    log = S.choose('logging', [False, True])
    entries = [('logging', log)]
    if some:
        entries += [('local_agent', S.newdict([('reporting_host', host), ('reporting_port', port), ('sampling_port', sampling)])),
                    ('reporter_batch_size', size), ('reporter_queue_size', queue), ('reporter_flush_interval', flush),
                    ('sampling_refresh_interval', refresh), ('max_operations', most)]
    if kind == 'const':
        entries.append(('sampler', S.newdict([('type', 'const'), ('param', 1)])))
    if throttled != 'absent':
        entries.append(('throttler', S.newdict([('port', tport), ('refresh_interval', every)] if throttled == 'own' else [])))
    c = S.new(Config, S.newdict(entries), service_name='service')
    tr = S.run(c.new_tracer, loop)
    S.check('one channel', S.eq(sender.n, 1))
    h, sp, rp, lp, tp = sender.args
    S.check('to the host and port of the agent', S.And(S.same(h, host if some else 'localhost'), S.same(rp, port if some else 6831)))
    S.check('with the sampling port and the loop', S.And(S.same(sp, sampling if some else 5778), S.is_(lp, loop)))
    S.check('with the throttler port', S.same(tp, None if throttled == 'absent' else tport if throttled == 'own' else 5778))
    if kind == 'const':
        S.check('the configured sampler', S.isinstance(tr.sampler, ConstSampler) and S.eq(S.run(tr.sampler.is_sampled, 7)[0], True))
    else:
        r = tr.sampler
        S.check('a remote sampler', S.isinstance(r, RemoteControlledSampler))
        S.check('with its settings', S.And(S.same(r.service_name, 'service'), S.same(r.sampling_refresh_interval, refresh if some else 60),
                                           S.same(r.max_operations, most if some else 2000)))
    rep = tr.reporter
    if log:
        S.check('two reporters', S.isinstance(rep, CompositeReporter) and S.eq(S.len(rep.reporters), 2))
        S.check('one logs', S.isinstance(S.items(rep.reporters)[1], LoggingReporter))
        rep = S.items(rep.reporters)[0]
    S.check('a remote reporter', S.isinstance(rep, RemoteReporter))
    S.check('with its settings', S.And(S.same(rep.batch_size, size if some else 10), S.same(rep.queue_capacity, queue if some else 100),
                                       S.eq(rep.flush_interval, flush if some else 1)))
    if throttled == 'absent':
        S.check('no throttler', tr.throttler is None)
    else:
        S.check('a throttler with its settings', S.isinstance(tr.throttler, RemoteThrottler) and S.And(
            S.same(tr.throttler.service_name, 'service'), S.same(tr.throttler.refresh_interval, every if throttled == 'own' else 5)))


@unit('C27')
def initialised_once(S):
    """only the first of any calls of initialize_tracer makes a tracer, and that one becomes the global tracer"""
    S.environ([])
    loop = OwnLoop(S)
    sender = Sender(S, loop)
    S.replace(config_module, 'LocalAgentSender', sender.create)
    S.replace(Config, '_initialized', False)
    set_to = S.newlist()
    S.replace(opentracing, 'set_global_tracer', set_to.append)
    c = S.new(Config, S.newdict(), service_name='service')
    other = S.new(Config, S.newdict(), service_name='other service')
    S.check('not at first', S.Not(S.run(Config.initialized)))
    tr = S.run(c.initialize_tracer, loop)
    S.check('the first call makes the tracer', tr is not None and S.same(tr.service_name, 'service'))
    S.check('it is the global tracer', S.And(S.eq(S.len(set_to), 1), S.is_(S.items(set_to)[0], tr)))
    S.check('then it is initialised', S.run(Config.initialized))
    for k in (c, other):
        S.check('later calls do nothing', S.run(k.initialize_tracer, loop) is None)
    S.check('still one global tracer', S.eq(S.len(set_to), 1))
    S.check('one channel', S.eq(sender.n, 1))


@unit('C27')
def switches_of_other_words(S):
    """only these words, in any case, switch: anything else leaves the default"""
    k = S.choose('setting', sorted(BOOLEAN))
    w = S.choose('word', [' true', 'true ', 'false\n', ' 0', '1 ', 'yes', 'no', 'on', 'off', 'y', 'n', 't', 'f', '', 'null', '2', '-1', '1.0', '00', "'true'"])
    S.environ([])
    c = S.new(Config, S.newdict([(k, w)]), service_name='service')
    S.check('the default', S.same(S.attr(c, k), BOOLEAN[k]))


@unit('C27')
def lengths_of_any_size(S):
    """neither length decides the other"""
    a, b = 'max_tag_value_length', 'max_traceback_length'
    n, m = S.choose('tag values', [None, 1, 4096, 4097, 100000]), S.choose('tracebacks', [None, 1, 1024, 100000])
    S.environ([])
    c = S.new(Config, S.newdict([(k, v) for k, v in ((a, n), (b, m)) if v is not None]), service_name='service')
    S.check('tag values', S.same(S.attr(c, a), 1024 if n is None else n))
    S.check('tracebacks', S.same(S.attr(c, b), 4096 if m is None else m))

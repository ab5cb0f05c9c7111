"""C18: responses of the sampling service."""
from contracts._remote import Channel, Loop, Metrics, agent, check_url, anyjson, anyobject, answer, amounts, bad_answer
from contracts.c16_limits import put_state
from contracts.c17_adaptive import adaptive, check_params, consistent, guaranteed
from jaeger_client.sampler import AdaptiveSampler, ProbabilisticSampler, RateLimitingSampler, RemoteControlledSampler
from pyvc.harness import unit

RETRIEVED, FAILED = 'jaeger:sampler_queries|result=ok', 'jaeger:sampler_queries|result=err'
UPDATED, NOT_UPDATED = 'jaeger:sampler_updates|result=ok', 'jaeger:sampler_updates|result=err'


def current(S):
    """any current sampler"""
    return S.choose('current sampler', [
        ('probabilistic', lambda: S.new(ProbabilisticSampler, S.float('current rate', 0, 1))),
        ('rate limiting', lambda: S.new(RateLimitingSampler, S.float('current limit', 0, None, soft=499))),
        ('adaptive', lambda: adaptive(S)[0])])


def remote(S, cur):
    met = Metrics(S)
    s = S.new(RemoteControlledSampler, Channel(S), S.str('service'), metrics_factory=met, max_operations=10)
    S.setfield(s, 'sampler', cur)
    S.setfield(s, 'max_operations', S.int('max ops', 1))
    return s, met


def check_counts(S, met, retrieved):
    """exactly one of retrieved / query failure, at most one of updated / update failure: (updated, failed)"""
    log = S.items(met.log)
    ok, bad, up, no = [amounts(log, x) for x in (RETRIEVED, FAILED, UPDATED, NOT_UPDATED)]
    S.check('counted as retrieved or as query failure, once', (ok, bad) == (([1], []) if retrieved else ([], [1])))
    S.check('never more than one of updated and update failure', len(up) + len(no) <= 1 and all(x == 1 for x in up + no))
    S.check('no other metrics', len(log) == len(ok) + len(bad) + len(up) + len(no))
    return bool(up), bool(no)


def snapshot(S, cur):
    """the state of a sampler that decisions depend on"""
    objs = [cur]
    if S.isinstance(cur, RateLimitingSampler):
        objs.append(cur.rate_limiter)
    return [(o, S.snap(o)) for o in objs]


def unchanged(S, snaps):
    return S.And(True, *[S.unchanged_fields(o, a) for o, a in snaps])


def deliver(S, s, fut):
    r = S.call(S.attr(s, '_sampling_request_callback'), fut)
    S.check('the callback does not raise', r.ok)
    S.check('the sampler is not left locked', S.unlocked(s))


def response(S, entries):
    """an answer with these entries, and perhaps others that say nothing"""
    return S.newdict(entries + S.choose('further entries', [
        ('none', lambda: []), ('null', lambda: [('operationSampling', None)]), ('empty', lambda: [('operationSampling', S.newdict())]),
        ('unused', lambda: [('probabilisticSampling' if entries[0][1] == 'RATE_LIMITING' else 'rateLimitingSampling', None), ('other', S.str('other'))])]))


@unit('C18')
def probabilistic_response(S):
    cur = current(S)
    s, met = remote(S, cur)
    rate = S.choose('rate', [('float', lambda: S.float('probability', 0, 1)), ('int', lambda: S.choose('whole', [0, 1]))])
    snaps = snapshot(S, cur)
    deliver(S, s, answer(S, response(S, [('strategyType', 'PROBABILISTIC'), ('probabilisticSampling', S.newdict([('samplingRate', rate)]))])))
    new = s.sampler
    S.check('a probabilistic sampler is installed', S.isinstance(new, ProbabilisticSampler))
    S.check('with the given probability', S.eq(new.rate, rate))
    up, no = check_counts(S, met, True)
    S.check('not a failure', not no)
    S.check('counted as updated exactly when the sampler changed', S.Iff(up, S.Not(S.And(S.isinstance(cur, ProbabilisticSampler), S.eq(S.attr(cur, 'rate', 0), rate)))))
    S.check('the old sampler is not modified', unchanged(S, snaps))


@unit('C18')
def rate_limit_response(S):
    cur = current(S)
    s, met = remote(S, cur)
    limit = S.choose('limit', [('float', lambda: S.float('limit', 0, 500, hi_open=True)), ('int', lambda: S.int('limit', 0, 499))])
    old = cur.traces_per_second if S.isinstance(cur, RateLimitingSampler) else None
    if old is not None:
        put_state(S, cur.rate_limiter)
    deliver(S, s, answer(S, response(S, [('strategyType', 'RATE_LIMITING'), ('rateLimitingSampling', S.newdict([('maxTracesPerSecond', limit)]))])))
    new = s.sampler
    S.check('a rate limiting sampler is installed', S.isinstance(new, RateLimitingSampler))
    S.check('with the given limit', S.And(S.eq(new.traces_per_second, limit), S.eq(new.rate_limiter.credits_per_second, limit),
                                          S.eq(new.rate_limiter.max_balance, S.max(limit, 1.0))))
    up, no = check_counts(S, met, True)
    S.check('not a failure', not no)
    S.check('counted as updated exactly when the limit changed', S.Iff(up, S.Not(old is not None and S.eq(old, limit))))
    S.check('a known limiter keeps its credits', old is None or new is cur)


@unit('C18')
def first_per_operation_response(S):
    cur = S.choose('current sampler', [('probabilistic', lambda: S.new(ProbabilisticSampler, S.float('current rate', 0, 1))),
                                       ('rate limiting', lambda: S.new(RateLimitingSampler, S.float('current limit', 0, None, soft=499)))])
    s, met = remote(S, cur)
    op, lb, dr, rate = S.str('operation'), S.float('lower bound', 0, None, soft=1e6), S.float('default rate', 0, 1), S.float('rate', 0, 1)
    S.interest(op)

    def other():
        o = S.str('listed operation')
        S.assume(S.Not(S.eq(o, op)))
        return per_op(S, o, S.float('listed rate', 0, 1))
    doc = S.newdict([('defaultLowerBoundTracesPerSecond', lb), ('defaultSamplingProbability', dr),
                     ('perOperationStrategies', S.newlist([S.seg('before', other), per_op(S, op, rate), S.seg('after', other)]))])
    deliver(S, s, answer(S, S.newdict([('strategyType', S.choose('type', ['PROBABILISTIC', 'RATE_LIMITING'])), ('operationSampling', doc)])))
    new = s.sampler
    S.check('an adaptive sampler is installed', S.isinstance(new, AdaptiveSampler))
    check_params(S, S.lookup(new.samplers, op), op, lb, rate)
    S.check('with the default parameters', S.And(S.eq(new.default_sampler.rate, dr), S.eq(new.lower_bound, lb), S.same(new.max_operations, s.max_operations)))
    S.check('counted as updated', check_counts(S, met, True) == (True, False))


def per_op(S, op, rate):
    return S.newdict([('operation', op), ('probabilisticSampling', S.newdict([('samplingRate', rate)]))])


@unit('C18', uses=('limiter_update',))
def next_per_operation_response(S):
    op = S.str('operation')
    g = guaranteed(S, op)
    cur = adaptive(S, [(op, g)])[0]
    s, met = remote(S, cur)
    lb, dr, rate = S.float('new lower bound', 0, None, soft=1e6), S.float('new default rate', 0, 1), S.float('new rate', 0, 1)
    doc = S.newdict([('defaultLowerBoundTracesPerSecond', lb), ('defaultSamplingProbability', dr), ('perOperationStrategies', S.newlist([per_op(S, op, rate)]))])
    deliver(S, s, answer(S, S.newdict([('operationSampling', doc)])))
    S.check('the adaptive sampler is updated', s.sampler is cur)
    S.check('and keeps the sampler of the operation', S.lookup(cur.samplers, op) is g)
    check_params(S, g, op, lb, rate)
    S.check('with the default parameters', S.And(S.eq(cur.default_sampler.rate, dr), S.eq(cur.lower_bound, lb)))
    S.check('counted as updated', check_counts(S, met, True) == (True, False))


@unit('C18')
def failed_query(S):
    cur = current(S)
    s, met = remote(S, cur)
    snaps = snapshot(S, cur)
    deliver(S, s, bad_answer(S))
    S.check('the sampler stays', s.sampler is cur)
    S.check('and is not modified', unchanged(S, snaps))
    S.check('nothing is updated', check_counts(S, met, False) == (False, False))


@unit('C18')
def rejected_response(S):
    cur = current(S)
    s, met = remote(S, cur)
    snaps = snapshot(S, cur)
    bad = S.choose('bad', ['type', 'no type', 'probability', 'limit', 'probability kind', 'limit kind', 'not an object'])
    if bad == 'type':
        t = S.str('strategy type')
        S.assume(S.Not(S.eq(t, 'PROBABILISTIC')))
        S.assume(S.Not(S.eq(t, 'RATE_LIMITING')))
        doc = S.newdict([('strategyType', t), ('probabilisticSampling', S.newdict([('samplingRate', 0.5)]))])
    elif bad == 'no type':
        doc = S.newdict([('probabilisticSampling', S.newdict([('samplingRate', 0.5)]))])
    elif bad.startswith('probability'):
        v = S.choose('value', [('low', lambda: S.float('rate', None, 0, hi_open=True)), ('high', lambda: S.float('rate', 1, None, lo_open=True)),
                               ('nan', lambda: float('nan'))]) if bad == 'probability' else odd(S)
        doc = S.newdict([('strategyType', 'PROBABILISTIC'), ('probabilisticSampling', S.newdict([('samplingRate', v)]))])
    elif bad.startswith('limit'):
        v = S.choose('value', [('low', lambda: S.float('limit', None, 0, hi_open=True)), ('high', lambda: S.float('limit', 500, None)),
                               ('int', lambda: S.int('limit', 500)), ('nan', lambda: float('nan'))]) if bad == 'limit' else odd(S)
        doc = S.newdict([('strategyType', 'RATE_LIMITING'), ('rateLimitingSampling', S.newdict([('maxTracesPerSecond', v)]))])
    else:
        doc = S.choose('document', [('null', lambda: None), ('list', lambda: S.newlist([S.newdict()])), ('text', lambda: S.str('text')),
                                    ('number', lambda: S.float('number'))])
    deliver(S, s, answer(S, doc))
    S.check('the sampler stays', s.sampler is cur)
    S.check('and is not modified', unchanged(S, snaps))
    S.check('counted as update failure', check_counts(S, met, True) == (False, True))


def odd(S):
    return S.choose('odd value', [('null', lambda: None), ('text', lambda: S.str('odd text')), ('list', lambda: S.newlist()), ('object', lambda: S.newdict())])


def check_any(S, s, met, cur, doc):
    snaps = snapshot(S, cur)
    n = S.len(cur.samplers) if S.isinstance(cur, AdaptiveSampler) else None
    deliver(S, s, answer(S, doc))
    up, no = check_counts(S, met, True)
    if not up:
        S.check('a response that is not applied leaves the sampler in place', s.sampler is cur)
        S.check('and unmodified', S.And(unchanged(S, snaps), True if n is None else S.eq(S.len(cur.samplers), n)))


@unit('C18', runs=400)
def any_response(S):
    """any document without per-operation strategies"""
    cur = current(S)
    s, met = remote(S, cur)
    doc = S.choose('document', [('no object', lambda: anyjson(S, 'document', kinds=('null', 'bool', 'int', 'float', 'nan', 'str', 'list'))),
                                ('object', lambda: anyobject(S, 'document', no=['operationSampling'])),
                                ('empty strategies', lambda: anyobject(S, 'document', entries=[('operationSampling', S.choose('nothing', [('null', lambda: None), ('zero', lambda: 0), ('empty', lambda: S.newdict()), ('text', lambda: '')]))]))])
    check_any(S, s, met, cur, doc)


PARTS = ['no object', 'no list', 'bad element', 'defaults']


@unit('C18', runs=400, uses=('limiter_update',), shards=8)
def any_per_operation_response(S):
    """any document with per-operation strategies: its list has no elements that are not well-formed, or a first one"""
    which, part = S.choose('current sampler', [('%s, %s' % (a, b), lambda a=a, b=b: (a, b)) for a in ('other', 'adaptive') for b in PARTS])
    g, op = None, S.str('operation')
    if which == 'adaptive':
        g = guaranteed(S, op)
        cur = adaptive(S, [(op, g)])[0]
    else:
        cur = S.new(ProbabilisticSampler, S.float('current rate', 0, 1))
    s, met = remote(S, cur)
    consistent(S)
    notlist = ('null', 'float', 'nan', 'str', 'object')
    fine = S.seg('well-formed', lambda: per_op(S, S.str('listed operation'), S.float('listed rate', 0, 1)))
    if part == 'no object':
        x = anyjson(S, 'strategies', kinds=('null', 'bool', 'int', 'float', 'nan', 'str', 'list'))
    elif part == 'no list':
        x = anyobject(S, 'strategies', 1, entries=[('perOperationStrategies', anyjson(S, 'list', 1, kinds=notlist))])
    elif part == 'bad element':
        x = S.newdict([('perOperationStrategies', S.newlist([fine, bad_element(S), S.seg('rest', lambda: anyjson(S, 'rest', 2))]))])
    else:
        x = anyobject(S, 'strategies', 1, entries=[('perOperationStrategies', S.newlist([fine, per_op(S, op, S.float('rate', 0, 1))]))])
    snaps = [] if g is None else [(o, S.snap(o)) for o in (g, g.lower_bound_sampler.rate_limiter)]
    check_any(S, s, met, cur, S.newdict([('operationSampling', x)]))
    if part in ('no object', 'bad element'):
        S.check('malformed strategies leave the samplers of the operations alone', unchanged(S, snaps))


def bad_element(S):
    """an entry of the list that cannot be applied"""
    how = S.choose('bad element', ['no object', 'operation', 'sampling', 'rate kind', 'rate'])
    if how == 'no object':
        return anyjson(S, 'element', 1, kinds=('null', 'float', 'nan', 'str', 'list'))
    if how == 'operation':
        return S.newdict([('operation', S.choose('bad operation', [('list', lambda: S.newlist()), ('object', lambda: S.newdict())])),
                          ('probabilisticSampling', S.newdict([('samplingRate', S.float('listed rate', 0, 1))]))])
    if how == 'sampling':
        p = S.choose('bad sampling', [('number', lambda: 0.5), ('text', lambda: 'x'), ('list', lambda: S.newlist([1]))])
        return S.newdict([('operation', S.str('listed operation')), ('probabilisticSampling', p)])
    if how == 'rate kind':
        return per_op(S, S.str('listed operation'), odd(S))
    return per_op(S, S.str('listed operation'), S.choose('bad rate', [
        ('low', lambda: S.float('bad low', None, 0, hi_open=True)), ('high', lambda: S.float('bad high', 1, None, lo_open=True)), ('nan', lambda: float('nan'))]))


@unit('C18')
def polling(S):
    """the service is asked within the interval, then periodically, until the sampler is closed"""
    loop = Loop(S)
    ch = Channel(S, io_loop=loop)
    every, service = S.float('refresh interval', 0, None, lo_open=True), S.str('service')
    s = S.new(RemoteControlledSampler, ch, service, metrics_factory=Metrics(S), sampling_refresh_interval=every)
    S.check('nothing is requested by the constructor', S.And(S.len(ch.asked) == 0, S.len(loop.soon) == 1))
    closed = S.choose('closed', ['never', 'before the first callback', 'before the first request'])
    if closed == 'before the first callback':
        S.run(s.close)
    S.run(S.items(loop.soon)[0])
    if closed == 'before the first callback':
        S.check('no request is scheduled', S.len(loop.later) == 0)
        return
    (delay, poll), = S.items(loop.later)
    S.check('the first request happens within the interval', S.And(delay >= 0, delay <= every))
    if closed == 'before the first request':
        S.run(s.close)
        S.run(poll)
        S.check('no periodic request is started', s.periodic is None)
        return
    S.run(poll)
    S.check('then periodically', S.And(s.periodic.is_running(), S.approx(s.periodic.callback_time, every * 1000)))
    S.run(s.periodic.callback)
    S.check('each time for this service', S.And(S.len(ch.asked) == 2, *[S.same(a[0], service) for a in S.items(ch.asked)]))
    cur = s.sampler
    cb, = S.items(S.items(ch.futures)[1].callbacks)
    rate = S.float('probability', 0, 1)
    S.run(cb, answer(S, S.newdict([('samplingRate', rate), ('strategyType', 'PROBABILISTIC'), ('probabilisticSampling', S.newdict([('samplingRate', rate)]))])))
    S.check('the answer reaches the sampler', S.And(S.isinstance(s.sampler, ProbabilisticSampler), S.eq(s.sampler.rate, rate)))
    S.run(s.close)
    S.check('closing ends it', not s.periodic.is_running())


@unit('C18')
def request(S):
    """the request names the service, whatever characters that has"""
    port, service = S.int('port', 1, 65535), S.str('service', utf8=True)
    ch, host, http = agent(S, port)
    f = S.run(ch.request_sampling_strategy, service)
    (url, g), = S.items(http.log)
    S.check('its answer is what is returned', f is g)
    check_url(S, url, host, port, 'sampling', ([('service', service)], 0))

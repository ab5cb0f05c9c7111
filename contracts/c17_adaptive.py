"""C17: guaranteed-throughput and adaptive (per-operation) sampling."""
from contracts._common import M128
from contracts.c16_limits import put_state
from jaeger_client.sampler import AdaptiveSampler, GuaranteedThroughputProbabilisticSampler, ProbabilisticSampler
from pyvc.harness import unit

TWO64 = 1 << 64


def low_bound(S, name='lower bound'):
    return S.float(name, 0, None, soft=1e6)


def guaranteed(S, op, p=''):
    return S.new(GuaranteedThroughputProbabilisticSampler, op, low_bound(S, p + 'lower bound'), S.float(p + 'rate', 0, 1))


def chosen(S, t, rate):
    """the probabilistic decision for trace id t"""
    return S.mod(t, TWO64) < S.real(rate) * TWO64


def check_params(S, s, op, lb, rate, why=''):
    """s is a guaranteed-throughput sampler with these parameters"""
    S.check('kind of sampler' + why, S.isinstance(s, GuaranteedThroughputProbabilisticSampler))
    S.check('probability of the operation' + why, S.eq(s.probabilistic_sampler.rate, rate))
    S.check('lower bound of the operation' + why, S.eq(s.lower_bound_sampler.traces_per_second, lb))
    rl = s.lower_bound_sampler.rate_limiter
    S.check('limiter of the operation' + why, S.And(S.eq(rl.credits_per_second, lb), S.eq(rl.max_balance, S.max(lb, 1.0))))


def check_decision(S, d, tags, t, rate, avail, after):
    S.assume(S.Not(S.blurred(avail, 1.0)))
    if S.case(chosen(S, t, rate)):
        S.check('the probabilistic part accepts', d)
        S.check('its tags', S.And(S.eq(S.lookup(tags, 'sampler.type'), 'probabilistic'), S.eq(S.lookup(tags, 'sampler.param'), rate)))
    else:
        S.check('else accepted exactly when the limiter has a credit', S.Iff(d, avail >= 1))
        S.check('tags of the lower bound', S.And(S.eq(S.lookup(tags, 'sampler.type'), 'lowerbound'), S.eq(S.lookup(tags, 'sampler.param'), rate)))
    S.check('the limiter is consulted once in either case', S.approx(after, avail - 1) if S.case(avail >= 1) else S.approx(after, avail))


def prepare(S, s):
    """an arbitrary state of the limiter of s: the credit available now"""
    rl = s.lower_bound_sampler.rate_limiter
    bal, dt, last = put_state(S, rl)
    now = last + dt
    S.set_time(now)
    return S.min(bal + (now - last) * rl.credits_per_second, rl.max_balance), now


@unit('C17', runs=300)
def guaranteed_decision(S):
    op, lb, rate = S.str('operation'), low_bound(S), S.float('rate', 0, 1)
    s = S.new(GuaranteedThroughputProbabilisticSampler, op, lb, rate)
    check_params(S, s, op, lb, rate)
    avail, now = prepare(S, s)
    t = S.int('trace_id', 0, M128)
    d, tags = S.run(s.is_sampled, t, op)
    check_decision(S, d, tags, t, rate, avail, s.lower_bound_sampler.rate_limiter.balance)


@unit('C17')
def guaranteed_update(S):
    lb, rate = low_bound(S), S.float('rate', 0, 1)
    s = S.new(GuaranteedThroughputProbabilisticSampler, 'op', lb, rate)
    rl = s.lower_bound_sampler.rate_limiter
    avail, now = prepare(S, s)
    bal = rl.balance
    lb2 = lb if S.choose('same lower bound', [False, True]) else low_bound(S, 'new lower bound')
    rate2 = rate if S.choose('same rate', [False, True]) else S.float('new rate', 0, 1)
    S.run(s.update, lb2, rate2)
    check_params(S, s, 'op', lb2, rate2)
    rl2 = s.lower_bound_sampler.rate_limiter
    if S.case(S.eq(lb, lb2)):
        S.check('credits are kept', S.same(rl2.balance, bal))
    else:
        S.check('credits are rescaled', S.approx(rl2.balance * S.max(lb, 1.0), avail * S.max(lb2, 1.0)))
    avail2 = S.min(rl2.balance + (now - rl2.last_tick) * lb2, S.max(lb2, 1.0))
    t = S.int('trace_id', 0, M128)
    d, tags = S.run(s.is_sampled, t, 'op')
    check_decision(S, d, tags, t, rate2, avail2, rl2.balance)


def table(S, entries, no=()):
    """an arbitrary table of samplers"""
    return S.dict('samplers', key=lambda: S.str('known operation'), val=lambda: guaranteed(S, 'x', 'other '), entries=entries,
                  ok=lambda q: S.And(True, *[S.Not(S.eq(q, n)) for n in no]))


def adaptive(S, entries=(), no=()):
    lb, rate, mx = low_bound(S, 'default lower bound'), S.float('default rate', 0, 1), S.int('max operations', 0, None, soft=10000)
    s = S.new(AdaptiveSampler, S.newdict([('defaultLowerBoundTracesPerSecond', lb), ('defaultSamplingProbability', rate)]), mx)
    S.setfield(s, 'samplers', table(S, entries, no))
    return s, lb, rate, mx


@unit('C17')
def known_operation(S):
    op, q = S.str('operation'), S.str('another operation')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(q)
    g = guaranteed(S, op)
    rate = g.probabilistic_sampler.rate
    s, lb0, rate0, mx = adaptive(S, [(op, g)])
    avail, now = prepare(S, g)
    n, had = S.len(s.samplers), S.lookup(s.samplers, q)
    t = S.int('trace_id', 0, M128)
    d, tags = S.run(s.is_sampled, t, op)
    check_decision(S, d, tags, t, rate, avail, g.lower_bound_sampler.rate_limiter.balance)
    S.check('the table is unchanged', S.And(S.eq(S.len(s.samplers), n), S.lookup(s.samplers, op) is g, S.lookup(s.samplers, q) is had))


@unit('C17')
def new_operation(S):
    op, q = S.str('operation'), S.str('another operation')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(op, q)
    s, lb, rate, mx = adaptive(S, no=[op])
    n, had = S.len(s.samplers), S.lookup(s.samplers, q)
    t = S.int('trace_id', 0, M128)
    d, tags = S.run(s.is_sampled, t, op)
    g = S.lookup(s.samplers, op)
    if S.case(n < mx):
        S.check('the operation gets its own sampler', g is not S.MISSING and S.eq(S.len(s.samplers), n + 1))
        check_params(S, g, op, lb, rate)
        ty = S.lookup(tags, 'sampler.type')
        S.check('which decides', S.And(S.Implies(chosen(S, t, rate), d), S.Iff(S.eq(ty, 'probabilistic'), chosen(S, t, rate))))
        if S.case(S.Not(chosen(S, t, rate))):
            S.check('on its credits', S.Implies(S.eq(lb, 0), S.Implies(d, g.lower_bound_sampler.rate_limiter.balance >= 0)))
    else:
        S.check('no sampler is added beyond the capacity', g is S.MISSING and S.eq(S.len(s.samplers), n))
        S.check('the default probability decides', S.Iff(d, chosen(S, t, rate)))
        S.check('with its tags', S.And(S.eq(S.lookup(tags, 'sampler.type'), 'probabilistic'), S.eq(S.lookup(tags, 'sampler.param'), rate)))
    S.check('never more than the maximum number of operations', S.Or(S.len(s.samplers) <= mx, S.eq(S.len(s.samplers), n)))
    S.check('other operations keep their samplers', S.lookup(s.samplers, q) is had)


def strategy(S, op, rate):
    """one entry of a strategies response; rate None: the default applies"""
    e = [('operation', op)]
    if rate is not None:
        e.append(('probabilisticSampling', S.newdict([('samplingRate', rate)])))
    return S.newdict(e)


def strategies(S, op, others=True, other=(), given=None):
    """an arbitrary response with one listed operation singled out: (response, its rate, lower bound, default rate);
    given: whether the optional parameters are there (else any mixture)"""
    def choose(name, alts):
        return S.choose(name, alts) if given is None else dict(alts)[given]()
    how = choose('rate of the operation', [('yes', lambda: S.float('rate of the operation', 0, 1)), ('no', lambda: None)])

    def gen():
        o = S.str('listed operation')
        S.assume(S.Not(S.eq(o, op)))
        for x in other:
            S.assume(S.Not(S.eq(o, x)))
        return strategy(S, o, S.float('listed rate', 0, 1))
    l = [S.seg('before', gen), strategy(S, op, how), S.seg('after', gen)] if others else [strategy(S, op, how)]
    e = [('perOperationStrategies', S.newlist(l))]
    lb = choose('lower bound given', [('yes', lambda: low_bound(S, 'new lower bound')), ('no', lambda: None)])
    dr = choose('default rate given', [('yes', lambda: S.float('new default rate', 0, 1)), ('no', lambda: None)])
    if lb is not None:
        e.append(('defaultLowerBoundTracesPerSecond', lb))
    if dr is not None:
        e.append(('defaultSamplingProbability', dr))
    return S.newdict(e), (how if how is not None else 0.001), (lb if lb is not None else 1.0 / 600.0), (dr if dr is not None else 0.001)


def check_defaults(S, s, lb, dr):
    S.check('the defaults are replaced', S.And(S.eq(s.default_sampler.rate, dr), S.eq(s.default_sampling_probability, dr), S.eq(s.lower_bound, lb)))


@unit('C17')
def first_strategies(S):
    op = S.str('operation')
    S.interest(op)
    resp, rate, lb, dr = strategies(S, op)
    mx = S.int('max operations', 0, None, soft=10000)
    s = S.new(AdaptiveSampler, resp, mx)
    g = S.lookup(s.samplers, op)
    S.check('the listed operation has a sampler', g is not S.MISSING)
    check_params(S, g, op, lb, rate)
    check_defaults(S, s, lb, dr)
    S.check('capacity', S.same(s.max_operations, mx))


# what the parts of a guaranteed-throughput sampler have in common: candidates for the invariant of the table
CONSISTENT = [
    lambda S: lambda g: g.lower_bound_sampler.rate_limiter.max_balance >= 1,
    lambda S: lambda g: S.eq(g.lower_bound_sampler.rate_limiter.max_balance, S.max(g.lower_bound, 1.0)),
    lambda S: lambda g: S.eq(g.lower_bound_sampler.rate_limiter.credits_per_second, g.lower_bound),
    lambda S: lambda g: S.eq(g.lower_bound_sampler.traces_per_second, g.lower_bound),
    lambda S: lambda g: S.eq(g.probabilistic_sampler.rate, g.rate),
]


def consistent(S):
    for c in CONSISTENT:
        S.class_candidate(GuaranteedThroughputProbabilisticSampler, c(S))


@unit('C17', uses=('limiter_update',), shards=4)
def strategy_update(S):
    known, given = S.choose('operation', [('known', 'yes'), ('new', 'yes'), ('known', 'no'), ('new', 'no')])
    op, q = S.str('operation'), S.str('operation that is not listed')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(op, q)
    g0 = None
    if known == 'known':
        g0 = guaranteed(S, op)
    s, lb0, rate0, mx = adaptive(S, [] if g0 is None else [(op, g0)], no=[op])
    had = S.lookup(s.samplers, q)
    consistent(S)
    resp, rate, lb, dr = strategies(S, op, other=[q], given=given)
    S.run(s.update, resp)
    g = S.lookup(s.samplers, op)
    S.check('the listed operation has a sampler', g is not S.MISSING)
    S.check('a known operation keeps its sampler', g0 is None or g is g0)
    check_params(S, g, op, lb, rate)
    S.check('operations that are not listed are kept', S.lookup(s.samplers, q) is had)
    check_defaults(S, s, lb, dr)
    S.check('the capacity is kept', S.same(s.max_operations, mx))


@unit('C17')
def unlisted_samplers_are_untouched(S):
    op, q = S.str('operation'), S.str('operation that is not listed')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(op, q)
    g = guaranteed(S, q)
    s, lb0, rate0, mx = adaptive(S, [(q, g)], no=[op, q])
    prepare(S, g)
    rl = g.lower_bound_sampler.rate_limiter
    a, b = S.snap(g), S.snap(rl)
    resp, rate, lb, dr = strategies(S, op, others=False)
    S.run(s.update, resp)
    S.check('the sampler of an unlisted operation is untouched', S.And(S.lookup(s.samplers, q) is g, S.unchanged_fields(g, a), S.unchanged_fields(rl, b)))


@unit('C17')
def malformed_strategies_change_nothing(S):
    op, q = S.str('operation'), S.str('another operation')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(op, q)
    g = guaranteed(S, op)
    s, lb0, rate0, mx = adaptive(S, [(op, g)], no=[q])
    n = S.len(s.samplers)
    prepare(S, g)
    a, b = S.snap(g), S.snap(g.lower_bound_sampler.rate_limiter)
    c = S.snap(s)
    bad = S.choose('bad', ['rate', 'lower bound', 'default rate', 'no list', 'entry', 'rate kind'])
    l = [strategy(S, op, S.float('rate', 0, 1))]
    if bad == 'rate':
        l.append(strategy(S, q, S.float('bad rate', 1, None, lo_open=True)))
    elif bad == 'rate kind':
        l.append(strategy(S, q, S.choose('bad rate', [('str', lambda: S.str('text')), ('list', lambda: S.newlist())])))
    elif bad == 'entry':
        l.append(S.choose('bad entry', [None, 5, 'x']))
    resp = S.newdict([('perOperationStrategies', None if bad == 'no list' else S.newlist(l)),
                      ('defaultLowerBoundTracesPerSecond', S.float('bad lower bound', None, 0, hi_open=True) if bad == 'lower bound' else low_bound(S)),
                      ('defaultSamplingProbability', S.float('bad default', 1, None, lo_open=True) if bad == 'default rate' else S.float('def', 0, 1))])
    r = S.call(s.update, resp)
    S.check('malformed strategies are rejected', S.Not(r.ok))
    S.check('and change nothing', S.And(S.unchanged_fields(s, c), S.unchanged_fields(g, a),
                                        S.unchanged_fields(g.lower_bound_sampler.rate_limiter, b), S.eq(S.len(s.samplers), n)))


@unit('C17')
def listed_operations_share_no_limiter(S):
    a, b = S.str('operation'), S.str('another operation')
    S.assume(S.Not(S.eq(a, b)))
    S.interest(a, b)

    def gen():
        o = S.str('listed operation')
        S.assume(S.And(S.Not(S.eq(o, a)), S.Not(S.eq(o, b))))
        return strategy(S, o, S.float('listed rate', 0, 1))
    r1 = S.float('rate', 0, 1)
    r2 = r1 if S.choose('same rate', [False, True]) else S.float('another rate', 0, 1)
    lb = low_bound(S, 'lower bound')
    l = S.newlist([S.seg('before', gen), strategy(S, a, r1), S.seg('between', gen), strategy(S, b, r2)])
    s = S.new(AdaptiveSampler, S.newdict([('perOperationStrategies', l), ('defaultLowerBoundTracesPerSecond', lb), ('defaultSamplingProbability', 0.5)]),
              S.int('max operations', 0, None, soft=10000))
    ga, gb = S.lookup(s.samplers, a), S.lookup(s.samplers, b)
    S.check('both have samplers', S.And(ga is not S.MISSING, gb is not S.MISSING))
    S.check('of their own', ga is not gb and ga.lower_bound_sampler is not gb.lower_bound_sampler
            and ga.lower_bound_sampler.rate_limiter is not gb.lower_bound_sampler.rate_limiter)


@unit('C17')
def decisions_touch_no_other_operation(S):
    """neither the decision for a known operation nor that for a new one draws on the credits of another"""
    op, q = S.str('operation'), S.str('another operation')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(op, q)
    lb = low_bound(S, 'lower bound')
    g = S.new(GuaranteedThroughputProbabilisticSampler, q, lb, S.float('rate', 0, 1))
    entries = [(q, g)]
    if S.choose('operation', ['known', 'new']) == 'known':
        entries.append((op, S.new(GuaranteedThroughputProbabilisticSampler, op, lb, S.float('rate', 0, 1))))
    s = S.new(AdaptiveSampler, S.newdict([('defaultLowerBoundTracesPerSecond', lb), ('defaultSamplingProbability', S.float('default rate', 0, 1))]),
              S.int('max operations', 0, None, soft=10000))
    S.setfield(s, 'samplers', table(S, entries, [op, q]))
    rl = g.lower_bound_sampler.rate_limiter
    a, b = S.snap(g), S.snap(rl)
    S.run(s.is_sampled, S.int('trace_id', 0, M128), op)
    S.check('the sampler of the other operation is untouched', S.And(S.lookup(s.samplers, q) is g, S.unchanged_fields(g, a), S.unchanged_fields(rl, b)))
    h = S.lookup(s.samplers, op)
    S.check('nothing is shared', h is S.MISSING or h.lower_bound_sampler.rate_limiter is not rl)

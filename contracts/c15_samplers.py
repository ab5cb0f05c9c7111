"""C15: constant and probabilistic samplers."""
from jaeger_client.sampler import ConstSampler, ProbabilisticSampler
from pyvc.harness import unit

M128 = (1 << 128) - 1
TWO64 = 1 << 64


@unit('C15', runs=400)
def probabilistic_decision(S):
    rate = S.float('rate', 0, 1)
    t = S.int('trace_id', 0, M128)
    s = S.new(ProbabilisticSampler, rate)
    d, tags = S.run(s.is_sampled, t, S.str('operation'))
    low = S.mod(t, TWO64)
    # rate * 2^64 is exact in floating point, and so is CPython's comparison of an int with a float
    S.check('accepted exactly when the low 64 bits are below rate * 2^64', S.Iff(d, low < S.real(rate) * TWO64))
    S.check('decision is a boolean', S.isinstance(d, bool))
    S.check('sampler tags', S.And(S.eq(S.lookup(tags, 'sampler.type'), 'probabilistic'), S.eq(S.lookup(tags, 'sampler.param'), rate),
                                  S.len(tags) == 2))


@unit('C15')
def probabilistic_extremes_and_monotonicity(S):
    t = S.int('trace_id', 0, M128)
    r1, r2 = S.float('rate1', 0, 1), S.float('rate2', 0, 1)
    S.assume(r1 <= r2)
    d1, _ = S.run(S.new(ProbabilisticSampler, r1).is_sampled, t)
    d2, _ = S.run(S.new(ProbabilisticSampler, r2).is_sampled, t)
    d0, _ = S.run(S.new(ProbabilisticSampler, 0).is_sampled, t)
    da, _ = S.run(S.new(ProbabilisticSampler, 1).is_sampled, t)
    S.check('a higher rate accepts what a lower rate accepts', S.Implies(d1, d2))
    S.check('rate 0 accepts nothing', S.Not(d0))
    S.check('rate 1 accepts everything', da)


@unit('C15')
def probabilistic_rejects_bad_rates(S):
    rate = S.choose('rate', [('below', lambda: S.float('low', None, 0, hi_open=True)), ('above', lambda: S.float('high', 1, None, lo_open=True)),
                             ('int', lambda: S.choose('int', [-1, 2, 100]))])
    r = S.call(ProbabilisticSampler, rate)
    S.check('a rate outside [0, 1] is rejected', S.Not(r.ok))


@unit('C15')
def const_decision(S):
    dec = S.bool('decision')
    s = S.new(ConstSampler, dec)
    t1 = S.int('trace_id', 0, M128)
    d, tags = S.run(s.is_sampled, t1, S.str('operation'))
    S.check('the configured decision', S.Iff(d, dec))
    S.check('sampler tags', S.And(S.eq(S.lookup(tags, 'sampler.type'), 'const'), S.eq(S.lookup(tags, 'sampler.param'), dec), S.len(tags) == 2))

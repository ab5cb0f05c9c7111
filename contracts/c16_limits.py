"""C16: the rate limiter keeps its budget; C17: per-operation sampling."""
from clients.limits import Ledger, serve
from contracts._common import M128
from jaeger_client.rate_limiter import RateLimiter
from jaeger_client.sampler import AdaptiveSampler, GuaranteedThroughputProbabilisticSampler, ProbabilisticSampler, RateLimitingSampler
from pyvc.harness import unit


def put_state(S, rl, p=''):
    """an arbitrary reachable state of a limiter, and a clock reading not before its last one: (balance, seconds since)"""
    bal, dt = S.float(p + 'balance', 0, None), S.float(p + 'elapsed', 0, None, soft=1e6)
    S.assume(bal <= rl.max_balance)
    last = S.float(p + 'last tick', 1, None, soft=1e9)
    S.setfield(rl, 'balance', bal)
    S.setfield(rl, 'last_tick', last)
    return bal, dt, last


def limiter(S, p=''):
    rate, mx = S.float(p + 'credits per second', 0, None, soft=1e6), S.float(p + 'max balance', 0, None, lo_open=True, soft=1e6)
    rl = S.new(RateLimiter, rate, mx)
    return (rl, rate, mx) + put_state(S, rl, p)


@unit('C16', runs=400)
def admission(S):
    rl, rate, mx, bal, dt, last = limiter(S)
    cost = S.choose('cost', [('one', lambda: 1.0), ('any', lambda: S.float('cost', 0, None))])
    now = last + dt
    S.set_time(now)
    avail = S.min(bal + (now - last) * rate, mx)
    S.assume(S.Not(S.blurred(avail, cost)))
    ok = S.run(rl.check_credit, cost)
    S.check('admitted exactly when the replenished balance covers the cost', S.Iff(ok, avail >= cost))
    after = rl.balance
    if S.case(ok):
        S.check('the cost is deducted', S.approx(after, avail - cost))
        S.check('admitted cost plus balance never exceeds the balance before plus elapsed time times the rate',
                S.Or(after + cost <= bal + (now - last) * rate, S.approx(after + cost, bal + (now - last) * rate)))
    else:
        S.check('nothing is deducted', S.approx(after, avail))
        S.check('the balance grows at most by elapsed time times the rate',
                S.Or(after <= bal + (now - last) * rate, S.approx(after, bal + (now - last) * rate)))
    S.check('the balance stays within 0 and its maximum', S.And(after >= 0, after <= mx))
    S.check('the next period starts now', S.And(S.same(rl.last_tick, now), S.same(rl.max_balance, mx), S.same(rl.credits_per_second, rate)))


@unit('C16')
def construction(S):
    rate, mx = S.float('credits per second', 0, None), S.float('max balance', 0, None, lo_open=True)
    rl = S.new(RateLimiter, rate, mx)
    S.check('the balance starts within 0 and its maximum', S.And(rl.balance >= 0, rl.balance <= mx))
    S.check('the period starts now', S.same(rl.last_tick, S.readings()[-1]))
    S.check('parameters', S.And(S.same(rl.max_balance, mx), S.same(rl.credits_per_second, rate)))


@unit('C16', runs=300)
def new_limit(S):
    rl, rate, mx, bal, dt, last = limiter(S)
    now = last + dt
    S.set_time(now)
    avail = S.min(bal + (now - last) * rate, mx)
    rate2, mx2 = S.float('new rate', 0, None, soft=1e6), S.float('new max balance', 0, None, lo_open=True, soft=1e6)
    S.run(rl.update, rate2, mx2)
    S.check('the replenished balance is rescaled proportionally', S.approx(rl.balance * mx, avail * mx2))
    S.check('it stays within 0 and the new maximum', S.And(rl.balance >= 0, S.Or(rl.balance <= mx2, S.approx(rl.balance, mx2))))
    S.check('the new parameters', S.And(S.same(rl.max_balance, mx2), S.same(rl.credits_per_second, rate2), S.same(rl.last_tick, now)))


@unit('C16', runs=300)
def history(S):
    """any number of requests, by induction over a client's loop: the admitted cost stays within the budget of the period"""
    rl, rate, mx, bal, dt, last = limiter(S)
    S.set_time(last)
    ledger = S.new(Ledger, last)

    def within():
        spent, b, t = S.real(ledger.spent), S.real(rl.balance), S.real(rl.last_tick)
        return S.And(spent >= 0, b >= 0, b <= mx, S.Or(spent + b <= bal + (t - last) * rate, S.approx(spent + b, bal + (t - last) * rate)))
    S.candidate(lambda: S.same(rl.credits_per_second, rate))
    S.candidate(lambda: S.same(rl.max_balance, mx))
    S.candidate(lambda: S.And(S.same(rl.last_tick, ledger.now), ledger.now >= last))
    S.candidate(within)
    S.run(serve, rl, S.set_time, ledger, S.newlist([S.seg('requests', lambda: (S.float('gap', 0, None, soft=1e4), S.float('cost', 0, None, soft=1e6)))]))
    S.check('the cost admitted so far and what is left stay within the balance at the start plus rate times the time since', within())


def rate_limit(S):
    return S.choose('limit', [('float', lambda: S.float('max traces per second', 0, None, soft=1e6)), ('int', lambda: S.int('max traces per second', 0, None, soft=1000))])


@unit('C16')
def sampler_construction(S):
    r = rate_limit(S)
    s = S.new(RateLimitingSampler, r)
    rl = s.rate_limiter
    S.check('one credit per trace at this rate, at most max(r, 1) of them', S.And(
        S.eq(rl.credits_per_second, r), S.eq(rl.max_balance, S.max(r, 1.0)), rl.balance >= 0, rl.balance <= rl.max_balance))
    bal, dt, last = put_state(S, rl)
    now = last + dt
    S.set_time(now)
    avail = S.min(bal + (now - last) * r, S.max(r, 1.0))
    S.assume(S.Not(S.blurred(avail, 1.0)))
    d, tags = S.run(s.is_sampled, S.int('trace_id', 0, M128), S.str('operation'))
    S.check('sampled exactly when a credit is left', S.Iff(d, avail >= 1))
    S.check('one credit per trace', S.approx(rl.balance, avail - 1) if S.case(d) else S.approx(rl.balance, avail))
    S.check('sampler tags', S.And(S.eq(S.lookup(tags, 'sampler.type'), 'ratelimiting'), S.same(S.lookup(tags, 'sampler.param'), r), S.eq(S.len(tags), 2)))


@unit('C16')
def sampler_rejects_negative_limits(S):
    r = S.call(RateLimitingSampler, S.choose('limit', [('float', lambda: S.float('low', None, 0, hi_open=True)), ('int', lambda: S.int('low', None, -1))]))
    S.check('a negative limit is rejected', S.Not(r.ok))


@unit('C16')
def sampler_update(S):
    r = S.float('max traces per second', 0, None, soft=1e6)
    s = S.new(RateLimitingSampler, r)
    rl = s.rate_limiter
    bal, dt, last = put_state(S, rl)
    now = last + dt
    S.set_time(now)
    avail = S.min(bal + (now - last) * r, S.max(r, 1.0))
    r2 = r if S.choose('same', [False, True]) else S.float('new limit', 0, None, soft=1e6)
    changed = S.run(s.update, r2)
    S.check('reports whether the limit changed', S.And(S.isinstance(changed, bool), S.Iff(changed, S.Not(S.eq(r, r2)))))
    rl2 = s.rate_limiter
    if S.case(S.Not(S.eq(r, r2))):
        S.check('the balance is rescaled proportionally', S.approx(rl2.balance * S.max(r, 1.0), avail * S.max(r2, 1.0)))
        S.check('the new limit', S.And(S.eq(rl2.credits_per_second, r2), S.eq(rl2.max_balance, S.max(r2, 1.0))))
    else:
        S.check('the same limit changes nothing', S.And(S.same(rl2.balance, bal), S.same(rl2.last_tick, last), S.eq(rl2.credits_per_second, r)))
    d, tags = S.run(s.is_sampled, S.int('trace_id', 0, M128))
    S.check('the tags show the new limit', S.eq(S.lookup(tags, 'sampler.param'), r2))


@unit('C16')
def sampler_update_rejects_negative_limits(S):
    s = S.new(RateLimitingSampler, S.float('max traces per second', 0, None, soft=1e6))
    rl = s.rate_limiter
    st = S.snap(rl)
    r = S.call(s.update, S.float('low', None, 0, hi_open=True))
    S.check('a negative limit is rejected and changes nothing', S.And(S.Not(r.ok), s.rate_limiter is rl, S.unchanged_fields(rl, st)))

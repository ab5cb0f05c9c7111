"""C19: the debug throttler and its credits."""
from clients.throttle import Account, ask
from contracts._remote import Channel, Loop, Metrics, agent, anyjson, anyobject, amounts, answer, bad_answer, check_url
from jaeger_client.throttler import RemoteThrottler
from pyvc.harness import unit

THROTTLED = 'jaeger:throttled_debug_spans'
OK, FAILED = 'jaeger:throttler_update|result=ok', 'jaeger:throttler_update|result=err'


def amount(S, name):
    return S.choose(name + ' kind', [('float', lambda: S.float(name, None, None)), ('int', lambda: S.int(name))])


def table(S, entries=(), no=()):
    return S.dict('credits', key=lambda: S.str('known operation'), val=lambda: S.float('known credits', 0, None), entries=entries,
                  ok=lambda q: S.And(True, *[S.Not(S.eq(q, n)) for n in list(no) + [k for k, v in entries]]))


def throttler(S, entries=(), no=(), io_loop=None, **kw):
    met = Metrics(S)
    ch = Channel(S, io_loop)
    t = S.new(RemoteThrottler, ch, S.str('service'), metrics_factory=met, **kw)
    S.setfield(t, 'credits', table(S, entries, no))
    return t, met, ch


@unit('C19')
def request_for_a_known_operation(S):
    op, q = S.str('operation'), S.str('another operation')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(q)
    c = S.choose('credits kind', [('float', lambda: S.float('credits')), ('int', lambda: S.int('credits'))])
    t, met, ch = throttler(S, [(op, c)])
    n, had = S.len(t.credits), S.lookup(t.credits, q)
    S.assume(S.Not(S.blurred(c, 1.0)))
    r = S.run(t.is_allowed, op)
    S.check('allowed exactly when at least one credit is left', S.And(S.isinstance(r, bool), S.Iff(r, c >= 1)))
    left = S.lookup(t.credits, op)
    if S.case(r):
        S.check('one credit is spent', S.approx(left, c - 1))
        S.check('nothing is counted', S.items(met.log) == [])
    else:
        S.check('a refusal spends nothing', S.eq(left, c))
        S.check('and is counted', S.items(met.log) == [(THROTTLED, 1)])
    S.check('other operations are not affected', S.And(S.same(S.lookup(t.credits, q), had) if had is not S.MISSING else not S.has(t.credits, q), S.eq(S.len(t.credits), n)))
    S.check('the throttler is not left locked', S.unlocked(t))


@unit('C19')
def request_for_a_new_operation(S):
    op, q = S.str('operation'), S.str('another operation')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(op, q)
    t, met, ch = throttler(S, no=[op])
    n, had = S.len(t.credits), S.lookup(t.credits, q)
    r = S.run(t.is_allowed, op)
    S.check('refused', S.is_(r, False))
    S.check('and counted', S.items(met.log) == [(THROTTLED, 1)])
    S.check('known from now on, without credit', S.And(S.eq(S.lookup(t.credits, op), 0), S.eq(S.len(t.credits), n + 1)))
    S.check('other operations are not affected', S.same(S.lookup(t.credits, q), had) if had is not S.MISSING else not S.has(t.credits, q))
    S.check('the throttler is not left locked', S.unlocked(t))


@unit('C19', runs=300)
def history(S):
    """any number of requests, by induction over a client's loop"""
    op = S.str('operation')
    c = S.float('credits', 0, None, soft=30)
    S.interest(op)
    t, met, ch = throttler(S, [(op, c)])
    a = S.new(Account)

    def balanced():
        return S.And(a.spent >= 0, S.approx(S.lookup(t.credits, op) + a.spent, c))
    S.candidate(balanced)
    S.candidate(lambda: S.lookup(t.credits, op) >= 0)

    def some_op():
        q = S.str('other')
        S.assume(S.Not(S.eq(q, op)))
        return S.choose('whose', [('ours', lambda: op), ('other', lambda: q)])
    S.run(ask, t, a, op, S.newlist([S.seg('requests', some_op)]))
    S.check('allowed requests and the credit left add up to the credit granted', balanced())
    S.check('never more than granted', S.Or(S.lookup(t.credits, op) >= 0, S.approx(S.lookup(t.credits, op), 0)))


def grant(S, op, v):
    return S.newdict([('operation', op), ('balance', v)])


def others(S, name, no):
    def gen():
        o = S.str('granted operation')
        for x in no:
            S.assume(S.Not(S.eq(o, x)))
        return grant(S, o, S.float('granted to another', 0, None))
    return S.seg(name, gen)


def deliver(S, t, fut):
    r = S.call(S.attr(t, '_request_callback'), fut)
    S.check('the callback does not raise', r.ok)
    S.check('the throttler is not left locked', S.unlocked(t))


@unit('C19')
def credits_granted(S):
    op, q = S.str('operation'), S.str('operation that is not listed')
    S.assume(S.Not(S.eq(op, q)))
    S.interest(op, q)
    known = S.choose('operation is', ['known', 'new'])
    c = amount(S, 'credits') if known == 'known' else 0
    t, met, ch = throttler(S, [(op, c)] if known == 'known' else [], no=[op])
    had = S.lookup(t.credits, q)
    v = amount(S, 'granted')
    l = [others(S, 'before', [op, q]), grant(S, op, v), others(S, 'after', [op, q])]
    total = c + v
    if S.choose('listed twice', [False, True]):
        w = S.float('granted again')
        l += [grant(S, op, w), others(S, 'rest', [op, q])]
        total = total + w
    deliver(S, t, answer(S, S.newdict([('balances', S.newlist(l))])))
    S.check('exactly the granted amount is added', S.approx(S.lookup(t.credits, op), total))
    S.check('operations that are not listed are not affected', S.same(S.lookup(t.credits, q), had) if had is not S.MISSING else not S.has(t.credits, q))
    S.check('counted as success', S.items(met.log) == [(OK, 1)])


@unit('C19')
def failed_query(S):
    op = S.str('operation')
    S.interest(op)
    t, met, ch = throttler(S)
    n, had = S.len(t.credits), S.lookup(t.credits, op)
    deliver(S, t, bad_answer(S))
    S.check('counted as failure', S.items(met.log) == [(FAILED, 1)])
    S.check('no credits change', S.And(S.eq(S.len(t.credits), n), S.same(S.lookup(t.credits, op), had) if had is not S.MISSING else not S.has(t.credits, op)))


@unit('C19', runs=400)
def any_response(S):
    """any document (NaN is no JSON), arbitrary at any place"""
    op = S.str('operation')
    t, met, ch = throttler(S)
    kind = S.choose('document', ['no object', 'no list', 'list'])
    if kind == 'no object':
        doc = anyjson(S, 'document', kinds=('null', 'bool', 'int', 'float', 'str', 'list'), nan=False)
    elif kind == 'no list':
        doc = anyobject(S, 'document', entries=[('balances', anyjson(S, 'balances', 1, kinds=('null', 'float', 'str', 'object'), nan=False))])
    else:
        bad = S.choose('element', [('any', lambda: anyjson(S, 'element', 2, nan=False)), ('no amount', lambda: S.newdict([('operation', op)])),
                                   ('kinds', lambda: grant(S, S.choose('key', [('text', lambda: op), ('null', lambda: None), ('list', lambda: S.newlist()), ('number', lambda: 5)]),
                                                           anyjson(S, 'amount', 2, nan=False)))])
        doc = S.newdict([('balances', S.newlist([others(S, 'before', []), bad, others(S, 'after', [])]))])
    deliver(S, t, answer(S, doc))
    S.check('counted once, as success or failure', S.items(met.log) in ([(OK, 1)], [(FAILED, 1)]))
    S.check('a document without a list of balances is a failure', kind == 'list' or S.items(met.log) == [(FAILED, 1)] or kind == 'no list')


@unit('C19')
def client_id(S):
    t, met, ch = throttler(S)
    a, b = S.int('client id', 0), S.int('another client id', 0)
    S.run(t.set_client_id, a)
    S.run(t.set_client_id, b)
    S.check('the first client id is kept', S.same(t.client_id, a))


@unit('C19')
def refresh(S):
    op, new = S.str('operation'), S.str('operation seen later')
    S.assume(S.Not(S.eq(op, new)))
    S.interest(op, new)
    loop = Loop(S)
    every = S.float('refresh interval', 0, None, lo_open=True)
    known = S.choose('operations', ['none', 'some'])
    t, met, ch = throttler(S, io_loop=loop, refresh_interval=every)
    S.setfield(t, 'credits', table(S, [(op, S.float('credits', 0, None))], no=[new]) if known == 'some' else S.newdict())
    cid = S.int('client id', 0)
    S.run(t.set_client_id, cid)
    S.check('nothing is requested by the constructor', S.And(S.len(ch.asked) == 0, S.len(loop.soon) == 1))
    S.run(S.items(loop.soon)[0])
    (delay, poll), = S.items(loop.later)
    S.check('the first refresh happens within the interval', S.And(delay >= 0, delay <= every))
    S.run(poll)
    check_request(S, t, ch, 0, known, cid, op)
    S.check('then periodically', S.And(t.periodic.is_running(), S.approx(t.periodic.callback_time, every * 1000)))
    n0 = 1 if known == 'some' else 0
    S.run(t.is_allowed, new)
    S.run(t.periodic.callback)
    S.check('another request', S.len(ch.asked) == n0 + 1)
    check_request(S, t, ch, n0, 'some', cid, new)
    if known == 'some':
        S.check('the first request is not affected by operations seen later', S.Not(S.some(S.items(ch.asked)[0][2], lambda x: S.eq(x, new))))
    S.run(t.close)
    S.check('closing ends it', not t.periodic.is_running())


def check_request(S, t, ch, i, known, cid, op):
    asked = S.items(ch.asked)
    if known == 'none':
        S.check('nothing is requested while no operation has been seen', len(asked) == 0)
        return
    S.check('credits are requested', len(asked) == i + 1)
    service, uuid, ops = asked[i]
    S.check('for this service and client', S.And(S.same(service, t.service_name), S.same(uuid, cid)))
    S.check('for every operation seen', S.And(S.some(ops, lambda x: S.eq(x, op)), S.eq(S.len(ops), S.len(t.credits))))
    S.check('and only for those', S.every(ops, lambda x: S.has(t.credits, x)))


@unit('C19')
def refresh_after_close(S):
    loop = Loop(S)
    t, met, ch = throttler(S, io_loop=loop)
    when = S.choose('closed', ['before the first callback', 'before the first refresh'])
    if when == 'before the first callback':
        S.run(t.close)
        S.run(S.items(loop.soon)[0])
        S.check('no refresh is scheduled', S.len(loop.later) == 0)
    else:
        S.run(S.items(loop.soon)[0])
        S.run(t.close)
        S.run(S.items(loop.later)[0][1])
        S.check('no periodic refresh is started', t.periodic is None)


@unit('C19')
def answers_are_delivered(S):
    """the answer to a request reaches the credits"""
    op = S.str('operation')
    c = S.float('credits', 0, None)
    loop = Loop(S)
    t, met, ch = throttler(S, [(op, c)], io_loop=loop)
    S.run(S.items(loop.soon)[0])
    S.run(S.items(loop.later)[0][1])
    fut, = S.items(ch.futures)
    cb, = S.items(fut.callbacks)
    v = S.float('granted')
    S.run(cb, answer(S, S.newdict([('balances', S.newlist([grant(S, op, v)]))])))
    S.check('the granted credits are added', S.approx(S.lookup(t.credits, op), c + v))


@unit('C19')
def request(S):
    """the request names the service, the client and each operation, whatever characters they have"""
    port, service, cid = S.int('port', 1, 65535), S.str('service', utf8=True), S.int('client id', 0)
    ch, host, http = agent(S, S.int('sampling port', 1, 65535), port)
    op = S.str('operation', utf8=True)

    def other():
        return S.str('other operation', utf8=True)
    ops = S.newlist([S.seg('operations before', other), op, S.seg('operations after', other)])
    f = S.run(ch.request_throttling_credits, service, cid, ops)
    (url, g), = S.items(http.log)
    S.check('its answer is what is returned', f is g)
    query = check_url(S, url, host, port, 'credits', ([('service', service), ('uuid', cid if S.sym else str(cid))], S.len(ops)))
    S.check('each operation', S.some(query, lambda e: S.And(S.eq(e[0], 'operations'), S.eq(e[1], op))))

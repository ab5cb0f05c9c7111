"""C24: closing the reporter flushes everything"""
import tornado.queues

from clients import closing
from contracts import _callees  # noqa: F401
from contracts._tracer import make_tracer
from contracts.c23_reporter import Channel, Errors, Loop, Sums, callback, consumer, reporter
from jaeger_client import ioloop_util
from jaeger_client.reporter import CompositeReporter
from pyvc.core import ModelObj
from pyvc.harness import unit


class Unforeseen(Exception):
    """one that no code knows of"""


class Queue(ModelObj):
    """join completes or not, like put"""
    def __init__(self, S, r, put, join):
        self.S, self.r = S, r
        self.how = {'put': put, 'join': join}
        self.signals = S.newlist()
        self.joins = 0
        self.tail = None

    def _future(self, what):
        return self.S.future() if self.how[what] == 'done' else self.S.pending()

    def put(self, x):
        self.S.check('stopped before the stop signal is put', S_dropping(self.S, self.r))
        self.signals.append(x)
        return self._future('put')

    def put_nowait(self, x):
        self.S.check('nothing is put after closing', False)

    def join(self):
        self.joins = self.joins + 1
        return self._future('join')

    def qsize(self):
        return 0


def S_dropping(S, r):
    """a span reported now is dropped"""
    met = r.metrics_factory
    n = met.dropped
    S.run(r.report_span, S.opaque('late span'))
    fn, args = S.items(r.io_loop.soon)[-1]
    S.run(fn, *args)
    return S.eq(met.dropped, n + 1)


@unit('C24')
def close(S):
    """any number of close calls: one stop signal; every future completes when everything was taken off the queue, not earlier"""
    r, met, loop = reporter(S)
    put, join = S.choose('put', ['done', 'pending']), S.choose('join', ['done', 'pending'])
    q = Queue(S, r, 'done', join)
    q.how['put'] = put
    S.setfield(r, 'queue', q)
    calls = S.choose('close calls', [1, 2, 3])
    for k in range(calls):
        out = S.call(r.close)
        S.check('close never raises', out.ok)
        f = out.value
        S.check('nothing happens outside of the loop', S.Not(f.done()))
        fn, args = S.items(loop.soon)[-1]
        out = S.call(fn, *args)
        S.check('the callback never raises', out.ok)
        S.settle()
        if join == 'pending' or put == 'pending' and k == 0:
            S.check('not complete before everything was taken off the queue', S.Not(f.done()))
        else:
            S.check('complete then', f.done())
            S.check('without an error', f.exception() is None)
        S.check('one stop signal', S.eq(S.len(q.signals), 1))
        S.check('waits for the queue each time', S.eq(q.joins, k + 1 - (1 if put == 'pending' else 0)))
    S.check('later spans are dropped', S_dropping(S, r))


unit('C24', 'consumer stops', uses=('make_batch',))(consumer)


@unit('C24')
def submit(S):
    """the future that submit returns gets the result or the exception of the function, once that is there"""
    loop = Loop(S)
    value = S.opaque('value')
    cls = S.choose('exception', [ValueError, OSError, TimeoutError, LookupError, Unforeseen])
    kind = S.choose('the function', ['returns', 'raises', 'future done', 'future failed', 'future done later', 'future failed later'])
    later = S.pending()
    seen = S.newlist()

    def fn(*args, **kw):
        seen.append((args, kw))
        if kind == 'raises':
            S.raise_(cls, 'failed')
        return {'returns': value, 'future done': S.future(value), 'future failed': S.future(exc=cls)}.get(kind, later)
    a, b = S.opaque('argument'), S.opaque('keyword argument')
    f = S.run(ioloop_util.submit, fn, loop, a, key=b)
    S.check('the function runs on the loop only', S.And(S.eq(S.len(seen), 0), S.eq(S.len(loop.soon), 1), S.Not(f.done())))
    out = S.call(callback, S, loop, 0)
    S.check('nothing escapes into the loop', out.ok)
    S.settle()
    S.check('called once', S.eq(S.len(seen), 1))
    args, kw = S.items(seen)[0]
    S.check('with its arguments', S.And(S.is_(args[0], a), S.is_(kw['key'], b)))
    if kind in ('future done later', 'future failed later'):
        S.check('not before the function has finished', S.Not(f.done()))
        if kind == 'future done later':
            later.set_result(value)
        else:
            later.set_exception(S.run(cls, 'failed'))
        S.settle()
    S.check('completes', f.done())
    if kind in ('returns', 'future done', 'future done later'):
        S.check('with the result', S.And(f.exception() is None, S.is_(f.result(), value)))
    else:
        S.check('with the exception', S.isinstance(f.exception(), cls))


@unit('C24')
def tracer_close(S):
    """closing a tracer closes its sampler and its reporter, once each, and returns the future of the reporter"""
    tr, rep, smp = make_tracer(S)[:3]
    fut = S.pending()
    n = S.newlist()

    def closing_reporter():
        n.append('reporter')
        return fut
    S.setfield(rep, 'close', closing_reporter)
    S.setfield(smp, 'close', lambda: n.append('sampler'))
    out = S.call(tr.close)
    S.check('never raises', out.ok)
    S.check('the future of the reporter', S.is_(out.value, fut))
    S.check('each closed once', S.And(S.eq(S.len(n), 2), S.in_order(n, [lambda x: S.eq(x, 'sampler')]), S.in_order(n, [lambda x: S.eq(x, 'reporter')])))


class Members(ModelObj):
    """how many members have closed"""
    def __init__(self, S):
        self.S = S
        self.closed = 0
        self.asked = 0
        self.waiting = S.newlist()
        self.done = S.choose('a member ends', [('well', lambda: S.future(True)), ('with an error', lambda: S.future(None, exc=ValueError))])


class Later(ModelObj):
    """the future of a member: complete already, or completes later"""
    stateless = True

    def __init__(self, ms):
        self.ms = ms

    def add_done_callback(self, cb):
        ms = self.ms
        if ms.S.choose('member closes', ['at once', 'later']) == 'later':
            ms.waiting.append(cb)
        else:
            ms.closed = ms.closed + 1
            cb(ms.done)


class Member(ModelObj):
    def __init__(self, ms):
        self.ms = ms

    def close(self):
        self.ms.asked = self.ms.asked + 1
        return Later(self.ms)


@unit('C24', runs=300)
def composite(S):
    """complete exactly when all members, however many, have closed, in whatever order they do"""
    ms = Members(S)
    members = S.newlist([S.seg('members', lambda: Member(ms))])
    n = S.len(members)
    r = S.run(closing.composite, CompositeReporter, members)
    S.candidate(lambda: S.And(True, *[S.Iff(f.done(), S.eq(ms.closed, n)) for f in S.futures() if f is not ms.done]))
    S.candidate(lambda: S.And(True, *[S.Iff(f.done(), S.And(S.eq(ms.closed, n), n > 0)) for f in S.futures() if f is not ms.done]))
    S.candidate(lambda: S.eq(S.len(ms.waiting) + ms.closed, ms.asked))
    out = S.call(r.close)
    S.check('never raises', out.ok)
    f = out.value
    S.check('every member is closed once', S.eq(ms.asked, n))
    S.check('complete at once only if all members are', S.Iff(f.done(), S.eq(ms.closed, n)))

    def before():
        S.check('not complete before all members have closed', S.Not(f.done()))
        ms.closed = ms.closed + 1
    S.run(closing.complete, ms.waiting, before, ms.done)
    S.check('complete when all members have closed', f.done())
    S.check('without an error', f.exception() is None)


class Counted(Member):
    """a member that knows how often it was closed"""
    def __init__(self, ms):
        self.ms = ms
        self.times = 0

    def close(self):
        self.times = self.times + 1
        return super().close()


@unit('C24', runs=300)
def composite_of_repeated_members(S):
    """a member given several times, among however many others, counts as often"""
    ms = Members(S)
    h = Counted(ms)
    members = S.newlist([h, S.seg('members between', lambda: Member(ms)), h, S.seg('members after', lambda: Member(ms))])
    n = S.len(members)
    r = S.run(closing.composite, CompositeReporter, members)
    S.candidate(lambda: S.And(True, *[S.Iff(f.done(), S.eq(ms.closed, n)) for f in S.futures() if f is not ms.done]))
    S.candidate(lambda: S.eq(S.len(ms.waiting) + ms.closed, ms.asked))
    S.candidate(lambda: S.eq(h.times, 1))
    f = S.run(r.close)
    S.check('it is closed as often as it is a member', S.And(S.eq(h.times, 2), S.eq(ms.asked, n)))
    S.check('complete at once only if all members are', S.Iff(f.done(), S.eq(ms.closed, n)))

    def before():
        S.check('not complete before all members have closed', S.Not(f.done()))
        ms.closed = ms.closed + 1
    S.run(closing.complete, ms.waiting, before, ms.done)
    S.check('complete when all members have closed', f.done())

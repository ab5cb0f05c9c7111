"""C28: errors are logged at most once per interval"""
from clients.errors import report
from jaeger_client.utils import ErrorReporter
from pyvc.core import ModelObj
from pyvc.harness import unit


class Log(ModelObj):
    """a logger, and when it last got an error"""
    def __init__(self, S):
        self.S = S
        self.now = 0
        self.last = 0
        self.got = None

    def error(self, *args):
        self.got = args
        self.last = self.now


@unit('C28', runs=400)
def history(S):
    """any number of errors at any times, by induction over a client's loop"""
    log = Log(S)
    t0 = S.float('created', 1, None, soft=1e9)
    S.set_time(t0)
    minutes = S.choose('minutes', [('default', lambda: None), ('int', lambda: S.int('minutes', 0, None, soft=10000)), ('float', lambda: S.float('minutes', 0, None, soft=1e4))])
    er = S.new(ErrorReporter, None, log) if minutes is None else S.new(ErrorReporter, S.opaque('metrics'), logger=log, log_interval_minutes=minutes)
    interval = (15 if minutes is None else minutes) * 60
    log.now = log.last = t0

    def before(gap):
        log.now = log.now + gap
        S.set_time(log.now)
        log.got = None
        log.prev = log.last

    def after(what):
        S.assume(S.Not(S.blurred(log.now - log.prev, interval)))
        logged = log.got is not None
        S.check('logged exactly when more than the interval has passed since the last logged error', S.Iff(logged, log.now - log.prev > interval))
        if logged:
            S.check('with its arguments', S.And(len(log.got) == len(what), *[S.is_(a, b) for a, b in zip(log.got, what)]))
    log.prev = t0
    for f in S.fields(er):
        S.candidate(lambda f=f: S.same(S.attr(er, f), log.last))
        S.candidate(lambda f=f: S.eq(S.attr(er, f), log.last + interval))

    def event():
        n = S.choose('arguments', [1, 2, 3])
        return S.float('gap', 0, None, soft=2e3), tuple(S.opaque('argument') for _ in range(n))
    S.run(report, er, before, after, S.newlist([S.seg('errors', event)]))


@unit('C28')
def without_logger(S):
    """nothing is done without a logger, at any time"""
    S.set_time(S.float('created', 0, None, soft=1e9))
    er = S.new(ErrorReporter, None)
    st = S.snap(er)
    S.set_time(S.float('now', 0, None))
    out = S.call(er.error, 'message', S.opaque('argument'))
    S.check('an error without a logger is ignored', S.And(out.ok, S.unchanged_fields(er, st)))


@unit('C28')
def reporters_do_not_share_their_interval(S):
    """neither the creation nor the errors of another reporter count"""
    a, b = Log(S), Log(S)
    S.set_time(0.0)
    one = S.new(ErrorReporter, None, a, 1)
    S.set_time(50.0)
    two = S.new(ErrorReporter, None, b, 1)
    S.set_time(61.0)
    if S.choose('first', ['one', 'two']) == 'one':
        S.run(one.error, 'x')
        S.run(two.error, 'y')
    else:
        S.run(two.error, 'y')
        S.run(one.error, 'x')
    S.check('the interval of the first has passed', a.got == ('x',))
    S.check('that of the second has not', b.got is None)
    S.set_time(111.0)
    S.run(two.error, 'z')
    S.check('now it has', b.got == ('z',))

"""C25: local reporters deliver every span once and in order"""
from clients import reporting
from jaeger_client.reporter import CompositeReporter, InMemoryReporter, LoggingReporter, NullReporter
from pyvc.core import ModelObj
from pyvc.harness import unit


class Calls(ModelObj):
    """calls of members so far"""
    def __init__(self, S, what, want):
        self.S = S
        self.n = 0
        self.what, self.want = what, want


class Member(ModelObj):
    def __init__(self, calls):
        self.calls = calls

    def called(self, what, *args):
        c, S = self.calls, self.calls.S
        S.check('the same call with the same arguments', what == c.what and len(args) == len(c.want) and S.And(*[S.is_(a, b) for a, b in zip(args, c.want)]))
        c.n = c.n + 1

    def report_span(self, span):
        self.called('span', span)

    def set_process(self, service_name, tags, max_length):
        self.called('process', service_name, tags, max_length)


class One(Member):
    def __init__(self, calls):
        self.calls = calls
        self.n = 0
        self.at = 0

    def called(self, what, *args):
        self.n = self.n + 1
        self.at = self.calls.n
        Member.called(self, what, *args)


@unit('C25')
def composite(S):
    """any number of members; one of them, anywhere among them, is singled out"""
    what = S.choose('what', ['span', 'process'])
    args = [S.opaque('span')] if what == 'span' else [S.str('service name'), S.dict('tags', key=lambda: S.str('k'), val=lambda: S.str('v')), S.int('max length', 1, 10000)]
    calls = Calls(S, what, args)
    one = One(calls)
    twice = Member(calls)

    def member():
        # replays also take the same member several times
        return twice if not S.sym and S.choose('member', ['new', 'given before']) == 'given before' else Member(calls)
    before = S.newlist([S.seg('members before', member)])
    after = S.newlist([S.seg('members after', member)])
    n = S.len(before)
    some = S.choose('members', ['none', 'some'])
    ms = S.newlist([] if some == 'none' else S.parts(before) + [one] + S.parts(after))
    r = S.run(reporting.composite, CompositeReporter, ms)
    out = S.call(r.report_span if what == 'span' else r.set_process, *args)
    S.check('never raises', out.ok)
    S.check('one call for each member', S.eq(calls.n, S.len(ms)))
    if some == 'some':
        S.check('each member is called once', S.eq(one.n, 1))
        S.check('in the order of the members', S.eq(one.at, n))


@unit('C25')
def in_memory(S):
    """any number of reports before and after the list is taken, by induction over a client's loop"""
    r = S.new(InMemoryReporter)
    S.check('empty at first', S.eq(S.len(S.run(r.get_spans)), 0))
    src = S.item_source(lambda: 0, lambda i: i)
    n1, n2 = S.int('early spans', 0, None, soft=20), S.int('late spans', 0, None, soft=20)
    S.run(reporting.feed, r, src, n1)
    got = S.run(r.get_spans)
    S.check('all reported spans in order', S.numbered(got, src, int, 0, n1))
    S.run(reporting.feed, r, src, n2)
    S.check('a list taken earlier stays', S.numbered(got, src, int, 0, n1))
    got.append(S.opaque('something else'))
    again = S.run(r.get_spans)
    S.check('and changing it changes nothing', S.numbered(again, src, int, 0, n1 + n2))
    again.append(S.opaque('something else'))
    S.check('again', S.numbered(S.run(r.get_spans), src, int, 0, n1 + n2))
    S.check('the lock is released', S.unlocked(r))


class Logger(ModelObj):
    def __init__(self, S):
        self.log = S.newlist()

    def info(self, *args):
        self.log.append(args)

    def debug(self, *args):
        self.log.append(args)

    warning = error = debug


@unit('C25')
def logging(S):
    """each span is logged once"""
    lg = Logger(S)
    r = S.new(LoggingReporter, lg)
    span = S.opaque('span')
    other = S.opaque('other span')
    S.run(r.report_span, other)
    S.check('one record', S.eq(S.len(lg.log), 1))
    S.run(r.report_span, span)
    S.check('one record each', S.eq(S.len(lg.log), 2))
    S.check('of the span', S.some(S.newlist(list(S.items(lg.log)[1])), lambda a: S.is_(a, span)))


@unit('C25')
def null(S):
    """nothing happens"""
    r = S.new(NullReporter)
    st = S.snap(r)
    out = S.call(r.report_span, S.opaque('span'))
    S.check('a span is ignored', S.And(out.ok, S.unchanged_fields(r, st)))
    out = S.call(r.set_process, S.str('service'), S.newdict(), S.int('max length', 1, 1000))
    S.check('a process is ignored', S.And(out.ok, S.unchanged_fields(r, st)))
    f = S.run(r.close)
    S.check('closing is complete at once', S.And(f.done(), f.exception() is None))


class Empty(Member):
    """a member that is false"""
    def __len__(self):
        return 0


@unit('C25')
def composite_of_false_members(S):
    """members that are false are members"""
    what = S.choose('what', ['span', 'process'])
    args = [S.opaque('span')] if what == 'span' else ['service', S.newdict(), 10]
    calls = Calls(S, what, args)
    ms = S.newlist([S.choose('member %d' % i, [('true', lambda: Member(calls)), ('false', lambda: Empty(calls))]) for i in range(2)])
    r = S.run(reporting.composite, CompositeReporter, ms)
    S.run(r.report_span if what == 'span' else r.set_process, *args)
    S.check('one call for each', S.eq(calls.n, 2))

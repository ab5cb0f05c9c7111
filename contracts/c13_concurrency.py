"""C13: a span is reported at most once, by the first finish; C14: baggage isolation, no lost updates.

The proofs about threads are rely/guarantee: everything another thread may do happens at every acquisition of the span's lock
and at every read of a shared field without it (rely); every write of a shared field happens under the lock and keeps what
the others rely on (guarantee)."""
import opentracing
from opentracing import Reference, ReferenceType

from contracts import _callees  # noqa: F401
from contracts._common import M64, M128
from contracts._tracer import Scopes, baggage, context, make_tracer, perhaps_finished
from contracts.c11_span import CALLS, do_call, some_span, with_history
from jaeger_client import thrift
from jaeger_client.span import Span
from jaeger_client.span_context import SpanContext
from pyvc.harness import unit


class Interference(object):
    """runs effect() wherever other threads may act on the span, and records writes"""
    def __init__(self, S, span, shared):
        self.S, self.span, self.shared = S, span, shared
        self.on = False
        self.over = False
        self.locks = S.locks(span)
        self.writes = []
        S.hook('getfield', self.read)
        S.hook('setfield', self.write)
        S.hook('acquire', self.acquired)
        S.hook('release', self.released)

    def held(self):
        return any(l.held for l in self.locks)

    def quiet(self, fn, *a):
        was, self.on = self.on, False
        try:
            return fn(*a)
        finally:
            self.on = was

    def is_shared(self, o, name):
        return o is self.span and name in self.shared

    def read(self, o, name):
        if self.on and not self.over and self.is_shared(o, name) and not self.held():
            self.quiet(self.effect)

    def acquired(self, lock):
        if self.on and not self.over and any(l is lock for l in self.locks):
            self.quiet(self.effect)
            self.quiet(self.enter)

    def released(self, lock):
        if self.on and not self.over and any(l is lock for l in self.locks):
            self.quiet(self.leave)

    def write(self, o, name, v):
        if self.on and not self.over and self.is_shared(o, name):
            self.writes.append((name, v))
            self.S.check('shared fields are written only under the lock of the span', self.held())
            self.quiet(self.wrote, name, v)

    def effect(self):
        pass

    def enter(self):
        pass

    def leave(self):
        pass

    def wrote(self, name, v):
        pass


class OthersFinish(Interference):
    """other threads may finish the span at any time"""
    first = None

    def effect(self):
        S, sp = self.S, self.span
        if S.case(S.Not(sp.finished)) and S.choose('another thread finishes', [False, True]):
            S.setfield(sp, 'finished', True)
            S.setfield(sp, 'end_time', S.float('end time of another thread', 0, None))

    def enter(self):
        self.first, self.end = self.span.finished, self.span.end_time

    def wrote(self, name, v):
        S = self.S
        if name == 'finished':
            S.check('finished is never cleared', S.eq(v, True))
        else:
            S.check('only the first finish changes the end time', S.Or(S.Not(self.first), S.same(v, self.end)))

    def leave(self):
        S, sp = self.S, self.span
        S.check('a finished span has an end time', S.Implies(sp.finished, sp.end_time is not None))
        S.check('the first finish marks the span', S.Implies(S.Not(self.first), sp.finished))


def finish_time(S, name='finish time'):
    return S.choose(name, [('none', lambda: None), ('some', lambda: S.float(name, 0, None))])


def is_end_time(S, t, ft):
    return S.same(t, ft) if ft is not None else S.Or(False, *[S.same(t, x) for x in S.readings()])


@unit('C13', conc=False)
def finish_among_others(S):
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, S.bor(S.int('flags', 0, 255), 1))
    if S.choose('already finished', [False, True]):
        S.setfield(sp, 'finished', True)
        S.setfield(sp, 'end_time', S.float('end time', 0, None))
    ft = finish_time(S)
    n0 = len(S.readings())
    env = OthersFinish(S, sp, ('finished', 'end_time'))
    env.on = True
    S.run(sp.finish, ft)
    env.on = False
    S.check('the lock is free again', not env.held())
    S.check('the lock was taken', env.first is not None)
    if S.case(env.first):
        S.check('a later finish does not report', S.eq(S.len(rep.log), 0))
        S.check('a later finish does not count', S.eq(S.len(met.log), 0))
    else:
        S.check('the first finish reports the span once', S.same_list(rep.log, [sp]))
        S.check('after the end time has been set', S.And(rep.seen[0][0] is True, is_end_time(S, rep.seen[0][1], ft)))
        S.check('the end time is the given or the current one', is_end_time(S, sp.end_time, ft))
        S.check('the finished-span counter is incremented once', S.same_list(met.log, [('jaeger:finished_spans', 1)]))


class NobodyFinishes(Interference):
    def wrote(self, name, v):
        self.S.check('only finish marks a span or sets its end time', False)


@unit('C13', uses=('make_tag',), conc=False)
def nothing_else_finishes(S):
    """frame: no other operation writes the two fields"""
    what = S.choose('call', [c for c in CALLS if c not in ('finish', 'exit with error')] + ['child', 'batch', 'inject', 'set sampling.priority'])
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, S.bor(S.int('flags', 0, 255), 1))
    done = S.choose('finished', [False, True])
    if done:
        S.setfield(sp, 'finished', True)
    S.setfield(sp, 'end_time', S.float('end time', 0, None))
    end = sp.end_time
    env = NobodyFinishes(S, sp, ('finished', 'end_time'))
    env.on = True
    if what == 'child':
        S.run(tr.start_span, 'child', child_of=sp)
    elif what == 'batch':
        S.run(thrift.make_jaeger_batch, [sp], None)
    elif what == 'inject':
        S.run(tr.inject, sp, 'text_map', S.newdict())
    elif what == 'set sampling.priority':
        S.run(sp.set_tag, 'sampling.priority', S.int('priority'))
    else:
        do_call(S, what, sp)
    env.on = False
    S.check('finished is as before', S.And(S.eq(sp.finished, done), S.same(sp.end_time, end)))
    S.check('nothing is reported', S.eq(S.len(rep.log), 0))


@unit('C13')
def finish_again(S):
    """any number of finish calls in a row: the induction step"""
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, S.bor(S.int('flags', 0, 255), 1))
    f1, f2 = finish_time(S, 'first'), finish_time(S, 'second')
    fails = S.choose('reporter', ['works', 'raises']) == 'raises'
    if fails:
        works = rep.report_span

        def failing(span):
            works(span)
            S.raise_(IOError, 'no')
        S.setfield(rep, 'report_span', failing)
    S.call(sp.finish, f1) if f1 is not None else S.call(sp.finish)
    e = sp.end_time
    S.check('the end time of the first finish', is_end_time(S, e, f1))
    S.check('finished', sp.finished is True)
    how = S.choose('how', ['finish', 'exit'])
    if how == 'finish':
        S.call(sp.finish, finish_time=f2)
    else:
        S.call(S.attr(sp, '__exit__'), None, None, None)
    S.check('reported once, with its end time', S.And(S.same_list(rep.log, [sp]), S.same(rep.seen[0][1], e)))
    S.check('the end time stays', S.same(sp.end_time, e))
    S.check('counted once', S.len(met.log) <= 1 if fails else S.eq(S.len(met.log), 1))


@unit('C13')
def finish_while_unsampled(S):
    """a finish of a span that is not sampled leaves no trace: when the span is sampled later, its first finish then reports it"""
    flags = S.int('flags', 0, 255)
    S.assume(S.eq(S.band(flags, 3), 0))
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, flags)
    S.run(sp.finish, finish_time(S, 'first'))
    S.check('an unsampled span is not reported', S.And(S.eq(S.len(rep.log), 0), S.eq(S.len(met.log), 0)))
    S.run(sp.set_tag, 'sampling.priority', 1)
    ft = finish_time(S, 'second')
    S.run(sp.finish, ft)
    S.check('reported once sampled', S.same_list(rep.log, [sp]))
    S.check('the end time is the given or the current one', is_end_time(S, sp.end_time, ft))
    S.check('counted once', S.same_list(met.log, [('jaeger:finished_spans', 1)]))


@unit('C13', sym=False, runs=300)
def finish_in_threads(S):
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, S.int('flags', 0, 255) | 1)
    n = S.int('threads', 2, 3)
    times = [S.float('time %d' % i, 0, None) for i in range(n)]
    fns = [lambda t=t: sp.finish(t) for t in times]
    if S.bool('other thread'):
        fns.append(lambda: sp.log_kv({'a': 1}))
    S.threads(fns)
    S.check('exactly one finish reports the span', S.same_list(rep.log, [sp]))
    S.check('after its end time was set', S.And(rep.seen[0][0] is True, S.same(rep.seen[0][1], sp.end_time)))
    S.check('the end time is that of one of them', sp.end_time in times)
    S.check('counted once', S.eq(S.len(met.log), 1))


# ---------------------------------------------------------------- C14
def value(S, name='value'):
    return S.choose(name + '?', [('none', lambda: None), ('some', lambda: S.str(name))])


def check_update(S, bag, key, val, had, q, n0, had_key):
    """bag is the old baggage with key set to val (None: removed); q is any other key"""
    if val is not None:
        S.check('the item is set', S.same(S.lookup(bag, key), val))
    else:
        S.check('the item is removed', S.lookup(bag, key) is S.MISSING)
    now = S.lookup(bag, q)
    S.check('all other items are kept', now is S.MISSING if had is S.MISSING else S.same(now, had))
    S.check('number of items', S.eq(S.len(bag), n0 + (1 if val is not None else 0) - (1 if had_key else 0)))


@unit('C14')
def names_close_to_one_another(S):
    """names that differ by case or outer spaces only are different items"""
    tr, rep, smp, met = make_tracer(S)
    sp = S.new(Span, S.new(SpanContext, 1, 2, None, 1), tr, 'op', start_time=1.0)
    names = S.choose('names', [('key', 'Key'), ('Key', 'key'), ('k', 'k '), ('k', ' k'), ('', ' '), ('a-b', 'a_b'), ('KEY', 'key')])
    for n, v in zip(names, 'xy'):
        S.run(sp.set_baggage_item, n, v)
    S.check('each has its value', S.And(*[S.same(S.lookup(sp.context.baggage, n), v) for n, v in zip(names, 'xy')]))
    S.run(sp.set_baggage_item, names[1], None)
    S.check('the other one stays', S.And(S.eq(S.len(sp.context.baggage), 1), S.same(S.lookup(sp.context.baggage, names[0]), 'x')))


@unit('C14')
def many_items_are_copied(S):
    """however many there are"""
    tr, rep, smp, met = make_tracer(S)
    n = S.choose('items', [1, 4, 7, 8, 9, 16, 33, 64])
    bag = S.newdict([('k%d' % i, 'v') for i in range(n)])
    p = S.new(Span, S.new(SpanContext, 1, 2, None, 0, bag), tr, 'op', start_time=1.0)
    c = S.run(tr.start_span, 'c', child_of=p)
    old = c.context
    for sp, others in ((c, (p, old)), (p, ())):
        S.run(sp.set_baggage_item, 'new', 'w')
        for o in others:
            S.check('no other context changes', S.And(S.eq(S.len(o.baggage if o is old else o.context.baggage), n), S.eq(S.len(old.baggage), n)))
    S.check('both have the item', S.And(S.eq(S.len(c.context.baggage), n + 1), S.eq(S.len(p.context.baggage), n + 1)))


@unit('C14')
def set_baggage_item(S):
    bag, bk, bv = baggage(S)
    tr, rep, smp, met = make_tracer(S)
    old = context(S, bag=bag)
    sp = perhaps_finished(S, S.new(Span, old, tr, 'op', start_time=S.float('start', 0, None)))
    t0, l0 = S.parts(sp.tags), S.parts(sp.logs)
    key = bk if S.choose('key', ['new', 'existing']) == 'existing' else S.str('key')
    q = S.str('other key')
    S.assume(S.Not(S.eq(q, key)))
    S.interest(key, q, bk)
    had, prev, n0 = S.lookup(old.baggage, q), S.lookup(old.baggage, key), S.len(old.baggage)
    so = S.snap(old)
    val = value(S)
    r = S.run(sp.set_baggage_item, key, val)
    S.check('returns the span', r is sp)
    new = sp.context
    check_update(S, new.baggage, key, val, had, q, n0, prev is not S.MISSING)
    S.check('ids and flags are kept', S.And(S.same(new.trace_id, old.trace_id), S.same(new.span_id, old.span_id),
                                            S.same(new.parent_id, old.parent_id), S.same(new.flags, old.flags)))
    S.check('the context obtained earlier is unchanged', S.And(S.unchanged_fields(old, so), S.eq(S.len(old.baggage), n0)))
    x = S.lookup(old.baggage, key)
    S.check('its item too', x is S.MISSING if prev is S.MISSING else S.same(x, prev))
    S.check('the shared empty baggage stays empty', S.eq(S.len(S.attr(opentracing.SpanContext, 'EMPTY_BAGGAGE')), 0))
    got = S.run(sp.get_baggage_item, key)
    S.check('the item can be read back', S.same(got, val))
    child = S.run(tr.start_span, 'child', child_of=S.choose('child of', [('span', lambda: sp), ('context', lambda: sp.context)]))
    S.check('later children inherit it', S.lookup(child.context.baggage, key) is S.MISSING if val is None else
            S.same(S.lookup(child.context.baggage, key), val))
    S.check('no tag', S.grown(t0, sp.tags) == [])
    logs = S.grown(l0, sp.logs)
    if S.case(S.eq(S.band(old.flags, 1), 1)):
        S.check('one log', logs is not None and len(logs) == 1)
        fs = S.attr(logs[0], 'fields')

        def field(k):
            return S.some(fs, lambda f: S.eq(f.key, k))
        S.check('the log names event and key', S.And(S.some(fs, lambda f: S.And(S.eq(f.key, 'event'), S.same(f.vStr, 'baggage'))),
                                                     S.some(fs, lambda f: S.And(S.eq(f.key, 'key'), S.same(f.vStr, S.cut(key, 1024))))))
        if val is not None:
            S.check('and value', S.some(fs, lambda f: S.And(S.eq(f.key, 'value'), S.same(f.vStr, S.cut(val, 1024)))))
        over = prev is not S.MISSING and S.case(S.Not(S.eq(prev, '')))
        S.check('override exactly when a non-empty value is replaced', S.And(S.Iff(field('override'), over), S.eq(S.len(fs), 4 if over else 3)))
        S.check('override is true', S.Or(not over, S.some(fs, lambda f: S.And(S.eq(f.key, 'override'), S.same(f.vStr, 'true')))))
    else:
        S.check('no log on an unsampled span', logs == [])


@unit('C14', shards=5)
def relatives_are_isolated(S):
    """parent, sibling and child of a span keep their baggage, whichever of them is updated"""
    who = S.choose('who', [0, 1, 2, 3, 4])
    bag, bk, bv = baggage(S)
    tr, rep, smp, met = make_tracer(S)
    pctx = S.new(SpanContext, S.int('trace_id', 1, M128), S.int('span_id', 1, M64), None, S.choose('flags', [0, 1]), bag)
    how = S.choose('parent is', ['span', 'context'])
    parent = perhaps_finished(S, S.new(Span, pctx, tr, 'parent', start_time=S.float('start', 0, None)))
    src = parent if how == 'span' else pctx
    a = S.run(tr.start_span, 'a', child_of=src)
    b = S.run(tr.start_span, 'b', references=S.newlist([S.new(Reference, ReferenceType.FOLLOWS_FROM, pctx)]))
    c = S.run(tr.start_span, 'c', child_of=a)
    root = S.run(tr.start_span, 'root', ignore_active_span=True)
    spans = [parent, a, b, c, root]
    key = bk if S.choose('key', ['new', 'existing']) == 'existing' else S.str('key')
    S.interest(key, bk)
    before = [S.lookup(s.context.baggage, key) for s in spans]
    lens = [S.len(s.context.baggage) for s in spans]
    S.run(spans[who].set_baggage_item, key, value(S))
    for i, s in enumerate(spans):
        if i != who:
            x = S.lookup(s.context.baggage, key)
            S.check('the others keep their baggage', S.And(x is S.MISSING if before[i] is S.MISSING else S.same(x, before[i]),
                                                           S.eq(S.len(s.context.baggage), lens[i])))
    S.check('the shared empty baggage stays empty', S.eq(S.len(S.attr(opentracing.SpanContext, 'EMPTY_BAGGAGE')), 0))


class OthersUpdate(Interference):
    """other threads may replace the context of the span (with the same ids) or change its flags"""
    base = None

    def effect(self):
        S, sp = self.S, self.span
        c = sp.context
        if S.choose('another thread updates', [False, True]):
            d = S.dict('baggage of another thread', key=lambda: S.str('bk'), val=lambda: S.str('bv'), entries=[(self.bk, S.str('item of another thread'))])
            S.setfield(sp, '_context', S.new(SpanContext, c.trace_id, c.span_id, c.parent_id, S.bor(S.int('other flags', 0, 255), 1), d))

    def enter(self):
        S, sp = self.S, self.span
        c = self.base = sp.context
        self.flags = c.flags
        self.had, self.prev = S.lookup(c.baggage, self.q), S.lookup(c.baggage, self.key)
        self.n = S.len(c.baggage)

    def is_shared(self, o, name):
        if o is self.span:
            return name in self.shared
        return isinstance(name, str) and name == 'flags' and self.S.isinstance(o, SpanContext)

    def wrote(self, name, v):
        if name == 'flags':
            self.S.check('the flags are those of the current context', self.target is self.span.context)

    def write(self, o, name, v):
        self.target = o
        if self.on and not self.over and o is not self.span and name == 'flags' and not self.S.same_object(o, self.quiet(lambda: self.span.context)):
            return      # a context under construction
        Interference.write(self, o, name, v)


@unit('C14', conc=False, uses=('make_tag',))
def update_among_others(S):
    """an update starts from the context that is current when it takes the lock, so that nothing is lost or reverted"""
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, S.choose('flags', [0, 1, 3]))
    env = OthersUpdate(S, sp, ('_context',))
    env.key, env.q, env.bk = S.str('key'), S.str('other key'), S.str('key of another thread')
    S.assume(S.Not(S.eq(env.q, env.key)))
    S.interest(env.key, env.q, env.bk)
    val = value(S)
    done = []

    def leave():
        if any(n == '_context' for n, v in env.writes):
            done.append(True)
            new = sp.context
            check_update(S, new.baggage, env.key, val, env.had, env.q, env.n, env.prev is not S.MISSING)
            S.check('flags changed concurrently are kept', S.same(new.flags, env.flags))
            S.check('ids are kept', S.And(S.same(new.trace_id, env.base.trace_id), S.same(new.span_id, env.base.span_id),
                                          S.same(new.parent_id, env.base.parent_id)))
            env.over = True      # nothing that follows writes the context: who_writes_the_context
    env.leave = leave
    env.on = True
    S.run(sp.set_baggage_item, env.key, val)
    env.on = False
    S.check('the update was made under the lock', done == [True])
    S.check('the lock is free again', not env.held())


@unit('C14', conc=False, uses=('make_tag',))
def who_writes_the_context(S):
    """frame and guarantee: the context is replaced by one write under the lock in set_baggage_item and by nothing else; its
    flags are written under the lock only"""
    what = S.choose('call', CALLS + ['child', 'set sampling.priority'])
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, S.choose('flags', [0, 1, 2, 3]))
    env = OthersUpdate(S, sp, ('_context',))
    env.effect = lambda: None
    env.enter = env.leave = lambda: None
    env.on = True
    if what == 'child':
        S.run(tr.start_span, 'child', child_of=sp)
    elif what == 'set sampling.priority':
        S.run(sp.set_tag, 'sampling.priority', S.int('priority'))
    else:
        do_call(S, what, sp)
    env.on = False
    S.check('writes of the context', len([n for n, v in env.writes if n == '_context']) == (1 if what == 'set_baggage_item' else 0))


@unit('C14', sym=False, runs=300)
def updates_in_threads(S):
    tr, rep, smp, met = make_tracer(S)
    sp = some_span(S, tr, S.choose('flags', [0, 1, 9]))
    f0 = sp.context.flags
    n = S.int('threads', 1, 3)
    items = [('k%d' % i, S.str('value')) for i in range(n)]
    S.run(sp.set_baggage_item, 'kept', 'x')
    fns = [lambda k=k, v=v: sp.set_baggage_item(k, v) for k, v in items]
    pr = S.choose('priority', [None, 0, 1])
    if pr is not None or n == 1:
        fns.append(lambda: sp.set_tag('sampling.priority', pr or 0))
    S.threads(fns)
    b = sp.context.baggage
    S.check('no update is lost', S.And(S.eq(S.len(b), n + 1), *[S.same(S.lookup(b, k), v) for k, v in items]))
    S.check('flags changed concurrently are kept', S.same(sp.context.flags, f0 if len(fns) == n else f0 | 3 if pr else f0 & ~3))

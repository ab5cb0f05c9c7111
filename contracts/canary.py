"""Contracts that are false of the code: the verifier must refute them, or it is not to be believed."""
from clients import pitfalls as P
from jaeger_client.codecs import span_context_from_string, span_context_to_string
from jaeger_client.sampler import ProbabilisticSampler
from pyvc.harness import unit


@unit('CANARY')
def canary_parent_is_never_none(S):
    v = S.str('value')
    r = S.call(span_context_from_string, v)
    if r.ok:
        S.check('parent id is a number', r.value[2] is not None)
    else:
        S.check('rejected', True)


@unit('CANARY')
def canary_sampler_compares_all_bits(S):
    s = S.new(ProbabilisticSampler, S.float('rate', 0, 1))
    t = S.int('trace_id', 0, (1 << 128) - 1)
    d, _ = S.run(s.is_sampled, t)
    S.check('a larger id is never sampled', S.Implies(t >= 1 << 64, S.Not(d)))


@unit('CANARY', runs=0, conc=False)
def canary_loops(S):
    """each statement named false: is false of the code and has to be refuted"""
    n, m = S.int('n', 0, 50), S.int('m', 0, 50)

    def pick():
        return S.choose('pick', [False, True])
    which = S.choose('which', list(range(45)))
    if which == 0:
        x, l = S.run(P.sometimes, n, pick)
        S.check('false: a count that grows sometimes grows always', S.eq(x, n))
        S.check('false: a list that grows sometimes grows always', S.eq(S.len(l), n))
        S.check('false: a count that grows sometimes never grows', S.eq(x, 0))
    if which == 1:
        S.check('false: the inner loop adds nothing', S.eq(S.run(P.batches, n, pick), 0))
    if which == 2:
        S.check('false: a list replaced at times is empty', S.eq(S.len(S.run(P.kept, n, pick)), 0))
    if which == 3:
        S.check('false: an alias does not change', S.eq(S.len(S.run(P.alias, n)), 0))
    if which == 4:
        S.check('true: an alias changes as well', S.eq(S.len(S.run(P.alias, n)), n))
    if which == 5:
        S.check('false: swapping changes nothing', S.eq(S.run(P.swap, n), 0))
    if which == 6:
        S.check('false: a closure changes nothing', S.eq(S.run(P.closure, n, pick), 0))
    if which == 7:
        S.check('false: a closure counts always', S.eq(S.run(P.closure, n, pick), n))
    if which == 8:
        b = S.run(P.attribute, n, pick)
        S.check('false: an attribute is not changed', S.eq(b.v, 0))
        S.check('false: an attribute changes always', S.eq(b.v, n + n))
        S.check('false: a list attribute is not changed', S.eq(S.len(S.attr(b, 'items')), 0))
    if which == 9:
        k = S.str('key')
        d = S.run(P.entries, S.newdict([(k, 0)]), S.list('keys', lambda: S.str('k')))
        S.check('false: an entry is not changed', S.eq(S.lookup(d, k), 0))
    if which == 10:
        S.check('false: all iterations happen before the exception', S.eq(S.run(P.escapes, n, pick), n))
    if which == 11:
        S.check('false: no iteration happens before the exception', S.eq(S.run(P.escapes, n, pick), 0))
    if which == 12:
        S.check('false: the loop is never left', S.eq(S.run(P.leaves, n, pick), -1))
    if which == 13:
        S.check('false: the loop is always left', S.run(P.leaves, n, pick) >= 0)
    if which == 14:
        S.check('false: one iteration', S.eq(S.run(P.flag, n, pick), 1))
    if which == 15:
        S.check('false: the flag is never seen', S.run(P.flag, n, pick) >= n)
    if which == 16:
        S.check('false: nested loops add nothing', S.eq(S.run(P.nested, n, m), 0))
    if which == 17:
        S.check('false: there is always a last element', S.run(P.last, S.list('items', lambda: S.int('item'))) is not None)
    if which == 18:
        o = S.run(P.inner_list, n, pick)
        S.check('false: the first inner list stays', S.eq(S.len(S.items(o)[0]), 0))
        S.check('false: the other inner list stays', S.eq(S.len(S.items(o)[1]), 0))
    if which == 19:
        a, b = S.run(P.handed_back, n, pick)
        S.check('false: the first list gets all', S.eq(S.len(a), n))
        S.check('false: the second list gets nothing', S.eq(S.len(b), 0))
    if which == 20:
        left, done = S.run(P.countdown, n, pick)
        S.check('true: what is left and what is done add up', S.eq(left + done, n))
        S.check('false: all is done', S.eq(done, n))
        S.check('false: nothing is done', S.eq(done, 0))
    if which == 21:
        left, done = S.run(P.uneven, n, pick)
        S.check('false: uneven steps add up', S.eq(left + done, n))
        S.check('false: uneven steps are even', S.eq(done, n))
    if which == 22:
        items, k = S.list('items', lambda: S.int('item')), S.int('k')
        r = S.run(P.filtered, items, k)
        S.check('false: a filter drops nothing', S.eq(S.len(r), S.len(items)))
        S.check('false: a filter drops everything', S.eq(S.len(r), 0))
        S.check('true: a filter drops what it says', S.every(r, lambda e: S.Not(S.eq(e, k + 1))))
        S.check('false: a filter drops something else', S.every(r, lambda e: S.Not(S.eq(e, k))))
    if which == 23:
        S.check('false: a comprehension changes nothing', S.eq(S.len(S.run(P.spilled, S.list('items', lambda: S.int('item')))), 0))
    if which == 24:
        l, v = S.run(P.computed_before, S.list('items', lambda: S.int('item', 0, 9)))
        S.check('false: elements are computed after the list', S.every(l, lambda e: e >= v))
        l = S.run(P.computed_later, S.list('items', lambda: S.int('item', 0, 9)))
        S.check('true: a generator is computed when consumed', S.every(l, lambda e: e >= 1))
        S.check('false: a generator is computed at once', S.every(l, lambda e: e <= 9))
    if which == 25:
        a, k = S.str('a'), S.str('k')
        d = S.run(P.without, S.newdict([(a, 1)]), k)
        S.check('true: another key stays', S.Or(S.eq(a, k), S.has(d, a)))
        S.check('false: the key stays', S.has(d, a))
        S.check('false: another key goes', S.Not(S.has(d, a)))
    if which == 26:
        l = S.run(P.pieces, S.list('items', lambda: S.str('item')))
        S.check('false: every text has one piece', S.every(l, lambda e: S.eq(S.len(e), 1)))
        S.check('true: every text has a piece', S.every(l, lambda e: S.len(e) >= 1))
    if which == 27:
        items = S.list('items', lambda: S.int('item', 1, 9))
        l = S.run(P.changed_source, items)
        S.check('false: lists are equally long', S.eq(S.len(l), S.len(items)))
    if which in (28, 29, 30, 31):
        k = S.str('k')
        S.interest(k)
        d = S.dict('d', key=lambda: S.str('key'), val=lambda: S.int('value', 0, 9))
        n = S.len(d)
        l = S.run((P.keys_before_set, P.keys_before_pop, P.values_before_set, P.items_before_clear)[which - 28], d, k)
        if which == 28:
            S.check('false: a key set later was not there before', S.every(l, lambda e: S.Not(S.eq(e, k))))
        if which == 29:
            S.check('false: a key removed later was not there before', S.every(l, lambda e: S.Not(S.eq(e, k))))
        if which == 30:
            S.check('true: values are those of before', S.every(l, lambda e: e <= 9))
        if which == 31:
            S.check('false: items of before are gone', S.eq(S.len(l), 0))
        S.check('true: the list is as long as the dictionary was', S.eq(S.len(l), n))
    small = lambda: S.list('l', lambda: S.int('x', 0, 9))     # noqa: E731
    if which == 32:
        found, out = S.run(P.flags, small(), S.int('n', 0, 9))
        S.check('false: the flag means an element', S.Implies(found, S.len(out) > 0))
        S.check('true: an element means the flag', S.Or(S.Not(S.len(out) > 0), found, True))
        S.check('false: no flag, no element, ever', S.Not(found))
        S.check('true: not more elements', S.len(out) >= 0)
    if which == 33:
        l = small()
        i = S.run(P.by_twos, l)
        S.check('false: twos end at the end', i <= S.len(l))
        S.check('false: twos never end at the end', S.Not(S.eq(i, S.len(l))))
        S.check('true: twos reach the end', i >= S.len(l))
    if which == 34:
        l = small()
        k = S.run(P.perhaps_left, l, S.int('n', 0, 9))
        S.check('false: the loop goes to its end', S.eq(k, S.len(l)))
        S.check('false: the loop never goes on', k <= 1)
        S.check('true: not more steps than elements', k <= S.len(l))
    if which == 35:
        log = S.newlist([])
        x = S.int('x', 0, 4)
        out = S.call(P.produced, S.newlist([x]), log)
        S.check('false: the generator sees its consumer\'s exception', S.Implies(S.eq(x, 3), S.some(log, lambda e: S.eq(e, 'caught'))))
        S.check('true: the exception goes to the caller', S.Iff(out.raised(ValueError), S.eq(x, 3)))
        S.check('true: it ends in any case', S.some(log, lambda e: S.eq(e, 'finally')))
        S.check('true: it goes on only when asked', S.Iff(S.some(log, lambda e: S.eq(e, 'after')), S.And(S.Not(S.eq(x, 3)), S.Not(S.eq(x, 2)))))
        S.check('false: it never goes on', S.Not(S.some(log, lambda e: S.eq(e, 'after'))))
    if which == 36:
        log, how = S.newlist([]), S.int('how', 0, 4)
        out = S.call(P.managed, how, log)
        S.check('true: an exception is seen at the yield', S.Iff(S.some(log, lambda e: S.eq(e, 'caught')), S.eq(how, 2)))
        S.check('true: another exception goes on', S.Iff(out.raised(ValueError), S.eq(how, 3)))
        S.check('true: the end of the block continues it', S.Iff(S.some(log, lambda e: S.eq(e, 'after')), S.Not(S.Or(S.eq(how, 2), S.eq(how, 3)))))
        S.check('true: entered and left', S.And(S.some(log, lambda e: S.eq(e, 'enter')), S.some(log, lambda e: S.eq(e, 'exit'))))
        S.check('false: the value is not returned', S.Not(S.And(out.ok, S.eq(out.value, 1))) if out.ok else True)
    if which == 37:
        l = small()
        S.assume(S.len(l) > 0)
        a, b = S.run(P.both_ends, l)
        S.check('false: both ends are the same', S.eq(a, b))
    if which == 38:
        l, i, j = small(), S.int('i', 0, 5), S.int('j', 0, 5)
        out = S.call(P.one_of, l, i, j)
        S.check('true: one index gives the same element', S.Implies(S.eq(i, j), S.eq(out.value[0], out.value[1])) if out.ok else True)
        S.check('false: any index gives the same element', S.eq(out.value[0], out.value[1]) if out.ok else True)
        S.check('true: an index out of range is an error', S.Iff(out.ok, S.And(i < S.len(l), j < S.len(l))))
    if which == 39:
        l = small()
        a, b = S.run(P.twice_mapped, l)
        S.check('false: a map gives its elements twice', S.eq(a, b))
    if which == 40:
        S.check('false: a lock can always be had', S.eq(S.run(P.tried, S.run(P.new_lock)), 1) if S.sym else False)
    if which == 41:
        l = small()
        a, b = S.run(P.next_of, l)
        S.check('false: the next is the same', S.eq(a, b))
        S.check('true: nothing after the end', S.Or(S.len(l) > 1, S.eq(b, 0)))
        S.check('false: never something', S.eq(b, 0))
    if which == 42:
        n = S.int('n')
        S.check('true: alternatives of values', S.Iff(S.eq(S.run(P.kinds, n), 'number'), S.Or(S.eq(n, 1), S.eq(n, 2))))
        S.check('true: pairs, texts and nothing', S.And(S.eq(S.run(P.kinds, (n + n, 1)), 'pair') if S.case(S.Not(S.eq(n, 0))) else True,
                                                       S.eq(S.run(P.kinds, S.str('s')), 'text'), S.eq(S.run(P.kinds, None), 'nothing')))
        S.check('false: everything is a number', S.eq(S.run(P.kinds, n), 'number'))
    if which >= 43:
        k0, q = S.str('k0', utf8=True), S.str('q', utf8=True)
        S.interest(k0, q)

        def text(name):
            s = S.str(name, utf8=True)
            S.assume(S.And(S.len(S.utf8(s)) < 1 << 31, S.Not(S.eq(s, k0)), S.Not(S.eq(s, q))))
            return (s,)

        def pack(s):
            return S.bcat(S.u32be(S.len(S.utf8(s))), S.utf8(s))
        S.assume(S.And(S.len(S.utf8(k0)) < 1 << 31, S.Not(S.eq(k0, q))))
        before, after = S.packed('before', lambda: text('before'), pack), S.packed('after', lambda: text('after'), pack)
        data = S.bcat(before.data, pack(k0), after.data)
        n = before.n + 1 + after.n
        S.cut_loops(n, before.n)
        if which == 43:
            got, off, seen, rest = S.run(P.read_records, data, n, pick)
            S.check('true: all of it was read', S.And(S.eq(off, S.len(data)), S.eq(S.len(rest), 0)))
            S.check('true: where the record begins', S.eq(S.lookup(got, k0), S.len(before.data)))
            S.check('true: no other record', S.lookup(got, q) is S.MISSING)
            S.check('false: the record is the first', S.eq(S.lookup(got, k0), 0))
            S.check('false: the record is the last', S.eq(S.lookup(got, k0) + S.len(pack(k0)), off))
            S.check('false: what moves sometimes moves always', S.eq(seen, off))
            S.check('false: what moves sometimes never moves', S.eq(seen, 0))
        if which == 44:
            b = S.bytearray(data)
            got = S.run(P.drop_records, b, n, pick)
            S.check('true: nothing is left', S.eq(S.len(S.data(b)), 0))
            S.check('false: the record is always kept', S.Not(S.lookup(got, k0) is S.MISSING))
            S.check('false: the record is never kept', S.lookup(got, k0) is S.MISSING)
            S.check('false: one record at most', S.len(got) <= 1)

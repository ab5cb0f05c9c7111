"""what the engine understands: the same thing written in many ways (not one of the properties; python3 check.py --property ENGINE)"""
from clients import constructs as K
from pyvc.harness import unit

LABELS = [v for k, v in sorted(vars(K).items()) if k.startswith('label_')]
DICTS = [v for k, v in sorted(vars(K).items()) if k.startswith('dict_')]
LISTS = [v for k, v in sorted(vars(K).items()) if k.startswith('list_')]
PRECISE = ('list_comp', 'list_sum', 'list_all')       # of loops with append only the type of the elements is kept
CLASSES = [K.Acquire, K.Helper, K.Static, K.Properties, K.Decorated, K.Attributes, K.Wrapped, K.Reentrant, K.Slots]


def labels(S, f):
    s, n, b = S.str('s'), S.int('n'), S.bool('b')
    S.check('label', S.same(S.run(f, s, n, b), S.run(K.plain_label, s, n, b)))


def dicts(S, f):
    k, q = S.str('k'), S.str('q')
    S.interest(k, q)
    d = S.dict('d', key=lambda: S.str('key'), val=lambda: S.int('value', 0, 9))
    n = S.int('n', 0, 9)
    old = S.len(d)
    had, at = S.has(d, k), S.lookup(d, q)
    r = S.run(f, d, k, n)
    S.check('length', S.eq(S.len(r), old - 1 if S.case(had) else old + 1))
    S.check('the key', S.lookup(r, k) is S.MISSING if S.case(had) else S.same(S.lookup(r, k), n))
    if S.case(S.Not(S.eq(q, k))):
        now = S.lookup(r, q)
        S.check('another key', now is S.MISSING if at is S.MISSING else S.same(now, at))
    S.check('the argument stays', S.eq(S.len(d), old))


def lists(S, f):
    l, n = S.list('l', lambda: S.int('x', 0, 9)), S.int('n', 0, 9)
    found, out = S.run(f, l, n)
    if f.__name__ in PRECISE:
        S.check('elements', S.every(out, lambda x: x > n + 1))
    S.check('some', S.Iff(found, S.len(out) > 0))
    S.check('not more', S.len(out) <= S.len(l))


def classes(S, cls):
    o = S.new(cls)
    a, b = S.int('a'), S.int('b')
    S.check('first', S.eq(S.run(o.add, a), a))
    S.check('second', S.eq(S.run(o.add, b), a + b))
    S.check('unlocked', S.run(o.lock.acquire) is True)


for _body, _items in ((labels, LABELS), (dicts, DICTS), (lists, LISTS), (classes, CLASSES)):
    for _f in _items:
        def _unit(S, _f=_f, _body=_body):
            _body(S, _f)
        unit('ENGINE', _f.__name__, runs=40)(_unit)

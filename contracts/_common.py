"""shared by the contracts"""
from pyvc.core import ModelObj

M64 = (1 << 64) - 1
M128 = (1 << 128) - 1


def some_parent(S, name='parent_id', lo=1):
    return S.choose(name + '?', [('none', lambda: None), ('some', lambda: S.int(name, lo, M64))])


def ids(S, p='', parent_lo=1):
    """trace id, span id, parent id, flags in range"""
    return (S.int(p + 'trace_id', 1, M128), S.int(p + 'span_id', 1, M64), some_parent(S, p + 'parent_id', parent_lo),
            S.int(p + 'flags', 0, 255))


def same_ids(S, c, t, s, p, f):
    return S.And(S.same(c.trace_id, t), S.same(c.span_id, s), S.same(c.parent_id, p), S.same(c.flags, f))


def not_in(S, q, names):
    return S.And(*[S.Not(S.eq(S.lower(q), n)) for n in names])

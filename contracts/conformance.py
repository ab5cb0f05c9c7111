"""The models of library functions admit what Python does: no model may exclude the real result of a call."""
import copy

from clients import conformance
from pyvc import core
from pyvc.harness import unit


def pinned(S, n, v):
    if callable(v) or v is None or isinstance(v, (list, tuple, dict)):
        return v
    if isinstance(v, bool):
        x = S.bool(n)
        S.assume(x if v else S.Not(x))
        return x
    x = S.int(n) if isinstance(v, int) else S.float(n) if isinstance(v, float) else S.bytes(n) if isinstance(v, bytes) else S.str(n)
    S.assume(S.eq(x, v))
    return x


def plain(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return type(v) in (list, tuple, set, frozenset) and all(plain(x) for x in v)
    if isinstance(v, dict):
        return all(plain(x) for x in list(v) + list(v.values()))
    return v is None or type(v) in (bool, int, float, str, bytes, bytearray)


@unit('CONFORM', runs=0, conc=False)
def models_admit_what_python_does(S):
    k = S.choose('case', list(range(len(conformance.CASES))))
    f, *args = conformance.CASES[k]
    show = ', '.join(a.__name__ if callable(a) else repr(a) for a in args)
    args = copy.deepcopy(args)
    try:
        want, exc = f(*args), None
    except Exception as e:
        want, exc = None, type(e)
    name = 'false: %s(%s) is not what Python gives' % (f.__name__, show)
    try:
        r = S.call(f, *[pinned(S, 'a%d' % i, v) if f is not conformance.method or i > 1 else v for i, v in enumerate(copy.deepcopy(args))])
        if exc:
            claim = r.ok or not r.raised(exc)
        else:
            claim = not r.ok if not plain(want) else True if not r.ok else S.Not(S.eq(r.value, core.cur().wrap(want)))
    except core.Unsupported as e:
        import os
        if os.environ.get('PYVC_CONFORM'):
            print('unsupported', name, e)
        claim = False
    S.check(name, claim)

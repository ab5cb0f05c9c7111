"""ways to write the same thing: plain() and each of its variants have to give the same result"""
import collections
import contextlib
import copy
import functools
import itertools
import operator
import threading
from typing import NamedTuple


# ---- text and optional values
def plain_label(s, n, b):
    if b:
        return s + ':' + str(n)
    return s


def label_format(s, n, b):
    return '{}:{}'.format(s, n) if b else s


def label_percent(s, n, b):
    return '%s:%d' % (s, n) if b else '%s' % s


def label_fstring(s, n, b):
    parts = [s]
    if b:
        parts.append(f'{n}')
    return ':'.join(parts)


def label_named(s, n, b):
    return '{name}:{number}'.format(name=s, number=n) if b else '{0}'.format(s)


def label_match(s, n, b):
    match b:
        case True:
            return f'{s}:{n:d}'
        case _:
            return s


def label_dispatch(s, n, b):
    return {True: lambda: s + ':' + str(n), False: lambda: s}[bool(b)]()


def label_generator(s, n, b):
    def pieces():
        yield s
        if b:
            yield str(n)
    return ':'.join(pieces())


def label_star(s, n, b):
    args = [s, str(n)] if b else [s]
    first, *rest = args
    for r in rest:
        first += ':' + r
    return first


def label_partial(s, n, b):
    f = functools.partial(lambda sep, x, y: x + sep + y, ':')
    return f(s, str(n)) if b else s


def label_walrus(s, n, b):
    if b and (t := str(n)) is not None:
        return ':'.join((s, t))
    return s


def label_chain(s, n, b):
    return ':'.join(itertools.chain([s], [str(n)] if b else []))


def label_while(s, n, b):
    todo = [str(n)] if b else []
    out = s
    while todo:
        out += ':' + todo.pop()
    return out


def label_try(s, n, b):
    try:
        return {1: s + ':' + str(n)}[1 if b else 0]
    except KeyError:
        return s
    finally:
        n = 0


def label_else(s, n, b):
    for x in ([str(n)] if b else []):
        s = ':'.join([s, x])
        break
    else:
        return s
    return s


class Pair(NamedTuple):
    a: str
    b: int


def label_tuple(s, n, b):
    p = Pair(s, n)
    p = p._replace(b=n)
    x, y = p
    return x + ':' + str(y) if b else p.a


def label_recursive(s, n, b):
    def go(xs):
        if not xs:
            return ''
        return xs[0] + (':' + go(xs[1:]) if len(xs) > 1 else '')
    return go((s, str(n)) if b else (s,))


def label_reduce(s, n, b):
    return functools.reduce(lambda x, y: x + ':' + y, [str(n)] if b else [], s)


def label_suppress(s, n, b):
    with contextlib.suppress(KeyError):
        d = {True: str(n)}
        return s + ':' + d[bool(b)]
    return s


def label_cond(s, n, b):
    return (s, s + ':' + str(n))[int(bool(b))]


def label_nonlocal(s, n, b):
    out = s

    def add(x):
        nonlocal out
        out = out + ':' + x
    if b:
        add(str(n))
    return out


def label_kwargs(s, n, b):
    def f(x, *rest, **kw):
        return x + ''.join(':' + str(r) for r in rest) + kw.get('tail', '')
    return f(s, *([n] if b else []), **{'tail': ''})


# ---- dictionaries
def plain_dict(d, k, n):
    out = dict(d)
    if k in out:
        del out[k]
    else:
        out[k] = n
    return out


def dict_pop(d, k, n):
    out = d.copy()
    if out.pop(k, None) is None:
        out[k] = n
    return out


def dict_union(d, k, n):
    if k not in d:
        return d | {k: n}
    return {a: b for a, b in d.items() if a != k}


def dict_star(d, k, n):
    out = {**d, k: n}
    if d.get(k) is not None:
        out.pop(k)
    return out


def dict_setdefault(d, k, n):
    out = copy.copy(d)
    before = len(out)
    out.setdefault(k, n)
    if len(out) == before:
        del out[k]
    return out


def dict_try(d, k, n):
    out = dict(d.items())
    try:
        del out[k]
    except KeyError:
        out[k] = n
    return out


def dict_update(d, k, n):
    out = {}
    out.update(d)
    if any(a == k for a in d):
        out = dict(out)
        out.pop(k)
    else:
        out.update({k: n})
    return out


def dict_methods(d, k, n):
    out = dict(d)
    if k in d.keys():
        out.__delitem__(k)
    else:
        out.__setitem__(k, n)
    return out


def dict_items(d, k, n):
    out = dict([(a, b) for a, b in d.items()])
    removed = out.pop(k) if k in out else None
    if removed is None:
        out |= {k: n}
    return out


def dict_default(d, k, n):
    out = collections.OrderedDict(d)
    if operator.contains(out, k):
        del out[k]
    else:
        out[k] = n
    return dict(out)


# ---- lists
def plain_list(l, n):
    out = []
    for x in l:
        if x > n:
            out.append(x + 1)
    return len(out) > 0, out


def list_comp(l, n):
    out = [x + 1 for x in l if x > n]
    return bool(out), out


def list_filter(l, n):
    out = list(map(lambda x: x + 1, filter(lambda x: x > n, l)))
    return len([*out]) > 0, out


def list_while(l, n):
    out, i = [], 0
    while i < len(l):
        if l[i] > n:
            out += [l[i] + 1]
        i += 1
    return len(out) != 0, out


def list_enumerate(l, n):
    out = list()
    for i, x in enumerate(l):
        if not x > n:
            continue
        out.extend([l[i] + 1])
    return out != [], out


def list_generator(l, n):
    def gen():
        for x in l:
            if x > n:
                yield x + 1
    out = list(gen())
    return not not out, out


def list_range(l, n):
    out = []
    for i in range(len(l)):
        x = l[i]
        if n < x:
            out += [1 + x]
    return len(out) >= 1, out


def list_slices(l, n):
    out = []
    for x in l[:]:
        if max(x, n) == x and x != n:
            out.insert(len(out), x + 1)
    return True if out else False, out


def list_iter(l, n):
    it = iter(l)
    out = []
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        if x > n:
            out.append(x + 1)
    return len(out) > 0, out


def list_all(l, n):
    out = [*(x + 1 for x in l if x > n)]
    return not all(False for x in out), out


def list_sum(l, n):
    out = [x + 1 for x in [y for y in l if y > n]]
    return sum(1 for x in out) > 0, out


def list_flag(l, n):
    out, found = [], False
    for x in l:
        if x <= n:
            pass
        else:
            found = True
            out.append(x + 1)
    return found, out


# ---- locks and objects
class Plain(object):
    def __init__(self):
        self.lock = threading.Lock()
        self.n = 0

    def add(self, n):
        with self.lock:
            self.n += n
            return self.n


class Acquire(Plain):
    def add(self, n):
        self.lock.acquire()
        try:
            self.n += n
            return self.n
        finally:
            self.lock.release()


class Helper(Plain):
    def add(self, n):
        with self.lock:
            return self._add(n)

    def _add(self, n):
        self.n = self.n + n
        return self.n


class Static(Plain):
    @staticmethod
    def plus(a, b):
        return a + b

    @classmethod
    def result(cls, a, b):
        return cls.plus(a, b)

    def add(self, n):
        with self.lock:
            self.n = type(self).result(self.n, n)
            result = self.n
        return result


class Properties(Plain):
    @property
    def now(self):
        return self.n

    @now.setter
    def now(self, v):
        self.n = v

    def add(self, n):
        with self.lock:
            self.now += n
            return self.now


class Decorated(Plain):
    @contextlib.contextmanager
    def locked(self):
        with self.lock:
            yield self

    def add(self, n):
        with self.locked() as me:
            me.n += n
            return me.n


class Attributes(Plain):
    def add(self, n):
        with self.lock:
            setattr(self, 'n', getattr(self, 'n') + n)
            return vars(self)['n']


def twice(f):
    @functools.wraps(f)
    def g(self, n):
        f(self, n)
        f(self, -n)
        return f(self, n)
    return g


class Wrapped(Plain):
    @twice
    def add(self, n):
        with self.lock:
            self.n += n
            return self.n


class Reentrant(Plain):
    def __init__(self):
        super().__init__()
        self.lock = threading.RLock()

    def add(self, n):
        with self.lock, self.lock:
            self.n = operator.add(self.n, n)
            return self.n


class Slots(object):
    __slots__ = ('lock', 'n')

    def __init__(self):
        self.lock, self.n = threading.Lock(), 0

    def add(self, n):
        with self.lock:
            self.n -= -n
            return self.n

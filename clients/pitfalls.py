"""loops about which it is easy to claim too much"""
import contextlib
import struct
import threading


class Box(object):
    def __init__(self):
        self.v = 0
        self.items = []


def sometimes(n, pick):
    x, l = 0, []
    for _ in range(n):
        if pick():
            x += 1
            l.append(1)
    return x, l


def batches(n, pick):
    """a list is filled in an inner loop and then replaced"""
    spans, total, i = [], 0, 0
    while i < n:
        i += 1
        while len(spans) < 3 and pick():
            spans.append(1)
        total += len(spans)
        spans = spans[:0]
    return total


def kept(n, pick):
    """the list is replaced only sometimes"""
    l = []
    for _ in range(n):
        l.append(1)
        if pick():
            l = []
    return l


def alias(n):
    a = b = []
    for _ in range(n):
        a.append(1)
    return b


def swap(n):
    x, y = 0, 1
    for _ in range(n):
        x, y = y, x
    return x


def closure(n, pick):
    count = [0]

    def inc():
        count[0] += 1
    for _ in range(n):
        if pick():
            inc()
    return count[0]


def attribute(n, pick):
    b = Box()
    c = b
    for _ in range(n):
        if pick():
            c.v += 2
            c.items.append(1)
    return b


def entries(d, keys):
    for k in keys:
        d[k] = d.get(k, 0) + 1
    return d


def escapes(n, pick):
    x = 0
    try:
        for _ in range(n):
            x += 1
            if pick():
                raise ValueError()
    except ValueError:
        pass
    return x


def leaves(n, pick):
    x = 0
    for _ in range(n):
        if pick():
            break
        x += 1
    else:
        x = -1
    return x


def flag(n, pick):
    seen, i = False, 0
    while not seen:
        i += 1
        seen = pick() or i >= n
    return i


def nested(n, m):
    t = 0
    for i in range(n):
        for _ in range(m):
            t += i
    return t


def last(items):
    r = None
    for r in items:
        pass
    return r


def inner_list(n, pick):
    """a list inside a list is changed in place"""
    outer = [[], []]
    for _ in range(n):
        outer[1 if pick() else 0].append(1)
    return outer


def default(n, x=[]):
    for _ in range(n):
        x.append(n)
    return len(x)


def handed_back(n, pick):
    a, b = [], []
    cur = a
    for _ in range(n):
        cur.append(1)
        cur = b if pick() else a
    return a, b


def countdown(n, pick):
    left, done = n, 0
    for _ in range(n):
        if pick():
            left -= 1
            done += 1
    return left, done


def uneven(n, pick):
    left, done = n, 0
    for _ in range(n):
        left -= 1
        if pick():
            done += 1
    return left, done


def filtered(items, k):
    return [x + 1 for x in items if x != k]


def spilled(items):
    out = []
    [out.append(x) for x in items]
    return out


def computed_before(items):
    b = Box()
    l = [b.v + x for x in items]
    b.v += 1
    return l, b.v


def computed_later(items):
    """a generator is evaluated when it is consumed"""
    b = Box()
    g = (b.v + x for x in items)
    b.v += 1
    return list(g)


def without(d, k):
    return {a: b for a, b in d.items() if a != k}


def pieces(items):
    return [x.split(':') for x in items]


def changed_source(items):
    l = [x for x in items]
    items.append(0)
    return l


def keys_before_set(d, k):
    l = list(d)
    d[k] = 1
    return l


def keys_before_pop(d, k):
    l = [x for x in d.keys()]
    d.pop(k, None)
    return l


def values_before_set(d, k):
    l = list(d.values())
    d[k] = 100
    return l


def items_before_clear(d, k):
    l = list(d.items())
    d.clear()
    return l


def flags(l, n):
    found, out = False, []
    for x in l:
        if x >= n:
            found = True
        if x > n:
            out.append(x)
    return found, out


def by_twos(l):
    i = 0
    while i < len(l):
        i += 2
    return i


def perhaps_left(l, n):
    k = 0
    for x in l:
        k += 1
        if x == n:
            break
    return k


def produced(l, log):
    """what a generator does around its yields, and does not see"""
    def gen():
        try:
            for x in l:
                yield x
                log.append('after')
        except ValueError:
            log.append('caught')
        finally:
            log.append('finally')
    for x in gen():
        if x == 3:
            raise ValueError('outside')
        if x == 2:
            return 2
    return 0


@contextlib.contextmanager
def guarded(log):
    log.append('enter')
    try:
        yield 1
        log.append('after')
    except KeyError:
        log.append('caught')
    finally:
        log.append('exit')


def managed(how, log):
    with guarded(log) as v:
        if how == 1:
            return v
        if how == 2:
            raise KeyError('swallowed')
        if how == 3:
            raise ValueError('not swallowed')
    return 0


def both_ends(l):
    return l[0], list(reversed(l))[0]


def one_of(l, i, j):
    return l[i], l[j]


def twice_mapped(l):
    m = map(lambda x: x, l)
    return len(list(m)), len(list(m))


def new_lock():
    return threading.Lock()


def tried(lock):
    if lock.acquire(False):
        lock.release()
        return 1
    return 0


def next_of(l):
    it = iter(l)
    return next(it, 0), next(it, 0)


def kinds(v):
    match v:
        case 1 | 2:
            return 'number'
        case (a, _) if a:
            return 'pair'
        case str():
            return 'text'
        case None:
            return 'nothing'
    return 'other'


def read_records(data, n, pick):
    """n texts with their lengths before them"""
    got, off, seen, rest = {}, 0, 0, data
    for _ in range(n):
        (k,) = struct.unpack('>I', data[off:off + 4])
        text = rest[4:4 + k].decode('utf-8')
        got[text] = off
        if pick():
            seen += 4 + k
        off += 4 + k
        rest = rest[4 + k:]
    return got, off, seen, rest


def drop_records(data, n, pick):
    """the same from a bytearray that gets shorter, some texts left out"""
    got = {}
    while n > 0:
        (k,) = struct.unpack_from('>I', data)
        if pick():
            got[data[4:4 + k].decode('utf-8')] = k
        del data[:4 + k]
        n -= 1
    return got

"""calls of library functions with all kinds of arguments: (function, arguments)"""
import collections
import functools
import itertools
import operator
import struct
import urllib.parse


def pow3(a, b, c): return pow(a, b, c)
def divmods_0(a, b): return divmod(a, b)
def divmods_1(a, b): return a // b
def divmods_2(a, b): return a % b
def divmods_3(a, b): return -a // b
def divmods_4(a, b): return -a % b
def divmods_5(a, b): return a // -b
def divmods_6(a, b): return a % -b
def shifts_0(a, b): return a << b
def shifts_1(a, b): return a >> b
def shifts_2(a, b): return -a >> b
def shifts_3(a, b): return ~a
def shifts_4(a, b): return a & b
def shifts_5(a, b): return a | b
def shifts_6(a, b): return a ^ b
def shifts_7(a, b): return -a & 255
def rounds_0(x): return round(x)
def rounds_1(x): return int(x)
def rounds_2(x): return -int(x)
def rounds_3(x): return int(-x)
def rounds2(x): return round(x, 1)
def ints_0(s): return int(s)
def ints_1(s): return int(s, 16)
def ints_2(s): return int(s, base=8)
def int0(s): return int(s, 0)
def bools_0(a): return bool(a)
def bools_1(a): return not a
def bools_2(a): return a and 5
def bools_3(a): return a or 5
def chain_0(a, b): return 0 < a < b
def chain_1(a, b): return a < b <= 10
def chain_2(a, b): return a == b != 3
def minmax_0(a, b): return min(a, b)
def minmax_1(a, b): return max(a, b)
def minmax_2(a, b): return min([a, b])
def minmax_3(a, b): return max((a, b), key=lambda x: -x)
def minmax_4(a, b): return min([], default=a)
def sums_0(a, b): return sum([a, b])
def sums_1(a, b): return sum([a, b], 10)
def sums_2(a, b): return sum((x for x in (a, b)), start=1)
def ranges_0(a): return list(range(a))
def ranges_1(a): return list(range(1, a))
def ranges_2(a): return list(range(0, a, 2))
def ranges_3(a): return list(range(a, 0, -1))
def ranges_4(a): return len(range(a))
def rangelen(a): return len(range(0, a, 2))
def enums_0(a): return list(enumerate([a, 7], 3))
def enums_1(a): return list(enumerate([a], start=a))
def zips_0(a): return list(zip([a, 2], [3]))
def zips_1(a): return list(itertools.zip_longest([a, 2], [3], fillvalue=9))
def sorts_0(a, b): return sorted([a, b, 3])
def sorts_1(a, b): return sorted([a, b, 3], reverse=True)
def sorts_2(a, b): return sorted([a, b, 3], key=lambda x: -x)


def inplace(a, b):
    l = [a, b, 3]
    l.sort(reverse=True)
    m = l[:]
    m.reverse()
    return (l, m)


def listops(a, b):
    l = [a, b, a, 3]
    r = [l.index(a), l.count(a), l.pop(), l.pop(0), len(l)]
    l.insert(1, 8)
    l.remove(a)
    l.extend([1, 2])
    l += [4]
    l[0] = 6
    del l[1]
    return (r, l, l[-1], l[1:], l[:-1], l[::2], l[::-1])


def indexfrom(a): return [a, 1, a].index(a, 1)
def listmul_0(a): return [a] * 3
def listmul_1(a): return [0] * a
def listmul_2(a): return (a, 1) + (2,)


def unpack(a, b):
    x, *y = [a, b, 3]
    (p, q), *_ = [(a, b), 1]
    return (x, y, p, q)


def dicts(a, k):
    d = {k: a, 'x': 1}
    r = [d.get(k), d.get('y', a), d.pop('x', 5), d.pop('x', 5), d.setdefault(k, 9), d.setdefault('z', a)]
    d.update({'w': 2}, v=3)
    d.update([('u', 4)])
    e = dict(d, t=5)
    return (r, d, e, list(d), list(d.items())[0], len(e), {**d, k: 0}, k in d, dict.fromkeys(['p', k], a))


def merge_0(a, k): return {k: 1} | {'x': a}
def merge_1(a, k): return {k: a, 'x': 2} == {'x': 2, k: a}


def last(k):
    d = {'x': 1}
    d[k] = 2
    d['x'] = 3
    del d['x']
    d['x'] = 4
    return (list(d), d.popitem())


def defaults(k):
    d = collections.defaultdict(list)
    d[k].append(1)
    d['y']
    return (d, len(d), d.get('w'))


def counters(k):
    c = collections.Counter([k, 'x', k])
    return (c[k], c['none'], len(c))


def ordered(a, k):
    o = collections.OrderedDict([(k, a)])
    o['x'] = 1
    o.move_to_end(k)
    return list(o)


def deques(a):
    d = collections.deque([a, 1], maxlen=2)
    d.append(3)
    d.appendleft(4)
    return (list(d), d.pop(), len(d))


def sets(a, b):
    s = {a, b, 3}
    t = {a}
    s.add(a)
    s.discard(77)
    return (len(s), a in s, s - t, s & t, t <= s, len(s | {b, 100}))


def unions_0(a): return {a}.union([1], [2])
def unions_1(a): return {a, 1}.difference([1], [a])
def unions_2(a): return {a, 1}.intersection([1], [a])
def splits_0(s): return s.split(',')
def splits_1(s): return s.split(',', 1)
def splits_2(s): return s.split(',', maxsplit=1)
def splits_3(s): return len(s.split(','))
def rsplits(s): return s.rsplit(',', 1)
def splitws(s): return s.split()
def lines(s): return s.splitlines()
def parts_0(s): return s.partition(',')
def parts_1(s): return s.rpartition(',')
def strips_0(s): return s.strip()
def strips_1(s): return s.lstrip()
def strips_2(s): return s.rstrip()
def strips_3(s): return s.strip('a')
def strips_4(s): return s.lstrip('a,')
def starts_0(s): return s.startswith('a')
def starts_1(s): return s.startswith(('x', 'a'))
def starts_2(s): return s.endswith('c')
def starts_3(s): return s.startswith('')
def startfrom(s): return s.startswith('b', 2)
def finds_0(s): return s.find(',')
def finds_1(s): return s.index('b')
def rfinds_0(s): return s.rfind(',')
def rfinds_1(s): return s.find(',', 3)
def replaces(s): return s.replace(',', ';')
def replace1(s): return s.replace(',', ';', 1)
def cases_0(s): return s.lower()
def cases_1(s): return s.lower() == s
def cases2_0(s): return s.upper()
def cases2_1(s): return s.title()
def cases2_2(s): return s.casefold()
def cases2_3(s): return s.capitalize()
def cases2_4(s): return s.swapcase()
def slices_0(s, n): return s[:n]
def slices_1(s, n): return s[n:]
def slices_2(s, n): return s[-1]
def slices_3(s, n): return s[0]
def slices_4(s, n): return s[1:2]
def slices_5(s, n): return s[-2:]
def slices_6(s, n): return s[:100]
def slices_7(s, n): return len(s[n:])
def negslices_0(s): return s[:-1]
def negslices_1(s): return s[1:-1]
def stepslice_0(s): return s[::-1]
def stepslice_1(s): return s[::2]
def joins_0(s, t): return ','.join([s, t])
def joins_1(s, t): return ''.join((x for x in (s, t)))
def joins_2(s, t): return s.join(['a', t])
def muls_0(s): return s * 2
def muls_1(s): return s + 'x' + s
def muls_2(s): return 2 * s
def formats_0(a, s): return '%d %s' % (a, s)
def formats_1(a, s): return '{:x}'.format(a)
def formats_2(a, s): return '{0} {1} {0}'.format(a, s)
def formats_3(a, s): return f'{a}-{s}'
def formats_4(a, s): return format(a, 'x')
def formats_5(a, s): return '%x' % a
def formats2_0(a): return '%05d' % a
def formats2_1(a): return '%5d' % a
def formats2_2(a): return '%-5d|' % a
def formats2_3(a): return '{:04x}'.format(a)
def formats2_4(a): return f'{a:>6}'
def formats2_5(a): return f'{a!r:5}'
def formats2_6(a): return '{:,}'.format(a)
def hexes_0(a): return hex(a)
def hexes_1(a): return '%X' % a
def hexes_2(a): return format(a, '016x')
def hexes_3(a): return ('%x' % a).zfill(6)
def reprs_0(a, s): return str(a)
def reprs_1(a, s): return str(s)
def reprs2_0(s): return repr(s)
def reprs2_1(s): return '%r' % s
def reprs2_2(s): return '%.2s' % s
def reprs2_3(s): return '%10s' % s
def justs_0(s): return s.zfill(9)
def justs_1(s): return s.rjust(8)
def justs_2(s): return s.ljust(8, '-')
def justs_3(s): return s.center(8)
def counts_0(s): return s.count(',')
def counts_1(s): return s.count('b', 2)
def contains_0(s): return ',' in s
def contains_1(s): return 'zz' in s
def contains_2(s): return '' in s
def contains_3(s): return s in 'a,b,c,d'
def compares_0(s): return s == 'a,b'
def compares_1(s): return s != 'a,b'
def compares_2(s): return s > 'a'
def compares_3(s): return s < 'b'
def encodes_0(s): return s.encode()
def encodes_1(s): return s.encode('utf-8')
def encodes_2(s): return len(s.encode('utf-8'))
def encodes2_0(s): return s.encode('ascii', 'ignore')
def encodes2_1(s): return s.encode('utf-16')
def decodes_0(b): return b.decode()
def decodes_1(b): return b.decode('utf-8')
def decodes_2(b): return b.decode('utf-8', 'replace')
def bytesops_0(b): return len(b)
def bytesops_1(b): return b[:1]
def bytesops_2(b): return b[1:]
def bytesops_3(b): return b + b'x'
def bytesops_4(b): return b[0]
def bytesops_5(b): return b == b'abc'
def bytesops_6(b): return bytes(b)
def bytesops_7(b): return bytearray(b)
def bytesops2_0(b): return b.hex()
def bytesops2_1(b): return b.startswith(b'a')
def bytesops2_2(b): return b.split(b'b')
def bytesops2_3(b): return b[-1:]
def packs_0(a): return struct.pack('>I', a)
def packs_1(a): return struct.pack('>HB', a, a)
def packs_2(a): return struct.calcsize('>HBQ')
def packs_3(a): return struct.unpack('>H', struct.pack('>h', a))
def packs2(a): return struct.pack('<I', a)
def tobytes(a): return a.to_bytes(4, 'big')
def tobytes2_0(a): return a.to_bytes(4, 'little')
def tobytes2_1(a): return int.from_bytes(a.to_bytes(2, 'little'), 'little')
def frombytes(b): return int.from_bytes(b, 'big')
def quotes_0(s): return urllib.parse.quote(s)
def quotes_1(s): return urllib.parse.unquote(s)
def quotes2_0(s): return urllib.parse.quote(s, safe='')
def quotes2_1(s): return urllib.parse.quote(s, safe=',')
def quotes2_2(s): return urllib.parse.quote_plus(s)
def quotes2_3(s): return urllib.parse.unquote_plus(s)
def folds_0(a, b): return functools.reduce(lambda x, y: x * 2 + y, [a, b], 1)
def folds_1(a, b): return functools.reduce(operator.add, [a, b, 3])
def partials_0(a, b): return functools.partial(divmod, a)(b)
def partials_1(a, b): return functools.partial(int, base=16)('11')
def iters_0(a): return next(iter([a, 1]))
def iters_1(a): return next(iter([]), a)
def iters_2(a): return list(itertools.chain([a], [1, 2]))
def iters_3(a): return list(itertools.islice([a, 1, 2], 1, 3))
def iters_4(a): return list(itertools.repeat(a, 2))
def iters2_0(a): return list(itertools.accumulate([a, 1, 2]))
def iters2_1(a): return list(itertools.takewhile(lambda x: x > 2, [a, 1, 5]))
def iters2_2(a): return list(itertools.dropwhile(lambda x: x > 2, [a, 1, 5]))
def anyall_0(a, b): return any([a > 3, b > 3])
def anyall_1(a, b): return all([a > 3, b > 3])
def anyall_2(a, b): return any([])
def anyall_3(a, b): return all([])
def anyall_4(a, b): return any((x == a for x in (b, a)))
def maps_0(a): return list(map(lambda x: x + a, [1, 2]))
def maps_1(a): return list(filter(None, [a, 0, 1]))
def maps_2(a): return list(filter(lambda x: x > 1, [a, 0]))
def maps_3(a): return list(map(operator.sub, [a, 2], [1, 1]))
def revs_0(a): return list(reversed([a, 1]))
def revs_1(a): return list(reversed(range(a)))
def types_0(a, s): return isinstance(a, int)
def types_1(a, s): return isinstance(a, (str, bool))
def types_2(a, s): return type(a) is int
def types_3(a, s): return isinstance(s, str)
def types_4(a, s): return callable(a)
def types_5(a, s): return hasattr(s, 'lower')
def types_6(a, s): return getattr(a, 'none', 7)
def floats_0(x, a): return x * a
def floats_1(x, a): return x / a
def floats_2(x, a): return x // a
def floats_3(x, a): return x % a
def floats_4(x, a): return a / 4
def floats_5(x, a): return float(a)
def floats_6(x, a): return abs(-x)
def floats_7(x, a): return x ** 2
def floats_8(x, a): return int(x * 1000000)
def floats2_0(x): return float('1.5') + x
def floats2_1(x): return x.is_integer()
def floats2_2(x): return x == 2.5
def floats2_3(x): return str(x)
def bits_0(a): return a.bit_length()
def bits_1(a): return bin(a)
def bits_2(a): return (a & (1 << 64) - 1) >> 1
def errors1(a): return [1, 2][a]
def errors2(k): return {'x': 1}[k]
def errors3(s): return int(s)
def errors4(a): return 1 // (a - a)
def errors5(s): return s + 1
def errors6(a): return len(a)
def errors7(a, s): return a < s
def errors8(s): return {}[s, s]
def errors9(a): return None + a
def errors10(s): return s.nothing


def attrs(a):

    class C(object):
        x = 1
    c = C()
    c.x += a
    setattr(c, 'y', a)
    return (c.x, C.x, c.y, getattr(c, 'z', None), vars(c))


# ------------------------------------------------ every operator on every kind of value
class Plain(object):
    pass


class Sized(object):
    def __init__(self, v): self.v = v
    def __len__(self): return 2
    def __getitem__(self, i): return (self.v, 7)[i]
    def __contains__(self, x): return x == self.v
    def __iter__(self): return iter([self.v, 7])
    def __eq__(self, o): return isinstance(o, Sized) and o.v == self.v
    def __hash__(self): return 1
    def __lt__(self, o): return self.v < o.v
    def __add__(self, o): return ('add', o)
    def __rmul__(self, o): return ('rmul', o)
    def __neg__(self): return 'neg'
    def __int__(self): return 12
    def __float__(self): return 1.5
    def __bool__(self): return False
    def __call__(self, x): return ('call', x)


Point = collections.namedtuple('Point', 'x y')


def number(a): return a
def real(a): return a / 2
def boolean(a): return a > 1
def nothing(a): return None
def text(a): return 'k%d' % a
def data(a): return b'k' + text(a).encode()
def array(a): return bytearray(data(a))
def listed(a): return [a, 7]
def pair(a): return (a, 7)
def point(a): return Point(a, 7)
def keyed(a): return {a: 'v', 7: 'w'}
def group(a): return {a, 7}
def frozen(a): return frozenset([a, 7])
def views(a): return {a: 'v'}.keys()
def span(a): return range(a)
def lazy(a): return (x for x in [a, 7])
def plain(a): return Plain()
def sized(a): return Sized(a)
def function(a): return text
def cls(a): return Plain


KINDS = [number, real, boolean, nothing, text, data, array, listed, pair, point, keyed, group, frozen, views, span, lazy, plain, sized, function, cls]


def add(x, y): return x + y
def sub(x, y): return x - y
def mul(x, y): return x * y
def mod(x, y): return x % y
def floordiv(x, y): return x // y
def truediv(x, y): return x / y
def lor(x, y): return x | y
def land(x, y): return x & y
def lt(x, y): return x < y
def ge(x, y): return x >= y
def equal(x, y): return x == y
def unequal(x, y): return x != y
def within(x, y): return x in y
def item(x, y): return x[y]
def has(x, y): return isinstance(x, type(y))


def iadd(x, y):
    x += y
    return x


def setitem(x, y):
    x[y] = 1
    return x


BINARY = [add, sub, mul, mod, floordiv, truediv, lor, land, lt, ge, equal, unequal, within, item, has, iadd, setitem]


def negative(x): return -x
def inverted(x): return ~x
def opposite(x): return not x
def length(x): return len(x)
def elements(x): return [y for y in x]
def first(x): return next(x)
def integer(x): return int(x)
def floating(x): return float(x)
def octets(x): return bytes(x)
def as_list(x): return list(x)
def as_tuple(x): return tuple(x)
def as_dict(x): return dict(x)
def as_set(x): return set(x)
def as_bool(x): return bool(x)
def total(x): return sum(x)
def ordered_list(x): return sorted(x)
def largest(x): return max(x)
def called(x): return x(3)
def a_callable(x): return callable(x)
def named(x): return type(x).__name__
def iterable(x): return hasattr(x, '__iter__')
def measured(x): return hasattr(x, '__len__')
def keys(x): return hasattr(x, 'keys')
def appendable(x): return hasattr(x, 'append')
def attribute(x): return getattr(x, 'x', 'none')
def missing(x): return x.nothing_like_it
def absolute(x): return abs(x)
def hashed(x): return {x: 1}[x]
def unpacked(x):
    p, q = x
    return (q, p)
def starred(x): return [*x]
def spread(x): return {**x}
def joined(x): return ','.join(x)
def counted(x): return list(enumerate(x))
def paired(x): return list(zip(x, [1]))
def sliced(x): return x[:1]
def every(x): return all(x)
def some(x): return any(x)
def shown(x): return str(x)
def stored(x):
    x.y = 3
    return x.y


UNARY = [negative, inverted, opposite, length, elements, first, integer, floating, octets, as_list, as_tuple, as_dict, as_set, as_bool, total,
         ordered_list, largest, called, a_callable, named, iterable, measured, keys, appendable, attribute, missing, absolute, hashed, unpacked,
         starred, spread, joined, counted, paired, sliced, every, some, shown, stored]


def unary(op, kind, a): return op(kind(a))
def method(name, kind, a, *args):
    x = kind(a)
    return (getattr(x, name)(*args), x)


def binary(op, kind, other, a, b): return op(kind(a), other(b))


I, J, S, T, K, B, X = (5, 3, 'a,b,c', ' A,b\t', 'key', b'abc', 2.5)


CASES = [
    (pow3, I, J, 7), (divmods_0, 17, 5), (divmods_1, 17, 5), (divmods_2, 17, 5), (divmods_3, 17, 5), (divmods_4, 17, 5), (divmods_5, 17, 5),
    (divmods_6, 17, 5), (shifts_0, 13, 3), (shifts_1, 13, 3), (shifts_2, 13, 3), (shifts_3, 13, 3), (shifts_4, 13, 3), (shifts_5, 13, 3), (shifts_6,
    13, 3), (shifts_7, 13, 3), (rounds_0, X), (rounds_1, X), (rounds_2, X), (rounds_3, X), (rounds_0, 3.7), (rounds_1, 3.7), (rounds_2, 3.7),
    (rounds_3, 3.7), (rounds2, 2.26), (ints_0, '17'), (ints_1, '17'), (ints_2, '17'), (ints_0, ' 1_7 '), (ints_1, ' 1_7 '), (ints_2, ' 1_7 '), (int0,
    '0x1f'), (bools_0, 0), (bools_1, 0), (bools_2, 0), (bools_3, 0), (bools_0, 4), (bools_1, 4), (bools_2, 4), (bools_3, 4), (chain_0, 3, 5),
    (chain_1, 3, 5), (chain_2, 3, 5), (chain_0, 12, 13), (chain_1, 12, 13), (chain_2, 12, 13), (minmax_0, I, J), (minmax_1, I, J), (minmax_2, I, J),
    (minmax_3, I, J), (minmax_4, I, J), (sums_0, I, J), (sums_1, I, J), (sums_2, I, J), (ranges_0, I), (ranges_1, I), (ranges_2, I), (ranges_3, I),
    (ranges_4, I), (rangelen, I), (enums_0, I), (enums_1, I), (zips_0, I), (zips_1, I), (sorts_0, I, J), (sorts_1, I, J), (sorts_2, I, J), (inplace,
    I, J), (listops, I, J), (indexfrom, I), (listmul_0, 2), (listmul_1, 2), (listmul_2, 2), (unpack, I, J), (dicts, I, K), (dicts, I, 'x'), (merge_0,
    I, 'x'), (merge_1, I, 'x'), (last, K), (last, 'x'), (defaults, K), (counters, K), (counters, 'x'), (ordered, I, K), (deques, I), (sets, I, J),
    (sets, I, I), (unions_0, I), (unions_1, I), (unions_2, I), (splits_0, S), (splits_1, S), (splits_2, S), (splits_3, S), (splits_0, 'abc'),
    (splits_1, 'abc'), (splits_2, 'abc'), (splits_3, 'abc'), (splits_0, ',,'), (splits_1, ',,'), (splits_2, ',,'), (splits_3, ',,'), (rsplits, S),
    (splitws, T), (lines, 'a\nb\n'), (parts_0, S), (parts_1, S), (parts_0, 'abc'), (parts_1, 'abc'), (strips_0, S), (strips_1, S), (strips_2, S),
    (strips_3, S), (strips_4, S), (strips_0, T), (strips_1, T), (strips_2, T), (strips_3, T), (strips_4, T), (strips_0, ' aa '), (strips_1, ' aa '),
    (strips_2, ' aa '), (strips_3, ' aa '), (strips_4, ' aa '), (starts_0, S), (starts_1, S), (starts_2, S), (starts_3, S), (startfrom, S), (finds_0,
    S), (finds_1, S), (rfinds_0, S), (rfinds_1, S), (replaces, S), (replace1, S), (cases_0, S), (cases_1, S), (cases_0, T), (cases_1, T), (cases2_0,
    T), (cases2_1, T), (cases2_2, T), (cases2_3, T), (cases2_4, T), (slices_0, S, 2), (slices_1, S, 2), (slices_2, S, 2), (slices_3, S, 2), (slices_4,
    S, 2), (slices_5, S, 2), (slices_6, S, 2), (slices_7, S, 2), (slices_0, 'ab', 5), (slices_1, 'ab', 5), (slices_2, 'ab', 5), (slices_3, 'ab', 5),
    (slices_4, 'ab', 5), (slices_5, 'ab', 5), (slices_6, 'ab', 5), (slices_7, 'ab', 5), (negslices_0, S), (negslices_1, S), (stepslice_0, S),
    (stepslice_1, S), (joins_0, S, T), (joins_1, S, T), (joins_2, S, T), (muls_0, S), (muls_1, S), (muls_2, S), (formats_0, 255, S), (formats_1, 255,
    S), (formats_2, 255, S), (formats_3, 255, S), (formats_4, 255, S), (formats_5, 255, S), (formats2_0, 255), (formats2_1, 255), (formats2_2, 255),
    (formats2_3, 255), (formats2_4, 255), (formats2_5, 255), (formats2_6, 255), (formats2_0, -3), (formats2_1, -3), (formats2_2, -3), (formats2_3,
    -3), (formats2_4, -3), (formats2_5, -3), (formats2_6, -3), (hexes_0, 255), (hexes_1, 255), (hexes_2, 255), (hexes_3, 255), (hexes_0, 0), (hexes_1,
    0), (hexes_2, 0), (hexes_3, 0), (reprs_0, -12, T), (reprs_1, -12, T), (reprs2_0, "it's"), (reprs2_1, "it's"), (reprs2_2, "it's"), (reprs2_3,
    "it's"), (justs_0, '-ab'), (justs_1, '-ab'), (justs_2, '-ab'), (justs_3, '-ab'), (counts_0, S), (counts_1, S), (contains_0, S), (contains_1, S),
    (contains_2, S), (contains_3, S), (compares_0, S), (compares_1, S), (compares_2, S), (compares_3, S), (encodes_0, S), (encodes_1, S), (encodes_2,
    S), (encodes_0, 'hé'), (encodes_1, 'hé'), (encodes_2, 'hé'), (encodes_0, '\ud800'), (encodes_1, '\ud800'), (encodes_2, '\ud800'), (encodes2_0,
    'hé'), (encodes2_1, 'hé'), (decodes_0, B), (decodes_1, B), (decodes_2, B), (decodes_0, b'\xff'), (decodes_1, b'\xff'), (decodes_2, b'\xff'),
    (bytesops_0, B), (bytesops_1, B), (bytesops_2, B), (bytesops_3, B), (bytesops_4, B), (bytesops_5, B), (bytesops_6, B), (bytesops_7, B),
    (bytesops2_0, B), (bytesops2_1, B), (bytesops2_2, B), (bytesops2_3, B), (packs_0, 200), (packs_1, 200), (packs_2, 200), (packs_3, 200), (packs_0,
    40000), (packs_1, 40000), (packs_2, 40000), (packs_3, 40000), (packs_0, 1 << 33), (packs_1, 1 << 33), (packs_2, 1 << 33), (packs_3, 1 << 33),
    (packs_0, -1), (packs_1, -1), (packs_2, -1), (packs_3, -1), (packs2, 200), (tobytes, 200), (tobytes, 1 << 40), (tobytes2_0, 200), (tobytes2_1,
    200), (frombytes, B), (quotes_0, 'a b/%+é'), (quotes_1, 'a b/%+é'), (quotes_0, 'a%20b+%zz'), (quotes_1, 'a%20b+%zz'), (quotes2_0, 'a b,/%20+'),
    (quotes2_1, 'a b,/%20+'), (quotes2_2, 'a b,/%20+'), (quotes2_3, 'a b,/%20+'), (folds_0, I, J), (folds_1, I, J), (partials_0, 17, 5), (partials_1,
    17, 5), (iters_0, I), (iters_1, I), (iters_2, I), (iters_3, I), (iters_4, I), (iters2_0, I), (iters2_1, I), (iters2_2, I), (anyall_0, I, J),
    (anyall_1, I, J), (anyall_2, I, J), (anyall_3, I, J), (anyall_4, I, J), (maps_0, I), (maps_1, I), (maps_2, I), (maps_3, I), (revs_0, I), (revs_1,
    I), (types_0, I, S), (types_1, I, S), (types_2, I, S), (types_3, I, S), (types_4, I, S), (types_5, I, S), (types_6, I, S), (types_0, True, S),
    (types_1, True, S), (types_2, True, S), (types_3, True, S), (types_4, True, S), (types_5, True, S), (types_6, True, S), (floats_0, X, 4),
    (floats_1, X, 4), (floats_2, X, 4), (floats_3, X, 4), (floats_4, X, 4), (floats_5, X, 4), (floats_6, X, 4), (floats_7, X, 4), (floats_8, X, 4),
    (floats_0, -X, 4), (floats_1, -X, 4), (floats_2, -X, 4), (floats_3, -X, 4), (floats_4, -X, 4), (floats_5, -X, 4), (floats_6, -X, 4), (floats_7,
    -X, 4), (floats_8, -X, 4), (floats2_0, X), (floats2_1, X), (floats2_2, X), (floats2_3, X), (bits_0, 200), (bits_1, 200), (bits_2, 200), (errors1,
    5), (errors1, -2), (errors2, K), (errors2, 'x'), (errors3, 'zz'), (errors3, ''), (errors3, ' 7'), (errors4, 1), (errors5, S), (errors6, I),
    (errors7, I, S), (errors8, S), (errors9, I), (errors10, S), (attrs, I)]
CASES += [(unary, f, k, 2) for f in UNARY for k in KINDS if (f, k) not in {(shown, plain), (shown, sized), (shown, lazy), (shown, function), (shown, views)}]
CASES += [(binary, f, k, h, 4, b) for f in BINARY for k in KINDS for h in KINDS for b in (4, 1)]
CASES += [(method, n, k, a) + tuple(args) for k, a, ms in [
    (text, 4, [('split', '4'), ('split', 'k'), ('split', ''), ('split', None), ('split', 4), ('join', ['a', 'b']), ('join', 'ab'), ('join', 4), ('join', [4]),
               ('strip', 'k'), ('strip', None), ('lstrip', 'x'), ('rstrip', '4'), ('startswith', 'k'), ('startswith', ('a', 'k')), ('startswith', 4),
               ('endswith', '4'), ('endswith', ''), ('find', '4'), ('find', 'z'), ('find', ''), ('index', '4'), ('index', 'z'), ('rfind', '4'),
               ('replace', '4', 'x'), ('replace', '', '-'), ('replace', '4', ''), ('count', '4'), ('count', ''), ('partition', '4'), ('partition', 'z'),
               ('partition', ''), ('rpartition', '4'), ('lower',), ('upper',), ('title',), ('isdigit',), ('isalpha',), ('isalnum',), ('zfill', 5),
               ('zfill', 1), ('rjust', 5), ('ljust', 5, '-'), ('center', 6), ('encode',), ('encode', 'ascii'), ('encode', 'latin-1'), ('format', 1),
               ('splitlines',), ('casefold',), ('swapcase',), ('removeprefix', 'k'), ('removesuffix', 'k'), ('isspace',), ('islower',), ('expandtabs',),
               ('decode',), ('append', 'x'), ('keys',)]),
    (data, 4, [('decode',), ('decode', 'ascii'), ('hex',), ('split', b'4'), ('startswith', b'k'), ('find', b'4'), ('join', [b'a', b'b']), ('join', ['a']),
               ('replace', b'4', b'x'), ('strip',), ('encode',), ('upper',), ('lower',), ('isdigit',), ('count', b'k')]),
    (array, 4, [('append', 65), ('append', 300), ('extend', b'ab'), ('decode',), ('clear',), ('hex',), ('pop',), ('reverse',)]),
    (listed, 4, [('append', 1), ('append',), ('extend', [1]), ('extend', 'ab'), ('extend', 4), ('extend', {'x': 1}), ('insert', 0, 9), ('insert', 9, 9),
                 ('insert', -1, 9), ('pop',), ('pop', 0), ('pop', -2), ('pop', 5), ('remove', 4), ('remove', 99), ('index', 7), ('index', 99), ('count', 4),
                 ('clear',), ('copy',), ('reverse',), ('sort',), ('get', 1), ('add', 1)]),
    (pair, 4, [('index', 7), ('count', 4), ('append', 1), ('index', 99)]),
    (point, 4, [('_asdict',), ('index', 7), ('count', 7), ('_replace',)]),
    (keyed, 4, [('get', 4), ('get', 99), ('get', 99, 'd'), ('get',), ('pop', 4), ('pop', 99), ('pop', 99, None), ('setdefault', 4, 'n'), ('setdefault', 5),
                ('setdefault', 5, 'n'), ('update', {4: 'n', 5: 'm'}), ('update', [(4, 'n')]), ('update',), ('update', None), ('update', 'ab'),
                ('clear',), ('copy',), ('popitem',), ('has_key', 4), ('append', 4), ('get', [])]),
    (group, 4, [('add', 4), ('add', 9), ('add', []), ('discard', 4), ('discard', 9), ('remove', 4), ('remove', 9), ('pop',), ('clear',), ('copy',),
                ('update', [9]), ('update', 'ab'), ('union', [9]), ('intersection', [4]), ('difference', [4]), ('issubset', [4, 7, 9]), ('issuperset', [4]),
                ('isdisjoint', [4]), ('symmetric_difference', [4]), ('get', 4), ('append', 4)]),
    (frozen, 4, [('add', 4), ('union', [9]), ('copy',), ('isdisjoint', [1])]),
    (number, 4, [('bit_length',), ('to_bytes', 1, 'big'), ('to_bytes', 2, 'little'), ('real',), ('conjugate',), ('is_integer',), ('hex',), ('__add__', 3),
                 ('__eq__', 4), ('__index__',), ('__nothing__',)]),
    (real, 5, [('is_integer',), ('hex',), ('as_integer_ratio',), ('bit_length',)])] for n, *args in ms]

"""C05: binary propagation."""
from contracts._common import M64, ids, same_ids
from jaeger_client.codecs import BinaryCodec
from jaeger_client.span_context import SpanContext
from pyvc.harness import unit


def header_bytes(S, t, s, p, f, n):
    return S.bcat(S.u64be(S.div(t, 1 << 64)), S.u64be(S.mod(t, 1 << 64)), S.u64be(s), S.u64be(0 if p is None else p),
                  S.u8(f), S.u32be(n))


def item_bytes(S, k, v):
    kb, vb = S.utf8(k), S.utf8(v)
    return S.bcat(S.u32be(S.len(kb)), kb, S.u32be(S.len(vb)), vb)


def small(S, name):
    """a string short enough for a 31-bit length"""
    s = S.str(name, utf8=True)
    S.assume(S.len(S.utf8(s)) < (1 << 31))
    return s


@unit('C05')
def binary_inject(S):
    """appends the header, and every item exactly once and intact"""
    t, s, p, f = ids(S)
    c0 = S.bytes('already there')
    carrier = S.bytearray(c0)
    n = S.choose('items', [0, 1, 2, 3])
    items = [(small(S, 'k%d' % i), small(S, 'v%d' % i)) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.Not(S.eq(items[i][0], items[j][0])))
    bag = S.newdict(items)
    S.run(S.new(BinaryCodec).inject, S.new(SpanContext, t, s, p, f, bag), carrier)
    want = S.bcat(c0, header_bytes(S, t, s, p, f, n), *[item_bytes(S, k, v) for k, v in items])
    S.check('the carrier got header and items appended', S.eq(S.data(carrier), want))


@unit('C05')
def binary_inject_any_baggage(S):
    t, s, p, f = ids(S)
    c0 = S.bytes('already there')
    carrier = S.bytearray(c0)
    k0, v0 = small(S, 'k'), small(S, 'v')
    bag = S.dict('baggage', key=lambda: small(S, 'bk'), val=lambda: small(S, 'bv'), entries=[(k0, v0)])
    n = S.len(bag)
    S.assume(n < (1 << 32))
    S.run(S.new(BinaryCodec).inject, S.new(SpanContext, t, s, p, f, bag), carrier)
    head = S.bcat(c0, header_bytes(S, t, s, p, f, n))
    S.check('header with the number of items', S.bstarts(S.data(carrier), head))
    S.check('every item is there, length-prefixed', S.bfind(S.data(carrier), item_bytes(S, k0, v0), after=S.len(head)))


@unit('C05')
def binary_extract(S):
    """any number of items: the one looked at stands anywhere among them"""
    t, s, p, f = ids(S)
    k0, v0, q = small(S, 'k'), small(S, 'v'), small(S, 'another key')
    S.assume(S.Not(S.eq(k0, q)))

    def other():
        k = small(S, 'other k')
        S.assume(S.Not(S.eq(k, k0)))
        S.assume(S.Not(S.eq(k, q)))
        return k, small(S, 'other v')

    def pack(k, v):
        return item_bytes(S, k, v)
    before, after = S.packed('items before', other, pack), S.packed('items after', other, pack)
    n = before.n + 1 + after.n
    S.assume(n < (1 << 32))
    S.cut_loops(n, before.n)
    S.interest(k0, q)
    data = S.bcat(header_bytes(S, t, s, p, f, n), before.data, item_bytes(S, k0, v0), after.data)
    r = S.run(S.new(BinaryCodec).extract, S.bytearray(data))
    S.check('same ids and flags', same_ids(S, r, t, s, p, f))
    S.check('the item is there', S.same(S.lookup(r.baggage, k0), v0))
    S.check('no item that was not sent', S.is_(S.lookup(r.baggage, q), S.MISSING))


@unit('C05')
def binary_extract_few(S):
    """zero to two items exactly"""
    t, s, p, f = ids(S)
    n = S.choose('items', [0, 1, 2])
    items = [(small(S, 'k%d' % i), small(S, 'v%d' % i)) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.Not(S.eq(items[i][0], items[j][0])))
    data = S.bcat(header_bytes(S, t, s, p, f, n), *[item_bytes(S, k, v) for k, v in items])
    r = S.run(S.new(BinaryCodec).extract, S.bytearray(data))
    S.check('same ids and flags', same_ids(S, r, t, s, p, f))
    S.check('as many items', S.eq(S.len(r.baggage), n))
    for k, v in items:
        S.check('same items', S.same(S.lookup(r.baggage, k), v))


@unit('C05')
def unpack_one_item(S):
    """reading one item leaves exactly what follows it: the induction step of extraction"""
    k, v = small(S, 'k'), small(S, 'v')
    rest = S.bytes('rest')
    b = item_bytes(S, k, v)
    r = S.run(S.new(BinaryCodec)._unpack_baggage_item, S.bytearray(S.bcat(b, rest)))
    S.check('key and value', S.And(S.same(r[0], k), S.same(r[1], v)))
    S.check('length', S.eq(r[2], S.len(b)))


@unit('C05', sym=False, bounded='native runs only: up to 600 baggage items, keys and values of up to 70000 bytes', runs=40)
def binary_round_trip_of_many_items(S):
    t, s, p, f = ids(S)
    n = S.choose('items', [0, 1, 2, 15, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 180, 255, 256, 257, 300, 513, 600])
    long = S.choose('length', [0, 1, 127, 128, 200, 255, 256, 257, 1000, 4096, 8193, 32768, 65535, 65536, 70000])
    items = [('k%d' % i, 'v%d' % i) for i in range(n)] + [('long' + 'x' * (long // 2), 'é' + 'y' * long)]
    carrier = S.bytearray(S.bytes('already there'))
    skip = len(carrier)
    S.run(S.new(BinaryCodec).inject, S.new(SpanContext, t, s, p, f, S.newdict(items)), carrier)
    want = S.bcat(header_bytes(S, t, s, p, f, n + 1), *[item_bytes(S, k, v) for k, v in items])
    S.check('layout', S.eq(S.data(carrier)[skip:], want))
    r = S.run(S.new(BinaryCodec).extract, carrier[skip:])
    S.check('same ids and flags', same_ids(S, r, t, s, p, f))
    S.check('same baggage', r.baggage == dict(items))

"""C02: trace-context header grammar."""
from opentracing import SpanContextCorruptedException

from jaeger_client.codecs import span_context_from_string, span_context_to_string
from pyvc.harness import unit

M64 = (1 << 64) - 1
M128 = (1 << 128) - 1


def header_spec(S, v):
    """the numbers denoted by header value v, or None if it is malformed"""
    if S.isinstance(v, list):
        if S.len(v) != 1:
            return None
        v = v[0]
    if not S.isinstance(v, str):
        return None
    fields = S.split(v, ':')
    if S.len(fields) != 4:
        return None
    fields = [fields[0], fields[1], fields[2], fields[3]]
    if not all(S.ishex(f) for f in fields):
        return None
    t, s, p, f = [S.hexval(x) for x in fields]
    if not S.And(1 <= t, t <= M128, 1 <= s, s <= M64, 0 <= p, p <= M64, 0 <= f, f <= 255):
        return None
    return t, s, p, f


def good_header(S):
    return S.cat(S.hexstr('g0', S.int('gt', 1, M128)), ':', S.hexstr('g1', S.int('gs', 1, M64)), ':', S.hexstr('g2', S.int('gp', 0, M64)), ':',
                 S.hexstr('g3', S.int('gf', 0, 255)))


def check_header(S, v, r):
    spec = header_spec(S, v)
    if spec is None:
        S.check('a malformed value is rejected as corrupted', r.raised(SpanContextCorruptedException))
        return
    if not r.ok:
        S.check('a well-formed value is accepted', False)
        return
    t, s, p, f = spec
    got = r.value
    S.check('trace id, span id and flags are the decoded numbers', S.And(S.same(got[0], t), S.same(got[1], s), S.same(got[3], f)))
    if p == 0:
        S.check('parent 0 means no parent', got[2] is None)
    else:
        S.check('parent id is the decoded number', S.same(got[2], p))


@unit('C02', runs=1500)
def decode_header_string(S):
    """any string: accepted exactly when it matches the grammar"""
    v = S.choose('kind', [('any', lambda: S.str('value')),
                          ('four', lambda: S.cat(S.str('f0', no=':'), ':', S.str('f1', no=':'), ':', S.str('f2', no=':'),
                                                 ':', S.str('f3', no=':'))),
                          ('good within', lambda: S.cat(S.str('before', maxlen=2), good_header(S), S.str('after', maxlen=2))),
                          ('hex', lambda: S.cat(S.hexstr('h0'), ':', S.hexstr('h1'), ':', S.hexstr('h2'), ':', S.hexstr('h3')))])
    check_header(S, v, S.call(span_context_from_string, v))


@unit('C02', runs=400)
def decode_header_any_type(S):
    """values of any type"""
    v = S.value('value', kinds=('none', 'bool', 'int', 'float', 'bytes', 'tuple', 'tuple0', 'dict', 'obj', 'list', 'list1'))
    check_header(S, v, S.call(span_context_from_string, v))


@unit('C02')
def decode_header_list_of_one(S):
    x = S.value('item', kinds=('none', 'int', 'str', 'bytes', 'list', 'tuple', 'obj'))
    if S.isinstance(x, str):
        x = S.choose('text', [('any', lambda: x), ('good', lambda: good_header(S))])
    v = S.newlist([x]) if S.bool('list') else (x,)
    check_header(S, v, S.call(span_context_from_string, v))


@unit('C02')
def encode_header(S):
    t, s, f = S.int('trace_id', 1, M128), S.int('span_id', 1, M64), S.int('flags', 0, 255)
    p = S.choose('parent', [('none', lambda: None), ('some', lambda: S.int('parent_id', 0, M64))])
    h = S.run(span_context_to_string, t, s, p, f)
    want = S.cat(S.fmt_hex(t), ':', S.fmt_hex(s), ':', S.fmt_hex(0 if p is None else p), ':', S.fmt_hex(f))
    S.check('the header is the four unpadded lower-case hexadecimal numbers', S.eq(h, want))
    check_header(S, h, S.call(span_context_from_string, h))

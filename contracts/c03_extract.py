"""C03: extraction from headers."""
from contracts._common import M64, M128
from contracts.c01_text import CONFIGS
from jaeger_client.codecs import TextCodec
from pyvc.harness import unit
from pyvc.models import WHITESPACE

WS = WHITESPACE


def codec_of(S, conf, url):
    return S.new(TextCodec, url_encoding=url, **conf[0])


def other(S, q, entry):
    """q does not name the same header as entry"""
    return S.Not(S.eq(S.lower(q), S.lower(entry)))


def carrier(S, entries, ok):
    return S.dict('carrier', key=lambda: S.str('ck'), val=lambda: S.str('cv', utf8=True), entries=entries, ok=ok)


def sent(S, url, text):
    """what travels for a header of this value"""
    return S.quote(text) if url else text


@unit('C03', runs=300, shards=6)
def trace_header_any_case(S):
    """whatever the other headers are, in whatever order"""
    conf, url = S.choose('names and encoding', CONFIGS)
    name = S.cased('header name', conf[1])
    t, s, p, f = S.int('t', 1, M128), S.int('s', 1, M64), S.int('p', 0, M64), S.int('f', 0, 255)
    text = S.cat(S.hexstr('t text', t), ':', S.hexstr('s text', s), ':', S.hexstr('p text', p), ':', S.hexstr('f text', f))
    c = carrier(S, [(name, sent(S, url, text))], lambda q: other(S, q, name))
    r = S.run(codec_of(S, conf, url).extract, c)
    S.check('a context is extracted', r is not None)
    S.check('trace id, span id and flags are those of the header', S.And(S.same(r.trace_id, t), S.same(r.span_id, s), S.same(r.flags, f)))
    if S.case(S.eq(p, 0)):
        S.check('no parent for parent 0', r.parent_id is None)
    else:
        S.check('parent id is that of the header', S.same(r.parent_id, p))


@unit('C03', runs=300, shards=6)
def baggage_entry_any_case(S):
    conf, url = S.choose('names and encoding', CONFIGS)
    k, v = S.str('key'), S.str('value', utf8=True)
    name = S.cat(S.cased('prefix', conf[2]), k)
    S.interest(S.lower(k))
    c = carrier(S, [(name, sent(S, url, v))],
                lambda q: S.And(other(S, q, name), other(S, q, conf[1]), other(S, q, conf[4])))
    r = S.run(codec_of(S, conf, url).extract, c)
    S.check('a context is extracted', r is not None)
    S.check('it carries no trace', S.And(r.trace_id is None, r.span_id is None, r.parent_id is None, r.flags is None))
    S.check('the item is there under its lower-case name', S.same(S.lookup(r.baggage, S.lower(k)), v))


@unit('C03', runs=300, shards=6)
def baggage_only_from_headers(S):
    """no item that no header announces"""
    conf, url = S.choose('names and encoding', CONFIGS)
    j = S.str('absent item')
    full = S.cat(conf[2], j)
    S.interest(j)
    c = carrier(S, [], lambda q: S.And(other(S, q, conf[1]), other(S, q, conf[4]), other(S, q, full)))
    r = S.run(codec_of(S, conf, url).extract, c)
    S.check('no item that no header announces', r is None or S.Not(S.has(r.baggage, j)))


@unit('C03', runs=300, shards=6)
def no_relevant_header(S):
    conf, url = S.choose('names and encoding', CONFIGS)
    c = carrier(S, [], lambda q: S.And(other(S, q, conf[1]), other(S, q, conf[3]), other(S, q, conf[4]),
                                       S.Not(S.startswith(S.lower(q), conf[2]))))
    S.check('no context', S.run(codec_of(S, conf, url).extract, c) is None)


@unit('C03', runs=300, shards=6)
def debug_id_header(S):
    conf, url = S.choose('names and encoding', CONFIGS)
    name = S.cased('header name', conf[3])
    d = S.str('debug id', utf8=True)
    c = carrier(S, [(name, sent(S, url, d))], lambda q: S.And(other(S, q, name), other(S, q, conf[1]), other(S, q, conf[4]),
                                                   S.Not(S.startswith(S.lower(q), conf[2]))))
    r = S.run(codec_of(S, conf, url).extract, c)
    if S.case(S.eq(d, '')):
        S.check('an empty debug id is none', r is None)
    else:
        S.check('a context with the debug id', r is not None and S.same(r.debug_id, d))
        S.check('and no trace', S.And(r.trace_id is None, r.span_id is None, r.parent_id is None, r.flags is None))
        S.check('and no baggage', S.eq(S.len(r.baggage), 0))


def item(S, bad_key):
    """an item of the ad-hoc baggage header that says nothing about bad_key"""
    def good():
        k = S.str('ik', no=',=' + WS, minlen=1, utf8=True)
        S.assume(S.Not(S.eq(k, bad_key)))
        return S.cat(S.choose('before', ['', ' ', '\t ']), k, '=', S.str('iv', no=',=' + WS, minlen=1, utf8=True), S.choose('after', ['', ' ']))
    return S.choose('item', [('nothing', lambda: S.str('i0', no=',=' + WS, minlen=1, utf8=True)), ('good', good), ('empty', lambda: ''),
                             ('two', lambda: S.cat(S.str('ia', no=',=' + WS, minlen=1, utf8=True), '=', S.str('ib', no=',=', utf8=True), '=',
                                                   S.str('ic', no=',' + WS, minlen=1, utf8=True)))])


@unit('C03', runs=400, shards=2)
def adhoc_baggage_header(S):
    url = S.choose('url', [False, True])
    conf = CONFIGS[0][0]
    k, v = S.str('k', no=',=' + WS, minlen=1, utf8=True), S.str('v', no=',=' + WS, utf8=True)
    S.interest(k)
    parts = [S.seg('before', lambda: item(S, k)), S.cat(S.choose('ws', ['', ' ']), k, '=', v), S.seg('after', lambda: item(S, k))]
    name = S.cased('header name', conf[4])
    c = carrier(S, [(name, sent(S, url, S.joined(',', parts)))],
                lambda q: S.And(other(S, q, name), other(S, q, conf[1]), S.Not(S.startswith(S.lower(q), conf[2]))))
    r = S.run(codec_of(S, conf, url).extract, c)
    S.check('a context is extracted', r is not None)
    S.check('a well-formed item is there', S.same(S.lookup(r.baggage, k), v))
    S.check('it carries no trace', S.And(r.trace_id is None, r.span_id is None))


@unit('C03', runs=600, shards=12)
def all_headers_together(S):
    """trace, debug id, baggage and ad-hoc baggage headers in any order, any of them present or not"""
    url, has_trace, kinds = S.choose('case', [(u, t, k) for u in (False, True) for t in (False, True) for k in ('both', 'adhoc first', 'none')])
    conf = CONFIGS[0][0]
    tname, bname, aname, dname = S.cased('tname', conf[1]), S.cased('prefix', conf[2]), S.cased('aname', conf[4]), S.cased('dname', conf[3])
    t, s, p, f = S.int('t', 1, M128), S.int('s', 1, M64), S.int('p', 1, M64), S.int('f', 0, 255)
    text = S.cat(S.hexstr('t text', t), ':', S.hexstr('s text', s), ':', S.hexstr('p text', p), ':', S.hexstr('f text', f))
    k, v = S.str('k', utf8=True), S.str('v', utf8=True)
    k2, v2 = S.str('k2', no=',=' + WS, minlen=1, utf8=True), S.str('v2', no=',=' + WS, minlen=1, utf8=True)
    k3, v3 = S.str('k3', no=',=' + WS, minlen=1, utf8=True), S.str('v3', no=',=' + WS, minlen=1, utf8=True)
    S.assume(S.And(S.Not(S.eq(S.lower(k), k2)), S.Not(S.eq(S.lower(k), k3)), S.Not(S.eq(k2, k3))))
    d = S.str('d', minlen=1, utf8=True)
    es = [(dname, sent(S, url, d))]
    if has_trace:
        es.append((tname, text))
    bag = [(S.cat(bname, k), sent(S, url, v)), (aname, sent(S, url, S.cat(k2, '=', v2, ',', k3, '=', v3)))]
    if kinds != 'none':
        es += bag if kinds == 'both' else bag[::-1]
    if kinds != 'both':
        es = es[1:] + es[:1]
    q = S.str('q')
    S.interest(S.lower(k), k2, k3, q)
    c = S.newdict([('x-request-id', S.str('uval'))] + es)
    r = S.run(codec_of(S, conf, url).extract, c)
    S.check('a context is extracted', r is not None)
    S.check('the debug id', S.same(r.debug_id, d))
    if has_trace:
        S.check('the trace', S.And(S.same(r.trace_id, t), S.same(r.span_id, s), S.same(r.parent_id, p), S.same(r.flags, f)))
    else:
        S.check('no trace', r.trace_id is None and r.span_id is None and r.parent_id is None and r.flags is None)
    if kinds != 'none':
        S.check('every item', S.And(S.same(S.lookup(r.baggage, S.lower(k)), v), S.same(S.lookup(r.baggage, k2), v2),
                                    S.same(S.lookup(r.baggage, k3), v3)))
        S.check('nothing else', S.eq(S.len(r.baggage), 3))
    else:
        S.check('no item', S.eq(S.len(r.baggage), 0))


@unit('C03', runs=400, shards=2)
def adhoc_baggage_header_ignores_malformed(S):
    url = S.choose('url', [False, True])
    conf = CONFIGS[0][0]
    j = S.str('j', no=',=' + WS, minlen=1, utf8=True)
    S.interest(j)
    name = S.cased('header name', conf[4])
    c = carrier(S, [(name, sent(S, url, S.joined(',', [item(S, j), S.seg('more', lambda: item(S, j))])))],
                lambda q: S.And(other(S, q, name), other(S, q, conf[1]), S.Not(S.startswith(S.lower(q), conf[2]))))
    r = S.run(codec_of(S, conf, url).extract, c)
    S.check('nothing is made up from other items', r is None or S.Not(S.has(r.baggage, j)))


def lookalikes(name):
    """names close to this one, none of them naming the same header"""
    return [v for v in (name.replace('-', '_'), name.replace('-', ''), name.replace('-', '.'), name.replace('_', '-'), name + ' ', ' ' + name, 'x-' + name, 'http_' + name,
                        name[:-1], name[1:], name + name[-1], name + ':', name.replace('a', 'á')) if v != name]


@unit('C03', shards=6, runs=600)
def similar_names_are_other_headers(S):
    """a header whose name differs other than by case is another header"""
    conf, url = S.choose('names and encoding', CONFIGS)
    which, name = S.choose('lookalike', [(i, n) for i in (1, 2, 3, 4) for n in lookalikes(conf[i])
                                        if n not in (conf[1], conf[3], conf[4]) and not n.startswith(conf[2])])
    text = {1: '1:2:0:1', 2: 'v', 3: 'd', 4: 'k=v'}[which]
    alone = S.choose('next to the trace header', [False, True])
    es = [(S.choose('case', [str.lower, str.upper])(name), text)]
    if alone:
        es.append((conf[1], '10:20:0:1'))
    r = S.run(codec_of(S, conf, url).extract, S.newdict(es))
    if not alone:
        S.check('no context', r is None)
    else:
        S.check('the trace header decides', S.And(S.same(r.trace_id, 16), S.same(r.span_id, 32)))
        S.check('no debug id', r.debug_id is None)
        S.check('no baggage', S.eq(S.len(r.baggage), 0))

"""C22: records are written under the field numbers and types of the agent's interface (jaeger.thrift, agent.thrift)."""
from clients import wire
from contracts._common import M64
from jaeger_client.thrift_gen.agent import Agent
from jaeger_client.thrift_gen.jaeger import ttypes
from pyvc.harness import unit

I63 = (1 << 63) - 1
BOOL, DOUBLE, I32, I64, STRING, STRUCT, LIST = 2, 4, 8, 10, 11, 12, 15
WRITES = {BOOL: 'bool', DOUBLE: 'double', I32: 'i32', I64: 'i64', STRING: 'string'}
# attribute: (number, type); the interface as published, written down independently of the generated code
INTERFACE = {
    'Tag': dict(key=(1, STRING), vType=(2, I32), vStr=(3, STRING), vDouble=(4, DOUBLE), vBool=(5, BOOL), vLong=(6, I64), vBinary=(7, STRING)),
    'Log': dict(timestamp=(1, I64), fields=(2, LIST)),
    'SpanRef': dict(refType=(1, I32), traceIdLow=(2, I64), traceIdHigh=(3, I64), spanId=(4, I64)),
    'Span': dict(traceIdLow=(1, I64), traceIdHigh=(2, I64), spanId=(3, I64), parentSpanId=(4, I64), operationName=(5, STRING), references=(6, LIST),
                 flags=(7, I32), startTime=(8, I64), duration=(9, I64), tags=(10, LIST), logs=(11, LIST)),
    'Process': dict(serviceName=(1, STRING), tags=(2, LIST)),
    'Batch': dict(process=(1, STRUCT), spans=(2, LIST)),
    'emitBatch_args': dict(batch=(1, STRUCT)),
}
OPTIONAL = {'Tag': ['vStr', 'vDouble', 'vBool', 'vLong', 'vBinary'], 'Span': ['references', 'tags', 'logs'], 'Process': ['tags']}


def value(S, name, kind, place):
    if kind == BOOL:
        return S.bool(name)
    if kind == DOUBLE:
        return S.float(name)
    if kind == STRING:
        return S.str(name)
    if kind in (I32, I64):
        return S.int(name, -I63 - 1, I63)
    if kind == STRUCT:
        return S.new(wire.Nested, name)
    before = S.seg(name + ' before', lambda: S.new(wire.Element))
    place[name] = S.len(S.newlist([before]))
    return S.newlist([before, S.new(wire.Marked), S.seg(name + ' after', lambda: S.new(wire.Element))])


def check_written(S, log, fields, values, place):
    """one record: each field that has a value once, under its number, with its type and value"""
    S.check('a record with an end', S.And(S.eq(log[0][0], 'struct'), S.eq(log[-2][0], 'stop'), S.eq(log[-1][0], 'struct end')))
    rest, seen = log[1:-2], []
    while rest:
        (what, kind, number), rest = rest[0], rest[1:]
        S.check('a field', S.eq(what, 'field'))
        name = [n for n, (i, _) in fields.items() if i == number]
        S.check('with a number of the interface, once', len(name) == 1 and name[0] not in seen)
        name = name[0]
        seen.append(name)
        S.check('and its type', kind == fields[name][1])
        v = values[name]
        S.check('only fields that have a value', v is not None)
        if kind == LIST:
            S.check('a list of records', rest[0][0] == 'list' and rest[0][1] == STRUCT)
            S.check('its length', S.eq(rest[0][2], S.len(v)))
            (what, n, at, times), rest = rest[1], rest[2:]
            S.check('all elements', S.And(what == 'list end', S.eq(n, S.len(v))))
            S.check('each once, in its place', S.And(S.eq(times, 1), S.eq(at, place[name])))
        elif kind == STRUCT:
            S.check('the record in it', rest[0][0] == 'record' and S.case(S.eq(rest[0][1], name)))
            rest = rest[1:]
        else:
            S.check('the value', S.And(S.eq(rest[0][0], WRITES[kind]), S.same(rest[0][1], v)))
            rest = rest[1:]
        S.check('end of the field', S.eq(rest[0][0], 'field end'))
        rest = rest[1:]
    S.check('every field that has a value', set(seen) == {n for n in fields if values[n] is not None})


def record(S, kind):
    """a record with all its required and some of its other fields"""
    fields, place, values = INTERFACE[kind], {}, {}
    for n, (_, t) in fields.items():
        there = n not in OPTIONAL.get(kind, ()) or S.choose('has ' + n, [True, False])
        values[n] = value(S, n, t, place) if there else None
    r = S.new(getattr(Agent if kind == 'emitBatch_args' else ttypes, kind), **values)
    return r, lambda log: check_written(S, log, fields, values, place)


@unit('C22')
def written(S):
    r, check = record(S, S.choose('record', sorted(INTERFACE)))
    p = S.new(wire.Protocol)
    S.run(r.write, p)
    check(S.items(S.attr(p, 'log')))


@unit('C22')
def kinds(S):
    """the numbers of the kinds of tags and references"""
    t, r = ttypes.TagType, ttypes.SpanRefType
    S.check('kinds of tags', [t.STRING, t.DOUBLE, t.BOOL, t.LONG, t.BINARY] == [0, 1, 2, 3, 4])
    S.check('kinds of references', [r.CHILD_OF, r.FOLLOWS_FROM] == [0, 1])


@unit('C22')
def batch_message(S):
    """a batch goes out as one message that is flushed"""
    p, batch = S.new(wire.Protocol), S.new(wire.Nested, 'batch')
    c = S.new(Agent.Client, S.new(wire.Channel), p)
    for _ in range(S.choose('batches', [1, 2])):
        n = S.len(S.attr(p, 'log'))
        S.run(c.emitBatch, batch)
        log = S.items(S.attr(p, 'log'))[n:]
        S.check('one message, of the kind that has no answer', S.And(S.eq(log[0], ('message', 'emitBatch', 4)), S.eq(log[-2], ('message end',))))
        S.check('sent', S.eq(log[-1], ('flush',)))
        check_written(S, log[1:-2], INTERFACE['emitBatch_args'], {'batch': batch}, {})

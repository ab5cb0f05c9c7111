"""C23: the remote reporter accounts for every span exactly once; C24: closing flushes everything."""
import socket

import tornado.gen
import tornado.queues
from thrift.protocol import TCompactProtocol

from clients import sending
from contracts import _callees  # noqa: F401
from contracts._tracer import make_tracer
from jaeger_client.local_agent_net import LocalAgentSender
from jaeger_client.reporter import Reporter
from jaeger_client.span import Span
from jaeger_client.span_context import SpanContext
from pyvc.core import ModelObj
from pyvc.harness import unit


class Loop(ModelObj):
    """io loop that records what it is asked to run"""
    def __init__(self, S):
        self.soon = S.newlist()
        self.now = 1000.0

    def spawn_callback(self, fn, *args):
        self.soon.append((fn, args))

    def add_callback(self, fn, *args):
        self.soon.append((fn, args))

    def time(self):
        return self.now


class Channel(ModelObj):
    def __init__(self, S):
        self.io_loop = Loop(S)


class Adder(ModelObj):
    def __init__(self, sums, label):
        self.sums, self.label = sums, label

    def __call__(self, v):
        s = self.sums
        if self.label == 'ok':
            s.ok = s.ok + v
        elif self.label == 'err':
            s.err = s.err + v
        elif self.label == 'dropped':
            s.dropped = s.dropped + v


class Sums(ModelObj):
    """metrics factory that adds up the three span counters"""
    def __init__(self):
        self.ok = self.err = self.dropped = 0

    def create_counter(self, name, tags=None):
        return Adder(self, tags['result'] if name == 'jaeger:reporter_spans' else None)

    def create_gauge(self, name, tags=None):
        return Adder(self, None)


class Errors(ModelObj):
    def error(self, *args):
        return None


def reporter(S, **kw):
    """(reporter, metrics, io loop)"""
    met, loop = Sums(), Loop(S)
    r = S.new(Reporter, Channel(S), io_loop=loop, metrics_factory=met, error_reporter=Errors(), **kw)
    return r, met, loop


def callback(S, loop, i):
    """run a callback the loop was asked to run"""
    fn, args = S.items(loop.soon)[i]
    return S.run(fn, *args)


class Agent(ModelObj):
    """what the batches are sent to"""
    def __init__(self, S, size, process):
        self.S, self.size, self.process = S, size, process
        self.tried = 0
        self.sent = 0
        self.src = None

    def emitBatch(self, batch):
        S, src = self.S, self.src
        S.check('the batch holds exactly the spans taken and not accounted for, in order', S.held(batch.spans, src, lambda r: int(r.operationName)))
        start, n = src.start(), src.taken - src.start()
        S.check('no empty batch', n >= 1)
        S.check('never more than the batch size', n <= self.size)
        S.check('no span goes into a second batch', self.tried <= start)
        S.check('the process of the reporter', S.same(batch.process.serviceName, 'service'))
        self.tried = src.taken
        how = S.choose('sending', ['succeeds', 'socket error', 'error', 'other error'])
        if how == 'succeeds':
            self.sent = self.sent + n
        elif how == 'socket error':
            S.raise_(socket.error, 'sending failed')
        elif how == 'error':
            S.raise_(ValueError, 'encoding failed')
        else:
            S.raise_(Exception, 'failed')


class Queue(ModelObj):
    """any sequence of spans, then the stop signal; sometimes nothing comes for as long as the consumer is willing to wait"""
    def __init__(self, S, met, flush, make, loop):
        self.S, self.met, self.flush, self.loop = S, met, flush, loop
        self.src = S.item_source(lambda: met.ok + met.err, make)
        self.done = 0
        self.gets = 0
        self.stop = None
        self.stops = 0
        self.put_after = S.newlist()

    def put(self, x):
        self.put_after.append(x)
        return self.S.future()

    def join(self):
        return self.S.future()

    def get(self, timeout=None):
        S, src = self.S, self.src
        S.check('the consumer takes nothing after the stop signal', S.eq(self.stops, 0))
        held = src.taken - src.start()
        if self.flush is not None and S.case(held > 0):
            S.check('with spans in hand it waits for the flush interval at most', timeout is not None and timeout <= self.loop.now + self.flush)
        if not S.sym:
            self.gets += 1
        kind = 'stop' if not S.sym and self.gets > 40 else S.choose('next', ['span', 'stop'] + (['timeout'] if timeout is not None else []))
        if kind == 'timeout':
            return S.future(exc=tornado.gen.TimeoutError)
        if kind == 'stop':
            self.stops = self.stops + 1
            return S.future(self.stop)
        return S.future(src.take())

    def task_done(self):
        S = self.S
        self.done = self.done + 1
        S.check('nothing is marked done before it has been submitted', self.done <= self.src.start() + self.stops)

    def qsize(self):
        return self.S.int('queue size', 0)


@unit('C23', uses=('make_batch',), runs=400)
def consumer(S):
    """any number of spans, timeouts and failures"""
    size = S.int('batch size', 1, None if S.sym else 5)
    flush = S.choose('flush interval', [('none', lambda: None), ('some', lambda: S.float('flush interval', 0, None, lo_open=True))])
    r, met, loop = reporter(S, batch_size=size, queue_capacity=size, flush_interval=flush)
    S.run(r.set_process, 'service', S.newdict(), 10)
    tr = make_tracer(S)[0]

    def make(k):
        sp = S.new(Span, S.new(SpanContext, 1, 2, None, 1), tr, str(k), start_time=1.0)
        # (the contract of the conversion lets it fail, so proofs need no choice here)
        if S.sym or S.choose('span %s' % k, ['can be converted', 'can be converted', 'can be converted', 'cannot']) != 'cannot':
            S.setfield(sp, 'end_time', 2.0)
        return sp
    q = Queue(S, met, flush, make, loop)
    agent = Agent(S, size, None)
    agent.src = q.src
    S.setfield(r, 'queue', q)
    S.setfield(r, 'agent', agent)
    # the stop signal is whatever closing puts on the queue
    S.run(r.close)
    callback(S, loop, 1)
    S.check('closing puts one stop signal on the queue', S.eq(S.len(q.put_after), 1))
    q.stop = q.put_after[0]
    src = q.src
    S.candidate(lambda: S.eq(src.start(), src.taken))
    S.candidate(lambda: S.eq(q.done, src.start() + q.stops))
    S.candidate(lambda: S.eq(met.ok, agent.sent))
    S.candidate(lambda: agent.tried <= src.start())
    S.candidate(lambda: src.taken - src.start() <= size)
    S.candidate(lambda: q.stops <= 1)
    callback(S, loop, 0)
    S.check('the consumer goes on until the stop signal', S.eq(q.stops, 1))
    S.check('every span is counted as success or failure', S.eq(met.ok + met.err, src.taken))
    S.check('successes are the spans sent', S.eq(met.ok, agent.sent))
    S.check('everything taken off the queue is marked done', S.eq(q.done, src.taken + 1))
    S.check('nothing is counted as dropped', S.eq(met.dropped, 0))


class ListQueue(ModelObj):
    """the items of a list, then the stop signal"""
    def __init__(self, S, items):
        self.S, self.coming, self.taken, self.done = S, items, 0, 0
        self.put_after = S.newlist()

    def put(self, x):
        self.put_after.append(x)
        return self.S.future()

    def join(self):
        return self.S.future()

    def get(self, timeout=None):
        self.taken = self.taken + 1
        return self.S.future(self.coming[self.taken - 1] if self.taken <= len(self.coming) else self.put_after[0])

    def task_done(self):
        self.done = self.done + 1

    def qsize(self):
        return 0


class Sink(ModelObj):
    """takes every batch"""
    def __init__(self, S):
        self.S, self.names = S, S.newlist()

    def emitBatch(self, batch):
        for r in self.S.items(batch.spans):
            self.names.append(r.operationName)


@unit('C23', unroll={('_consume_queue', None): 40})
def repeated_span(S):
    """a span handed over several times is accounted for as often"""
    size = S.choose('batch size', [1, 2, 10])
    r, met, loop = reporter(S, batch_size=size)
    S.run(r.set_process, 'service', S.newdict(), 10)
    tr = make_tracer(S)[0]
    c = S.new(SpanContext, 1, 2, None, 1)
    a, b = [S.new(Span, c, tr, n, start_time=1.0) for n in ('a', 'b')]
    for sp in (a, b):
        S.setfield(sp, 'end_time', 2.0)
    names = S.choose('spans', ['aa', 'aba', 'abab', 'bbb'])
    q, sink = ListQueue(S, [a if n == 'a' else b for n in names]), Sink(S)
    S.setfield(r, 'queue', q)
    S.setfield(r, 'agent', sink)
    S.run(r.close)
    callback(S, loop, 1)
    callback(S, loop, 0)
    S.check('each is sent as often as it was handed over, in order', S.same_list(sink.names, list(names)))
    S.check('each is counted once', S.And(S.eq(met.ok, len(names)), S.eq(met.err + met.dropped, 0)))
    S.check('each is marked done once, and the stop signal', S.eq(q.done, len(names) + 1))


class SmallQueue(ModelObj):
    """counts what is put; full or not"""
    def __init__(self, S, full):
        self.S, self.full = S, full
        self.spans = S.newlist()
        self.signals = S.newlist()

    def put_nowait(self, x):
        if self.full:
            self.S.raise_(tornado.queues.QueueFull)
        self.spans.append(x)

    def put(self, x):
        self.signals.append(x)
        return self.S.future()

    def join(self):
        return self.S.future()

    def qsize(self):
        return 0


@unit('C23')
def report(S):
    """a reported span is put on the queue once, or counted as dropped once"""
    r, met, loop = reporter(S)
    full = S.choose('queue', ['has room', 'is full']) == 'is full'
    q = SmallQueue(S, full)
    S.setfield(r, 'queue', q)
    span = S.opaque('span')
    closed = S.choose('closed', ['never', 'before the report', 'before the callback'])
    n = 1
    if closed == 'before the report':
        S.run(r.close)
        callback(S, loop, n)
        n += 1
    out = S.call(r.report_span, span)
    S.check('reporting never raises', out.ok)
    S.check('reporting only schedules a callback', S.And(S.eq(S.len(loop.soon), n + 1), S.eq(S.len(q.spans), 0), S.eq(met.dropped, 0)))
    if closed == 'before the callback':
        S.run(r.close)
        callback(S, loop, n + 1)
    fn, args = S.items(loop.soon)[n]
    out = S.call(fn, *args)
    S.check('the callback never raises', out.ok)
    if full or closed != 'never':
        S.check('dropped exactly once', S.And(S.eq(met.dropped, 1), S.eq(S.len(q.spans), 0)))
    else:
        S.check('put on the queue exactly once', S.And(S.eq(S.len(q.spans), 1), S.eq(met.dropped, 0)))
        S.check('the very span', S.is_(S.items(q.spans)[0], span))
    S.check('no success or failure is counted yet', S.eq(met.ok + met.err, 0))


@unit('C23')
def capacity(S):
    """the queue has the configured capacity"""
    cap, size = S.int('queue capacity'), S.int('batch size', 1)
    met, loop = Sums(), Loop(S)
    out = S.call(Reporter, Channel(S), io_loop=loop, metrics_factory=met, error_reporter=Errors(), queue_capacity=cap, batch_size=size)
    if S.case(cap < size):
        S.check('a capacity below the batch size is rejected', out.raised(ValueError))
    else:
        S.check('created', out.ok)
        S.check('the queue has that capacity', S.eq(S.attr(out.value.queue, 'maxsize'), cap))
        S.check('one consumer is started', S.eq(S.len(loop.soon), 1))


class Net(ModelObj):
    """the sockets of the machine"""
    def __init__(self, S, host, port):
        self.S = S
        self.to = (host, port)
        self.datagrams = 0
        self.message = b''
        self.sockets = 0
        self.fails = self.encoded = False

    def socket(self, *args):
        self.sockets = self.sockets + 1
        return Socket(self)

    def getaddrinfo(self, *args, **kw):
        return []

    def protocol(self, trans):
        return Protocol(self, trans)

    def batch(self):
        """a batch that writes some bytes, and fails half-way or not; sending may fail too"""
        self.fails = self.S.choose('fails', ['no', 'encoding', 'sending'])
        self.encoded = False
        return Batch(self)

    def outcome(self, ok):
        S = self.S
        S.check('fails exactly when encoding or sending fails', ok == (self.fails == 'no'))
        S.check('one datagram for a batch that is sent, and none for another', S.eq(self.datagrams, 0 if self.fails == 'encoding' else 1))
        self.datagrams = 0


class Socket(ModelObj):
    def __init__(self, net):
        self.net = net

    def setblocking(self, flag):
        return None

    def settimeout(self, t):
        return None

    def sendto(self, data, *rest):
        n, S = self.net, self.net.S
        S.check('sent to the agent', S.And(S.same(rest[-1][0], n.to[0]), S.same(rest[-1][1], n.to[1])))
        n.datagrams = n.datagrams + 1
        S.check('the datagram is the message, all of it and nothing else', S.And(n.encoded, S.eq(data, n.message)))
        if n.fails == 'sending':
            S.raise_(socket.error, 'no buffer space')
        return S.len(data)


class Protocol(ModelObj):
    """writes to the transport, and notes what"""
    _fast_encode = None

    def __init__(self, net, trans):
        self.net, self.trans = net, trans

    def put(self, data):
        self.net.message = self.net.S.bcat(self.net.message, data)
        self.trans.write(data)

    def writeMessageBegin(self, name, kind, seqid):
        self.net.message = b''
        self.put(b'message ')

    def writeMessageEnd(self):
        self.net.encoded = True

    def writeStructBegin(self, name):
        self.put(b'struct ')

    def writeFieldBegin(self, name, kind, number):
        self.put(b'field ')

    def writeFieldEnd(self):
        return None

    def writeFieldStop(self):
        self.put(b'stop ')

    def writeStructEnd(self):
        return None


class Batch(ModelObj):
    def __init__(self, net):
        self.net = net

    def write(self, oprot):
        S = self.net.S
        oprot.put(S.bytes('content'))
        if self.net.fails == 'encoding':
            S.raise_(ValueError, 'value out of range')
        oprot.put(S.bytes('more'))

    def validate(self):
        return None


@unit('C23')
def datagrams(S):
    """each batch, however many there are and whichever of them fail, is one datagram to the agent"""
    host, port = S.str('host'), S.int('port', 1, 65535)
    net, loop = Net(S, host, port), Loop(S)
    S.replace(socket, 'socket', net.socket)
    S.replace(socket, 'getaddrinfo', net.getaddrinfo)
    S.replace(TCompactProtocol, 'TCompactProtocol', net.protocol)
    ch = S.new(LocalAgentSender, host, 5778, port, io_loop=loop)
    r = S.new(Reporter, ch, io_loop=loop, metrics_factory=Sums(), error_reporter=Errors())
    S.check('one socket', S.eq(net.sockets, 1))
    n = S.int('batches', 0, None, soft=5)
    S.candidate(lambda: S.eq(S.run(S.attr(ch, '_TBufferedTransport__wbuf').getvalue), b''))
    S.candidate(lambda: S.eq(net.datagrams, 0))
    S.run(sending.send, r, n, net.batch, net.outcome)

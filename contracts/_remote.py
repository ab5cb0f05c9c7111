"""what a remote service may answer"""
from contracts._tracer import Metrics   # noqa: F401
from pyvc.core import ModelObj


class Future(ModelObj):
    """a completed future"""
    def __init__(self, S, value=None, exc=None):
        self.S, self.value, self.exc = S, value, exc

    def exception(self):
        return self.exc

    def done(self):
        return True

    def result(self):
        if self.exc is not None:
            self.S.raise_(IOError, 'fetch failed')
        return self.value


class Response(ModelObj):
    def __init__(self, body):
        self.body = body


class Pending(ModelObj):
    """a future that has not completed; remembers its callbacks"""
    def __init__(self, S):
        self.callbacks = S.newlist()

    def add_done_callback(self, fn):
        self.callbacks.append(fn)


class Loop(ModelObj):
    """io loop that records what it is asked to run"""
    def __init__(self, S):
        self.soon = S.newlist()
        self.later = S.newlist()

    def add_callback(self, fn, *args):
        self.soon.append(fn)

    def call_later(self, delay, callback, *args):
        self.later.append((delay, callback))


class Channel(ModelObj):
    def __init__(self, S, io_loop=None):
        self.S = S
        self.io_loop = io_loop
        self.asked = S.newlist()
        self.futures = S.newlist()

    def _request(self, *args):
        f = Pending(self.S)
        self.asked.append(args)
        self.futures.append(f)
        return f

    def request_sampling_strategy(self, *args):
        return self._request(*args)

    def request_throttling_credits(self, *args):
        return self._request(*args)


def anyjson(S, name, depth=0, kinds=None, nan=True):
    """an arbitrary JSON document (proofs: whole numbers and booleans are treated as numbers below the top level)"""
    alts = [('null', lambda: None), ('bool', lambda: S.bool(name + '.bool')), ('int', lambda: S.int(name + '.int')),
            ('float', lambda: S.float(name + '.float')), ('nan', lambda: float('nan')), ('str', lambda: S.str(name + '.str'))]
    if S.sym and depth:
        alts = [a for a in alts if a[0] not in ('bool', 'int')]
    if S.sym or depth < 3:
        alts += [('list', lambda: S.list(name + '.list', lambda: anyjson(S, name + '.elem', depth + 1, nan=nan))),
                 ('object', lambda: anyobject(S, name + '.object', depth, nan=nan))]
    return S.any(name, [a for a in alts if (kinds is None or a[0] in kinds) and (nan or a[0] != 'nan')])


def anyobject(S, name, depth=0, entries=(), no=(), nan=True):
    """an arbitrary JSON object with these entries and without those"""
    return S.dict(name, key=lambda: S.str(name + '.key'), val=lambda: anyjson(S, name + '.val', depth + 1, nan=nan), entries=entries,
                  ok=lambda q: S.And(True, *[S.Not(S.eq(q, n)) for n in list(no) + [k for k, v in entries]]))


def amounts(log, label):
    """all amounts counted under a label, in order"""
    return [v for n, v in log if n == label]


def answer(S, doc):
    """a completed fetch whose body parses to doc"""
    S.json_loads(lambda s: doc)
    body = S.choose('body', [('bytes', lambda: b'\x7b\xc3\xa9\x7d'), ('str', lambda: S.str('body text'))])
    return Future(S, Response(body))


def bad_answer(S):
    """a fetch that failed or whose body is not a JSON text: (future, label)"""
    how = S.choose('failure', ['fetch', 'not utf-8', 'not json', 'not json text'])
    if how == 'fetch':
        return Future(S, exc=S.new(IOError, 'fetch failed'))
    if how == 'not utf-8':
        S.json_loads(lambda s: S.newdict())
        return Future(S, Response(b'\xff{}'))

    def fail(s):
        S.raise_(ValueError, 'no JSON')
    S.json_loads(fail)
    return Future(S, Response(b'no json' if how == 'not json' else S.str('body text')))


class Http(ModelObj):
    """tornado's HTTP client, as what is asked of it"""
    def __init__(self, S):
        import tornado.httpclient
        from jaeger_client import local_agent_net
        self.S = S
        self.log = S.newlist()
        for m in (tornado.httpclient, local_agent_net):
            if hasattr(m, 'AsyncHTTPClient'):
                S.replace(m, 'AsyncHTTPClient', self.create)

    def create(self, *args, **kwargs):
        return self

    def fetch(self, request, *args, **kwargs):
        f = Pending(self.S)
        self.log.append((request, f))
        return f


class Sender(ModelObj):
    """stands for the UDP side of an agent sender, which these requests do not use"""
    def create(self, *args, **kwargs):
        return self


def agent(S, port, throttling=None):
    """an agent sender: (sender, host, http client)"""
    from jaeger_client import local_agent_net
    http, host = Http(S), S.choose('host', ['localhost', '10.0.0.1', 'jaeger-agent.example.org'])
    S.replace(local_agent_net, 'TUDPTransport', Sender().create)
    return S.new(local_agent_net.LocalAgentSender, host, port, 6831, io_loop=Loop(S), throttling_port=throttling), host, http


def check_url(S, url, host, port, path, wanted):
    base, query = S.query(url)
    S.check('the address of the agent', S.eq(base, S.cat('http://', host, ':', S.str_of(port), '/', path)))
    S.check('as many arguments', S.eq(S.len(query), len(wanted[0]) + wanted[1]))
    S.check('service and client', S.And(True, *[S.some(query, lambda e, k=k, v=v: S.And(S.eq(e[0], k), S.eq(e[1], v))) for k, v in wanted[0]]))
    return query

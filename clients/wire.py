"""a protocol that notes what is written to it, in place of thrift's own: the assumption made about it is that it writes what it is told"""


class Transport(object):
    def __init__(self, log):
        self.log = log

    def flush(self):
        self.log.append(('flush',))


class Protocol(object):
    def __init__(self):
        self.log = []
        self.trans = Transport(self.log)
        self.elements = 0
        self.at = -1
        self.times = 0

    def getProtocol(self, transport):
        return self

    def writeMessageBegin(self, name, kind, number):
        self.log.append(('message', name, kind))

    def writeMessageEnd(self):
        self.log.append(('message end',))

    def writeStructBegin(self, name):
        self.log.append(('struct',))

    def writeStructEnd(self):
        self.log.append(('struct end',))

    def writeFieldBegin(self, name, kind, number):
        self.log.append(('field', kind, number))

    def writeFieldEnd(self):
        self.log.append(('field end',))

    def writeFieldStop(self):
        self.log.append(('stop',))

    def writeBool(self, v):
        self.log.append(('bool', v))

    def writeI32(self, v):
        self.log.append(('i32', v))

    def writeI64(self, v):
        self.log.append(('i64', v))

    def writeDouble(self, v):
        self.log.append(('double', v))

    def writeString(self, v):
        self.log.append(('string', v))

    def writeListBegin(self, kind, size):
        self.elements = 0
        self.at = -1
        self.times = 0
        self.log.append(('list', kind, size))

    def writeListEnd(self):
        self.log.append(('list end', self.elements, self.at, self.times))


class Element(object):
    """one of the records in a list"""
    def write(self, protocol):
        protocol.elements += 1


class Marked(object):
    """the one looked at: where it was written, and how often"""
    def write(self, protocol):
        protocol.at = protocol.elements
        protocol.times += 1
        protocol.elements += 1


class Nested(object):
    """a record in a field"""
    def __init__(self, name):
        self.name = name

    def write(self, protocol):
        protocol.log.append(('record', self.name))


class Loop(object):
    def spawn_callback(self, f):
        pass


class Channel(object):
    """what the agent's client is given as its transport"""
    def __init__(self):
        self.io_loop = Loop()

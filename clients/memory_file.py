"""io.BytesIO as far as it is written and read back as a whole, or made of bytes and read: the assumption made about it"""
import io


class MemoryFile(object):
    stands_for = io.BytesIO

    def __init__(self):
        self.b = b''

    def write(self, x):
        self.b = self.b + x
        return len(x)

    def getvalue(self):
        return self.b


class MemoryReader(object):
    stands_for = io.BytesIO

    def __init__(self, b):
        self.b = b
        self.pos = 0

    def read(self, size=None):
        start = self.pos
        if size is None or size < 0:
            self.pos = len(self.b)
            return self.b[start:]
        part = self.b[start:start + size]
        self.pos = start + len(part)
        return part

    def tell(self):
        return self.pos

    def getvalue(self):
        return self.b

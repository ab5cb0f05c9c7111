"""what uses of composite reporters come down to"""


def composite(cls, members):
    return cls(*members)


def complete(callbacks, before, done):
    """the futures complete one after the other"""
    for cb in callbacks:
        before()
        cb(done)

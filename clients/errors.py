"""a client that reports errors now and then"""


def report(er, before, after, gaps):
    for gap, what in gaps:
        before(gap)
        er.error(*what)
        after(what)

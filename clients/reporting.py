"""a client that reports spans"""


def feed(r, src, n):
    for _ in range(n):
        r.report_span(src.take())


def composite(cls, members):
    return cls(*members)

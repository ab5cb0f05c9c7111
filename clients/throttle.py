"""client programs: verified like the code they call"""


class Account(object):
    """what was granted to one operation and what was spent by it"""
    def __init__(self):
        self.granted = 0
        self.spent = 0
        self.refused = 0


def ask(throttler, account, operation, asks):
    """any number of debug requests, some for the operation of the account, some for others"""
    for op in asks:
        if op == operation:
            if throttler.is_allowed(op):
                account.spent = account.spent + 1
            else:
                account.refused = account.refused + 1
        else:
            throttler.is_allowed(op)

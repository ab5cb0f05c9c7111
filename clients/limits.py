"""client programs: verified like the code they call"""


class Ledger(object):
    def __init__(self, now):
        self.now = now
        self.spent = 0.0


def serve(rl, clock, ledger, requests):
    """any number of requests: the clock moves on, then a cost is asked for; the ledger adds up the costs admitted"""
    for gap, cost in requests:
        ledger.now = ledger.now + gap
        clock(ledger.now)
        if rl.check_credit(cost):
            ledger.spent = ledger.spent + cost

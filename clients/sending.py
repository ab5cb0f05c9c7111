"""a client that sends batches one after the other, some of which fail"""


def send(r, n, new_batch, outcome):
    for _ in range(n):
        batch = new_batch()
        try:
            r.agent.emitBatch(batch)
        except Exception:
            outcome(False)
        else:
            outcome(True)

"""Worker processes for the proofs: forked once, before anything else runs in the parent; a worker that dies loses only its task,
which is tried once more elsewhere."""
import multiprocessing as mp, os, signal, threading, time
from multiprocessing.connection import wait


def _work(conn, fn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            x = conn.recv()
        except EOFError:
            os._exit(0)
        if x is None:
            os._exit(0)
        conn.send(fn(x))


class Pool:
    def __init__(self, fn, items, n, lost):
        self.items, self.lost = list(items), lost
        self.res = [None] * len(self.items)
        ctx = mp.get_context("fork")
        self.w = []
        for _ in range(min(n, len(self.items))):
            a, b = ctx.Pipe()
            p = ctx.Process(target=_work, args=(b, fn), daemon=True)
            p.start()
            b.close()
            self.w.append([p, a, None, 0])
        self.stop = False
        self.t = threading.Thread(target=self._drive, daemon=True)
        self.t.start()

    def _drive(self):
        todo = list(range(len(self.items)))
        tries = {}

        def give(w):
            while todo:
                i = todo.pop(0)
                tries[i] = tries.get(i, 0) + 1
                w[2], w[3] = i, time.time()
                try:
                    w[1].send(self.items[i])
                    return True
                except OSError:
                    todo.insert(0, i)
                    return False
            w[2] = None
            return True
        live = [w for w in self.w if give(w)]
        while not self.stop and any(w[2] is not None for w in live):
            for c in wait([w[1] for w in live if w[2] is not None], 1):
                w = next(w for w in live if w[1] is c)
                try:
                    self.res[w[2]] = c.recv()
                except (EOFError, OSError):
                    i = w[2]
                    live.remove(w)
                    if tries[i] < 2:
                        todo.insert(0, i)
                        idle = next((x for x in live if x[2] is None), None)
                        if idle:
                            give(idle)
                    else:
                        self.res[i] = self.lost(self.items[i], "solver process died")
                    continue
                if not give(w):
                    live.remove(w)
        for w in self.w:
            try:
                w[1].send(None)
            except OSError:
                pass

    def get(self, timeout):
        self.t.join(timeout)
        self.stop = True
        for w in self.w:
            if w[2] is not None or w[0].is_alive():
                w[0].kill()
        return [r if r is not None else self.lost(i, "time limit") for i, r in zip(self.items, self.res)]

"""Points of the library's own code at which something can happen: an
interruption, or another thread having its turn."""
import os, sys, threading


def library():
    import rankeval
    return os.path.dirname(os.path.abspath(rankeval.__file__)) + os.sep


class Steps(object):
    """runs f, with act(n, place) called before the n-th step of the library's code"""
    def __init__(self, act, fine=False):
        self.act, self.fine, self.home, self.n = act, fine, library(), 0

    def trace(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.home):
            return None
        if self.fine:
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.n += 1
            self.act(self.n, (frame.f_code.co_filename, frame.f_lineno or 0, frame.f_lasti if self.fine else 0))
        return self.local

    def __call__(self, f):
        before = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(before)


class Turns(object):
    """runs several functions in threads of which one at a time has its turn; after the steps
    given (counted over all of them) the next one that is not done gets it"""
    def __init__(self, switches, fine=False, patience=2.0):
        self.switches, self.fine, self.patience = set(switches), fine, patience
        self.lock = threading.Condition()
        self.total, self.turn, self.alive, self.moved = 0, 0, set(), 0

    def wait(self, k):
        with self.lock:
            while self.turn != k:
                seen = self.moved
                if not self.lock.wait(self.patience) and self.moved == seen and self.turn != k:
                    # whoever has the turn waits for something another one holds
                    self.turn = k
                    self.lock.notify_all()

    def next(self, k):
        rest = sorted(self.alive)
        later = [j for j in rest if j > k]
        if rest:
            self.turn = (later or rest)[0]
            self.lock.notify_all()

    def step(self, k):
        with self.lock:
            self.total += 1
            self.moved += 1
            if self.total in self.switches and len(self.alive) > 1:
                self.next(k)
        if self.turn != k:
            self.wait(k)

    def run(self, fs):
        out = [None] * len(fs)
        self.alive = set(range(len(fs)))

        def body(k):
            self.wait(k)
            s = Steps(lambda n, place: self.step(k), self.fine)
            try:
                out[k] = s(fs[k])
            finally:
                with self.lock:
                    self.moved += 1
                    self.alive.discard(k)
                    if self.turn == k:
                        self.next(k)
        ts = [threading.Thread(target=body, args=(k,)) for k in range(len(fs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

"""Deterministic thread scheduler: real threads, exactly one runs at a time, a seeded choice decides at every executed
source line (or bytecode) of the code under test whether another thread continues."""
import sys
import threading

from . import lib


class Baton:

    def __init__(self, rng, p, opcodes=False):
        self.rng, self.p, self.opcodes = rng, p, opcodes
        self.cur = None
        self.alive = []
        self.switches = 0
        self.trace_hash = 0
        self.points = 0
        self.error = None
        self.prefix = lib.REPO + '/' + lib.PKG

    def run(self, fns):
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = list(range(len(fns)))
        done = threading.Event()

        def main(i, fn):
            self.sems[i].acquire()
            sys.settrace(self.tracer(i))
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                if self.error is None:
                    self.error = e
            finally:
                sys.settrace(None)
                self.alive.remove(i)
                if self.alive and self.error is None:
                    nxt = self.rng.choice(self.alive)
                    self.cur = nxt
                    self.sems[nxt].release()
                else:
                    done.set()

        ths = [threading.Thread(target=main, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        self.cur = self.rng.choice(self.alive)
        self.sems[self.cur].release()
        done.wait()
        if self.error is not None:
            raise self.error
        for t in ths:
            t.join()

    def tracer(self, i):
        prefix = self.prefix

        def local(frame, event, _arg):
            if event == 'line' or event == 'opcode':
                self.maybe(i, frame)
            return local

        def glob(frame, event, _arg):
            if event == 'call' and frame.f_code.co_filename.startswith(prefix):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                self.maybe(i, frame)
                return local
            return None

        return glob

    def maybe(self, i, frame):
        self.points += 1
        if len(self.alive) < 2 or self.rng.random() >= self.p:
            return
        others = [k for k in self.alive if k != i]
        nxt = others[self.rng.randrange(len(others))]
        self.switches += 1
        self.trace_hash = (self.trace_hash * 1000003 + frame.f_lineno * 31 + nxt) & 0xFFFFFFFFFFFF
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[i].acquire()

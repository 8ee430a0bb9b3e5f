"""Run threads one at a time, switching at chosen places.

Every thread runs under a trace function.  At each line (or opcode) of the
package, and wherever a thread calls pause(), a seeded choice decides whether
another thread goes on instead.  Threads that wait for something the paused
ones hold are detected by lack of progress; then all threads run freely, which
is a schedule like any other.
"""

import sys
import threading


class Scheduler:
    def __init__(self, rng, root, p=0.1, opcodes=False, limit=200000):
        self.rng = rng
        self.root = root
        self.p = p
        self.opcodes = opcodes
        self.limit = limit
        self.cond = threading.Condition()
        self.turn = None
        self.alive = []
        self.free = False
        self.progress = 0
        self.switches = 0
        self.points = 0
        self.trail = []
        self.me = threading.local()

    # the code that is traced
    def _inside(self, frame):
        return frame.f_code.co_filename.startswith(self.root)

    def _global(self, frame, event, arg):
        if not self._inside(frame):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.pause(frame)
        return self._local

    def _local(self, frame, event, arg):
        if event in ("line", "opcode", "return"):
            self.pause(frame)
        return self._local

    def pause(self, frame=None):
        k = getattr(self.me, "k", None)
        if k is None or self.free:
            return
        self.points += 1
        self.progress += 1
        if self.points > self.limit:
            with self.cond:
                self.free = True
                self.cond.notify_all()
            return
        if self.rng.random() >= self.p:
            return
        with self.cond:
            others = [x for x in self.alive if x != k]
            if not others:
                return
            self.turn = self.rng.choice(others)
            self.switches += 1
            if len(self.trail) < 400:
                self.trail.append((self.turn, frame.f_lineno if frame is not None else 0))
            self.cond.notify_all()
            self._wait(k)

    def _wait(self, k):
        while not self.free and self.turn != k:
            before = self.progress
            if not self.cond.wait(2.0) and self.progress == before:
                # the one whose turn it is is blocked
                self.free = True
                self.cond.notify_all()

    def run(self, fns):
        """Runs the functions in threads; returns a list of (value, exc)"""
        results = [None] * len(fns)
        self.alive = list(range(len(fns)))

        def body(k):
            self.me.k = k
            with self.cond:
                self._wait(k)
            sys.settrace(self._global)
            try:
                results[k] = (fns[k](), None)
            except BaseException as e:
                results[k] = (None, e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(k)
                    if self.alive and self.turn == k:
                        self.turn = self.rng.choice(self.alive)
                    self.cond.notify_all()

        self.turn = self.rng.choice(self.alive)
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(fns))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results


def free_run(fns, interval=1e-6):
    """All threads at once, with a tiny switch interval"""
    results = [None] * len(fns)
    barrier = threading.Barrier(len(fns))

    def body(k):
        barrier.wait()
        try:
            results[k] = (fns[k](), None)
        except BaseException as e:
            results[k] = (None, e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(fns))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return results

"""A scheduler for threads which run segpy: it decides, as a function of a random generator, where each is preempted.

One thread runs at a time. Each runs under sys.settrace(); on every line (or opcode) of the code under test the
scheduler may hand over to another. The sequence of hand-overs is recorded, so it can be counted and replayed.
"""

import os
import sys
import threading

from harness import core

CODE = (os.path.join(core.REPO, 'segpy') + os.sep, os.path.join(core.REPO, 'segpy-ext') + os.sep)


class Scheduler:

    def __init__(self, rng, mean_run=20, opcodes=False, limit=200000):
        """
        Args:
            mean_run: How many steps a thread takes before it is preempted, on average.
            opcodes: Preempt between any two bytecode instructions, rather than lines.
            limit: No preemption any longer after this many steps altogether.
        """
        self._rng = rng
        self._mean = mean_run
        self._opcodes = opcodes
        self._limit = limit
        self._left = self._next_run()
        self._abandon = False
        self._error = None
        self.schedule = []
        self.steps = 0
        self.inside = {}

    def _next_run(self):
        return 1 + int(self._rng.expovariate(1 / self._mean)) if self._mean > 1 else 1

    def run(self, tasks):
        """Run callables to completion, each in its own thread; raises what the first to fail raised."""
        self._go = [threading.Semaphore(0) for _ in tasks]
        self._alive = list(range(len(tasks)))
        self._done = threading.Event()
        self._ending = threading.Lock()
        threads = [threading.Thread(target=self._body, args=(i, t), daemon=True) for i, t in enumerate(tasks)]
        for t in threads:
            t.start()
        try:
            self._go[self._rng.choice(self._alive)].release()
            self._done.wait()
        except BaseException:
            self._release_all()
            raise
        for t in threads:
            t.join(10)
        if self._error is not None:
            raise self._error

    def _release_all(self):
        # Raising an exception in a trace function is something the interpreter may not survive, so all
        # are left to run to their ends without being scheduled.
        self._abandon = True
        for s in self._go:
            s.release()

    def _body(self, me, task):
        self._go[me].acquire()
        if not self._abandon:
            sys.settrace(lambda frame, event, arg: self._enter(me, frame))
            try:
                task()
            except BaseException as e:
                if self._error is None:
                    self._error = e
                self._release_all()
            finally:
                sys.settrace(None)
        with self._ending:
            self._alive.remove(me)
            self.inside.pop(me, None)
            if not self._alive:
                self._done.set()
            elif not self._abandon:
                self._go[self._rng.choice(self._alive)].release()

    def _enter(self, me, frame):
        # After the limit no more frames are watched, so the rest is run quickly
        if self.steps > self._limit or not frame.f_code.co_filename.startswith(CODE):
            return None
        if self._opcodes:
            frame.f_trace_opcodes = True

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self._step(me, frame)
            return local

        self._step(me, frame)
        return local

    def _step(self, me, frame):
        if self._abandon:
            return
        self.steps += 1
        self._left -= 1
        if self._left > 0 or self.steps > self._limit or len(self._alive) < 2:
            return
        self._left = self._next_run()
        other = self._rng.choice(self._alive)
        if other == me:
            return
        self.inside[me] = frame.f_code.co_name
        self.schedule.append((me, frame.f_code.co_name, other, self.inside.get(other)))
        self._go[other].release()
        self._go[me].acquire()


def freely(tasks, interval=1e-6):
    """Run callables in threads which the interpreter itself preempts, very often."""
    errors = []
    start = threading.Barrier(len(tasks))

    def body(task):
        try:
            start.wait()
            task()
        except BaseException as e:
            errors.append(e)

    before = sys.getswitchinterval()
    threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in tasks]
    sys.setswitchinterval(interval)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(before)
    if errors:
        raise errors[0]

"""A controlled scheduler for real threads.

Each task runs in a thread of its own, but only one at a time: a trace function counts the
steps (lines or byte code instructions of the library) and hands control back when the
thread has used up what the schedule grants it.  A schedule is a list of (task, steps), so
a preemption at any point of the code can be asked for, and repeated.
"""

import os
import sys
import threading

PATIENCE = 2.0
LIMIT = 30.0


class _Thread:
    def __init__(self, task, root, opcodes, traced):
        self.task, self.root, self.opcodes = task, root, opcodes
        self.traced = traced
        self.go = threading.Semaphore(0)
        self.stopped = threading.Semaphore(0)
        self.budget = 0
        self.steps = 0
        self.finished = False
        self.result = None
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _main(self):
        self.go.acquire()
        if self.traced:
            sys.settrace(self._trace)
        try:
            self.result = ("ok", self.task())
        except Exception as exc:  # noqa: BLE001
            self.result = ("err", exc)
        finally:
            sys.settrace(None)
            self.finished = True
            self.stopped.release()

    def _trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, _frame, event, _arg):
        if event == "line" or event == "opcode":
            self.steps += 1
            if self.budget is not None:
                self.budget -= 1
                if self.budget < 0:
                    self.stopped.release()
                    self.go.acquire()
                    if self.budget is not None:
                        self.budget -= 1
        return self._local

    def run(self, budget):
        """Run some steps (None: to the end).  False: it's blocked."""
        if self.finished:
            return True
        self.budget = budget
        self.go.release()
        return self.stopped.acquire(timeout=PATIENCE)


_PRIMED = False


def _prime():
    """The interpreter starts to report byte code instructions only on the next settrace()."""
    global _PRIMED
    if not _PRIMED:

        def local(_frame, _event, _arg):
            return local

        def trace(frame, _event, _arg):
            frame.f_trace_opcodes = True
            return local

        def code():
            return None

        for _ in range(2):
            sys.settrace(trace)
            code()
            sys.settrace(None)
        _PRIMED = True


def run(tasks, schedule, opcodes=False, count=False):
    """[(how, result)] of the tasks, and the number of steps each took."""
    from mc.core import REPO

    _prime()
    root = os.path.join(os.path.realpath(REPO), "binobj")
    if not os.path.isdir(root):
        root = os.path.join(REPO, "binobj")
    # A thread that's never stopped needs no counting, unless the caller wants the steps.
    stops = {i for i, steps in schedule if steps is not None}
    threads = [_Thread(t, root, opcodes, count or i in stops) for i, t in enumerate(tasks)]
    loose = set()
    for i, steps in schedule:
        if i in loose or threads[i].finished:
            continue
        if not threads[i].run(steps):
            # It's waiting for another thread, so it goes on once that one does.
            loose.add(i)
    for i, t in enumerate(threads):
        if i not in loose and not t.finished:
            if not t.run(None):
                loose.add(i)
    for t in threads:
        t.budget = None
        t.go.release()
        t.thread.join(LIMIT)
        if t.thread.is_alive():
            return None, None
    return [t.result for t in threads], [t.steps for t in threads]

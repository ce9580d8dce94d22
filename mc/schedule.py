"""Two real threads under a controlled scheduler.

Each thread runs one call with a trace function installed; every executed line,
call and return (or every opcode) inside cqcpy is a scheduling point.  Only one
thread runs at a time.  A schedule is a list of run lengths: thread 0 runs
plan[0] points, then thread 1 runs plan[1] points, then thread 0 plan[2] ...;
after the last entry the current thread runs to its end, then the other one.
"""
import os
import sys
import threading


class Scheduler(object):
    def __init__(self, calls, plan, root, opcodes=False, patience=5.0, record=False):
        self.record = record
        self.calls, self.plan, self.root, self.opcodes = calls, list(plan), root, opcodes
        self.patience = patience
        self.gate = [threading.Event(), threading.Event()]
        self.done = [False, False]
        self.count = [0, 0]          # scheduling points passed
        self.turn = 0
        self.left = self.plan.pop(0) if self.plan else None
        self.out = [None, None]
        self.stuck = False           # a thread waited for the other outside our control (e.g. on a lock)
        self.switches = 0
        self.files = {}
        self.visits = [[], []]       # (code, line) of every scheduling point

    def ours(self, code):
        f = code.co_filename
        r = self.files.get(f)
        if r is None:
            r = self.files[f] = os.path.realpath(f).startswith(self.root)
        return r

    def point(self, me, where=None):
        self.count[me] += 1
        if self.record:
            self.visits[me].append(where)
        if self.stuck or self.turn != me:
            return
        if self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        if self.done[1 - me]:
            self.left = None
            return
        # hand over
        self.switches += 1
        self.left = self.plan.pop(0) if self.plan else None
        self.turn = 1 - me
        self.gate[me].clear()
        self.gate[1 - me].set()
        if not self.gate[me].wait(self.patience):
            self.stuck = True

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "opcode" if self.opcodes else event in ("line", "return"):
                self.point(me, (frame.f_code.co_name, frame.f_lineno, frame.f_lasti if self.opcodes else event))
            return local

        def glob(frame, event, arg):
            if event != "call" or not self.ours(frame.f_code):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.point(me, (frame.f_code.co_name, frame.f_lineno, event))
            return local
        return glob

    def body(self, me):
        self.gate[me].wait(self.patience)
        try:
            sys.settrace(self.tracer(me))
            try:
                r = self.calls[me]()
            finally:
                sys.settrace(None)
            self.out[me] = ("ok", r)
        except BaseException as e:  # noqa
            import traceback
            self.out[me] = ("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:]))
        self.done[me] = True
        self.turn = 1 - me
        self.gate[1 - me].set()

    def run(self):
        # the thread that is not first waits behind its gate
        t = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in (0, 1)]
        self.gate[0].set()
        for x in t:
            x.start()
        for x in t:
            x.join(60)
            if x.is_alive():
                raise RuntimeError("thread did not finish")
        return self.out


def points(call, root, opcodes=False, visits=2):
    """indices of the scheduling points of one call run alone: the first few and the last visit of every place"""
    s = Scheduler([call, lambda: None], [], root, opcodes, record=True)
    s.run()
    if s.out[0][0] != "ok":
        raise RuntimeError(s.out[0][1])
    seen, last, keep = {}, {}, set()
    for k, w in enumerate(s.visits[0]):
        seen[w] = seen.get(w, 0) + 1
        last[w] = k
        if seen[w] <= visits:
            keep.add(k)
    return sorted(keep | set(last.values())), len(s.visits[0])

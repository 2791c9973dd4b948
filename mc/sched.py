"""A controlled scheduler: two real threads, preempted exactly where told.

Points are the bytecode instructions (or the lines) the threads execute in the
library's own files.  A plan [n1, n2, ...] lets the first thread run for n1
points, then the other for n2, ... and the rest to completion."""
import functools
import gc
import os
import sys
import threading
import types

from . import lib

LIBRARY = tuple({os.path.join(os.path.realpath(lib.REPO), 'structured') + os.sep,
                 os.path.join(lib.REPO, 'structured') + os.sep})
INF = 1 << 60
STUCK = 3.0         # seconds without progress before both threads run freely
TOOL = 4
MON = sys.monitoring


def library_code():
    """Every code object of the library."""
    seen, todo = set(), [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    while todo:
        c = todo.pop()
        if c in seen or not c.co_filename.startswith(LIBRARY):
            continue
        seen.add(c)
        todo.extend(x for x in c.co_consts if isinstance(x, types.CodeType))
    return seen


def forget():
    """Empty the library's memo caches: as if its hints were never used."""
    for f in gc.get_objects() if not MEMOS else ():
        if type(f) is MEMO and getattr(f.__wrapped__, '__module__', '').partition('.')[0] == lib.L.__name__:
            MEMOS.append(f)
    for f in MEMOS:
        f.cache_clear()


MEMO = type(functools.lru_cache(lambda: 0))
MEMOS = []


class Pair:
    """Two worker threads that live as long as the exploration."""
    opcodes = None

    def __init__(self):
        self.go = [threading.Lock(), threading.Lock()]
        self.over = threading.Lock()
        for x in (*self.go, self.over):
            x.acquire()
        self.fns, self.results, self.done = [None, None], [None, None], [True, True]
        self.free = False
        self.idents = {}
        for i in (0, 1):
            t = threading.Thread(target=self.worker, args=(i,), daemon=True)
            t.start()
            self.idents[t.ident] = i
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, 'schedule explorer')

    def watch(self, opcodes):
        """Make instructions or lines the points."""
        if Pair.opcodes is not opcodes:
            event = MON.events.INSTRUCTION if opcodes else MON.events.LINE
            for c in library_code():
                MON.set_local_events(TOOL, c, event)
            Pair.opcodes = opcodes
        MON.register_callback(TOOL, MON.events.INSTRUCTION, self.point)
        MON.register_callback(TOOL, MON.events.LINE, self.point)

    def point(self, code, where):
        if self.left > 0:
            self.left -= 1
            return
        me = self.idents.get(threading.get_ident())
        if me is not None:
            self.switch(me)

    def worker(self, me):
        while True:
            self.go[me].acquire()
            try:
                res = ('ok', self.fns[me]())
            except Exception as e:
                res = ('exc', e)
            self.results[me] = res
            self.done[me] = True
            if self.done[1 - me]:
                self.left = INF
                self.over.release()
            elif not self.free:
                self.next_plan()
                self.go[1 - me].release()

    def next_plan(self):
        self.left = self.plan.pop(0) if self.plan else INF

    def switch(self, me):
        other = 1 - me
        if self.done[other] or self.free:
            self.left = INF
            return
        self.next_plan()
        self.taken += 1
        self.go[other].release()
        if not self.go[me].acquire(timeout=STUCK):
            # the other one waits for something this one holds
            self.free = True
            self.left = INF

    def run(self, first, fns, plan, opcodes=False):
        """Results of both, and how many of the plan's preemptions happened."""
        self.left = INF
        self.watch(opcodes)
        self.fns, self.results, self.done = list(fns), [None, None], [False, False]
        self.plan, self.taken, self.free = list(plan), 0, False
        self.next_plan()
        self.go[first].release()
        self.over.acquire()
        if self.free:           # leftovers of an abandoned plan
            for g in self.go:
                g.acquire(blocking=False)
        return self.results, self.taken

"""Runs threads of the code under test one step at a time.

Exactly one thread runs at any moment; after every line (or bytecode) of the
code under test, and wherever the drivers say so with point(), a plan decides
which thread goes on.  Locks of the threading module are replaced by ones the
scheduler knows about, so blocking is seen at once and is no matter of time.
Import this module before the code under test."""
import _thread
import sys
import threading

REAL_LOCK = _thread.allocate_lock
CURRENT = None      # the scheduler in charge


class Deadlock(BaseException):
    pass


class CoopLock:
    """A lock (reentrant or not) that yields to other threads instead of blocking."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0
        self.guard = REAL_LOCK()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            s = CURRENT
            if s is not None and me in s.tids:
                if timeout is not None and timeout >= 0:
                    s.point()
                    if self.owner is not None:
                        return False
                    continue
                s.block(self)
            else:
                with REAL_LOCK():
                    pass

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    # what conditions need
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        state = (self.owner, self.depth)
        self.owner, self.depth = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.owner, self.depth = state

    def _at_fork_reinit(self):
        self.__init__(self.reentrant)


def install():
    threading.Lock = lambda: CoopLock(False)
    threading.RLock = lambda: CoopLock(True)


class Scheduler:
    """plan(step, current, runnable) -> which thread runs next."""

    def __init__(self, plan, where, opcodes=False, limit=2_000_000):
        self.plan = plan
        self.where = where
        self.opcodes = opcodes
        self.limit = limit
        self.steps = 0
        self.tids = {}
        self.blocked = {}
        self.done = set()
        self.turn = []
        self.finished = REAL_LOCK()
        self.finished.acquire()
        self.results = []
        self.dead = False
        self.count = []

    # -- called in the threads -------------------------------------------------
    def me(self):
        return self.tids.get(_thread.get_ident())

    def runnable(self):
        out = []
        for n in range(len(self.turn)):
            if n in self.done:
                continue
            lock = self.blocked.get(n)
            if lock is not None and lock.owner is not None:
                continue
            out.append(n)
        return out

    def point(self):
        n = self.me()
        if n is None:
            return
        if self.dead:
            raise Deadlock
        self.steps += 1
        self.count[n] += 1
        if self.steps > self.limit:
            self.kill()
            raise Deadlock
        self.hand_over(n, self.plan(self.steps, n, self.runnable()))

    def block(self, lock):
        n = self.me()
        self.blocked[n] = lock
        while lock.owner is not None:
            if self.dead:
                raise Deadlock
            can = self.runnable()
            if not can:
                self.kill()
                raise Deadlock
            nxt = self.plan(self.steps, n, can)
            self.hand_over(n, nxt if nxt in can else can[0])
        self.blocked.pop(n, None)

    def kill(self):
        self.dead = True
        for t in self.turn:
            if t.locked():
                t.release()

    def hand_over(self, n, nxt):
        if nxt == n:
            return
        self.turn[nxt].release()
        self.turn[n].acquire()
        if self.dead:
            raise Deadlock

    def trace(self, frame, event, arg):
        if self.where(frame.f_code.co_filename):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.local
        return None

    def local(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.point()
        return self.local

    def body(self, n, fn):
        self.turn[n].acquire()
        self.tids[_thread.get_ident()] = n
        try:
            if self.dead:
                raise Deadlock
            sys.settrace(self.trace)
            try:
                self.results[n] = ('ok', fn())
            finally:
                sys.settrace(None)
        except Deadlock:
            self.results[n] = ('deadlock', None)
        except Exception as err:
            self.results[n] = ('err', err)
        except BaseException as err:
            self.results[n] = ('err', err)
        self.done.add(n)
        self.tids.pop(_thread.get_ident(), None)
        if len(self.done) == len(self.turn):
            self.finished.release()
            return
        if self.dead:
            return
        can = self.runnable()
        if not can:
            self.kill()
            return
        nxt = self.plan(self.steps, n, can)
        self.turn[nxt if nxt in can else can[0]].release()

    # -- called by whoever starts the threads --------------------------------------
    def run(self, fns, timeout=20):
        global CURRENT
        self.results = [('lost', None)] * len(fns)
        self.count = [0] * len(fns)
        for _ in fns:
            lock = REAL_LOCK()
            lock.acquire()
            self.turn.append(lock)
        CURRENT = self
        for n, fn in enumerate(fns):
            _thread.start_new_thread(self.body, (n, fn))
        first = self.plan(0, 0, list(range(len(fns))))
        self.turn[first].release()
        ok = self.finished.acquire(timeout=timeout)
        if not ok:
            self.kill()
        CURRENT = None
        return self.results


def alone(step, current, runnable):
    """Each thread to its end, one after the other."""
    return current if current in runnable else runnable[0]


def switches(at, first=0):
    """Change to the next thread at the given steps."""
    at = set(at)

    def plan(step, current, runnable):
        if step == 0:
            return first
        if current not in runnable:
            return runnable[0]
        if step in at:
            at.discard(step)
            later = [r for r in runnable if r > current]
            return later[0] if later else runnable[0]
        return current
    return plan


def sliced(order, quantum):
    """The threads take turns as in `order`, each for its quantum of steps."""
    state = {'i': 0, 'left': None}

    def plan(step, current, runnable):
        if step == 0:
            state['left'] = quantum[order[0]]
            return order[0]
        state['left'] -= 1
        if state['left'] <= 0 or current not in runnable:
            state['i'] += 1
            while state['i'] < len(order) and order[state['i']] not in runnable:
                state['i'] += 1
            if state['i'] >= len(order):
                state['left'] = 1 << 40
                return current if current in runnable else runnable[0]
            nxt = order[state['i']]
            state['left'] = quantum[nxt]
            return nxt
        return current
    return plan


def wild(rng, p):
    """Change at random."""
    def plan(step, current, runnable):
        if step == 0 or current not in runnable or rng.random() < p:
            return rng.choice(runnable)
        return current
    return plan

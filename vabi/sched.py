"""A deterministic scheduler for Python threads: one thread runs at a time and control
moves at source-line events in the code under test, as a schedule of quanta says.

If the running thread makes no progress (it waits for a lock another one holds) the
monitor hands control to another thread, so code that uses locks is handled as well.
"""
import sys
import threading
import time


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, root, bodies, quanta, whole=()):
        """bodies: callables; quanta: [(events, k)]: after that many events, control goes
        to the k-th other thread that is alive; when the list is used up, the running
        thread runs to its end.  Threads in whole are not preempted once they run."""
        self.root = root
        self.whole = whole
        self.bodies = bodies
        self.quanta = list(quanta)
        self.n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.parked = [True] * self.n
        self.alive = set(range(self.n))
        self.current = 0
        self.left = 0
        self.to = 0
        self.progress = 0
        self.switches = 0
        self.mutex = threading.Lock()
        self.done = threading.Event()
        self.errors = []
        self.next_quantum()

    def next_quantum(self):
        if self.quanta:
            self.left, self.to = self.quanta.pop(0)
        else:
            self.left, self.to = -1, 0

    def hand_over(self, me, k, prefer_parked=False):
        """mutex held; picks another thread and makes it current."""
        others = sorted(i for i in self.alive if i != me)
        if prefer_parked:
            others = [i for i in others if self.parked[i]] or others
        if not others:
            return False
        nxt = others[k % len(others)]
        self.current = nxt
        self.switches += 1
        if self.parked[nxt]:
            self.parked[nxt] = False
            self.sems[nxt].release()
        return True

    def point(self, me):
        wait = False
        with self.mutex:
            self.progress += 1
            if self.current != me:
                # the monitor took control away while this thread waited for a lock
                self.parked[me] = True
                wait = True
            elif self.left >= 0:
                self.left -= 1
                if self.left < 0:
                    k = self.to
                    self.next_quantum()
                    if self.hand_over(me, k):
                        self.parked[me] = True
                        wait = True
        if wait:
            self.sems[me].acquire()

    def finish(self, me):
        with self.mutex:
            self.progress += 1
            self.alive.discard(me)
            if not self.alive:
                self.done.set()
            elif self.current == me:
                self.hand_over(me, 0, True)

    def thread(self, me):
        root = self.root
        point = self.point

        def local(frame, event, arg):
            if event == "line":
                point(me)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(root):
                point(me)
                return local
            return None

        self.sems[me].acquire()
        try:
            if me not in self.whole:
                sys.settrace(trace)
            try:
                self.bodies[me]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors.append(e)
        finally:
            self.finish(me)

    def blocked(self, thread):
        """Whether the thread sleeps (None where the system does not tell)."""
        try:
            with open("/proc/self/task/%d/stat" % thread.native_id) as f:
                rest = f.read().rpartition(")")[2].split()
        except (OSError, TypeError, AttributeError):
            return None
        return (rest[0] in "SD", rest[11], rest[12])

    def run(self, stall=0.02, limit=60):
        threads = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        with self.mutex:
            self.parked[0] = False
            self.sems[0].release()
        t0 = time.monotonic()
        seen = None
        same = 0
        self.stalls = 0
        while not self.done.wait(stall):
            with self.mutex:
                me = self.current
                state = self.blocked(threads[me])
                now = (self.progress, me, state)
                same = same + 1 if now == seen else 0
                seen = now
                # asleep twice without progress: it waits for a lock
                if same and (state[0] if state else same * stall > 0.4):
                    self.stalls += 1
                    same = 0
                    self.hand_over(me, self.stalls, True)
            if time.monotonic() - t0 > limit:
                raise Deadlock("threads do not finish")
        for t in threads:
            t.join(10)
        if self.errors:
            raise self.errors[0]

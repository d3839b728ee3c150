"""Real threads under a simulated scheduler: exactly one runs at any time, and
the plan decides at which executed line of gpgradpy it hands over."""
import contextlib
import io
import threading

from . import seams


class Stalled(Exception):
    """A thread did not come back: an error of the harness."""


class Sched:
    """plan: list of [lines, choice]; after `lines` executed lines (and
    operation boundaries) the next thread is alive[choice % n].  When the
    list is exhausted every thread runs until it ends."""

    def __init__(self, plan):
        self.plan, self.k = plan, 0
        self.sem, self.fn, self.alive = [], {}, []
        self.ids = {}
        self.left = 0
        self.switches = 0
        self.inside = 0         # hand-overs in the middle of an operation
        self.busy = {}

    def attach(self, fn):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        self.fn[me] = fn
        self.busy[me] = fn is not None

    def _next(self):
        if self.k < len(self.plan):
            self.left, c = self.plan[self.k]
            self.k += 1
            return self.alive[c % len(self.alive)]
        self.left = 1 << 60
        return None

    def line(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        fn = self.fn.get(me)
        if fn is None:
            return
        fn(code, line)
        self.left -= 1
        if self.left <= 0:
            self.hand_over(me)

    def point(self):
        """Between two operations."""
        me = self.ids.get(threading.get_ident())
        self.left -= 1
        if self.left <= 0:
            self.hand_over(me)

    def hand_over(self, me):
        nxt = self._next()
        if nxt is None or nxt == me:
            return
        self.switches += 1
        self.inside += bool(self.busy.get(me))
        self.sem[nxt].release()
        if not self.sem[me].acquire(timeout=200):
            raise Stalled()

    def run(self, bodies):
        """Run the bodies to their end; returns their results or errors."""
        n = len(bodies)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        out = [None] * n

        def main(i):
            self.ids[threading.get_ident()] = i
            self.sem[i].acquire()
            try:
                out[i] = ('ok', bodies[i]())
            except BaseException as e:
                out[i] = ('err', e)
            finally:
                self.alive.remove(i)
                self.fn[i] = None
                if self.alive:
                    nxt = self._next()
                    if nxt is None:
                        nxt = self.alive[0]
                    self.sem[nxt].release()
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        seams.SCHED = self
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                seams.LineHook.enter_raw(self.line)
                for t in ts:
                    t.start()
                # everyone waits for its turn
                first = self._next()
                self.sem[self.alive[0] if first is None else first].release()
                for t in ts:
                    t.join(220)
                    if t.is_alive():
                        raise Stalled('a simulated thread did not end')
        finally:
            seams.LineHook.exit_raw()
            seams.SCHED = None
        return out


def gen_sched(rng, n, length=None):
    """Seeded preemptions; run lengths over several orders of magnitude."""
    m = length or rng.choice([5, 20, 80, 250])
    hi = rng.choice([1.0, 2.0, 3.0, 3.5])
    lo = rng.choice([0.0, 0.0, 1.0])
    return [[int(10 ** rng.uniform(min(lo, hi), hi)), rng.randrange(6)] for _ in range(m)]

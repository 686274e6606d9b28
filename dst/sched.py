"""Several actors (threads of one process, or processes) under one seeded schedule.

Each actor is a real Python thread, but only the one that holds the baton runs.  The baton changes
hands at the switches of the plan (faults of kind 'switch': before system call `step`, or before line
event `line`, of operation `op` of an actor, go on with `to`) and where an actor ends; nothing else
decides who runs, so a plan is one exactly repeatable interleaving."""
import sys
import threading

from .simfs import Proc

LINES = 'augpathlib'


class Actor:
    def __init__(self, proc, fn):
        self.proc = proc
        self.fn = fn
        self.go = threading.Lock()
        self.go.acquire()
        self.done = False
        self.error = None


class Sched:
    def __init__(self, R, lines=True):
        self.R = R
        self.k = R.k
        self.actors = []
        self.cur = None
        self.main = threading.Lock()
        self.main.acquire()
        self.lines = lines

    def thread(self, name, fn, of=None):
        """an actor that is a thread of the process `of` (a process of its own without)"""
        p = Proc(self.k, name, uid=self.R.proc.uid, gid=self.R.proc.gid)
        p.cwd = self.R.proc.cwd
        if of is not None:
            p.fds = of.fds
            p.cwd = of.cwd
            if not of.group:
                of.group = [of]
            of.group.append(p)
            p.group = of.group
        self.actors.append(Actor(p, fn))
        return p

    # -- scheduling ---------------------------------------------------------------
    def _next(self, a=None):
        """hand the baton on"""
        if a is None:
            a = next((x for x in self.actors if not x.done), None)
        self.cur = a
        if a is None:
            self.main.release()
        else:
            self.k.cur = a.proc
            a.go.release()

    def switch(self, to):
        me = self.cur
        a = next((x for x in self.actors if x.proc.name == to), None)
        if a is None or a.done or a is me:
            return
        self.k.fire('switch')
        self.k.note('switch', me.proc.name, to)
        self._next(a)
        me.go.acquire()

    def point(self, p):
        to = self.k.switches.get((p.name, p.op, p.opstep))
        if to is not None and self.cur is not None and self.cur.proc is p:
            # (once: the same call is not switched away from again)
            del self.k.switches[(p.name, p.op, p.opstep)]
            self.switch(to)

    def _trace(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if '/augpathlib/' not in fn or '/dst/' in fn:
                return None
            return self._trace
        if event == 'line':
            me = self.cur
            p = me.proc
            if p.quiet or p.dead:
                return self._trace
            n = p.opline
            p.opline += 1
            if self.k.step_log is not None:
                self.k.step_log.append((p.name, p.op, n, 'line'))
            to = self.k.switches.get((p.name, p.op, ('l', n)))
            if to is not None:
                self.switch(to)
        return self._trace

    def _body(self, a):
        a.go.acquire()
        if self.lines:
            sys.settrace(self._trace)
        try:
            a.fn()
        except BaseException as e:
            a.error = e
        finally:
            sys.settrace(None)
            a.done = True
            self._next()

    def run(self):
        if not self.actors:
            return
        before = self.k.cur
        ts = [threading.Thread(target=self._body, args=(a,), daemon=True) for a in self.actors]
        self.k.sched = self
        try:
            for t in ts:
                t.start()
            self._next()
            self.main.acquire()
            for t in ts:
                t.join()
        finally:
            self.k.sched = None
            self.k.cur = before
        for a in self.actors:
            if a.error is not None:
                raise a.error


def place(prop, rng, plan, steplog, n, faults=0.4):
    """n variants of a plan: switches between its actors, some of them with faults as well"""
    import copy
    from .runner import place_default
    from .simfs import MUTATING
    names = sorted({s[0] for s in steplog if s[0].startswith('a')})
    lines = [s for s in steplog if s[3] == 'line' and s[0] in names]
    calls = [s for s in steplog if s[3] != 'line' and s[0] in names]
    # around what changes something
    hot = []
    for a, b in zip(calls, calls[1:]):
        if a[3] in MUTATING:
            hot += [a, b] if a[0] == b[0] else [a]
    out = []
    for _ in range(n):
        q = None
        if rng.random() < faults:
            q = (place_default(prop, rng, plan, steplog, 1) or [None])[0]
        if q is None:
            q = copy.deepcopy(plan)
        sw = []
        for _ in range(rng.choice((1, 1, 2, 2, 3, 4, 6))):
            pool = rng.choice((lines, calls, hot))
            if not pool or len(names) < 2:
                break
            p, o, st, call = rng.choice(pool)
            sw.append({'kind': 'switch', 'proc': p, 'op': o, 'line' if call == 'line' else 'step': st,
                       'to': rng.choice([x for x in names if x != p])})
        q['faults'] = (q.get('faults') or []) + sw
        out.append(q)
    return out

"""One simulated execution: plan in, result out.

A plan is a JSON value that fixes everything: the initial file system, the
operations, the faults and the schedule.  `execute(prop, plan)` runs it against
the real code of /repo inside the simulator and returns a plain dict.
"""
import bdb
import contextlib
import errno
import gc
import hashlib
import importlib
import json
import os
import sys
import traceback
import types

from . import seam, simfs
from .simfs import HarnessError, Kernel, Proc, SimBudget, SimCrash, SimEscape

HOME = '/home/user'


class Violation(Exception):
    def __init__(self, code, msg, key=None):
        super().__init__(f'{code}: {msg}')
        self.code = code
        self.msg = msg
        self.key = key or code


class Outcome:
    """What an operation did: kind in ok / err / crash / kbd."""
    __slots__ = ('kind', 'value', 'exc')

    def __init__(self, kind, value=None, exc=None):
        self.kind = kind
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        if self.kind == 'ok':
            # (no repr of objects of the code under test: that may run it again)
            plain = isinstance(self.value, (type(None), bool, int, str, bytes, float))
            return f'ok({self.value!r})' if plain else f'ok({type(self.value).__name__})'
        if self.kind == 'err':
            return f'err({type(self.exc).__name__}: {self.exc})'
        return self.kind


def boot(extra=None):
    """Import the code under test inside a simulated machine, once per process
    tree; every run forks from here."""
    seam.install()
    k = Kernel()
    base_fs(k)
    k.cur = Proc(k, 'boot', cwd=HOME)
    os.environ['HOME'] = HOME
    os.environ['USER'] = 'user'
    os.environ.pop('XDG_CONFIG_HOME', None)
    import logging
    import warnings
    warnings.simplefilter('ignore')
    keep_code()
    seam.activate(k)
    try:
        import augpathlib
    finally:
        seam.activate(None)
    logging.getLogger('augpathlib').setLevel(logging.CRITICAL + 1)
    return augpathlib


def keep_code():
    """Compile the library once: a restarted process gets its modules from the same code."""
    from importlib.machinery import SourceFileLoader
    real, codes = SourceFileLoader.get_code, {}

    def get_code(self, name):
        if name != 'augpathlib' and not name.startswith('augpathlib.'):
            return real(self, name)
        if (name, self.path) not in codes:
            codes[name, self.path] = real(self, name)
        return codes[name, self.path]
    SourceFileLoader.get_code = get_code


def base_fs(k):
    for d in ('/', '/home', '/var', '/etc'):
        k.h_mkdir(d, uid=0)
    k.h_mkdir('/tmp', mode=0o777, uid=0)
    k.h_mkdir('/var/tmp', mode=0o777, uid=0)
    k.h_mkdir(HOME)
    k.h_put('/etc/machine-id', b'0123456789abcdef0123456789abcdef\n', uid=0)


def reimport():
    """A restarted process: fresh modules, nothing in memory survives."""
    import logging
    for n in [n for n in sys.modules if n == 'augpathlib' or n.startswith('augpathlib.')]:
        del sys.modules[n]
    aug = importlib.import_module('augpathlib')
    logging.getLogger('augpathlib').setLevel(logging.CRITICAL + 1)
    for h in list(logging.getLogger('augpathlib').handlers):
        logging.getLogger('augpathlib').removeHandler(h)
    return aug


class Run:
    def __init__(self, plan, record=False, verbose=False):
        kp = plan.get('kernel', {})
        self.plan = plan
        self.k = Kernel(**kp)
        base_fs(self.k)
        self.proc = Proc(self.k, 'p0', cwd=HOME)
        self.k.cur = self.proc
        self.gen = 0
        self.probes = {}
        self.history = []
        self.aug = sys.modules['augpathlib']
        self.hit, self.ext = {}, 0
        self.k.popen = self.popen
        self.faults = plan.get('faults') or []
        for f in self.faults:
            if f['kind'] == 'switch':
                at = ('l', f['line']) if 'line' in f else f['step']
                self.k.switches[(f['proc'], f['op'], at)] = f['to']
                continue
            if 'at' not in f and f['kind'] not in simfs.KINDS and not hasattr(errno, f['kind']):
                raise HarnessError(f'no such fault: {f}')
            if 'at' in f:      # clock jump before an operation
                self.k.clock_jumps[(f.get('proc', 'p0'), f['at'])] = f['ns']
            else:
                self.k.faults[(f.get('proc', 'p0'), f['op'], f['step'])] = f
        self.acted = []         # what other processes did
        ext = {}
        for a in plan.get('ext') or ():
            ext.setdefault((a['op'], a['step']), []).append(a['act'])
        if ext:
            self.k.on_step = lambda name: self._external(ext)
        if record:
            self.k.step_log = []
        if verbose:
            self.k.log = []

    def _external(self, ext):
        """Another process changes the file system between two of our calls."""
        k = self.k
        for act in ext.get((k.cur.op, k.cur.opstep), ()):
            from . import lib
            try:
                if act[0] == 'rm':
                    n = k.h_get(act[1])
                    if n is None or (n.kind == 'd' and n.entries):
                        continue
                    k.h_rm(act[1])
                elif act[0] == 'tick':
                    k.now += act[1]
                elif act[0] == 'mv':
                    src, dst = k.h_walk(act[1]), k.h_walk(act[2])
                    if src[2] is None or dst[2] is not None or src[2].kind == 'd':
                        continue
                    k._link_in(dst[0], dst[1], k._link_out(src[0], src[1]))
                else:
                    if act[0] != 'f' and k.h_get(act[1]) is not None:
                        continue
                    up = k.h_get(os.path.dirname(act[1]))
                    if up is None or up.kind != 'd':
                        continue
                    lib.build(k, [act])
            except OSError:
                continue
            k.note('external', act)
            self.acted.append(act)
            k.fire('external_' + act[0])
            self.probe('external')

    def popen(self, args, *a, **kw):
        """Child processes: only stat(1), which the library falls back to."""
        return seam.stat_command(self.k, args)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, code, msg, key=None):
        raise Violation(code, msg, key)

    def check(self, cond, code, msg, key=None):
        if not cond:
            self.probe('check_failed')
            raise Violation(code, msg() if callable(msg) else msg, key)
        self.probe('checks')

    def op(self, i, fn, *a, **kw):
        """Run fn as operation i of the current process."""
        self.k.begin_op(i)
        before, ext = dict(self.k.fired), self.probes.get('external', 0)
        out = self.capture(fn, *a, **kw)
        # what was injected while it ran, and how often others changed something
        self.hit = {x: v - before.get(x, 0) for x, v in self.k.fired.items()
                    if v != before.get(x, 0) and not x.startswith('external')}
        self.ext = self.probes.get('external', 0) - ext
        self.k.note('op', i, out.kind, type(out.exc).__name__ if out.exc is not None else '')
        self.history.append((i, getattr(fn, '__name__', '?'), repr(out)[:160]))
        return out

    def capture(self, fn, *a, **kw):
        try:
            return Outcome('ok', fn(*a, **kw))
        except SimCrash as e:
            return Outcome('crash', exc=e)
        except (SimEscape, SimBudget, Violation, HarnessError):
            raise
        except KeyboardInterrupt as e:
            return Outcome('kbd', exc=e)
        except MemoryError:
            raise
        except BaseException as e:
            if self.proc.dead or self.k.cur.dead:
                return Outcome('crash', exc=e)
            if type(e) is bdb.BdbQuit:
                self.fail('debugger', f'{getattr(fn, "__name__", "?")} stops in the debugger')
            return Outcome('err', exc=e)

    def restart(self, reimport_=True, cwd=HOME):
        """New process after a crash (or a clean exit)."""
        self.gen += 1
        self.k.active.clear()
        self.proc = Proc(self.k, f'p{self.gen}', cwd=cwd)
        self.k.cur = self.proc
        if reimport_:
            with self.k.quiet():
                self.aug = reimport()
        return self.aug

    def restart_modules(self):
        """The modules of another process."""
        with self.k.quiet():
            self.aug = reimport()
        return self.aug

    @contextlib.contextmanager
    def calm(self):
        """Harness-side use of the code under test: no faults, no steps."""
        with self.k.quiet():
            yield

    def faulted(self):
        return sum(self.k.fired.values())


def debugger(*a, **kw):
    """A program that stops to be debugged has not answered."""
    raise bdb.BdbQuit


sys.breakpointhook = debugger


def unusable(e):
    """What the code under test raised where it has to work (while a run is set up or looked at), or returned
    in a form that has no meaning, is its failure and not one of the harness; None if it is not that."""
    if not isinstance(e, Exception) or isinstance(e, (MemoryError, ImportError, SyntaxError)):
        return None
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    frames = traceback.extract_tb(e.__traceback__)
    if isinstance(e, bdb.BdbQuit):
        frames = frames[:-1]
    if isinstance(e, OSError):
        # what the simulated machine answers to a call is not raised by the harness
        while len(frames) > 1 and frames[-1].filename in (here + 'simfs.py', here + 'seam.py'):
            frames.pop()
    if frames[-1].filename.startswith(here) or not any(os.sep + 'augpathlib' + os.sep in f.filename for f in frames):
        mine = [f.filename for f in frames if f.filename.startswith(here)]
        if not mine[-1].startswith(here + 'props') or not isinstance(e, (AttributeError, TypeError, LookupError, ValueError)):
            return None
        if isinstance(e, AttributeError) and (str(e.name).startswith('_') or isinstance(e.obj, (type, types.ModuleType))):
            return None
    what = ' < '.join(f'{os.path.basename(f.filename)} {f.name}' for f in frames[-3:][::-1])
    return {'status': 'violation', 'code': 'unusable', 'key': 'unusable',
            'msg': f'{type(e).__name__}: {e} (in {what})'[:600]}


def execute(prop, plan, record=False, verbose=False):
    """-> dict.  To be called in a process of its own (forked from boot)."""
    gc.disable()
    mod = prop
    r = Run(plan, record, verbose)
    res = {'status': 'ok'}
    seam.activate(r.k)
    err = None
    try:
        try:
            mod.run(plan, r)
        except Violation as e:
            res = {'status': 'violation', 'code': e.code, 'msg': e.msg, 'key': e.key}
        except SimEscape as e:
            res = {'status': 'violation', 'code': 'escape', 'key': 'escape',
                   'msg': f'tried to act outside the simulation: {e}'}
        except SimBudget as e:
            res = {'status': 'violation', 'code': 'livelock', 'key': 'livelock',
                   'msg': f'no end within {e} steps'}
        except BaseException as e:
            bad = unusable(e)
            if bad is not None:
                res = bad
            else:
                err = ''.join(traceback.format_exception(e))[-6000:]
    finally:
        seam.activate(None)
    if err is not None:
        res = {'status': 'error', 'msg': err}
    k = r.k
    res.update(digest=k.digest(), steps=k.steps, simtime=k.simtime, fired=k.fired,
               counts=k.counts, probes=r.probes)
    if res['status'] != 'ok':
        res['history'] = r.history[-40:]
    if verbose:
        res['log'] = k.log
    if record:
        res['steplog'] = k.step_log
    return res


def plan_hash(plan):
    return hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=8).hexdigest()

"""Executions that run real git on a scratch directory.

Git itself cannot run inside the simulated kernel, so these executions keep
the real one and control what is nondeterministic around it: every child
process and every change made by the Python side is a numbered step (seams:
`subprocess.Popen._execute_child` and an audit hook), time only moves from one
child process to the next, and the plan decides at which step the process
dies, a call fails, a lock is held, the disk is full, git is killed or another
process edits a file.  Everything happens as an unprivileged user in a
directory of its own; a change outside of it is an escape and is refused.
"""
import bdb
import errno
import gc
import hashlib
import inspect
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from .run import Outcome, Violation, unusable
from .simfs import HarnessError, SimCrash, SimEscape, SimBudget

UID = 65534
EPOCH = 1_600_000_000
KINDS = ('crash_before', 'kbd', 'locked', 'nospace', 'gitkill', 'readonly')
WRITES = {'os.rename': 'rename', 'os.remove': 'unlink', 'os.mkdir': 'mkdir', 'os.rmdir': 'rmdir',
          'os.link': 'link', 'os.symlink': 'symlink', 'os.truncate': 'truncate', 'os.chmod': 'chmod',
          'os.chown': 'chown', 'os.utime': 'utime', 'os.setxattr': 'setxattr', 'os.removexattr': 'removexattr'}
PATHS = {'os.rename': 2, 'os.link': 2, 'os.symlink': 2}
_popen = subprocess.Popen._execute_child
_signature = inspect.signature(_popen)
_current = None


def prepare():
    """Once per worker, before the forks."""
    import logging
    import warnings
    warnings.simplefilter('ignore')
    import git                      # noqa: F401
    import augpathlib
    import augpathlib.repo_patch    # noqa: F401
    logging.getLogger('augpathlib').setLevel(logging.CRITICAL + 1)
    logging.getLogger('git').setLevel(logging.CRITICAL + 1)
    return augpathlib


class Real:
    def __init__(self, plan, record, verbose):
        self.plan = plan
        self.faults = {}
        for f in plan.get('faults') or ():
            if f['kind'] not in KINDS and not hasattr(errno, f['kind']):
                raise HarnessError(f'no such fault: {f}')
            self.faults[(f.get('proc', 'p0'), f['op'], f['step'])] = f
        self.exts = {}
        for a in plan.get('ext') or ():
            self.exts.setdefault((a['op'], a['step']), []).append(a['act'])
        self.steplog = [] if record else None
        self.log = [] if verbose else None
        self.gen = 0
        self.cur_op = self.step = -1
        self.on = False
        self.dead = False
        self.steps = self.ticks = 0
        self.fired, self.counts, self.probes, self.hit = {}, {}, {}, {}
        self.history = []
        self.undo = []
        self.kids = []
        self.hash = hashlib.blake2b(digest_size=16)
        self.external = None        # set by the property: act -> did it do something
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='dst-real-', dir=base))
        os.chmod(self.root, 0o755)
        os.chown(self.root, UID, UID)
        self.aug = sys.modules['augpathlib']

    # -- bookkeeping

    def note(self, *ev):
        t = ' '.join(str(x) for x in ev).replace(self.root, '$')
        self.hash.update(t.encode('utf-8', 'surrogateescape') + b'\n')
        if self.log is not None:
            self.log.append(t[:300])

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, code, msg, key=None):
        raise Violation(code, msg, key)

    def check(self, cond, code, msg, key=None):
        if not cond:
            raise Violation(code, msg() if callable(msg) else msg, key)
        self.probe('checks')

    # -- steps

    def _undo(self):
        for f in self.undo:
            f()
        self.undo = []

    def point(self, call, what):
        """A step: something is about to happen.  -> the fault, if it is one of
        those that change how a git command runs"""
        if self.dead:
            raise SimCrash('dead')
        if not self.on:
            return None
        self.on = False
        try:
            self._undo()
            self.step += 1
            self.steps += 1
            self.counts[call] = self.counts.get(call, 0) + 1
            if self.steps > 5000:
                raise SimBudget(self.steps)
            proc = f'p{self.gen}'
            self.note(proc, self.cur_op, self.step, call, what)
            if self.steplog is not None:
                self.steplog.append((proc, self.cur_op, self.step, call))
            for act in self.exts.get((self.cur_op, self.step), ()) if self.gen == 0 else ():
                if self.external is not None and self.external(act):
                    self.fire('external')
                    self.note('external', act)
            f = self.faults.get((proc, self.cur_op, self.step))
            if f is None:
                return None
            k = f['kind']
            if k in ('locked', 'nospace', 'gitkill', 'readonly') and call != 'git':
                return None
            self.fire(k)
            self.note('fault', k)
            if k == 'crash_before':
                self.dead = True
                raise SimCrash('crash')
            if k == 'kbd':
                raise KeyboardInterrupt
            if k in KINDS:
                return f
            raise OSError(getattr(errno, k), os.strerror(getattr(errno, k)))
        finally:
            if not self.dead:
                self.on = True

    def spawn(self, obj, args, kw):
        b = _signature.bind(obj, *args, **kw).arguments
        argv = b['args']
        argv = [argv] if isinstance(argv, (str, bytes)) else list(argv)
        name = ' '.join(os.fsdecode(a) for a in argv)
        if os.path.basename(os.fsdecode(argv[0])) not in ('git', 'git.exe'):
            raise SimEscape(f'other command: {name[:200]}')
        cwd = os.path.realpath(os.fspath(b['cwd']) if b['cwd'] is not None else os.getcwd())
        if not (cwd + '/').startswith(self.root + '/'):
            raise SimEscape(f'{name[:200]} in {cwd}')
        f = self.point('git', name)
        self.ticks += 1
        env = dict(os.environ if b['env'] is None else b['env'])
        env['GIT_AUTHOR_DATE'] = env['GIT_COMMITTER_DATE'] = f'{EPOCH + self.ticks} +0000'
        b['env'] = env
        os.environ['GIT_AUTHOR_DATE'] = os.environ['GIT_COMMITTER_DATE'] = env['GIT_AUTHOR_DATE']
        if f is None:
            r = _popen(**b)
        elif f['kind'] in ('nospace', 'gitkill'):
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (f.get('n', 0), old[1]))
            b['restore_signals'] = f['kind'] == 'gitkill'      # else: ignored, write fails
            try:
                r = _popen(**b)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
        elif f['kind'] == 'locked':
            lock = f'{self.repo}/.git/{f.get("lock", "index")}.lock'
            was, self.on = self.on, False
            try:
                if not os.path.exists(lock):
                    os.makedirs(os.path.dirname(lock), exist_ok=True)
                    with open(lock, 'w'):
                        pass
                    self.undo.append(lambda: os.path.exists(lock) and os.unlink(lock))
            finally:
                self.on = was
            r = _popen(**b)
        else:                                                # readonly
            was, self.on = self.on, False
            d = os.path.join(self.repo, f.get('dir', ''))
            try:
                if os.path.isdir(d) and not os.path.islink(d):
                    mode = os.stat(d).st_mode
                    os.chmod(d, 0o555)
                    self.undo.append(lambda: os.path.isdir(d) and os.chmod(d, mode))
            finally:
                self.on = was
            r = _popen(**b)
        self.kids.append(obj)
        return r

    def audit(self, event, args):
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int) or path is None:
                return
            flags = flags or 0
            w = (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) or (
                isinstance(mode, str) and set(mode) & set('wax+'))
            if not w:
                return
            paths, call = (path,), 'open_creat'
        elif event in WRITES:
            paths, call = args[:PATHS.get(event, 1)], WRITES[event]
            if event == 'os.symlink':
                paths = paths[1:]
        else:
            return
        norm = []
        for p in paths:
            if isinstance(p, int):
                continue
            p = os.path.join(os.getcwd(), os.fsdecode(os.fspath(p)))
            p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if p in ('/dev/null', '/dev/urandom', '/dev/tty'):
                return
            if not p.startswith(self.root + '/'):
                raise SimEscape(f'{call} {p}')
            norm.append(self.normal(p))
        self.point(call, ' '.join(norm))

    @staticmethod
    def normal(p):
        head, _, tail = p.partition('/.git/')
        if not tail:
            return p
        d, _, n = tail.rpartition('/')
        if n.startswith('tmp') or (d.startswith('objects') and not all(c in '0123456789abcdef' for c in n)) or (
                len(n) > 8 and d == '' and not n.isupper() and not n.endswith('.lock')):
            n = 'tmp'           # names made by tempfile
        return f'{head}/.git/{d}/{n}'

    # -- operations

    def op(self, i, fn, *a, **kw):
        self.cur_op, self.step = i, -1
        before = dict(self.fired)
        self.on = True
        try:
            out = Outcome('ok', fn(*a, **kw))
        except SimCrash as e:
            out = Outcome('crash', exc=e)
        except (SimEscape, SimBudget, Violation, HarnessError):
            raise
        except KeyboardInterrupt as e:
            out = Outcome('kbd', exc=e)
        except MemoryError:
            raise
        except BaseException as e:
            if type(e) is bdb.BdbQuit and not self.dead:
                self.fail('debugger', f'{getattr(fn, "__name__", "?")} stops in the debugger')
            out = Outcome('crash' if self.dead else 'err', exc=e)
        finally:
            self.on = False
        if self.dead and out.kind != 'crash':       # it died in another thread
            out = Outcome('crash', exc=SimCrash('dead'))
        self._undo()
        self.hit = {x: v - before.get(x, 0) for x, v in self.fired.items()
                    if v != before.get(x, 0) and x != 'external'}
        self.note('op', i, out.kind, type(out.exc).__name__ if out.exc is not None else '')
        self.history.append((i, getattr(fn, '__name__', '?'), repr(out).replace(self.root, '$')[:300]))
        if out.kind == 'crash':
            self._bury(out)
        return out

    def _bury(self, out):
        """Nothing the dead process still holds may do anything."""
        e = out.exc
        while e is not None:
            e.__traceback__ = None
            e, c = e.__context__ or e.__cause__, e
            c.__context__ = c.__cause__ = None
        self.forget()
        gc.collect()
        self.dead = False
        self.gen += 1

    def forget(self):
        R = self.aug.RepoPath
        for r in list(R._repos.values()):
            try:
                r.close()
            except BaseException:
                pass
        R._repos.clear()
        for p in self.kids:
            if p.poll() is None:
                for s in (p.stdin, p.stdout, p.stderr):
                    if s is not None:
                        try:
                            s.close()
                        except BaseException:
                            pass
                try:
                    p.wait(3)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
        self.kids = []

    def unlock(self):
        """What a user does after git was killed."""
        for d, _, fs in os.walk(os.path.join(self.repo, '.git')):
            for f in fs:
                if f.endswith('.lock'):
                    os.unlink(os.path.join(d, f))

    # -- plain git for the judge

    def git(self, *args, input=None, ok=True, cwd=None):
        assert not self.on
        self.ticks += 1
        d = f'{EPOCH + self.ticks} +0000'
        os.environ['GIT_AUTHOR_DATE'] = os.environ['GIT_COMMITTER_DATE'] = d
        p = subprocess.run(['git', *args], input=input, capture_output=True, cwd=cwd or self.repo)
        if ok and p.returncode:
            raise HarnessError(f'git {args}: {p.stderr.decode("utf-8", "replace")[-500:]}')
        return p.stdout if ok else p

    def start(self):
        """As the unprivileged user, in the scratch directory, hooks on."""
        global _current
        _current = self
        os.umask(0o022)
        if os.geteuid() == 0:
            os.setgroups([])
            os.setresgid(UID, UID, UID)
            os.setresuid(UID, UID, UID)
        home = os.path.join(self.root, 'home')
        tmp = os.path.join(self.root, 'tmp')
        self.repo = os.path.join(self.root, 'repo')
        for d in (home, tmp, self.repo):
            os.mkdir(d)
        with open(os.path.join(home, 'config'), 'w') as f:
            f.write('[init]\n defaultBranch = master\n[gc]\n auto = 0\n[maintenance]\n auto = false\n'
                    '[core]\n fsync = none\n')
        tempfile.tempdir = tmp
        for n in [n for n in os.environ if n.startswith('GIT_')]:
            del os.environ[n]
        os.environ.update(
            HOME=home, TMPDIR=tmp, GIT_CONFIG_GLOBAL=os.path.join(home, 'config'), GIT_CONFIG_NOSYSTEM='1',
            GIT_CEILING_DIRECTORIES=self.root, GIT_AUTHOR_NAME='A', GIT_AUTHOR_EMAIL='a@example.org',
            GIT_COMMITTER_NAME='C', GIT_COMMITTER_EMAIL='c@example.org', GIT_TERMINAL_PROMPT='0', TZ='UTC',
            GIT_AUTHOR_DATE=f'{EPOCH} +0000', GIT_COMMITTER_DATE=f'{EPOCH} +0000', LC_ALL='C.UTF-8')
        os.environ.pop('XDG_CONFIG_HOME', None)
        os.chdir(self.repo)
        random.seed(0)

        def _execute_child(obj, *a, **kw):
            return self.spawn(obj, a, kw)
        subprocess.Popen._execute_child = _execute_child
        sys.addaudithook(lambda e, a: self.audit(e, a))


def execute(mod, plan, record=False, verbose=False):
    gc.disable()
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(120)
    r = Real(plan, record, verbose)
    pid = None
    res = {'status': 'ok'}
    try:
        # a process of its own changes the user, so that this one can tidy up
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            code = 1
            try:
                import pickle
                signal.alarm(110)
                b = pickle.dumps(_inner(mod, plan, r, record, verbose))
                while b:
                    b = b[os.write(wr, b):]
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        buf = bytearray()
        while True:
            d = os.read(rd, 1 << 16)
            if not d:
                break
            buf += d
        os.close(rd)
        _, st = os.waitpid(pid, 0)
        import pickle
        if st == 0:
            res = pickle.loads(bytes(buf))
        elif os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            res = {'status': 'violation', 'code': 'livelock', 'key': 'livelock', 'msg': 'no end within 110 s',
                   'digest': 'livelock', 'steps': 0, 'simtime': 0, 'fired': {}, 'counts': {}, 'probes': {}}
        else:
            res = {'status': 'error', 'msg': f'inner process died: {st}'}
    finally:
        shutil.rmtree(r.root, ignore_errors=True)
    return res


def _inner(mod, plan, r, record, verbose):
    res = {'status': 'ok'}
    try:
        r.start()
        try:
            mod.run(plan, r)
        except Violation as e:
            res = {'status': 'violation', 'code': e.code, 'msg': e.msg.replace(r.root, '$'), 'key': e.key}
        except SimEscape as e:
            res = {'status': 'violation', 'code': 'escape', 'key': 'escape',
                   'msg': f'tried to act outside the scratch directory: {e}'}
        except SimBudget as e:
            res = {'status': 'violation', 'code': 'livelock', 'key': 'livelock', 'msg': f'no end within {e} steps'}
        except Exception as e:
            res = unusable(e)
            if res is None:
                raise
            res['msg'] = res['msg'].replace(r.root, '$')
        r.on = False
        r._undo()
        r.forget()
    except BaseException as e:
        res = {'status': 'error', 'msg': ''.join(traceback.format_exception(e))[-6000:]}
    res.update(digest=r.hash.hexdigest(), steps=r.steps, simtime=r.ticks * 10**9, fired=r.fired,
               counts=r.counts, probes=r.probes)
    if res['status'] != 'ok':
        res['history'] = r.history[-40:]
    if verbose:
        res['log'] = r.log
    if record:
        res['steplog'] = r.steplog
    return res


GIT_FAULTS = ('locked', 'locked', 'nospace', 'gitkill', 'readonly', 'EAGAIN', 'ENOMEM')
PY_FAULTS = ('EIO', 'ENOSPC', 'EACCES')


def place(rng, plan, steplog, n, ops=None, dirs=('', '.git', '.git/objects', '.git/refs/heads', 'd')):
    import copy
    cand = [s for s in steplog if ops is None or s[1] in ops]
    out = []
    for _ in range(n if cand else 0):
        fs = []
        for _ in range(1 if rng.random() < 0.85 else 2):
            p, o, st, call = rng.choice(cand)
            f = {'proc': p, 'op': o, 'step': st, 'call': call}
            f['kind'] = rng.choice(('crash_before', 'crash_before', 'kbd') + (
                GIT_FAULTS if call == 'git' else PY_FAULTS) * 2)
            if f['kind'] == 'locked':
                f['lock'] = rng.choice(('index', 'index', 'index', 'HEAD', 'refs/heads/master', 'refs/stash'))
            if f['kind'] in ('nospace', 'gitkill'):
                f['n'] = rng.choice((0, 0, 30, 100, 200, 400))
            if f['kind'] == 'readonly':
                f['dir'] = rng.choice(dirs)
            fs.append(f)
        q = copy.deepcopy(plan)
        q['faults'] = fs
        out.append(q)
    return out


# -- looking at a repository ---------------------------------------------------------

def walk(root):
    """{relative path: ('f', exec, bytes) / ('l', target)} of the working tree"""
    out = {}
    stack = ['']
    while stack:
        d = stack.pop()
        for e in os.scandir(os.path.join(root, d)):
            p = os.path.join(d, e.name)
            if p == '.git':
                continue
            if e.is_symlink():
                out[p] = ('l', os.readlink(e.path))
            elif e.is_dir():
                stack.append(p)
            else:
                with open(e.path, 'rb') as f:
                    out[p] = ('f', bool(e.stat().st_mode & 0o100), f.read())
    return out


def blob_sha(data):
    return hashlib.sha1(b'blob %d\0' % len(data) + data).hexdigest()


def entry(v):
    """(mode, sha) git would record for a file of the working tree"""
    if v[0] == 'l':
        return ('120000', blob_sha(os.fsencode(v[1])))
    return ('100755' if v[1] else '100644', blob_sha(v[2]))


def within(path, p):
    return path == '.' or p == path or p.startswith(path + '/')


def index(R):
    """{path: (mode, sha)} of what is staged"""
    out = {}
    for l in R.git('ls-files', '-s', '-z').split(b'\0'):
        if l:
            meta, _, p = l.partition(b'\t')
            mode, sha, stage = meta.decode().split(' ')
            out[os.fsdecode(p) + ('' if stage == '0' else f'\0{stage}')] = (mode, sha)
    return out


def tree(R, ref):
    out = {}
    for l in R.git('ls-tree', '-r', '-z', ref).split(b'\0'):
        if l:
            meta, _, p = l.partition(b'\t')
            mode, _, sha = meta.decode().split(' ')
            out[os.fsdecode(p)] = (mode, sha)
    return out


def refs(R):
    """{ref: sha}, HEAD as ref: or sha"""
    out = {}
    p = R.git('for-each-ref', '--format=%(refname) %(objectname)')
    for l in p.decode().splitlines():
        n, _, s = l.partition(' ')
        out[n] = s
    with open(os.path.join(R.repo, '.git', 'HEAD')) as f:
        out['HEAD'] = f.read().strip()
    return out


def stashes(R):
    p = os.path.join(R.repo, '.git', 'logs', 'refs', 'stash')
    try:
        with open(p) as f:
            return [l.split(' ')[1] for l in f.read().splitlines()][::-1]
    except FileNotFoundError:
        return []

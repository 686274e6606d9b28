"""Working on another ref and coming back, in real repositories."""
import os
import sys

from .. import real
from ..lib import blob
from ..real import blob_sha, entry, index, refs, stashes, tree, walk
from ..run import HarnessError
from .p18 import put

ID = 'P19'
TITLE = 'leaving the context of a ref brings back what was there when it was entered'
SEEDS = (270, 8000)
VARIANTS = (4, 8)
LISTS = ('ops', 'files', 'ext')
REAL = True
REAL_COMPONENTS = ['augpathlib.repo_patch, augpathlib.repo', 'GitPython',
                   'git 2.43 and the real kernel file system, in a scratch directory']
STUBS = ['time (moves from one git command to the next)', 'other processes that edit files', 'disk limits, locks, kills']
ASSUMPTIONS = ['states git stash can bring back: no file replaced by an untracked directory, nothing staged for removal '
               'that is still there, nothing staged as new that is gone, no intent-to-add',
               'git commands either run to their end or are killed at a file size limit, locks of killed commands are removed']
NAMES = ['a', 'b', 'c', 'x y', 'ü', 'd/a', 'd/b', 'd/e/c', '-f', 'a*', 'q"q', 'n\nl', '.hid', 'k/l']
EXTRA = ['new', 'd/new', 'newd/f', 'x.ign', 'igd/f', 'only-o1', 'both']
REFS = ('o1', 'o1', 'o2', 'master', 'origin/r', 't1', 'nope', 'gone')
prepare = real.prepare


class Boom(Exception):
    pass


def execute(plan, **kw):
    return real.execute(sys.modules[__name__], plan, **kw)


def content(rng):
    return [rng.randrange(10**6), rng.choice((0, 1, 3, 100, 3000))]


def gen_edits(rng, pool, n):
    out = []
    for _ in range(n):
        r = rng.random()
        p = rng.choice(pool + EXTRA)
        if r < 0.65:
            out.append({'do': 'edit', 'p': p, 'how': rng.choice(('write', 'write', 'write', 'rm', 'chmod', 'link')),
                        'data': content(rng)})
        else:
            out.append({'do': 'stage', 'p': p})
    return out


def gen_ctx(rng, pool, depth):
    o = {'ref': rng.choice(REFS), 'body': []}
    if depth and rng.random() < 0.2:
        o['same'] = True
    for _ in range(rng.choice((0, 0, 1, 2, 3))):
        r = rng.random()
        if r < 0.45:
            o['body'] += gen_edits(rng, pool, rng.randint(1, 3))
        elif r < 0.6:
            o['body'].append({'do': 'commit', 'data': content(rng)})
        elif r < 0.72:
            o['body'].append({'do': 'stash'})
        elif r < 0.8:
            o['body'].append({'do': 'switch', 'to': rng.choice(('o1', 'o2', 'detach'))})
        elif depth < 2:
            o['body'].append({'do': 'ctx', 'ctx': gen_ctx(rng, pool, depth + 1)})
    if rng.random() < 0.15:
        o['body'].append({'do': 'raise'})
    return o


def gen(rng, tier):
    pool = rng.sample(NAMES, rng.randint(2, 6))
    files = [{'p': p, 'data': content(rng), 'in': [rng.random() < 0.8, rng.random() < 0.7, rng.random() < 0.5],
              'vary': rng.random() < 0.5, 'x': rng.random() < 0.1} for p in pool]
    ops = []
    for _ in range(rng.randint(1, 2)):
        ops += gen_edits(rng, pool, rng.choice((0, 1, 3, 5)))
        if rng.random() < 0.2:
            ops.append({'do': 'stash'})
        ops.append({'do': 'ctx', 'ctx': gen_ctx(rng, pool, 0)})
    plan = {'files': files, 'ops': ops, 'stash': rng.choice((0, 0, 0, 1, 2)), 'detached': rng.random() < 0.06}
    if rng.random() < 0.2:
        act = [i for i, o in enumerate(ops) if o['do'] == 'ctx']
        plan['ext'] = [{'op': rng.choice(act), 'step': rng.randrange(12),
                        'act': ['write', rng.choice(pool + EXTRA), content(rng)]}]
    return plan


def place(rng, plan, steplog, n):
    return real.place(rng, plan, steplog, n, dirs=('', '.git', '.git/objects', '.git/refs/heads', 'd', 'd', 'newd'))


def q(p):
    return p.encode().replace(b'\\', b'\\\\').replace(b'"', b'\\"').replace(b'\n', b'\\n')


def setup(plan, R):
    R.git('init', '-q')
    out = []
    for n, br in enumerate((b'master', b'o1', b'o2')):
        out.append(b'commit refs/heads/%s\ncommitter C <c@example.org> %d +0000\ndata 1\n%d\n' % (br, real.EPOCH - 9 + n, n))
        out.append(b'deleteall\nM 100644 inline .gitignore\ndata 10\n*.ign\nigd\n\nM 100644 inline zz\ndata 1\nz\n')
        if n == 1:
            out.append(b'M 100644 inline only-o1\ndata 1\n1\n')
        if n < 2:
            out.append(b'M 100644 inline both\ndata 1\n%d\n' % n)
        for f in plan['files']:
            if f['in'][n]:
                d = blob(f['data']) + b'%d' % n * f['vary']
                out.append(b'M 100%s inline "%s"\ndata %d\n%s\n' % (b'755' if f['x'] else b'644', q(f['p']), len(d), d))
    R.git('fast-import', '--quiet', input=b''.join(out))
    for n in ('O1', 'a/o1', 'o', 'o10', 'oo1', 'z/o1'):        # (names that look like another)
        R.git('update-ref', f'refs/heads/{n}', 'o2')
    R.git('reset', '-q', '--hard', 'master')
    R.git('update-ref', 'refs/remotes/origin/r', 'o2')
    R.git('tag', 't1', 'o1')
    for n in range(plan['stash']):
        with open(os.path.join(R.repo, 'zz'), 'w') as f:
            f.write(f'stash {n}')
        R.git('stash', '-q')
    if plan['detached']:
        R.git('checkout', '-q', '--detach')


class State:
    def __init__(self, R):
        self.wt = walk(R.repo)
        self.index = index(R)
        self.refs = refs(R)
        self.stashes = stashes(R)
        self.head = self.refs['HEAD']

    def same(self, other):
        for n in ('wt', 'index', 'refs', 'stashes'):
            a, b = getattr(self, n), getattr(other, n)
            if n == 'refs':
                a, b = ({k: v for k, v in x.items() if k != 'refs/stash'} for x in (a, b))
            if a != b:
                return n, diff(a, b)


def diff(a, b):
    if isinstance(a, list):
        return f'{a} -> {b}'
    return '; '.join(f'{k!r}: {a.get(k)!r:.90} -> {b.get(k)!r:.90}' for k in sorted(set(a) | set(b))
                     if a.get(k) != b.get(k))[:600]


class Ctx:
    def __init__(self, plan, R):
        self.R, self.plan = R, plan
        self.n = 0
        self.made = set()          # what was written by others while it ran
        self.entered = self.moved = self.busy = False

    # -- changes by the user

    def user(self, a):
        R = self.R
        if a['do'] == 'edit':
            self.edit(a['p'], a['how'], blob(a['data']))
        elif a['do'] == 'stage':
            R.git('--literal-pathspecs', 'add', '-A', '--', a['p'], ok=False)
        elif a['do'] == 'commit':
            if not refs(R)['HEAD'].startswith('ref: '):
                return              # (nothing would refer to it)
            self.n += 1
            name = f'commit-{self.n}'
            with open(os.path.join(R.repo, name), 'wb') as f:
                f.write(b'C' + blob(a['data']))
            R.git('add', name)
            R.git('commit', '-q', '-m', name, '--', name)
        elif a['do'] == 'stash':
            R.git('stash', '-q', ok=False)
        elif a['do'] == 'switch':
            R.git('checkout', '-q', *(('--detach',) if a['to'] == 'detach' else (a['to'],)), ok=False)

    def edit(self, p, how, data):
        full = os.path.join(self.R.repo, p)
        parts = p.split('/')
        for i in range(1, len(parts)):
            up = os.path.join(self.R.repo, *parts[:i])
            if os.path.lexists(up) and (os.path.islink(up) or not os.path.isdir(up)):
                return False
        if os.path.isdir(full) and not os.path.islink(full):
            return False
        return put(self.R.repo, p, how, data)

    def normalise(self):
        """Avoid the states that git stash itself cannot bring back."""
        R = self.R
        idx, head, wt = index(R), tree(R, 'HEAD'), walk(R.repo)
        for p in sorted(set(head) - set(idx)):
            if p in wt:
                R.git('--literal-pathspecs', 'add', '-f', '--', p)
        for p in sorted(set(idx) - set(head)):
            if p not in wt:
                R.git('--literal-pathspecs', 'rm', '-q', '--cached', '--', p)

    def dirty(self):
        """What git has not got yet."""
        wt = walk(self.R.repo)
        return {entry(v)[1] for v in wt.values()} | {v[1] for v in index(self.R).values()}

    # -- the code under test

    def enter(self, rp, o, outer=None, oname=None):
        R = self.R
        was, R.on = R.on, False
        b = State(R)
        cm = None
        if o['ref'] == 'gone':
            R.git('update-ref', 'refs/heads/gone', 'o1')
        R.on = was
        try:
            cm = outer if o.get('same') and outer is not None else rp.repo.getRef(o['ref'])
            if o['ref'] == 'gone':      # deleted in the meantime
                R.on = False
                R.git('update-ref', '-d', 'refs/heads/gone')
                R.on = was
            with cm:
                R.on = False
                self.entered = True
                a = State(R)
                name = oname if cm is outer else o['ref']
                key = 'refs/remotes/origin/r' if name == 'origin/r' else f'refs/heads/{name}'
                want = tree(R, a.refs.get(key, 'HEAD'))
                if not self.made and sum(R.fired.values()) == self.fired:
                    R.check(a.head == (f'ref: {key}' if 'remotes' not in key else a.refs[key]) or name == 't1', 'not-on-ref',
                            lambda: f'inside of {name} HEAD is {a.head}')
                    R.check({p: entry(v) for p, v in a.wt.items()} == want == a.index, 'inside',
                            lambda: f'inside of {name} the working tree is not that of the ref: ' +
                            diff(want, {p: entry(v) for p, v in a.wt.items()}) + diff(want, a.index))
                    if name in ('o1', 'o2', 'master'):
                        R.check(rp.repo.currentRefName() == name, 'name', lambda: f'{rp.repo.currentRefName()} is not {name}')
                for s in o['body']:
                    if s['do'] == 'ctx':
                        self.normalise()
                        mid = State(R)
                        self.inner |= self.dirty()
                        R.on = was
                        self.enter(rp, s['ctx'], cm, name)
                        R.on = False
                        if sum(R.fired.values()) == self.fired:
                            self.compare(mid, State(R), f'inner context of {s["ctx"]["ref"]}')
                    elif s['do'] == 'raise':
                        raise Boom
                    else:
                        had = self.dirty()
                        self.user(s)
                        self.inner -= had - self.dirty()
                self.normalise()
                self.inner |= self.dirty()
                R.on = was
            R.on = False
            self.finished = True
        finally:
            R.on = was and not R.dead
        return b

    def compare(self, b, a, what):
        """Everything is as it was, up to commits and stashes made inside."""
        R = self.R
        if self.made:
            return
        R.check(a.head == b.head, 'branch', lambda: f'{what}: on {b.head} before, on {a.head} after')
        key = b.head[5:]
        new = {}
        if a.refs.get(key) != b.refs.get(key):        # commits were made on it
            old, cur = tree(R, b.refs[key]), tree(R, a.refs[key])
            new = {p: v for p, v in cur.items() if old.get(p) != v}
            if any(not p.startswith('commit-') for p in new):
                raise HarnessError(f'{new}')
        awt = {p: v for p, v in a.wt.items() if p not in new}
        R.check(awt == b.wt, 'working-tree', lambda: f'{what} changed the working tree: {diff(b.wt, awt)}')
        aix = {p: v for p, v in a.index.items() if p not in new}
        R.check(aix == b.index, 'staged', lambda: f'{what} changed what is staged: {diff(b.index, aix)}')
        for p, v in new.items():
            R.check(a.index.get(p) == v and p in a.wt and entry(a.wt[p]) == v, 'committed', lambda: f'{what}: {p} is gone')
        R.check(a.stashes[len(a.stashes) - len(b.stashes):] == b.stashes, 'stashes',
                lambda: f'{what}: stashes before {b.stashes}, after {a.stashes}')

    def not_lost(self, b, keep, what):
        R = self.R
        a = State(R)
        for s in b.stashes:
            R.check(s in a.stashes, 'lost-stash', lambda: f'{what}: stash {s} is gone')
        shas = sorted({s for k, s in a.refs.items() if k != 'HEAD'} | set(a.stashes))
        have = set(R.git('rev-list', '--objects', '--no-object-names', '--stdin',
                         input='\n'.join(shas).encode()).decode().split())
        have |= {entry(v)[1] for v in a.wt.values()} | {v[1] for v in a.index.values()}
        # (a link is the same wherever it is)
        have.add(blob_sha(b'a'))
        for sha in sorted(keep - have):
            where = [p for p, v in b.wt.items() if entry(v)[1] == sha] or [p for p, v in b.index.items() if v[1] == sha]
            R.fail('lost', f'{what}: what was in {where or sha} is neither in the working tree nor staged, committed or stashed')
        return a


def run(plan, R):
    setup(plan, R)
    rp = R.aug.RepoPath(R.repo)
    C = Ctx(plan, R)

    def external(act):
        data = b'EXT' + blob(act[2])
        # (not over something that is only there, its owner does not want that)
        if os.path.lexists(os.path.join(R.repo, act[1])) and entry(walk(R.repo)[act[1]])[1] not in \
                {v[1] for v in tree(R, 'HEAD').values()} if act[1] in walk(R.repo) else False:
            return False
        if not C.edit(act[1], act[0], data):
            return False
        C.made.add(blob_sha(data))
        C.inner.add(blob_sha(data))
        R.probe('nontrivial')
        return True
    R.external = external

    for i, o in enumerate(plan['ops']):
        if o is None:
            continue
        if o['do'] != 'ctx':
            C.user(o)
            continue
        C.normalise()
        b = State(R)
        C.keep, C.inner = C.dirty(), set()
        C.made = set()
        C.fired = sum(R.fired.values())
        C.entered = C.finished = False
        ctx = o['ctx']
        out = R.op(i, C.enter, rp, ctx)
        what = f'with {ctx["ref"]} ({out!r:.400})'.replace(R.repo, '$')
        if R.hit:
            R.probe('nontrivial')
            R.unlock()
        if C.entered:
            R.probe('nontrivial')
        boom = out.kind == 'err' and isinstance(out.exc, Boom)
        try:
            a = C.not_lost(b, C.keep | C.inner, what)
        except HarnessError as e:
            R.fail('broken-repository', f'{what}: {e}')
        R.note('state', a.head, sorted(a.index.items()))
        names = names_in(ctx)
        # (when it cannot write git itself may leave files as they are and report nothing)
        if (out.ok or boom and not R.hit) and not {'nospace', 'readonly'} & set(R.hit):
            C.compare(b, a, what)
            if not ctx['body'] and not C.made:
                R.check(a.stashes == b.stashes, 'leftover', lambda: f'{what} leaves a stash')
        elif out.kind == 'err' and not R.hit and not C.made:
            R.check(names & {'t1', 'nope', 'gone'} or not b.head.startswith('ref: ') or switches(ctx), 'refused', lambda: f'{what} failed')
            if ctx['ref'] == 'gone' and b.head.startswith('ref: '):
                R.check(isinstance(out.exc, R.aug.exceptions.InvalidRefError), 'invalid', lambda: f'{what}: wrong error')
            if not C.entered:
                d = b.same(a)
                R.check(d is None, 'not-entered', lambda: f'{what} changed {d[0]}: {d[1]}')
            else:                # the inner one was refused
                C.compare(b, a, what)
        if not out.ok and (R.hit or C.made):
            break                # (what to do about it is up to the user)


def names_in(ctx):
    out = {ctx['ref']}
    for s in ctx['body']:
        if s['do'] == 'ctx':
            out |= names_in(s['ctx'])
    return out


def switches(ctx):
    return any(s['do'] == 'switch' and s['to'] == 'detach' or s['do'] == 'ctx' and (
        switches(s['ctx']) or s['ctx']['ref'] == 'origin/r') for s in ctx['body']) or ctx['ref'] == 'origin/r'

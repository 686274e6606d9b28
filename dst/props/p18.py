"""Commits of single paths and questions about them, in real repositories."""
import datetime
import os
import shutil
import sys

from .. import real
from ..lib import blob
from ..real import entry, index, refs, stashes, tree, walk, within
from ..run import HarnessError

ID = 'P18'
TITLE = 'committing a path commits that path and touches nothing else'
SEEDS = (250, 8000)
VARIANTS = (4, 8)
LISTS = ('ops', 'files', 'ext')
REAL = True
REAL_COMPONENTS = ['augpathlib.repo', 'GitPython', 'git 2.43 and the real kernel file system, in a scratch directory']
STUBS = ['time (moves from one git command to the next)', 'editors of other files', 'disk limits, locks, kills']
ASSUMPTIONS = ['one process commits at a time; others only edit files of the working tree',
               'no ignored files, submodules, hooks, filters or unmerged entries; names are UTF-8 (GitPython)']
NAMES = ['a', 'b', 'a*', '[ab]', '?', '*', ':(top)a', ':/a', '-f', '--all', 'x y', 'ü', '日本', 'd/a', 'd/b', 'd/e/a', 'd*/a',
         'e/a', 'da', 'dd', '!a', '#a', '~', "q'q", 'q"q', 'n\nl', 'back\\s', 'CON.x', '.hid', 'a.lock', 'HEAD', 'master',
         '%41', 't\tb', 'e/-x', '日/本', ':a', '^a']
DIRS = ['d', 'e', 'd/e', 'd*', '日']
MESSAGES = ['message', 'message', 'm: # ü 日', '# not a comment', 'subject\n\nbody\n-- \nmore', '-m', '--date=now']
DATES = [None, None, '1234567890 +0000', '1234567890 -0730', '2019-06-13T22:13:13']
ASK = ('modified', 'indexed', 'has_uncommitted_changes', 'latest_commit', 'show', 'show', 'diff', 'commits')
prepare = real.prepare


def execute(plan, **kw):
    return real.execute(sys.modules[__name__], plan, **kw)


def content(rng):
    return [rng.randrange(50), rng.choice((0, 1, 3, 100, 5000))]


def gen(rng, tier, asking=False):
    pool = rng.sample(NAMES, rng.randint(3, 8))
    if rng.random() < 0.5:
        pool = list(dict.fromkeys(pool + ['a', 'a*', 'b']))
    files = [{'p': p, 'data': content(rng), 'x': rng.random() < 0.1, 'nl': rng.choice((0, 0, 1, 2)),
              'was': rng.random() < 0.15} for p in pool
             if rng.random() < 0.8]
    ops = []
    last = [pool[0]]

    def edits(n):
        for _ in range(n):
            r = rng.random()
            p = last[0] = rng.choice(pool)
            if r < 0.15:            # staged, and changed or changed back since
                ops.append({'op': 'edit', 'p': p, 'how': rng.choice(('write', 'write', 'rm', 'chmod')), 'data': content(rng)})
                ops.append({'op': 'stage', 'p': p})
                ops.append({'op': 'edit', 'p': p, 'how': rng.choice(('write', 'head', 'rm')), 'data': content(rng)})
                continue
            r = rng.random()
            if r < 0.55:
                ops.append({'op': 'edit', 'p': p, 'how': rng.choice(('write', 'write', 'write', 'rm', 'chmod', 'link', 'touch', 'head', 'head')),
                            'data': content(rng)})
            elif r < 0.9:
                ops.append({'op': 'stage', 'p': rng.choice(pool + DIRS[:1])})
            else:
                ops.append({'op': 'rmcached', 'p': p})
    edits(rng.randint(1, 8))
    for _ in range(rng.randint(2, 6) if asking else rng.randint(1, 4)):
        p = (last[0] if rng.random() < 0.4 else rng.choice(pool)) if rng.random() < 0.85 else rng.choice(
            DIRS + ['.', 'nope'])
        r = rng.random()
        if asking:
            r = 0.9 if r < 0.8 else rng.random() * 0.6
        elif r >= 0.9:
            r = rng.random() * 0.6
        if r < 0.35:
            ops.append({'op': 'cfwt', 'p': p, 'msg': rng.choice(MESSAGES), 'date': rng.choice(DATES)})
        elif r < 0.55 and asking or r < 0.8 and not asking:
            ops.append({'op': 'commit', 'p': p, 'msg': rng.choice(MESSAGES), 'date': rng.choice(DATES)})
        elif r < 0.6 or not asking:
            ops.append({'op': 'add', 'p': p})
        else:
            q = rng.choice(ASK)
            ops.append({'op': 'ask', 'p': p, 'q': q, 'ref': rng.choice(('HEAD', 'HEAD~1', '', None, 'master')),
                        'orig': rng.choice(('HEAD', None, ''))})
        edits(rng.choice((0, 0, 1, 3)))
    plan = {'files': files, 'ops': ops, 'history': rng.randint(0, 3) if rng.random() < 0.9 else -1,
            'stash': rng.choice((0, 0, 1, 2)), 'detached': rng.random() < 0.1, 'pool': pool}
    if rng.random() < 0.4:
        act = [i for i, o in enumerate(ops) if o['op'] in ('cfwt', 'commit')]
        plan['ext'] = [{'op': rng.choice(act), 'step': rng.randrange(12),
                        'act': [rng.choice(('write', 'write', 'rm', 'new')), rng.choice(pool), content(rng)]}
                       for _ in range(rng.randint(1, 2))] if act else []
    if asking and plan['history'] >= 0 and rng.random() < 0.4:
        plan['merge'] = rng.randrange(1 << 30)
    return plan


def place(rng, plan, steplog, n):
    return real.place(rng, plan, steplog, n)


def data_of(o):
    return blob(o['data']) + b'\n' * o.get('nl', 0)


class State:
    def __init__(self, R, trees):
        self.wt = walk(R.repo)
        self.index = index(R)
        self.refs = refs(R)
        self.stashes = stashes(R)
        h = self.refs['HEAD']
        self.head = self.refs.get(h[5:]) if h.startswith('ref: ') else h
        if self.head not in trees:
            trees[self.head] = tree(R, self.head) if self.head else {}
        self.tree = trees[self.head]


def put(repo, p, how, data):
    """An edit of the working tree by somebody else; -> done?"""
    full = os.path.join(repo, p)
    if how in ('write', 'link', 'new'):
        if how == 'new' and os.path.lexists(full):
            return False
        parts = p.split('/')
        for i in range(1, len(parts)):
            up = os.path.join(repo, *parts[:i])
            if os.path.lexists(up) and (os.path.islink(up) or not os.path.isdir(up)):
                os.unlink(up)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if os.path.isdir(full) and not os.path.islink(full):
            shutil.rmtree(full)
        elif os.path.islink(full):
            os.unlink(full)
        if how == 'link':
            if os.path.lexists(full):
                os.unlink(full)
            os.symlink('a', full)
        else:
            with open(full, 'wb') as f:
                f.write(data)
        return True
    if not os.path.lexists(full) or os.path.isdir(full) and not os.path.islink(full):
        return False
    if how == 'rm':
        os.unlink(full)
    elif os.path.islink(full):
        return False
    elif how == 'chmod':
        os.chmod(full, os.stat(full).st_mode ^ 0o111)
    elif how == 'touch':
        os.utime(full, (1_600_000_500, 1_600_000_500))
    return True


def setup(plan, R):
    R.git('init', '-q')
    out = []
    if plan['history'] >= 0:
        for n in range(plan['history'] + 1):
            out.append(b'commit refs/heads/master\nmark :%d\ncommitter C <c@example.org> %d +0000\ndata 1\n%d\n' % (
                n + 1, real.EPOCH - 1000 + n, n))
            if n == 0:
                out.append(b'M 100644 inline zz\ndata 1\nz\n')
            for i, f in enumerate(plan['files']):
                q = b'"%s"' % f['p'].encode('utf-8', 'surrogateescape').replace(b'\\', b'\\\\').replace(
                    b'"', b'\\"').replace(b'\n', b'\\n')
                d = data_of(f)
                if n == 0 and f.get('was'):
                    q = b'was-%d' % i
                elif n == 1 and f.get('was'):           # renamed
                    out.append(b'R was-%d %s\n' % (i, q))
                    continue
                elif n and (i + n) % 2:
                    d += b'%d' % n
                elif n:
                    continue
                out.append(b'M 100%s inline %s\ndata %d\n%s\n' % (b'755' if f['x'] else b'644', q, len(d), d))
        if plan.get('merge') is not None:       # of a branch with changes of some, that are made differently for others
            def change(sel, text):
                for i, f in enumerate(plan['files']):
                    if (plan['merge'] >> 3 * i) & sel and ord(min(f['p'])) > 31 and not set(f['p']) & set('"\\'):
                        out.append(b'M 100644 inline "%s"\ndata %d\n%s\n' % (
                            f['p'].encode('utf-8', 'surrogateescape'), len(text), text))
            n = plan['history']
            out.append(b'commit refs/heads/merged\nmark :90\ncommitter C <c@example.org> %d +0000\ndata 1\nm\nfrom :%d\n' % (
                real.EPOCH - 500, max(n, 1)))
            change(1, b'side')
            out.append(b'commit refs/heads/master\ncommitter C <c@example.org> %d +0000\ndata 1\nM\nfrom :%d\nmerge :90\n' % (
                real.EPOCH - 400, n + 1))
            change(2, b'both')
            change(4, b'side')
        R.git('fast-import', '--quiet', input=b''.join(out))
        R.git('reset', '-q', '--hard', 'master')
        R.git('branch', 'other')
        R.git('branch', 'aside', 'master~1' if plan['history'] else 'master')
        for n in range(plan['stash']):
            with open(os.path.join(R.repo, 'zz'), 'w') as f:
                f.write(f'stash {n}')
            R.git('stash', '-q')
        if plan['detached']:
            R.git('checkout', '-q', '--detach')


def run(plan, R):
    setup(plan, R)
    trees = {}
    rp = R.aug.RepoPath(R.repo)
    expected = {}
    R.current = None

    def external(act):
        how, p, data = act
        cur = R.current
        if cur is None or within(cur, p) or within(p, cur) or any(within(p, x) or within(x, p) for x in wt if x != p):
            return False
        if not put(R.repo, p, how, blob(data)):
            return False
        expected.clear()
        expected.update(walk(R.repo))
        R.probe('nontrivial')
        return True
    R.external = external
    wt = {}

    for i, o in enumerate(plan['ops']):
        if o is None:
            continue
        p, kind = o['p'], o['op']
        if kind == 'edit':
            data = data_of(o)
            if o['how'] == 'head':          # back to what was committed
                c = R.git('cat-file', 'blob', f'HEAD:{p}', ok=False)
                if c.returncode:
                    continue
                data = c.stdout
            done = put(R.repo, p, o['how'].replace('head', 'write'), data)
            R.note('edit', p, o['how'], done)
            continue
        if kind == 'stage':
            R.git('--literal-pathspecs', 'add', '-A', '--', p, ok=False)
            continue
        if kind == 'rmcached':
            R.git('--literal-pathspecs', 'rm', '-q', '--cached', '--', p, ok=False)
            continue
        before = State(R, trees)
        wt = before.wt
        if any('\0' in x for x in before.index):
            raise HarnessError('unmerged')
        path = rp if p == '.' else rp / p
        if any(x != p and within(x, p) for x, v in before.wt.items()):
            continue                    # below a file or a link
        if kind == 'ask':
            ask(R, i, o, path, before)
            continue
        R.current = p
        expected.clear()
        if kind == 'commit':
            out = R.op(i, path.commit, message(o, i), **dated(o))
        elif kind == 'cfwt':
            out = R.op(i, path.commit_from_working_tree, message(o, i), **dated(o))
        else:
            out = R.op(i, path.add_index)
        R.current = None
        if R.hit:               # git and GitPython may leave locks behind
            R.unlock()
            R.probe('nontrivial')
        try:
            after = State(R, trees)
        except HarnessError as e:
            R.fail('broken-repository', f'{kind} of {p!r} ({out}): {e}')
        R.note('state', after.head, sorted(after.index.items()))
        judge(R, o, out, p, before, after, expected or before.wt, i)


def message(o, i):
    return f'{o.get("msg") or "message"} {i}'


def dated(o):
    return {'date': o['date']} if o.get('date') else {}


def stamp(date):
    """A date as git writes it down."""
    if 'T' not in date:
        return date
    d = datetime.datetime.fromisoformat(date).replace(tzinfo=datetime.timezone.utc)
    return f'{int(d.timestamp())} +0000'


def show(v):
    return repr(v)[:120]


def judge(R, o, out, p, b, a, wt, i):
    kind = o['op']
    what = f'{kind} of {p!r} ({out!r:.300})'.replace(R.repo, '$')
    # whatever happened
    for x in sorted(set(wt) | set(a.wt)):
        R.check(wt.get(x) == a.wt.get(x), 'working-tree',
                lambda: f'{what} changed {x!r} in the working tree from {show(wt.get(x))} to {show(a.wt.get(x))}')
    R.check(a.stashes == b.stashes, 'stash', lambda: f'{what} changed the stashes {b.stashes} to {a.stashes}')
    branch = b.refs['HEAD'][5:] if b.refs['HEAD'].startswith('ref: ') else 'HEAD'
    for x in sorted(set(b.refs) | set(a.refs)):
        if x != branch and x != 'refs/stash':
            R.check(b.refs.get(x) == a.refs.get(x), 'ref', lambda: f'{what} moved {x} {b.refs.get(x)} to {a.refs.get(x)}')
    for x in sorted(set(b.index) | set(a.index)):
        if not within(p, x) and not within(x, p):
            R.check(b.index.get(x) == a.index.get(x), 'staged',
                    lambda: f'{what} changed what is staged of {x!r} from {b.index.get(x)} to {a.index.get(x)}')
    allowed, loose = {}, bool(R.hit) or not out.ok
    for x in set(b.index) | set(b.wt) | set(b.tree) | set(a.tree) | set(a.index):
        if within(p, x):
            w = entry(b.wt[x]) if x in b.wt else None
            if kind in ('cfwt', 'add') and not loose:
                s = {w} if kind == 'cfwt' or w else {w, b.index.get(x)}
            elif x in b.index or x in b.tree or kind != 'commit':
                s = {w, b.index.get(x)}
            else:
                s = {None}
            allowed[x] = s
            R.check(a.index.get(x) in s or a.index.get(x) == b.index.get(x) and loose, 'index',
                    lambda: f'{what}: staged of {x!r} is {a.index.get(x)}, possible {s}')
    if kind == 'add':
        R.check(a.head == b.head, 'committed', lambda: f'{what} moved HEAD')
    if out.ok and kind != 'add':
        R.check(a.head != b.head, 'not-committed', lambda: f'{what} made no commit')
    if a.head != b.head:
        c = R.git('cat-file', 'commit', a.head)
        head, _, msg = c.partition(b'\n\n')
        parents = [l.split()[1].decode() for l in head.splitlines() if l.startswith(b'parent ')]
        R.check(parents == [b.head] * (b.head is not None), 'parents',
                lambda: f'{what}: parents of the commit are {parents}, HEAD was {b.head}')
        R.check(msg.strip() == message(o, i).strip().encode(), 'message', lambda: f'{what}: the message is {msg}')
        if o.get('date'):
            got = [l.split(b'> ')[-1].decode() for l in head.splitlines() if l.startswith(b'author ')]
            R.check(got == [stamp(o['date'])], 'date', lambda: f'{what}: dated {got}, asked for {o["date"]}')
        if out.ok:
            R.check(str(out.value) == a.head, 'returned', lambda: f'{what} returned {out.value}, HEAD is {a.head}')
        for x in sorted(set(b.tree) | set(a.tree)):
            if within(p, x):
                R.check(a.tree.get(x) in allowed[x], 'content',
                        lambda: f'{what} committed {x!r} as {a.tree.get(x)}, possible {allowed[x]}')
            elif within(x, p) and x not in a.tree:
                pass
            else:
                R.check(a.tree.get(x) == b.tree.get(x), 'other-path',
                        lambda: f'{what} committed {x!r} too: {b.tree.get(x)} became {a.tree.get(x)}')
    if out.kind == 'err' and not R.hit:
        tracked = any(within(p, x) for x in list(b.index) + list(b.tree))
        exists = p == '.' or os.path.lexists(os.path.join(R.repo, p))
        R.check(not exists or kind == 'commit' and not tracked, 'refused', lambda: f'{what} failed')
    elif out.kind in ('crash', 'kbd') and not R.hit:
        R.fail('harness', what)


def ask(R, i, o, path, b):
    p, q = o['p'], o['q']
    full = os.path.join(R.repo, p)
    link = os.path.islink(full)
    ref, orig = o['ref'], o['orig']

    def g(*a):
        return R.git('--literal-pathspecs', *a, ok=False)

    def differs(*a):
        r = g('diff', '--quiet', *a, '--', p)
        return bool(r.returncode) if r.returncode < 2 else None
    exists = os.path.exists(full)
    if q in ('modified', 'indexed', 'has_uncommitted_changes', 'diff'):
        if link:
            return
        if q == 'diff':
            fn = lambda: path.diff(ref, orig)
            if ref == orig:
                want = False
            else:
                x, y = (orig, ref) if ref in (None, '') else (ref, orig)     # x names a commit, if one does
                if x in (None, ''):
                    want = differs()
                elif y is None:
                    want = differs(x)
                elif y == '':
                    want = differs('--cached', x)
                else:
                    want = differs(x, y)
        else:
            fn = getattr(path, q)
            want = differs(*{'modified': (), 'indexed': ('--cached', 'HEAD'), 'has_uncommitted_changes': ('HEAD',)}[q])
        out = R.op(i, fn)
        if not exists and q != 'diff':
            want = FileNotFoundError
        if not exists and q == 'diff' and out.kind == 'err':
            return
        got = bool(out.value) if out.ok else None
    elif q == 'show':
        out = R.op(i, path.show, ref)
        if ref is None:
            want = b.wt[p][2] if b.wt.get(p, 'x')[0] == 'f' else None
            if link:
                return
        else:
            r = g('cat-file', 'blob', f'{ref}:{p}')
            want = r.stdout if not r.returncode else None
            if want is None and not g('cat-file', '-e', f'{ref}:{p}').returncode:
                return
        got = out.value if out.ok else None
    else:
        if link:
            return
        rev = ref or None
        l = g('rev-list', rev or 'HEAD', '--', p)
        want = l.stdout.decode().split() if not l.returncode else None
        if q == 'latest_commit':
            out = R.op(i, path.latest_commit, rev)
            want = (want[0] if want else R.aug.exceptions.NoCommitsForFile) if want is not None else None
            got = str(out.value) if out.ok else None
        else:
            out = R.op(i, lambda: [str(c) for c in path.commits(rev=rev)])
            got = out.value
    what = f'{q}({ref!r}, {orig!r}) of {p!r}' if q in ('show', 'diff', 'latest_commit', 'commits') else f'{q}() of {p!r}'
    if out.ok and R.hit and q in ('modified', 'indexed', 'has_uncommitted_changes', 'diff'):
        pass            # GitPython reads diffs in a thread, errors of which nobody sees
    elif out.ok:
        R.check(want is not None and not isinstance(want, type) and got == want, 'answer',
                lambda: f'{what} is {show(got)}, git says {show(want)}')
    elif out.kind == 'err' and not R.hit and b.head is not None:
        R.check(want is None or isinstance(want, type) and isinstance(out.exc, want), 'no-answer',
                lambda: f'{what} raised {out.exc!r:.300}, git says {show(want)}')

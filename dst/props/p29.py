"""Making, cloning, removing and finding repositories."""
import os
import shutil
import sys

from .. import real
from ..lib import blob

ID = 'P29'
TITLE = 'a repository is made only outside of others, and is that of the paths in it'
SEEDS = (260, 8000)
VARIANTS = (4, 8)
LISTS = ('ops', 'made')
REAL = True
REAL_COMPONENTS = ['augpathlib.repo', 'GitPython', 'git 2.43 and the real kernel file system, in a scratch directory']
STUBS = ['time (moves from one git command to the next)', 'disk limits, locks, kills']
ASSUMPTIONS = ['one process; no links among the directories',
               'a repository with open handles is only removed by the library (GitPython keeps processes in it)',
               'a git that was killed may leave a part of a repository, which is then removed by the user']
DIRS = ['a', 'a/b', 'a/b/c', 'x y', 'x y/a', 'r.d', 'ü', 'a/-q', 'b', 'a/x.git', "q'q"]
SOURCES = ['plain', 'dot.ted', 'ends.git', 'dot.ted.git', 'x y', 'ü', 'empty', 'two.b']
prepare = real.prepare


def execute(plan, **kw):
    return real.execute(sys.modules[__name__], plan, **kw)


def gen(rng, tier):
    pool = rng.sample(DIRS, rng.randint(3, 6))
    srcs = rng.sample(SOURCES, 2)
    made = [{'p': p, 'how': rng.choice(('dir', 'dir', 'file', 'file', 'git', 'gitfile'))} for p in pool if rng.random() < 0.6]
    ops = []
    for _ in range(rng.randint(3, 9)):
        o = {'op': rng.choice(('init', 'init', 'clone', 'clone', 'initclone', 'rmtree', 'rmtree', 'ask', 'ask', 'ask', 'ask', 'new',
                               'file', 'commit')),
             'p': rng.choice(pool + [s.replace('.git', '') for s in srcs[:1]] + ['.']), 'src': rng.choice(srcs),
             'rel': rng.random() < 0.3, 'cwd': rng.choice(['', ''] + pool), 'below': rng.choice(('', '', 'in', 'in/deeper', '.git')),
             'depth': rng.choice((None, None, 1)), 'data': [rng.randrange(50), rng.choice((0, 3, 100))],
             'aspath': rng.random() < 0.3, 'slash': rng.random() < 0.15, 'url': rng.random() < 0.3}
        ops.append(o)
        if o['op'] == 'rmtree' and rng.random() < 0.6:
            ops.append(dict(o, op=rng.choice(('init', 'initclone', 'ask'))))
    if rng.random() < 0.3:              # used, removed, made again and used again
        o = {'op': 'initclone', 'p': rng.choice(pool), 'src': srcs[0], 'rel': False, 'x': '', 'cwd': '', 'below': '', 'depth': None,
             'data': [0, 3], 'aspath': False, 'slash': False, 'url': False}
        at = rng.randint(0, len(ops))
        up = [q for q in pool if o['p'].startswith(q + '/')]
        ops[at:at] = [o, dict(o, op='ask', below=rng.choice(('', 'in'))), dict(o, op='rmtree', p=rng.choice([o['p']] + up)),
                      dict(o, op=rng.choice(('initclone', 'init', 'outside', 'outside')), src=srcs[1]), dict(o, op='commit'),
                      dict(o, op='ask')]
    return {'made': made, 'ops': ops, 'srcs': srcs}


def place(rng, plan, steplog, n):
    out = real.place(rng, plan, steplog, n, dirs=('', 'a', 'b', 'a/b'))
    for q in out:
        for f in q['faults']:
            if f['kind'] == 'locked':           # (no repository to lock)
                f['kind'] = 'nospace'
                f['n'] = rng.choice((0, 30, 100, 400))
    return out


def snap(root):
    """{path: ...} of everything that is not inside of a .git directory"""
    out = {}
    for d, ds, fs in os.walk(root):
        r = os.path.relpath(d, root)
        for n in ds + fs:
            p = os.path.join(d, n)
            q = os.path.normpath(os.path.join(r, n))
            if os.path.islink(p):
                out[q] = ('l', os.readlink(p))
            elif os.path.isdir(p):
                out[q] = ('d', 'git' if n == '.git' else '')
            else:
                with open(p, 'rb') as f:
                    out[q] = ('f', f.read())
        if '.git' in ds:
            ds.remove('.git')
    return out


def inner(root):
    """what is inside of the .git directories, but for what looking at them changes"""
    out = {}
    for d, ds, fs in os.walk(root):
        if '/.git' in d[len(root):]:
            for n in fs:
                if n != 'index' and not n.endswith('.lock'):
                    with open(os.path.join(d, n), 'rb') as f:
                        out[os.path.relpath(os.path.join(d, n), root)] = f.read()
    return out


def top(work, p):
    """the nearest directory at or above p (in work) that is a repository"""
    while True:
        if os.path.exists(os.path.join(p, '.git')):
            return p
        if p == work or len(p) <= len(work):
            return None
        p = os.path.dirname(p)


def gitname(s):
    s = s.rstrip('/').rsplit('/', 1)[-1]
    return s[:-4] if s.endswith('.git') else s


def run(plan, R):
    work = R.repo                               # (not a repository itself)
    R.repo = os.path.join(R.root, 'work')
    os.rename(work, R.repo)
    work = R.repo
    src = os.path.join(R.root, 'src')
    os.mkdir(src)
    os.chdir(src)
    heads = {}
    for s in plan['srcs']:
        d = os.path.join(src, s)
        R.git('init', '-q', d, cwd=src)
        if s != 'empty':
            for n in range(2):
                with open(os.path.join(d, f'f{n}'), 'w') as f:
                    f.write(s * (n + 1))
                R.git('add', '.', cwd=d)
                R.git('commit', '-q', '-m', f'{n}', cwd=d)
            heads[s] = R.git('rev-parse', 'HEAD', cwd=d).decode().strip()
    for m in plan['made']:
        d = os.path.join(work, m['p'])
        if any(os.path.isfile(os.path.join(work, *m['p'].split('/')[:k + 1])) for k in range(len(m['p'].split('/')))):
            continue
        os.makedirs(d, exist_ok=True)
        if m['how'] == 'file':
            with open(os.path.join(d, 'in'), 'w') as f:
                f.write('mine')
        elif m['how'] == 'git' and top(work, d) is None:
            R.git('init', '-q', d, cwd=d)
        elif m['how'] == 'gitfile' and top(work, d) is None:
            R.git('init', '-q', f'--separate-git-dir={src}/.sep{m["p"].replace("/", "_")}', d, cwd=d)
    RP = R.aug.RepoPath
    exc = R.aug.exceptions
    os.chdir(work)
    junk = False                    # git was killed: what it left is not judged
    for i, o in enumerate(plan['ops']):
        if o is None:
            continue
        kind = o['op']
        full = os.path.normpath(os.path.join(work, o['p']))
        cwd = os.path.join(work, o['cwd'])
        os.chdir(cwd if os.path.isdir(cwd) else work)
        cwd = os.getcwd()

        def path(f):
            if not o['rel']:
                return RP(f)
            r = os.path.relpath(f, cwd)
            return RP(r) if not r.startswith('..') else RP(f)
        if kind == 'new':
            R.forget()
            continue
        if kind == 'file':
            if os.path.isdir(full) and not os.path.isdir(f'{full}/in'):
                with open(os.path.join(full, 'in'), 'wb') as f:
                    f.write(blob(o['data']))
            continue
        if kind == 'outside':               # another program makes it
            if top(work, full) is None and not os.path.exists(full):
                R.git('clone', '-q', os.path.join(src, o['src']), full, cwd=work)
            continue
        if kind == 'commit':
            t = top(work, full)
            if t is not None and os.path.isdir(t):
                R.git('commit', '-q', '--allow-empty', '-m', 'm', cwd=t, ok=False)
            continue
        if kind == 'ask':
            f = os.path.join(full, o['below']) if o['below'] else full
            ask(R, i, path(f), f, work, cwd)
            continue
        before, bin_ = snap(work), inner(work)
        s = o['src']
        remote = os.path.join(src, s)
        if kind == 'rmtree':
            if full == work or not os.path.isdir(full) or (cwd + '/').startswith(full + '/'):
                continue
            out = R.op(i, RP(full).rmtree)
        elif kind == 'init':
            out = R.op(i, path(full).init)
        else:
            a = RP(remote) if o['aspath'] else 'file://' + remote if o['url'] else remote + '/' * o['slash']
            if kind == 'clone':
                p = path(full)
                full = os.path.join(full, gitname(s))
                out = R.op(i, p.clone_from, a, depth=o['depth'])
            else:
                out = R.op(i, path(full).init, a, depth=o['depth'])
        killed = any(x in R.hit for x in ('gitkill',)) or out.kind in ('crash', 'kbd')
        if R.hit:
            R.probe('nontrivial')
        try:
            after, ain = snap(work), inner(work)
        except FileNotFoundError:
            raise
        what = f'{kind} of {o["p"]!r}' + ('' if kind in ('init', 'rmtree') else f' from {s!r}') + f' ({out!r:.300})'.replace(R.root, '$')
        rel = os.path.relpath(full, work)

        def mine(q):
            return rel == '.' or q == rel or q.startswith(rel + '/')
        up = {rel}
        while os.path.dirname(rel) and kind != 'rmtree':
            rel_ = os.path.dirname(sorted(up, key=len)[0])
            if not rel_:
                break
            up.add(rel_)
        for q in set(before) | set(after):
            if kind == 'rmtree' and mine(q):
                R.check(q not in after or before.get(q) == after[q] and not out.ok, 'left', lambda: f'{what}: {q!r} is still there')
            elif q in before:
                R.check(before[q] == after.get(q), 'changed',
                        lambda: f'{what} changed {q!r} from {before[q]!r:.100} to {after.get(q)!r:.100}')
            else:
                R.check(mine(q) or q in up, 'elsewhere', lambda: f'{what} made {q!r}')
        for q in set(bin_) | set(ain):
            if not mine(q) or kind != 'rmtree' and rel + '/.git' in before:
                R.check(bin_.get(q) == ain.get(q), 'repository',
                        lambda: f'{what} changed {q!r} from {bin_.get(q)!r:.100} to {ain.get(q)!r:.100}')
        if kind == 'rmtree':
            R.check(out.ok or R.hit, 'failed', what)
            if not out.ok:                  # a part of a repository is not judged
                os.chdir(work)
                shutil.rmtree(full, ignore_errors=True)
            continue
        inside = None
        q = full
        while len(q) >= len(work):
            if os.path.relpath(q, work) + '/.git' in before or q == work and '.git' in before:
                inside = q
                break
            q = os.path.dirname(q)
        busy = any(mine(q) and q != rel for q in before)
        isfile = any(before.get(q, ('d',))[0] == 'f' for q in up)
        if inside is not None:
            R.check(not out.ok, 'nested', lambda: f'{what}, but {inside.replace(R.root, "$")} is a repository')
            R.check(before == after, 'refused-but-done', lambda: f'{what} changed {set(before) ^ set(after)}')
            if out.kind == 'err' and not R.hit and os.path.exists(full):
                R.check(isinstance(out.exc, exc.RepoExistsError), 'error', what)
            R.probe('refused')
            continue
        if out.ok:
            R.probe('made')
            R.check(os.path.isdir(full + '/.git'), 'nothing', lambda: f'{what} made no repository at {rel!r}')
            t = R.git('rev-parse', '--show-toplevel', cwd=full, ok=False)
            R.check(os.fsdecode(t.stdout.rstrip(b'\n')) == full, 'broken', lambda: f'{what}: git says {t.stdout} {t.stderr}')
            if kind != 'init':
                h = R.git('rev-parse', 'HEAD', cwd=full, ok=False)
                h = h.stdout.decode().strip() if not h.returncode else None
                R.check(h == heads.get(s), 'head', lambda: f'{what}: HEAD is {h}, not {heads.get(s)}')
                st = R.git('status', '--porcelain', '--ignored', cwd=full)
                R.check(not st, 'status', lambda: f'{what}: {st}')
                got = {n for n in os.listdir(full) if n != '.git'}
                R.check(got == ({'f0', 'f1'} if s in heads else set()), 'files', lambda: f'{what}: {got}')
                if o['depth'] and o['url'] and not o['aspath']:
                    c = R.git('rev-list', '--count', 'HEAD', cwd=full, ok=False).stdout.strip()
                    R.check(c == b'1' or s not in heads, 'depth', lambda: f'{what}: {c} commits')
            v = out.value
            if kind == 'clone':
                R.check(os.path.abspath(str(v)) == full, 'returned', lambda: f'{what} returned {v}')
                wd = R.op(i, lambda: v.working_dir)
            else:
                wd = R.op(i, lambda: path(full).working_dir)
            if wd.ok:
                R.check(str(wd.value) == full, 'found', lambda: f'{what}: afterwards working_dir is {wd.value}')
        elif out.kind == 'err' and not R.hit:
            R.check(isfile or kind != 'init' and busy, 'failed', what)
        if not out.ok and os.path.lexists(full + '/.git') and killed or R.hit and not out.ok:
            if rel not in before and rel != '.':         # what a killed git left is removed by hand
                shutil.rmtree(full, ignore_errors=True)
            else:
                shutil.rmtree(full + '/.git', ignore_errors=True)
                if kind != 'init' and not busy:
                    for n in os.listdir(full):
                        p = os.path.join(full, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            if out.kind == 'err':
                os.chdir(cwd if os.path.isdir(cwd) else work)
                R.faults = {}
                p = path(os.path.dirname(full) if kind == 'clone' else full)
                again = R.op(i, lambda: p.init() if kind == 'init' else p.clone_from(remote) if kind == 'clone' else p.init(remote))
                R.check(again.ok or isfile or kind != 'init' and busy, 'again',
                        lambda: f'{what}: the second attempt failed as well: {again!r:.300}'.replace(R.root, '$'))


def ask(R, i, p, f, work, cwd):
    want = top(work, f)
    out = R.op(i, lambda: p.working_dir)
    what = f'working_dir of {str(p)!r} in {cwd}: {out!r:.200}'.replace(R.root, '$')
    if out.ok:
        got = None if out.value is None else str(out.value)
        R.check(got == want, 'working_dir', lambda: f'{what}, should be {want}'.replace(R.root, '$'))
        R.probe('answered')
    else:
        R.check(out.kind != 'err' or R.hit, 'failed', what)
    out = R.op(i, lambda: (str(p.repo.working_dir), str(p.repo_relative_path)))
    what = f'repo of {str(p)!r} in {cwd}: {out!r:.200}'.replace(R.root, '$')
    if want is None:
        R.check(not out.ok, 'repo', lambda: what)
        R.check(out.kind != 'err' or R.hit or isinstance(out.exc, R.aug.exceptions.NotInRepoError), 'error', what)
    elif out.ok:
        R.check(out.value == (want, os.path.relpath(f, want)), 'repo', lambda: f'{what}, should be {want}'.replace(R.root, '$'))
    else:
        R.check(out.kind != 'err' or R.hit, 'failed', what)
    if want is None:
        return
    h = R.git('rev-parse', 'HEAD', cwd=want, ok=False)
    h = h.stdout.decode().strip() if not h.returncode else None
    out = R.op(i, lambda: p.repo.head.commit.message and str(p.repo.head.commit))
    if out.ok or out.kind == 'err' and not R.hit and h is not None:
        R.check(out.ok and out.value == h, 'head', lambda: f'HEAD of the repository of {str(p)!r} in {cwd} is {out!r:.300}, not {h}'.replace(R.root, '$'))

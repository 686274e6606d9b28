"""Where a path of a repository is at the remote."""
import os
import sys

from .. import real

ID = 'P35'
TITLE = 'the uri of a path names its remote repository, ref and path, as they are'
SEEDS = (200, 6000)
VARIANTS = (3, 6)
LISTS = ('ops', 'files')
REAL = True
REAL_COMPONENTS = ['augpathlib.repo', 'GitPython', 'git 2.43 and the real kernel file system, in a scratch directory']
STUBS = ['time (moves from one git command to the next)', 'disk limits, locks, kills', 'the remote is never contacted']
ASSUMPTIONS = ['remotes at GitHub, or a local clone of one', 'names of files need no quoting in a uri',
               'without a ref a branch is checked out']
FORMS = ('https://github.com/{}', 'https://github.com/{}.git', 'git@github.com:{}', 'git@github.com:{}.git',
         'ssh://git@github.com/{}', 'ssh://git@github.com/{}.git', 'https://github.com/{}.git')
NAMES = ('repo', 'org.github.io', 'two.b.c', 'x.git-tools', 'a-b_c', 'README.md')
ORGS = ('org', 'an-org', 'o.rg')
FILES = ('f.txt', 'd/g', 'd/e/h.dat', 'noext', 'a.b/c.d', 'd/.hid', 'f.git')
BRANCHES = ('main', 'topic', 'rel/1.0', 'v2.x')
prepare = real.prepare
place = real.place


def execute(plan, **kw):
    return real.execute(sys.modules[__name__], plan, **kw)


def gen_url(rng):
    return rng.choice(FORMS).format(f'{rng.choice(ORGS)}/{rng.choice(NAMES)}')


def gen(rng, tier):
    files = rng.sample(FILES, rng.randint(2, 5))
    ops = []
    for _ in range(rng.randint(3, 8)):
        kind = rng.choice(('uri', 'uri', 'uri', 'uri', 'api', 'checkout', 'seturl', 'rename', 'new', 'commit', 'tag'))
        ops.append({'op': kind, 'which': rng.choice(('human', 'machine')), 'n': rng.randrange(8),
                    'p': rng.choice(files + ['d', '.', 'not/here']), 'rel': rng.random() < 0.4,
                    'ref': rng.choice((None, None, 'HEAD', 'branch', 'tag', 'sha', 'commit', 'old')), 'url': gen_url(rng),
                    'b': rng.choice(BRANCHES), 'copy': rng.random() < 0.35, 'end': rng.choice(('', '/issues', '/git/trees'))})
    return {'files': files, 'url': gen_url(rng), 'ops': ops, 'other': rng.choice((None, 'upstream', 'a-fork')), 'first': rng.random() < 0.5}


def slug(url):
    s = url.split('github.com', 1)[1][1:]
    return s[:-4] if s.endswith('.git') else s


def state(R, work):
    return (R.git('for-each-ref', cwd=work), R.git('status', '--porcelain', '--ignored', cwd=work),
            R.git('symbolic-ref', 'HEAD', cwd=work), R.git('config', '-l', '--local', cwd=work))


def run(plan, R):
    work = R.repo = os.path.join(R.root, 'made')
    copy = os.path.join(R.root, 'copy.d')
    os.mkdir(work)
    R.git('init', '-q', '-b', 'main', cwd=work)
    for f in plan['files']:
        if f is None:
            continue
        p = os.path.join(work, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            h.write(f)
    R.git('add', '.', cwd=work)
    R.git('commit', '-q', '--allow-empty', '-m', 'first', cwd=work)
    first = R.git('rev-parse', 'HEAD', cwd=work).decode().strip()
    url = plan['url']
    add = [('origin', url), (plan['other'], 'https://github.com/else/where.git')]
    for name, u in reversed(add) if plan['first'] else add:
        if name:
            R.git('remote', 'add', name, u, cwd=work)
    R.git('clone', '-q', work, copy, cwd=R.root)
    tags = []
    branches = ['main']
    for i, o in enumerate(plan['ops']):
        if o is None:
            continue
        kind, RP = o['op'], R.aug.RepoPath
        if kind == 'new':
            R.forget()
            continue
        if kind == 'checkout':
            if o['b'] in branches:
                R.git('checkout', '-q', o['b'], cwd=work)
            else:
                R.git('checkout', '-q', '-b', o['b'], cwd=work)
                branches.append(o['b'])
            continue
        if kind == 'rename':
            now = R.git('symbolic-ref', '--short', 'HEAD', cwd=work).decode().strip()
            if o['b'] not in branches:
                R.git('branch', '-m', o['b'], cwd=work)
                branches[branches.index(now)] = o['b']
            continue
        if kind == 'commit':
            R.git('commit', '-q', '--allow-empty', '-m', f'{i}', cwd=work)
            continue
        if kind == 'tag':
            R.git('tag', f't.{i}', cwd=work)
            tags.append(f't.{i}')
            continue
        if kind == 'seturl':
            R.git('remote', 'set-url', 'origin', o['url'], cwd=work)
            url = o['url']
            continue
        top = copy if o['copy'] else work
        os.chdir(top)
        f = os.path.normpath(os.path.join(top, o['p']))
        if o['rel']:
            d = os.path.dirname(f) if os.path.isdir(os.path.dirname(f)) and f != top else top
            os.chdir(d)
            p = RP(os.path.relpath(f, d))
        else:
            p = RP(f)
        s, before = slug(url), state(R, work)
        if kind == 'api':
            if o['copy']:
                continue                    # of a repository at GitHub
            want = f'https://api.github.com/repos/{s}{o["end"]}'
            out = R.op(i, p.remote_uri_api, o['end'])
        else:
            head = R.git('symbolic-ref', '--short', 'HEAD', cwd=work).decode().strip()
            sha = R.git('rev-parse', 'HEAD', cwd=work).decode().strip()
            ref = {None: None, 'HEAD': 'HEAD', 'branch': branches[o['n'] % len(branches)],
                   'tag': tags[o['n'] % len(tags)] if tags else None, 'sha': sha, 'commit': sha, 'old': first}[o['ref']]
            if o['ref'] == 'commit':
                ref = RP(work).repo.commit(sha)
            name = head if ref in (None, 'HEAD') else str(ref)
            tail = '' if o['p'] == '.' else '/' + o['p']
            want = (f'https://github.com/{s}/blob/{name}{tail}' if o['which'] == 'human' else
                    f'https://raw.githubusercontent.com/{s}/{name}{tail}')
            out = R.op(i, getattr(p, 'remote_uri_' + o['which']), ref=ref)
            R.probe(f'ref_{o["ref"]}')
        what = f'op {i}: {kind} {o["which"]} of {str(p)!r}, remote {url}, ref {o["ref"]}: {out!r:.300}'.replace(R.root, '$')
        R.check(state(R, work) == before, 'changed', lambda: f'{what} changed the repository')
        R.probe('copy' if o['copy'] else 'own')
        if R.hit:
            R.probe('nontrivial')
        if out.ok:
            R.check(out.value == want, 'wrong_uri', lambda: f'{what}: {out.value}, not {want}')
            R.probe('answered')
        else:
            R.check(out.kind != 'err' or R.hit, 'failed', what)

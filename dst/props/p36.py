"""What is released of a package, and what comes next."""
import contextlib
import io
import json
import os
import sys

from .. import real

ID = 'P36'
TITLE = 'what was released of a package is told from its own tags and index only'
SEEDS = (140, 5000)
VARIANTS = (3, 6)
LISTS = ('ops',)
REAL = True
REAL_COMPONENTS = ['augpathlib.package', 'augpathlib.repo', 'GitPython', 'setuptools', 'packaging', 'requests above its transport',
                   'git 2.43 and the real kernel file system, in a scratch directory']
STUBS = ['the transport of requests: a simulated package index and GitHub', 'time (moves from one git command to the next)',
         'disk limits, locks, kills']
FAULTS = ('http_403', 'http_429', 'http_500', 'http_503', 'refused', 'timeout', 'garbled')
ASSUMPTIONS = ['packages without a MANIFEST.in', 'linear histories, with tags on branches that are not checked out',
               'versions of three numbers without a local part']
NET = ('http_403', 'http_429', 'http_500', 'http_503', 'refused', 'timeout', 'garbled')
PACKAGES = (('.', 'top'), ('pkg', 'pkg'), ('pkg-tools', 'pkg-tools'), ('libs/tools', 'tools'), ('x', 'my-pkg'), ('y/z', 'pkg.extra'))
TAILS = ('', '', '', '.dev0', '.dev2', 'a0', 'a1', 'b1', 'rc2', '.post0', '.post3')
PHASES = ('current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post')
place = real.place


def prepare():
    import distutils.core                       # noqa: F401
    import setuptools.command.egg_info          # noqa: F401
    import setuptools.dist                      # noqa: F401
    import packaging.version                    # noqa: F401
    import requests                             # noqa: F401
    aug = real.prepare()
    import augpathlib.package                   # noqa: F401
    return aug


def execute(plan, **kw):
    return real.execute(sys.modules[__name__], plan, **kw)


def gen(rng, tier):
    packages = rng.sample(PACKAGES, rng.randint(1, 4))
    ops = []
    for _ in range(rng.randint(5, 13)):
        kind = rng.choice(('commit', 'tag', 'tag', 'publish', 'publish', 'branch', 'setup', 'junk',
                           'tag?', 'version_tag?', 'since?', 'since?', 'released?', 'github?', 'github?', 'next?', 'next?', 'repo?',
                           'args?', 'command?'))
        ops.append({'op': kind, 'p': rng.randrange(8), 'v': f'{rng.randint(0, 3)}.{rng.randint(0, 20)}.{rng.randint(0, 11)}',
                    't': rng.choice(TAILS), 'net': rng.choice(NET) if rng.random() < 0.25 else None, 'at': rng.choice((0, 0, 1)),
                    'path': rng.choice(('.', 'setup.py', 'f.txt', 'f.txt')), 'rel': rng.random() < 0.3, 'keep': rng.random() < 0.35,
                    'phase': rng.choice(PHASES), 'comp': rng.choice(('release', 'major', 'minor', 'micro')),
                    'note': rng.random() < 0.5, 'pre': rng.random() < 0.5})
    return {'packages': [list(p) for p in packages], 'ops': ops, 'slug': rng.choice(('org/repo', 'an-org/re.po'))}


def next_of(ver, phase, comp):
    """The version that comes next, where there can only be one."""
    from packaging.version import Version
    r = list(ver.release)

    def bump(c):
        n = {'major': 0, 'minor': 1, 'micro': 2, 'release': 2}[c]
        return '.'.join(str(x) for x in r[:n] + [r[n] + 1] + [0] * (2 - n))
    base = '.'.join(map(str, r))
    state = 'post' if ver.post is not None else ver.pre[0] if ver.pre else 'dev' if ver.dev is not None else 'release'
    out = None
    if phase in ('major', 'minor', 'micro'):
        out = bump(phase)
    elif state == 'release':
        out = {'current': bump('release'), 'release': bump('release'), 'dev': bump(comp) + '.dev0', 'pre': bump(comp) + 'a0',
               'a': bump(comp) + 'a0', 'b': bump(comp) + 'b0', 'rc': bump(comp) + 'rc0', 'post': base + '.post0'}[phase]
    elif state == 'dev':
        out = {'current': f'{base}.dev{ver.dev + 1}', 'dev': f'{base}.dev{ver.dev + 1}', 'release': base, 'pre': base + 'a0',
               'a': base + 'a0', 'b': base + 'b0', 'rc': base + 'rc0'}.get(phase)
    elif state == 'post':
        out = {'current': f'{base}.post{ver.post + 1}'}.get(phase)
    else:
        out = {'current': f'{base}{state}{ver.pre[1] + 1}', 'release': base}.get(phase)
    return out and Version(out)


def run(plan, R):
    import requests
    from packaging.version import Version
    PP = sys.modules['augpathlib.package'].PackagePath
    work = R.repo = os.path.join(R.root, 'made')
    os.mkdir(work)
    R.git('init', '-q', '-b', 'main', cwd=work)
    R.git('remote', 'add', 'origin', f'git@github.com:{plan["slug"]}.git', cwd=work)
    packages = {name: {'dir': d, 'version': '0.0.1', 'index': None} for d, name in plan['packages']}
    names = list(packages)
    releases = []                       # at GitHub, the latest first
    log = {'main': []}                  # branch -> its commits
    now = 'main'
    net = {'left': None, 'kind': None}
    asked = []

    def inside(name, f):
        d = packages[name]['dir']
        return d == '.' or f.startswith(d + '/')

    def commit(i, files):
        for f, text in files.items():
            p = os.path.join(work, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as h:
                h.write(text)
        R.git('add', '.', cwd=work)
        R.git('commit', '-q', '--allow-empty', '-m', f'c {i}', cwd=work)
        log[now].append({'what': f'c {i}', 'files': list(files), 'tags': []})

    def setup_of(name):
        p = packages[name]
        f = os.path.normpath(os.path.join(p['dir'], 'setup.py'))
        return {f: f'from setuptools import setup\nsetup(name={name!r}, version={p["version"]!r}, packages=[{name!r}])\n'}

    def send(self, request, **kw):
        asked.append(request.url)
        R.note('http', request.url)
        if net['left'] == 0:
            net['left'] = None
            k = net['kind']
            R.fire(k)
            if k == 'refused':
                raise requests.exceptions.ConnectionError('refused')
            if k == 'timeout':
                raise requests.exceptions.ReadTimeout('timeout')
            status, body = (200, b'<html>') if k == 'garbled' else (int(k[5:]), b'{"message": "no"}')
        else:
            if net['left'] is not None:
                net['left'] -= 1
            status, body = 404, b'{}'
            if request.url == f'https://api.github.com/repos/{plan["slug"]}/releases':
                status, body = 200, json.dumps([{'tag_name': t} for t in releases]).encode()
            for name, p in packages.items():
                if request.url == f'https://pypi.org/pypi/{name}/json' and p['index']:
                    status = 200
                    body = json.dumps({'info': {'version': latest_info(p['index'])}, 'releases': {v: [] for v in p['index']}}).encode()
        r = requests.Response()
        r.status_code, r._content, r._content_consumed = status, body, True
        r.raw, r.url, r.request, r.connection, r.encoding = io.BytesIO(body), request.url, request, self, 'utf-8'
        return r

    def latest_info(vs):                # like the index, one that is final if there is one
        vs = sorted(map(Version, vs))
        return str(([v for v in vs if not v.is_prerelease] or vs)[-1])
    requests.adapters.HTTPAdapter.send = send

    for n, name in enumerate(names):
        commit(f'add {n}', {**setup_of(name), os.path.normpath(os.path.join(packages[name]['dir'], 'f.txt')): 'x'})

    kept = {}                           # path objects and what they may have remembered
    seen = lambda: {n: (p['version'], tuple(p['index'] or ()), tuple(releases)) for n, p in packages.items()}
    for i, o in enumerate(plan['ops']):
        if o is None:
            continue
        kind, name = o['op'], names[o['p'] % len(names)]
        pkg = packages[name]
        prefix = '' if pkg['dir'] == '.' else name + '-'
        if not kind.endswith('?'):
            if kind == 'commit':
                commit(i, {os.path.normpath(os.path.join(pkg['dir'], 'f.txt')): str(i)})
            elif kind == 'tag':
                commit(i, {os.path.normpath(os.path.join(pkg['dir'], 'f.txt')): str(i)})
                t = prefix + o['v'] + o['t']
                if not R.git('tag', '-l', t, cwd=work):
                    R.git('tag', *(['-a', '-m', 'x'] if o['note'] else []), t, cwd=work)
                    log[now][-1]['tags'].append((name, t))
                    releases.insert(0, t)
            elif kind == 'junk':        # tags that are not of any version
                t = ('v' if not prefix else '') + prefix + ('latest' if prefix else str(i))
                R.git('tag', '-f', t, cwd=work)
                releases.insert(0, t)
            elif kind == 'publish':
                pkg['index'] = (pkg['index'] or []) + [o['v'] + (o['t'] if o['pre'] else '')]
            elif kind == 'branch':
                b = ('main', 'side')[o['p'] % 2]
                if b not in log:
                    R.git('checkout', '-q', '-b', b, cwd=work)
                    log[b] = list(log[now])
                else:
                    R.git('checkout', '-q', b, cwd=work)
                now = b
                for n in names:         # what is in the files of this branch
                    text = R.git('show', f'HEAD:{next(iter(setup_of(n)))}', cwd=work).decode()
                    packages[n]['version'] = text.split('version=')[1].split("'")[1]
            else:
                pkg['version'] = o['v'] + o['t']
                commit(i, setup_of(name))
            for states in kept.values():
                states[1].append(seen())
            continue
        top = os.path.normpath(os.path.join(work, pkg['dir']))
        f = os.path.normpath(os.path.join(top, o['path']))
        os.chdir(R.root)
        if o['rel']:
            d = top if o['p'] % 2 else work
            os.chdir(d)
            p = PP(os.path.relpath(f, d))
        else:
            p = PP(f)
        if o['keep'] and not o['rel']:
            p, states = kept.setdefault((name, f), (p, [seen()]))
        else:
            states = [seen()]
        cwd, before = os.getcwd(), (R.git('status', '--porcelain', '--ignored', cwd=work), R.git('for-each-ref', cwd=work))
        net.update(kind=o['net'], left=o['at'] if o['net'] else None)
        del asked[:]
        tags = [t for c in log[now] for n, t in c['tags'] if n == name]
        tag = tags[-1] if tags else None

        def call(kind=kind, o=o, p=p):
            with contextlib.redirect_stdout(io.StringIO()):
                if kind == 'tag?':
                    return p.tag
                if kind == 'version_tag?':
                    return p.version_tag
                if kind == 'since?':
                    return p.commits_since_last_release()
                if kind == 'released?':
                    return p.version_latest_pypi, p.version_latest_released
                if kind == 'github?':
                    return p.tag_latest_github, p.version_latest_github
                if kind == 'next?':
                    return p.version_next(o['phase'], o['comp'])
                if kind == 'repo?':
                    return p.version_repo
                if kind == 'command?':
                    return p.command(o['phase'], o['comp'])
                return p.folder, p.setup_file, p.arg_packagename, p.arg_org, p.arg_repo, p.module
        out = R.op(i, call)
        net['left'] = None
        what = f'op {i}: {kind} of {str(p)!r} of package {name}, {o["net"]}: {out!r:.300}'.replace(R.root, '$')
        R.check(os.getcwd() == cwd, 'moved', lambda: f'{what} left the working directory at {os.getcwd()}')
        if out.kind == 'crash':
            continue
        R.check((R.git('status', '--porcelain', '--ignored', cwd=work), R.git('for-each-ref', cwd=work)) == before, 'changed',
                lambda: f'{what} changed the repository')
        R.probe(kind)
        if R.hit:
            R.probe('nontrivial')
        mine = [s[name] for s in states]
        indexes = [list(m[1]) for m in mine]
        if not out.ok:
            fine = bool(R.hit) and out.kind in ('err', 'kbd')
            if kind in ('next?', 'command?') and out.kind == 'err':
                for m, idx in zip(mine, indexes):
                    if idx:
                        top_ = max(map(Version, idx))
                        # the index does not agree with itself, or there is no such next version
                        if Version(latest_info(idx)) != top_ or (
                                isinstance(out.exc, ValueError) and next_of(top_, o['phase'], o['comp']) is None):
                            fine = True
            R.check(fine, 'failed', what)
            continue
        v = out.value
        if kind == 'tag?':
            R.check(v == tag, 'wrong_tag', lambda: f'{what}: the tags are {tags}')
        elif kind == 'version_tag?':
            R.check(v == (tag and Version(tag[len(prefix):])), 'wrong_tag', lambda: f'{what}: the tags are {tags}')
        elif kind == 'since?':
            at = max([n for n, c in enumerate(log[now]) if any(t == tag for _, t in c['tags'])], default=-1)
            want = [c['what'] for c in log[now][at + 1:] if any(inside(name, x) for x in c['files'])][::-1]
            R.check([' '.join(e.split(' ')[3:]) for e in v] == want, 'wrong_commits', lambda: f'{what}: since {tag} there are {want}')
        elif kind == 'released?':
            oks = [(Version(latest_info(x)), max(map(Version, x))) if x else (None, None) for x in indexes]
            R.check(v[0] in [a for a, _ in oks] and v[1] in [b for _, b in oks], 'wrong_release', lambda: f'{what}: released are {indexes}')
        elif kind == 'github?':
            oks = [next((t for t in m[2] if t.startswith(prefix) and t[len(prefix)] in '0123456789'), None) for m in mine]
            vs = [x and Version(x[len(prefix):]) for x in oks]
            down = [None] if R.hit else []
            R.check(v[0] in oks + down and v[1] in vs + down, 'wrong_release', lambda: f'{what}: the releases are {mine[-1][2]}')
        elif kind in ('next?', 'command?'):
            if kind == 'command?':
                where = os.path.relpath(top, os.path.dirname(work))
                head = f'build-release {plan["slug"].replace("/", " ")} {where} {name} '
                R.check(v.startswith(head), 'wrong_command', lambda: f'{what}: not {head}')
                v = Version(v[len(head):].split(' ')[0])
            good = False
            for m, idx in zip(mine, indexes):
                if not idx:             # never released, as it is in the repository
                    good |= v in [Version(x[0]) for x in mine]
                elif Version(latest_info(idx)) == max(map(Version, idx)):
                    last = max(map(Version, idx))
                    want = next_of(last, o['phase'], o['comp'])
                    good |= v == want if want is not None else v > last
            R.check(good, 'wrong_next', lambda: f'{what}: released {indexes}, in the repository {[m[0] for m in mine]}, {o["phase"]} {o["comp"]}')
        elif kind == 'repo?':
            R.check(v in [Version(m[0]) for m in mine], 'wrong_version', lambda: f'{what}: {[m[0] for m in mine]}')
        else:
            slug = plan['slug'].split('/')
            R.check([os.path.realpath(str(x)) for x in v[:2]] == [top, os.path.join(top, 'setup.py')] and list(v[2:5]) == [name, *slug] and
                    os.path.realpath(str(v[5])) == os.path.join(top, name), 'wrong_parts', what)
        R.probe('answered')

"""Paths inside of zip archives."""
import io
import os
import stat
import warnings
import zipfile

from ..lib import HOME, blob, kernel_params

ID = 'P21'
TITLE = 'paths inside of a zip archive exist, list and read as the archive says'
SEEDS = (700, 20000)
VARIANTS = (5, 10)
LISTS = ('ops', 'archives')
FAULTS = ('errno', 'errno', 'short', 'eintr', 'flip', 'kbd', 'crash_before')
ROOT = HOME + '/z'
ASSUMPTIONS = ['one process; archives are replaced between two of its operations',
               'readers that were started before an archive was replaced may fail']
REAL_COMPONENTS = ['augpathlib.zip (from /repo)', 'CPython zipfile, zlib, pathlib']
NAMES = ['a', 'b', 'd/b', 'd/e/c', 'd/e/f.txt', 'ü/ñ', 'x y', 'x.zip', 'd.zip/q', '-f', 'a*', 'A', 'k/l/m/n', 'n\nl',
         'empty/', 'd2/', 'd/sub/', 'long' * 20, '.hid', '#', '~', 'd/.hid']
OTHER = ['nope', 'd', 'd/e', 'd/nope', 'a/below', 'empty', 'k', 'k/l', 'd2', 'd/sub', 'd.zip', 'ü', 'a ', '']
SZ = (0, 1, 5, 100, 4095, 4096, 4097, 8192, 20000)


def gen_entries(rng):
    out = []
    for n in rng.sample(NAMES, rng.randint(1, 9)):
        out.append({'n': n, 'data': [rng.randrange(10**6), rng.choice(SZ)], 'deflate': rng.random() < 0.5})
    if rng.random() < 0.3:                 # a newer version was appended
        e = dict(rng.choice(out))
        if not e['n'].endswith('/'):
            e['data'] = [rng.randrange(10**6), rng.choice(SZ)]
            out.append(e)
    return out


def gen(rng, tier):
    arcs = [{'p': p, 'entries': gen_entries(rng)} for p in rng.sample(
        ['t.zip', 'u.zip', 'sub/t.zip', 'arch.bin', 'x.zip'], rng.randint(1, 3))]
    ops = []
    reading = rng.random() < 0.25          # mostly concurrent readers of files that take several reads
    if reading:
        arcs = arcs[:1]
        for e in arcs[0]['entries']:
            if not e['n'].endswith('/'):
                e['data'][1] = rng.choice((4097, 8192, 20000))
    for _ in range(rng.randint(3, 14) if not reading else rng.randint(7, 16)):
        a = rng.randrange(3)
        r = rng.random()
        if reading and rng.random() < 0.85:
            r = rng.uniform(0.45, 0.76)
        n = rng.choice(NAMES + OTHER) if rng.random() < 0.4 else None      # None: something that is there
        o = {'arc': a, 'n': n, 'pick': rng.randrange(20), 'rel': rng.random() < 0.25, 'keep': rng.random() < 0.4}
        if r < 0.2:
            o['op'] = 'exists'
        elif r < 0.3:
            o['op'] = 'is_dir'
        elif r < 0.45:
            o.update(op='read', sizes=[rng.choice((1, 7, 4096, 10000)) for _ in range(4)])
        elif r < 0.58:
            o.update(op='start', n=n if rng.random() < 0.2 else None, again=rng.random() < 0.6)
        elif r < 0.76:
            o.update(op='next', count=rng.choice((1, 1, 2, 100)))
        elif r < 0.82:
            o['op'] = 'rchildren'
        elif r < 0.88:
            o['op'] = 'children'
        elif r < 0.92:
            o.update(op='outside', n=rng.choice(('nope.zip', 'nope', 'plain', 'dir.zip', 'dir.zip/x', 'sub')))
        else:
            o.update(op='replace', how=rng.choice(('rename', 'rename', 'inplace', 'same', 'rm')), entries=gen_entries(rng))
        ops.append(o)
    return {'kernel': kernel_params(rng), 'archives': arcs, 'ops': ops}


def pack(entries):
    b = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with zipfile.ZipFile(b, 'w') as z:
            for e in entries:
                i = zipfile.ZipInfo(e['n'], (2020, 1, 1, 0, 0, 0))
                i.compress_type = zipfile.ZIP_DEFLATED if e['deflate'] else zipfile.ZIP_STORED
                z.writestr(i, b'' if e['n'].endswith('/') else blob(e['data']))
    return b.getvalue()


def model(entries):
    """{name: content, None for directories}"""
    out = {'': None}
    for e in entries:
        n = e['n'].rstrip('/')
        parts = n.split('/')
        for i in range(1, len(parts)):
            out['/'.join(parts[:i])] = None
        out[n] = None if e['n'].endswith('/') else blob(e['data'])
    return out


def run(plan, R):
    k, aug = R.k, R.aug
    k.h_mkdir(ROOT)
    k.h_mkdir(ROOT + '/sub')
    k.h_mkdir(ROOT + '/dir.zip')
    k.h_put(ROOT + '/dir.zip/x', b'x')
    k.h_put(ROOT + '/plain', b'plain')
    k.cur.cwd = k.h_get(ROOT)
    arcs = []
    for a in plan['archives']:
        k.h_put(f'{ROOT}/{a["p"]}', pack(a['entries']))
        arcs.append({'p': a['p'], 'm': model(a['entries']), 'version': 0, 'flip': False})
    readers, kept = [], {}

    for i, o in enumerate(plan['ops']):
        if o is None or not arcs:
            continue
        if R.proc.dead:
            R.restart(cwd=ROOT)
            aug = R.aug
            readers, kept = [], {}
            for arc in arcs:
                arc['flip'] = False
        arc = arcs[o['arc'] % len(arcs)]
        m = arc['m']
        op = o['op']
        if op == 'replace':
            p = f'{ROOT}/{arc["p"]}'
            k.now += 1_000_000
            if op == 'rm' or o['how'] == 'rm':
                if arc['m']:
                    k.h_rm(p)
                arc['m'] = {}
            else:
                e = o['entries']
                data = pack(e)
                node = k.h_get(p)
                if o['how'] == 'inplace' and node is not None:
                    node.data[:] = data
                    node.mtime = node.ctime = k.now
                else:
                    if o['how'] == 'same' and node is not None:      # same time of modification
                        t = node.mtime
                        k.h_rm(p)
                        k.h_put(p, data)
                        k.h_get(p).mtime = t
                    else:
                        if node is not None:
                            k.h_rm(p)
                        k.h_put(p, data)
                arc['m'] = model(e)
            arc['version'] += 1
            arc['flip'] = False
            kept.clear()               # (paths are made again)
            readers = [r for r in readers if r['arc'] is not arc]
            k.note('replace', arc['p'], o['how'])
            continue
        if op == 'next':
            if not readers:
                continue
            r = readers[o['pick'] % len(readers)]
            step(R, i, r, o['count'], readers)
            if R.hit.get('flip'):
                r['arc']['flip'] = True
            continue
        if op == 'outside':
            outside(R, i, o, aug)
            continue
        if not m:                       # the archive is gone
            with_gone(R, i, arc, o, aug)
            continue
        n = o['n'].rstrip('/') if o['n'] is not None else sorted(m)[o['pick'] % len(m)]
        if op == 'start' and m.get(n) is None and o['n'] is None:
            fs = sorted((x for x in m if m[x] is not None), key=lambda x: (-len(m[x]), x))
            if o['again'] and readers:           # another reader of the same file
                arc, n = readers[-1]['arc'], readers[-1]['n']
            elif fs:                             # (rather the big ones)
                n = fs[min(o['pick'] // 4, len(fs) - 1)]
        base = arc['p'] if o['rel'] else f'{ROOT}/{arc["p"]}'
        key = (base, n)

        def get():
            if o['keep'] and key in kept:
                return kept[key]
            p = aug.ZipPath(base)
            kept[key] = p = p / n if n else p
            return p
        one(R, i, o, arc, n, get, readers)
        if R.hit.get('flip'):
            arc['flip'] = True     # (what was read of its directory is kept)
        if R.hit:
            kept.clear()


def with_gone(R, i, arc, o, aug):
    p = f'{ROOT}/{arc["p"]}'
    out = R.op(i, lambda: (aug.ZipPath(p) / (o['n'] or 'a')).exists())
    if out.ok and not R.hit:
        R.check(out.value is False, 'gone', lambda: f'{o["n"]!r} exists in {arc["p"]}, which was removed')
    elif out.kind == 'err':
        R.check(R.hit, 'failed', lambda: f'exists in a removed archive: {out!r}')


def outside(R, i, o, aug):
    n = o['n']
    out = R.op(i, lambda: aug.ZipPath(f'{ROOT}/{n}').exists())
    if out.ok:
        # (pathlib takes some errors for an answer)
        R.check(out.value == (n in ('plain', 'dir.zip', 'dir.zip/x', 'sub')) or R.hit, 'outside',
                lambda: f'{n} outside of any archive: exists is {out.value}')
    elif out.kind == 'err':
        R.check(R.hit, 'failed', lambda: f'{n} outside of any archive: {out!r}')


def step(R, i, r, count, readers):
    def fn():
        for _ in range(count):
            try:
                r['got'] += next(r['gen'])
            except StopIteration:
                return True
        return False
    out = R.op(i, fn)
    what = f'reading {r["n"]!r} of {r["arc"]["p"]} ({len(readers)} readers): {out!r}'
    want = r['want']
    if out.kind == 'crash':
        return
    if out.ok:
        # (a flipped bit is noticed at the end)
        if out.value:
            readers.remove(r)
            R.check(bytes(r['got']) == want or r['arc']['flip'], 'content',
                    lambda: what + f': {len(r["got"])} of {len(want)} bytes, ' +
                    ('a prefix' if want.startswith(bytes(r['got'])) else 'other data'))
        elif not r['arc']['flip'] and not R.hit.get('flip'):
            R.check(want.startswith(bytes(r['got'])), 'content', lambda: what + ': other data')
        if len(readers) > 1:
            R.probe('nontrivial')
    else:
        readers.remove(r)
        R.check(R.hit or r['arc']['flip'], 'failed', lambda: what)


def one(R, i, o, arc, n, get, readers):
    m = arc['m']
    op = o['op']
    there = n in m
    isdir = there and m[n] is None
    what = f'{op} of {n!r} in {arc["p"]}'
    E = FileNotFoundError
    if op == 'exists':
        out, want = R.op(i, lambda: get().exists()), there
    elif op == 'is_dir':
        out, want = R.op(i, lambda: bool(get().asInternal().is_dir())), isdir
    elif op in ('rchildren', 'children'):
        pre = n + '/' if n else ''
        base = f'{ROOT}/{arc["p"]}'

        def internal():
            return get().asInternal()
        if op == 'rchildren':
            def fn():
                p = get()
                top = p.zip_path
                return [str(c.relative_to(top)) for c in p.rchildren]
            want = sorted(x for x in m if x.startswith(pre) and x != n)
        else:
            def fn():
                return [str(c) for c in internal().children]
            want = sorted(x for x in m if x.startswith(pre) and x != n and '/' not in x[len(pre):])
        if not there:
            want = []
        out = R.op(i, fn)
        if out.ok:
            out.value = sorted(out.value)
    elif op == 'read':
        def fn():
            with get().open() as f:
                got = []
                for s in o['sizes']:
                    got.append(f.read(s))
                got.append(f.read())
                return b''.join(got)
        out = R.op(i, fn)
        want = m[n] if there and not isdir else IsADirectoryError if isdir else E
    else:                               # start
        def fn():
            return get().asInternal().data
        out = R.op(i, fn)
        if R.hit.get('flip'):
            arc['flip'] = True
        if out.ok:
            if there and not isdir:
                readers.append({'arc': arc, 'n': n, 'gen': out.value, 'want': m[n], 'got': bytearray()})
            else:
                out = R.op(i, lambda: list(out.value))
                if out.kind in ('ok', 'err'):
                    R.check(out.kind == 'err', 'read', lambda: f'{what}: read {out.value}')
        elif out.kind == 'err':
            R.check(R.hit or arc['flip'], 'failed', lambda: f'{what}: {out!r}')
        return
    if out.ok:
        # (a flipped bit in the directory of the archive can be anything)
        R.check(not isinstance(want, type) and out.value == want or R.hit.get('flip') or arc['flip'] or
                (R.hit and not arc['p'].endswith('.zip')), 'answer',
                lambda: f'{what} is {out.value!r:.200}, should be {want!r:.200}')
        R.probe('answered')
    elif out.kind == 'err' and not R.hit and not arc['flip']:
        R.check(isinstance(want, type) and isinstance(out.exc, want), 'failed', lambda: f'{what}: {out!r}')

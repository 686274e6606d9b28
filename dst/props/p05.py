"""copy_to and friends: no clobbering, exact content."""
import os

from ..lib import HOME, blob, build, diff, gen_tree, kernel_params, missing, short

ID = 'P05'
TITLE = 'copies never clobber without force and are byte for byte exact'
SEEDS = (400, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
LISTS = ('ops', 'fs')
FAULTS = ('errno', 'errno', 'short', 'short', 'eintr', 'crash_before', 'crash_after', 'torn', 'kbd')
ASSUMPTIONS = ['forced AugmentedPath copies of a file onto itself while stat fails are not judged '
               '(shutil takes the failure for "not the same file")', 'nobody else changes source or target while the copy runs']


def gen(rng, tier):
    fs = gen_tree(rng, ROOT, rng.randint(4, 14), depth=2,
                  sizes=(0, 1, 5, 300, 4095, 4096, 4097, 20000, 70000))
    have = [e[1] for e in fs[1:]]
    dirs = [e[1] for e in fs if e[0] == 'd']
    if rng.random() < 0.15:
        for e in fs:
            if e[0] == 'd' and len(e) == 2 and rng.random() < 0.2:
                e.append(0o555)
    ops = []
    for _ in range(rng.randint(1, 4)):
        src = rng.choice(have)
        r = rng.random()
        dst = rng.choice(have) if r < 0.45 else \
            rng.choice(dirs) + '/' + rng.choice(('new', 'n2', 'ünew', 'x' * 255)) if r < 0.9 else src
        if rng.random() < 0.08:
            src = missing(src)
        ops.append({'src': src, 'dst': dst, 'how': rng.choice(('to', 'to', 'from', 'outto', 'infrom')),
                    'force': rng.random() < 0.35,
                    'cls': rng.choice(('AugmentedPath', 'LocalPath', 'LocalPath')),
                    'tcls': rng.choice(('AugmentedPath', 'LocalPath', 'LocalPath')),
                    'rel': rng.random() < 0.3,
                    'nospace': rng.choice((None,) * 8 + (0, 100, 5000))})
    return {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    k.cur.cwd = k.h_get(ROOT)
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead:
            R.restart(reimport_=False, cwd=ROOT)
        one(R, i, op)


def one(R, i, op):
    k, aug = R.k, R.aug
    cls, tcls = getattr(aug, op['cls']), getattr(aug, op['tcls'])
    spell = (lambda p: os.path.relpath(p, ROOT)) if op['rel'] else (lambda p: p)
    src, how = op['src'], op['how']
    dstdir = op['dst']
    if how in ('outto', 'infrom'):
        n = k.h_get(dstdir, follow=True)
        if n is None or n.kind != 'd':
            dstdir = os.path.dirname(dstdir)
        dst = dstdir + '/' + os.path.basename(src)
    else:
        dst = dstdir
    sn, dn = k.h_get(src, follow=True), k.h_get(dst)
    dt = k.h_get(dst, follow=True)
    if op['force'] and dt is not None and dt.kind == 'd' and op['cls'] == 'AugmentedPath':
        return      # copies into the directory, like cp
    content = bytes(sn.data) if sn is not None and sn.kind == 'f' else None
    before = k.snap('/')
    sdata = content
    kw = {'force': True} if op['force'] else {}
    S, D = cls(spell(src)), tcls(spell(dst))
    if how == 'to':
        fn, args = S.copy_to, (D,)
    elif how == 'from':
        fn, args = D.copy_from, (S,)
    elif how == 'outto':
        fn, args = S.copy_outto, (tcls(spell(dstdir)),)
    else:
        fn, args = tcls(spell(dstdir)).copy_infrom, (S,)
    k.nospace = op['nospace']
    out = R.op(i, fn, *args, **kw)
    k.nospace = None
    now = k.snap('/')
    hit = R.hit
    what = f'{op["cls"]} {src!r} copy_{how} {dst!r} force={op["force"]}: {out!r}'
    try:
        up, name, _ = k.h_walk(dst)
        rd = (k.pathof(up).rstrip('/') + '/' + name).lstrip('/')
    except OSError:
        rd = dst.lstrip('/')
    # which object may change: the target, or the file it is a link to
    tnode = k.h_get(dst, follow=True)
    allowed = {rd}
    if op['force'] and dt is not None:
        allowed |= {p for p, v in before.items() if v[1] == dt.ino}
    elif op['force'] and dn is not None and dn.kind == 'l' and tnode is not None:
        allowed |= {p for p, v in now.items() if v[1] == tnode.ino}
    b = {p: v for p, v in before.items() if p not in allowed}
    n = {p: v for p, v in now.items() if p not in allowed}
    R.check(b == n, 'side_effect', lambda: what + ' changed ' + diff(b, n))
    # shutil takes a failing stat for "not the same file"
    excused = op['cls'] == 'AugmentedPath' and dt is sn and 'errno' in hit
    if sn is not None and sdata is not None and not excused:
        R.check(bytes(sn.data) == sdata, 'source_changed',
                lambda: what + f' source is now {len(sn.data)} bytes, was {len(sdata)}')
    exists = dn is not None
    if exists and not op['force']:
        R.check(now == before, 'clobbered', lambda: what + diff(before, now))
        R.check(not out.ok, 'success_on_existing', what)
        if out.kind == 'err' and not hit:
            R.check(isinstance(out.exc, (aug.exceptions.PathExistsError, OSError)),
                    'wrong_error', what)
            if content is not None:
                R.check(isinstance(out.exc, aug.exceptions.PathExistsError), 'wrong_error', what)
        R.probe('no_clobber')
        return
    if content is None:
        R.check(not out.ok, 'copied_nothing', what + ': the source is not a file')
        # a source that cannot be opened leaves the target alone
        R.check(now == before, 'target_destroyed', lambda: what + diff(before, now))
        return
    if out.ok:
        R.check(tnode is not None and tnode.kind == 'f', 'no_target', what)
        R.check(bytes(tnode.data) == content or excused, 'content',
                lambda: what + f': {len(tnode.data)} bytes at the target, {len(content)} in the source')
        R.check(tnode is not sn or excused, 'same_file', what)
        R.probe('copied')
        if how in ('outto', 'infrom'):
            R.check(os.path.join(ROOT, os.fspath(out.value)) == os.path.join(ROOT, spell(dst)),
                    'returned', what)
    elif out.kind == 'err':
        R.check(isinstance(out.exc, (OSError, aug.exceptions.PathExistsError)), 'wrong_error', what)
        if not hit:
            blocked = not k._may(k.cur, sn, 4) or dt is sn or \
                any(e[0] == 'd' and len(e) > 2 for e in R.plan['fs']) or \
                (dt is not None and dt.kind == 'd')
            if dn is not None and dn.kind == 'l' and dt is None:
                blocked = True       # where a dangling link points may not be writable
            R.check(blocked, 'failed', what + ' without a cause')
    R.probe('nontrivial')

"""The identity of the machine."""
import sys

from .. import sched
from ..lib import kernel_params
from ..run import reimport

ID = 'P23'
TITLE = 'the identity of the machine is the same in every process, from the first on'
SEEDS = (130, 8000)
VARIANTS = (10, 16)
LISTS = ('phases',)
FAULTS = ('crash_before', 'crash_after', 'torn', 'errno', 'kbd', 'short', 'eintr')
ETC, ALT = '/etc/machine-id', '/var/tmp/machine-id'
ASSUMPTIONS = ['the files that identify the machine are not changed by others',
               'an access(2) that fails for other reasons than permission is not judged']
STUBS = ['kernel file system, clock, random source (simulated)',
         'thread scheduler (a baton handed on at seeded system calls and lines)']


def gen(rng, tier):
    etc = rng.choice(('ok', 'none', 'none', 'none', 'empty', 'secret'))
    alt = rng.choice(('none', 'none', 'none', 'ok', 'empty', 'secret') if etc != 'ok' else ('none', 'ok', 'empty'))
    phases = [rng.choice((0, 0, 1, 2, 2, 3)) for _ in range(rng.randint(1, 4))]
    if alt == 'empty':          # two at once may both replace it
        phases = [min(n, 1) for n in phases]
    return {'kernel': kernel_params(rng), 'etc': etc, 'alt': alt, 'phases': phases}


def place(rng, plan, steplog, n):
    from ..runner import place_default
    me = sys.modules[__name__]
    if rng.random() < 0.3 or not any(s[0].startswith('a') for s in steplog):
        return place_default(me, rng, plan, steplog, n)
    return sched.place(me, rng, plan, steplog, n, 0.3)


def run(plan, R):
    k = R.k
    k.h_rm(ETC)
    for p, how in ((ETC, plan['etc']), (ALT, plan['alt'])):
        if how != 'none':
            k.h_put(p, b'' if how == 'empty' else b'%02x' % len(p) * 16 + b'\n', mode=0 if how == 'secret' else 0o644,
                    uid=0 if how == 'secret' else 1000)
    # without a readable identity there is none (somebody else's file is in the way)
    never = plan['etc'] in ('none', 'empty', 'secret') and plan['alt'] == 'secret'
    idents = {}
    k.h_put('/tmp/nothing')
    with R.calm():
        nothing = R.aug.LocalPath('/tmp/nothing').checksum()
    seen = []
    for i, n in enumerate(plan['phases'] + [0, 2, 0]):
        if n is None or (n > 1 and plan['alt'] == 'empty' and not seen):
            continue
        if n == 0:
            R.proc = k.cur = type(R.proc)(k, f'p{i}', uid=1000, gid=1000, cwd='/home/user')
            k.active.clear()
            out = R.op(i, reimport)
            hit = R.hit
            if not out.ok:
                for m in [m for m in sys.modules if m == 'augpathlib' or m.startswith('augpathlib.')]:
                    del sys.modules[m]
            else:
                R.aug = out.value
                out.value = R.aug.LocalPath.sysid
            outs = [('import', out)]
            R.probe('imports')
        else:
            fn = getattr(R.aug.utils, 'sysidpath', None)
            if fn is None:
                continue
            outs = []
            s = sched.Sched(R)
            fired = dict(k.fired)
            for a in range(n):
                def body(a=a):
                    o = R.op(i, lambda: R.aug.LocalPath(fn(path_class=R.aug.LocalPath)).checksum())
                    outs.append((f'process {a}', o))
                s.thread(f'a{a}_{i}', body)
            s.run()
            hit = {x for x in k.fired if k.fired[x] != fired.get(x, 0)} - {'switch'}
            if n > 1 and 'switch' in k.fired:
                R.probe('nontrivial')
        for who, out in outs:
            what = f'phase {i}, {who}: {out!r}; so far {seen}'
            if out.ok and 'errno' not in hit:
                v = ('sysid' if who == 'import' else 'file'), out.value
                R.check(idents.setdefault(v[0], v[1]) == v[1], 'changed', what)
                seen.append(v)
                # (which every machine without an identity would have)
                R.check(v != ('file', nothing), 'of_nothing', what)
                if never:
                    R.check(False, 'made_up', what)
                R.probe('known')
            elif out.kind == 'err' and not hit:
                R.check(never, 'failed', what)

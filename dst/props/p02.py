"""swap_carefree: the fallback never loses an object."""
import os

from ..lib import HOME, build, diff, short
from . import p01

ID = 'P02'
TITLE = 'swap_carefree never loses either object and undoes a failed attempt'
SEEDS = (420, 20000)
VARIANTS = (9, 16)
ROOT = p01.ROOT
LISTS = ('ops', 'fs')
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'kbd')
ASSUMPTIONS = p01.ASSUMPTIONS


def gen(rng, tier):
    plan = p01.gen(rng, tier)
    # file systems without RENAME_EXCHANGE are what the fallback is for
    plan['noexchange'] = rng.random() < 0.8
    return plan


def place(rng, plan, steplog, n):
    from ..runner import errnos_for
    import copy
    out = []
    if not steplog:
        return out
    muts = [s for s in steplog if s[3] in ('mkdir', 'rename', 'rmdir', 'exchange')] or steplog
    for _ in range(n):
        q = copy.deepcopy(plan)
        q['faults'] = []
        for _ in range(1 if rng.random() < 0.8 else 2):
            p, o, st, call = rng.choice(muts if rng.random() < 0.85 else steplog)
            kind = rng.choice(FAULTS)
            f = {'proc': p, 'op': o, 'step': st, 'call': call}
            if kind == 'errno':
                kind = rng.choice(errnos_for(call))
                if rng.random() < 0.25:
                    f['span'] = rng.choice((1, 2, 5))
            f['kind'] = kind
            q['faults'].append(f)
        out.append(q)
    return out


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    if plan.get('noexchange'):
        k.no_exchange_devs |= {1, 7}
    p01.loop(plan, R, one)


def inventory(k):
    """every object by inode number: what it is, and how many names it has"""
    out, names = {}, {}

    def rec(n):
        names[n.ino] = names.get(n.ino, 0) + 1
        if n.ino in out:
            return
        out[n.ino] = (n.kind, bytes(n.data) if n.kind == 'f' else n.target,
                      tuple(sorted(n.xattrs.items())))
        if n.kind == 'd':
            for c in n.entries.values():
                rec(c)
    rec(k.root)
    return {i: v + (names[i],) for i, v in out.items()}


def one(R, i, cls, sa, sb, cwd):
    k = R.k
    ra, rb = p01.resolve(k, sa, cwd), p01.resolve(k, sb, cwd)
    before, inv = k.snap('/'), inventory(k)
    fired = dict(k.fired)
    nfired = sum(1 for f in R.faults if 'op' in f)
    both = ra is not None and rb is not None and ra[2] is not None and rb[2] is not None \
        and ra[1] not in ('', '.', '..') and rb[1] not in ('', '.', '..')
    if both:
        (da, na, A), (db, nb, B) = ra, rb
        refusable = p01.nested(k, A, B) or p01.may_refuse(k, sa, sb, cwd, da, db, A, B)
    else:
        refusable = True
    a, b = cls(sa), cls(sb)
    out = R.op(i, a.swap_carefree, b)
    now, inv2 = k.snap('/'), inventory(k)
    hit = {x: v - fired.get(x, 0) for x, v in k.fired.items() if v != fired.get(x, 0)}
    count = hit.get('errno', 0) + hit.get('kbd', 0)
    # nothing is ever lost, duplicated or changed
    gone = [x for x in inv if inv2.get(x) != inv[x]]
    R.check(not gone, 'lost', lambda: f'{sa!r} swap_carefree {sb!r} {out!r}: object '
            f'{gone[0]} {short(inv[gone[0]], 80)} became {short(inv2.get(gone[0]), 80)}')
    fresh = [x for x in inv2 if x not in inv]
    R.check(len(fresh) <= 1 and all(inv2[x][0] == 'd' for x in fresh), 'litter',
            lambda: f'new objects {[inv2[x] for x in fresh]}')
    x = y = None
    if both:
        x, y = da.entries.get(na), db.entries.get(nb)
    swapped = both and x is B and y is A
    same = not both or (x is A and y is B)

    def strip(snap):
        # without the temporary directory
        tmp = [p for p, v in snap.items() if v[0] == 'd' and v[1] in fresh]
        return {p: v for p, v in snap.items()
                if not any(p == t or p.startswith(t + '/') for t in tmp)}
    if out.ok:
        R.check(both, 'success_without_object', f'{sa!r} swap_carefree {sb!r} succeeded, '
                'but a name is missing')
        R.check(swapped, 'not_swapped', f'{sa!r} swap_carefree {sb!r} returned, but the '
                'objects are not exchanged')
        R.check(not fresh, 'litter', 'success left a temporary directory')
        R.probe('swapped')
        if plan_fallback(R):
            R.probe('fallback')
    elif count + refusable <= 1 and out.kind != 'crash':
        if out.kind == 'err' and not hit:
            R.check(refusable, 'refused',
                    f'{sa!r} swap_carefree {sb!r} failed without a cause: {out!r}')
        # at most one thing went wrong: it has been undone, or it had been finished
        R.check(same or swapped, 'stranded', lambda: f'{sa!r} swap_carefree {sb!r} {out!r}: '
                'an object is no longer under either name')
        if not swapped:
            R.check(strip(now) == before, 'side_effect', lambda: diff(before, strip(now)))
        if any(f.get('call') == 'rename' for f in R.faults if f.get('op') == i) and hit:
            R.probe('rename_failed')
    if swapped and both:
        da.entries[na], db.entries[nb] = A, B
        undo = strip(k.snap('/'))
        da.entries[na], db.entries[nb] = B, A
        R.check(undo == before, 'side_effect', lambda: diff(before, undo))
    known = [x[2].ino for x in (ra, rb) if x is not None and x[2] is not None]
    for t in fresh:
        path = [p for p, v in now.items() if v[1] == t][0]
        kids = [v[1] for p, v in now.items() if os.path.dirname(p) == path and p]
        R.check(all(c in known for c in kids), 'litter',
                f'the temporary directory holds {kids}')
        # (no such parent, or a name that is too long: nothing can be said)
        R.check(not rb or os.path.dirname('/' + path) == k.pathof(rb[0]), 'litter',
                'the temporary directory is not beside the target')
    R.probe('nontrivial')


def plan_fallback(R):
    return bool(R.k.no_exchange_devs)

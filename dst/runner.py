"""Seeded search: seeds -> plans -> simulated executions -> verdict.

  python -m dst.runner check P01 [--tier quick|thorough]
  python -m dst.runner replay FILE
  python -m dst.runner digest P01 FIRST N     (determinism probe)
"""
import argparse
import collections
import copy
import gc
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
CPU_LIMIT = 30.0          # CPU seconds of one execution before it counts as a livelock


def load(pid):
    return importlib.import_module(f'dst.props.{pid.lower()}')


def prepare(pid):
    """Third-party modules first (they may probe the real system), then the
    code under test inside the simulator."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for m in ('xattr', 'magic', 'git', 'pexpect', 'pexpect.pxssh', 'requests', 'dateutil',
              'dateutil.parser', 'zipfile', 'shutil', 'tempfile', 'mimetypes', 'uuid',
              'subprocess', 'threading', 'terminaltables', 'terminaltables3', 'sqlite3',
              'linecache', 'traceback', 'urllib.parse', 'urllib.request', 'platform',
              'setuptools', 'base64', 'bz2', 'lzma', 'encodings.idna', 'encodings.cp437',
              'concurrent.futures', 'glob', 'fnmatch', 'inspect', 'asyncio'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    from . import run
    prop = load(pid)
    if getattr(prop, 'REAL', False):      # runs outside the simulated kernel
        prop.prepare()
    else:
        run.boot()
    return prop


# -- executing one plan in a process of its own -----------------------------------

def _child(prop, plan, w, opts):
    from . import run
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    devnull = os.open('/dev/null', os.O_RDWR)
    os.dup2(devnull, 0)
    if not opts.get('noisy'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    ex = getattr(prop, 'execute', None)
    if ex is not None:
        res = ex(plan, **{k: v for k, v in opts.items() if k != 'noisy'})
    else:
        res = run.execute(prop, plan, record=opts.get('record', False),
                          verbose=opts.get('verbose', False))
    b = pickle.dumps(res)
    b = struct.pack('<Q', len(b)) + b
    from . import seam
    write = seam.REAL.get('write', os.write)
    off = 0
    while off < len(b):
        off += write(w, b[off:off + 65536])


def run_forked(prop, plan, **opts):
    from . import seam
    fork = seam.REAL.get('fork', os.fork)
    r, w = os.pipe()
    pid = fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            _child(prop, plan, w, opts)
            code = 0
        except BaseException:
            import traceback
            try:
                os.write(w, struct.pack('<Q', 0) + traceback.format_exc().encode()[-4000:])
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 8:
        n = struct.unpack('<Q', bytes(buf[:8]))[0]
        if n and len(buf) == n + 8:
            return pickle.loads(bytes(buf[8:]))
        return {'status': 'error', 'msg': 'child: ' + bytes(buf[8:]).decode('utf-8', 'replace')}
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF:
        return {'status': 'violation', 'code': 'livelock', 'key': 'livelock', 'digest': 'livelock',
                'msg': f'one execution used more than {CPU_LIMIT} s of CPU time',
                'steps': 0, 'simtime': 0, 'fired': {}, 'counts': {}, 'probes': {}}
    return {'status': 'error', 'msg': f'child died, wait status {st}'}


# -- fault placement -----------------------------------------------------------------

READ_CALLS = ('read',)
WRITE_CALLS = ('write', 'sendfile')


def place_default(prop, rng, plan, steplog, n):
    """n fault variants of a plan, from the step log of its fault-free run."""
    from . import simfs
    kinds = plan.get('fault_kinds') or getattr(prop, 'FAULTS', ())
    if not kinds or not steplog:
        return []
    ops = getattr(prop, 'FAULT_OPS', None)
    cand = [s for s in steplog if s[3] != 'line' and (ops is None or ops(plan, s[1]))]
    if not cand:
        return []
    muts = [s for s in cand if s[3] in simfs.MUTATING]
    out = []
    for _ in range(n):
        faults = []
        for _ in range(1 if rng.random() < 0.75 else 2):
            pool = muts if muts and rng.random() < 0.5 else cand
            p, o, st, call = rng.choice(pool)
            k = rng.choice(kinds)
            f = {'proc': p, 'op': o, 'step': st, 'call': call}
            if k == 'errno':
                k = rng.choice(errnos_for(call))
                if rng.random() < 0.25:
                    f['span'] = rng.choice((1, 2, 5, 1000))
            if k in ('short', 'torn', 'flip', 'eintr'):
                io = [s for s in cand if s[3] in READ_CALLS + WRITE_CALLS]
                if k == 'flip':
                    io = [s for s in cand if s[3] == 'net_data'] or io
                if io:
                    f['proc'], f['op'], f['step'], f['call'] = rng.choice(io)
                f['n'] = rng.choice((1, 1, 2, 7, 100))
            if k == 'cut':
                io = [s for s in cand if s[3] in ('net_data', 'ssh_data')]
                if io:
                    f['proc'], f['op'], f['step'], f['call'] = rng.choice(io)
            if k in ('late', 'eof'):
                io = [s for s in cand if s[3] == 'ssh_prompt']
                if io:
                    f['proc'], f['op'], f['step'], f['call'] = rng.choice(io)
                f['n'] = rng.choice((0, 0, 30, 60, 90, 100))
            f['kind'] = k
            faults.append(f)
        q = copy.deepcopy(plan)
        q['faults'] = (q.get('faults') or []) + faults
        out.append(q)
    return out


def errnos_for(call):
    if call in ('rename', 'exchange'):
        return ('EACCES', 'EIO', 'ENOSPC', 'EXDEV', 'EROFS', 'EBUSY', 'EPERM')
    if call in ('open', 'open_creat', 'open_trunc'):
        return ('EACCES', 'EIO', 'EMFILE', 'ENFILE') + (('ENOSPC', 'EROFS', 'EDQUOT') if call != 'open' else ())
    if call in ('write', 'sendfile'):
        return ('EIO', 'ENOSPC', 'EDQUOT', 'EFBIG')
    if call in ('read', 'getdents'):
        return ('EIO',)
    if call in ('stat', 'lstat', 'access', 'readlink', 'fstat'):
        return ('EIO', 'EACCES')
    if call in ('mkdir', 'symlink', 'link'):
        return ('EACCES', 'ENOSPC', 'EROFS', 'EIO')
    if call in ('unlink', 'rmdir'):
        return ('EACCES', 'EPERM', 'EBUSY', 'EROFS', 'EIO')
    if call in ('setxattr', 'removexattr'):
        return ('EACCES', 'ENOSPC', 'EDQUOT', 'EIO', 'EPERM', 'ENOTSUP')
    if call in ('getxattr', 'listxattr'):
        return ('EACCES', 'EIO', 'ENOTSUP')
    if call.startswith(('net', 'ssh')):
        return ('ECONNRESET', 'ETIMEDOUT', 'EHOSTUNREACH')
    return ('EIO', 'EACCES')


# -- worker -----------------------------------------------------------------------------

def make_plans(prop, base, i, tier):
    rng = random.Random(f'{prop.ID}:{base}:{i}')
    plan = prop.gen(rng, tier)
    plan['seed'] = [base, i]
    plan['prop'] = prop.ID
    return rng, plan


def explore_seed(prop, base, i, tier, emit):
    """All executions of one seed."""
    rng, plan = make_plans(prop, base, i, tier)
    dry = run_forked(prop, plan, record=True)
    sl = dry.pop('steplog', None) or []
    emit(plan, dry)
    if dry['status'] != 'ok':
        return
    n = prop.VARIANTS[0 if tier == 'quick' else 1] if hasattr(prop, 'VARIANTS') else 4
    place = getattr(prop, 'place', None)
    if place is not None:
        variants = place(rng, plan, sl, n)
    else:
        variants = place_default(prop, rng, plan, sl, n)
    for q in variants:
        q['seed'] = [base, i]
        q['prop'] = prop.ID
        emit(q, run_forked(prop, q))


def worker(prop, base, ids, tier, wfd, deadline, known):
    from .run import plan_hash
    agg = new_agg()
    bad = []
    t_end = deadline
    done = 0
    for i in ids:
        if time.monotonic() > t_end:
            break
        stop = []

        def emit(plan, res):
            agg['runs'] += 1
            agg['steps'] += res.get('steps', 0)
            agg['simtime'] += res.get('simtime', 0)
            for k, v in res.get('fired', {}).items():
                agg['fired'][k] += v
            for k, v in res.get('counts', {}).items():
                agg['counts'][k] += v
            for k, v in res.get('probes', {}).items():
                agg['probes'][k] += v
            d = res.get('digest')
            if d is not None:
                if d not in agg['digests']:
                    agg['digests'].add(d)
                    if res.get('fired') or res.get('probes', {}).get('nontrivial'):
                        agg['nontrivial'].add(d)
            if res.get('fired'):
                agg['faulted'] += 1
            if res['status'] != 'ok':
                bad.append((i, len(bad), plan, res))
                if res['status'] == 'error' or not is_known(known, prop.ID, res):
                    stop.append(1)
            if len(agg['samples']) < 2 and (res.get('fired') or agg['runs'] > 20):
                agg['samples'].append({'plan': plan, 'outcome': res['status'],
                                       'digest': d, 'steps': res.get('steps')})
        explore_seed(prop, base, i, tier, emit)
        done += 1
        if stop:
            break
    agg['seeds'] = done
    b = pickle.dumps((agg, bad))
    off = 0
    while off < len(b):
        off += os.write(wfd, b[off:off + 65536])


def new_agg():
    return {'runs': 0, 'steps': 0, 'simtime': 0, 'fired': collections.Counter(),
            'counts': collections.Counter(), 'probes': collections.Counter(),
            'digests': set(), 'nontrivial': set(), 'faulted': 0, 'samples': [], 'seeds': 0}


def merge(a, b):
    for k in ('runs', 'steps', 'simtime', 'faulted', 'seeds'):
        a[k] += b[k]
    for k in ('fired', 'counts', 'probes'):
        a[k].update(b[k])
    a['digests'] |= b['digests']
    a['nontrivial'] |= b['nontrivial']
    a['samples'] = (a['samples'] + b['samples'])[:4]


def parallel(prop, base, first, count, tier, deadline, known, nworkers=None):
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    gc.collect()
    gc.freeze()
    from . import seam
    fork = seam.REAL.get('fork', os.fork)
    kids = []
    for w in range(nworkers):
        r, wr = os.pipe()
        pid = fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for _, rr in kids:
                    os.close(rr)
                worker(prop, base, range(first + w, first + count, nworkers), tier, wr,
                       deadline, known)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    agg = new_agg()
    bad = []
    failed = False
    bufs = {r: bytearray() for _, r in kids}
    live = set(bufs)
    while live:
        ready, _, _ = select.select(list(live), [], [])
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r] += d
            else:
                live.discard(r)
    for pid, r in kids:
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            failed = True
            continue
        a, b = pickle.loads(bytes(bufs[r]))
        merge(agg, a)
        bad += b
    bad.sort(key=lambda t: (t[0], t[1]))
    return agg, bad, failed


# -- known findings -------------------------------------------------------------------

def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def is_known(known, pid, res):
    return any(f['property'] == pid and f['key'] == res.get('key')
               for f in known.get('findings', ()))


# -- minimisation ------------------------------------------------------------------------

def same(res, code):
    return res['status'] == 'violation' and res['code'] == code


def candidates(prop, plan):
    """Smaller plans, most aggressive first."""
    fs = plan.get('faults') or []
    for i in range(len(fs)):
        q = copy.deepcopy(plan)
        del q['faults'][i]
        yield q
    for i, f in enumerate(fs):
        if f.get('span', 1) > 1:
            q = copy.deepcopy(plan)
            q['faults'][i].pop('span')
            yield q
    sh = getattr(prop, 'shrink', None)
    if sh is not None:
        yield from sh(plan)
    for key in getattr(prop, 'LISTS', ('ops', 'fs')):
        lst = plan.get(key) or []
        n = len(lst)
        size = n
        while size >= 1:
            for at in range(0, n, size):
                if key == 'ops':
                    # keep operation numbers: a dropped op becomes a no-op
                    if all(x is None for x in lst[at:at + size]):
                        continue
                    q = copy.deepcopy(plan)
                    for j in range(at, min(n, at + size)):
                        q[key][j] = None
                else:
                    q = copy.deepcopy(plan)
                    del q[key][at:at + size]
                yield q
            size //= 2
    if plan.get('sched'):
        s = plan['sched']
        for i in range(len(s)):
            q = copy.deepcopy(plan)
            del q['sched'][i]
            yield q


def minimise(prop, plan, res, budget_s=20.0, max_execs=400):
    code = res['code']
    end = time.monotonic() + budget_s
    execs = 0
    changed = True
    while changed and time.monotonic() < end and execs < max_execs:
        changed = False
        for q in candidates(prop, plan):
            if time.monotonic() > end or execs >= max_execs:
                break
            execs += 1
            r = run_forked(prop, q)
            if same(r, code):
                plan, res = q, r
                changed = True
                break
    return plan, res, execs


# -- commands -------------------------------------------------------------------------------

def cmd_check(pid, tier, seeds=None, nworkers=None):
    t0 = time.monotonic()
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    prop = prepare(pid)
    n = seeds or prop.SEEDS[0 if tier == 'quick' else 1]
    limit = 700 if tier == 'quick' else 3 * 3600
    known = load_known()
    print(f'{pid} {prop.TITLE}: VERIF_SEED={base} tier={tier} seeds={n}', flush=True)

    # corpus: plans that once failed, plus the listed findings
    agg0 = new_agg()
    bad0 = []
    for path in corpus_files(pid):
        with open(path) as f:
            plan = json.load(f)['plan']
        res = run_forked(prop, plan)
        agg0['runs'] += 1
        if res['status'] != 'ok':
            bad0.append((-1, len(bad0), plan, res))
    agg, bad, failed = parallel(prop, base, 0, n, tier, t0 + limit, known, nworkers)
    agg['runs'] += agg0['runs']
    bad = bad0 + bad
    shown = set()
    listed = {f['key']: f for f in known.get('findings', ()) if f['property'] == pid}
    news = []
    errors = []
    for b in bad:
        res = b[3]
        if res['status'] == 'error':
            errors.append(b)
        elif is_known(known, pid, res):
            if res['key'] not in shown:
                shown.add(res['key'])
                print(f'KNOWN-FINDING: property={pid} {listed[res["key"]]["what"]}')
        else:
            news.append(b)
    complete = agg['seeds'] == n and not failed
    det = None
    fast = bool(os.environ.get('DST_FAST'))       # tools/mutate.py: only the verdict
    if not news and not errors and complete and not fast:
        det = determinism_probe(pid, base, tier, min(n, 12))
    wall = time.monotonic() - t0
    write_evidence(prop, pid, tier, base, agg, wall, len(news), det, n)
    if news:
        _, _, plan, res = news[0]
        small, sres, execs = (plan, res, 0) if fast else minimise(prop, plan, res)
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}-{base}-{plan["seed"][1]}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'code': sres['code'], 'msg': sres['msg'],
                       'digest': sres['digest'], 'history': sres.get('history'),
                       'minimised_in': execs, 'original': plan, 'plan': small}, f, indent=1)
        print(f'{sres["code"]}: {sres["msg"]}')
        for h in sres.get('history') or ():
            print('   ', *h)
        print(f'seed={plan["seed"]} faults={json.dumps(small.get("faults"))}')
        print(f'VIOLATION property={pid} replay={path}', flush=True)
        return 1
    if errors:
        print('HARNESS ERROR', errors[0][3]['msg'], json.dumps(errors[0][2])[:2000])
        return 3
    if not complete:
        print(f'INCOMPLETE: {agg["seeds"]} of {n} seeds, failed={failed}')
        return 4
    print(f'ok: {agg["runs"]} executions, {len(agg["digests"])} distinct, '
          f'{agg["faulted"]} with faults, {wall:.1f} s')
    return 0


def corpus_files(pid):
    d = os.path.join(HERE, 'corpus', pid)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.json')]


def determinism_probe(pid, base, tier, n):
    """The same seeds in a fresh interpreter under another hash seed."""
    import subprocess
    out = []
    for hs in ('0', '4242'):
        env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_SEED=str(base))
        p = subprocess.run([sys.executable, '-m', 'dst.runner', 'digest', pid, '0', str(n),
                            '--tier', tier], cwd=HERE, env=env, capture_output=True, timeout=300)
        out.append([l for l in p.stdout.decode().splitlines() if l.startswith('D ')])
    a, b = out
    diff = sum(1 for x, y in zip(a, b) if x != y) + abs(len(a) - len(b))
    return {'executions_compared': len(a), 'differing': diff,
            'method': 'fresh interpreters, PYTHONHASHSEED 0 and 4242, event-log digests'}


def cmd_digest(pid, first, n, tier):
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    prop = prepare(pid)
    for i in range(first, first + n):
        j = [0]

        def emit(plan, res):
            print('D', i, j[0], res['status'], res.get('digest'), flush=True)
            j[0] += 1
        explore_seed(prop, base, i, tier, emit)
    return 0


def cmd_replay(path):
    with open(path) as f:
        d = json.load(f)
    pid = d['property']
    prop = prepare(pid)
    res = run_forked(prop, d['plan'], verbose=True, noisy=bool(os.environ.get('DST_NOISY')))
    for l in res.get('log') or ():
        print(l)
    print(res['status'], res.get('code'), res.get('msg'))
    if res['status'] == 'error':
        return 3
    if res['status'] == 'violation':
        exact = 'exactly' if res['digest'] == d.get('digest') else 'with another event log'
        print(f'reproduced {exact}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


def write_evidence(prop, pid, tier, base, agg, wall, nviol, det, n):
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': 'One evaluation is one simulated execution: a seed generates the initial file '
                'system, the operations and the schedule, the execution is first run without '
                'faults and then again with faults placed inside its operations. Distinct: no '
                'other execution of this check had the same event log (hash of every simulated '
                'system call, argument, outcome, switch and fault). Non-trivial: at least one '
                'fault actually fired, or the scenario counted a concurrent switch, external '
                'change or restart.',
        'samples': agg['samples'][:3],
        'seeds': agg['seeds'], 'seeds_requested': n,
        'seeds_per_hour': int(agg['seeds'] / max(wall, 1e-9) * 3600),
        'executions_per_hour': int(agg['runs'] / max(wall, 1e-9) * 3600),
        'executions_with_faults': agg['faulted'],
        'distinct_event_logs': len(agg['digests']),
        'simulated_steps': agg['steps'],
        'simulated_seconds': round(agg['simtime'] / 1e9, 3),
        'faults_fired': {k: v for k, v in sorted(agg['fired'].items()) if k != 'errno'},
        'system_calls': dict(sorted(agg['counts'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'real_components': getattr(prop, 'REAL_COMPONENTS',
                                   ['augpathlib (all of it, from /repo)', 'CPython pathlib, shutil, '
                                    'io buffering, tempfile, hashlib']),
        'stub_components': getattr(prop, 'STUBS', ['kernel file system, clock, random source, pyxattr '
                                                   'and libc.syscall (simulated)']),
    }
    if det is not None:
        cov['determinism'] = det
    doc = {'property': pid, 'tier': tier, 'seed': base, 'level': 'exploration', 'coverage': cov,
           'assumptions': getattr(prop, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
           'violations': nviol}
    tmp = os.path.join(ev, f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(ev, f'{pid}.json'))


def main(argv=None):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('pid')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    c.add_argument('--seeds', type=int)
    c.add_argument('--workers', type=int)
    c = sub.add_parser('replay')
    c.add_argument('file')
    c = sub.add_parser('digest')
    c.add_argument('pid')
    c.add_argument('first', type=int)
    c.add_argument('n', type=int)
    c.add_argument('--tier', default='quick')
    a = ap.parse_args(argv)
    if os.environ.get('PYTHONHASHSEED') is None:
        env = dict(os.environ, PYTHONHASHSEED='0')
        os.execve(sys.executable, [sys.executable, '-m', 'dst.runner'] + sys.argv[1:], env)
    if a.cmd == 'check':
        return cmd_check(a.pid, a.tier, a.seeds, a.workers)
    if a.cmd == 'replay':
        return cmd_replay(a.file)
    return cmd_digest(a.pid, a.first, a.n, a.tier)


if __name__ == '__main__':
    sys.exit(main())
